#!/usr/bin/env python3
"""Confirm planted changes: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts with id, property, edits
[(file, old, new), ...], needs, breaks, demo (Rust source of a main that
panics or exits non-zero when the property is broken) and features.
Each change is made in a scratch copy of /repo; it is kept under
/verif/seeded only when it compiles, passes the stable tests, and the demo
tells it from the unchanged tree.
"""
import json, os, shutil, subprocess, sys
W = '/tmp/plant'
ENV = dict(os.environ, CARGO_TARGET_DIR=W + '/target', CARGO_NET_OFFLINE='true', PROPTEST_RNG_SEED='20240607',
           DEMO_TARGET=W + '/demo-target')
DEMO = '''#!/bin/bash
# Run from the root of the repository: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
vcard4 = {{ path = "$PWD"{features} }}
{deps}
EOF
export CARGO_TARGET_DIR="${{DEMO_TARGET:-$t/target}}"
cd "$t" && cargo build --offline --quiet || exit 2
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''

def sh(cmd, cwd, quiet=True):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + '/repo'):
        subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
        if os.path.exists('/repo/Cargo.lock'):
            shutil.copy('/repo/Cargo.lock', W + '/repo/')
    subprocess.check_call('git fetch -q origin && git reset -q --hard origin/HEAD', cwd=W + '/repo', shell=True)

def tests():
    logs = []
    for name, flag in (('default', []), ('all', ['--all-features'])):
        rc, out = sh(['cargo', 'test', '--workspace', *flag, '--no-fail-fast', '--offline', '--', '--test-threads', '8'], W + '/repo')
        if 'error: could not compile' in out or 'error[' in out:
            return 'does not compile:\n' + out[-3000:]
        if name == 'all':
            import re
            out = re.sub(r'(?m)^test (.* \.\.\. )', r'test all-features::\1', out)
        open(W + f'/{name}.log', 'w').write(out); logs.append(f'cargo:{W}/{name}.log')
    subprocess.run(['python3', '/opt/vp/results.py', W + '/res.json', *logs], check=True, capture_output=True)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = set(json.load(open(W + '/res.json'))['passed'])
    miss = [t for t in base if t not in got]
    return f'{len(miss)} stable tests fail: {miss[:6]}' if miss else ''

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        fresh()
        d = f"{W}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        feats = b.get('features', [])
        deps = 'serde_json = "1"' if 'serde' in feats else ''
        if 'mime' in feats: deps += '\nmime = "0.3"'
        f = ', features = [' + ', '.join(f'"{x}"' for x in feats) + ']' if feats else ''
        open(d + '/demo.sh', 'w').write(DEMO.format(features=f, deps=deps)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        bad = ''
        rc, out = sh(['bash', d + '/demo.sh'], W + '/repo')
        if rc != 0:
            bad = f'demo fails on the unchanged tree ({rc}): {out[-1500:]}'
        if not bad:
            for file, old, new in b['edits']:
                p = W + '/repo/src/' + file; s = open(p).read()
                if s.count(old) != 1:
                    bad = f'{file}: edit matches {s.count(old)} times: {old[:60]!r}'; break
                open(p, 'w').write(s.replace(old, new))
        if not bad:
            open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=W + '/repo', text=True))
            bad = tests()
        if not bad:
            rc, out = sh(['bash', d + '/demo.sh'], W + '/repo')
            if rc in (0, 2):
                bad = f'demo does not notice the change ({rc}): {out[-1500:]}'
        if bad:
            print(b['id'], 'NOT KEPT:', bad, flush=True)
        else:
            shutil.rmtree('/verif/seeded/' + b['id'], ignore_errors=True)
            shutil.copytree(d, '/verif/seeded/' + b['id'])
            print(b['id'], 'kept;', out.strip().splitlines()[-1][:150] if out.strip() else '', flush=True)
main()
