#!/usr/bin/env python3
"""Run the simulation for one property and write its evidence.

check.py ID [--tier quick|thorough]   decide a property
check.py replay FILE                  repeat a violation from its replay file
check.py setup                        build everything
check.py determinism                  compare repeated executions of all properties
"""
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = "x86_64-unknown-linux-gnu"
# The fine variants stop at every edge of the control flow of the library.
VARIANTS = {
    "default": [],
    "full": ["--features", "full"],
    "default-fine": [],
    "full-fine": ["--features", "full"],
    # Without the default features: nothing is wiped, so nothing is dropped by hand
    "lean": ["--no-default-features", "--features", "lean"],
    # The library as in a development build
    "default-plain": ["--features", "plain", "--config", "profile.release.package.vcard4.opt-level=0"],
}

# Simulated runs per variant in the quick tier, 30 to 50 seconds on 8 cores.
PLAN = {
    "C01": {"default": 14000, "full": 8000, "lean": 3000, "default-fine": 4000},
    "C02": {"default": 4000, "full": 3000},
    "C03": {"default": 7000, "full": 4000, "default-fine": 1500},
    "C04": {"default": 60000, "full": 35000},
    "C05": {"default": 100000, "full": 60000},
    "C06": {"default": 9000, "full": 6000},
    "C07": {"default-fine": 5000, "full-fine": 3500},
    "C08": {"default": 60000, "default-fine": 20000},
    "C09": {"default-fine": 3500, "full-fine": 2000, "default-plain": 3000},
    "C10": {"default": 30000, "full": 20000, "lean": 8000},
    "C11": {"default": 50000, "full": 30000},
    "C12": {"full": 70000, "lean": 40000},
    "C13": {"default": 50000, "full": 30000},
    "C14": {"default": 150000, "full": 100000},
    "C15": {"default": 40000, "full": 25000, "lean": 8000},
    "C16": {"default": 40000, "full": 25000},
    "C17": {"default": 30000, "full": 20000},
    "C18": {"default": 120000, "full": 80000, "lean": 25000},
    "C19": {"default": 60000, "full": 25000, "lean": 10000},
}

RULE = {
    "C01": "a run is a history of 1-5 process lives in which 1-3 clients append drawn cards to simulated files while writes are short, interrupted, failing, torn by power loss or the disk fills; after each restart the files are read back",
    "C02": "a run tears the text of a drawn card (after 0-2 complete ones, possibly refolded by a gateway) at every byte position, or at line ends and drawn positions for long texts, once through a simulated disk that fills up",
    "C03": "a run renders every displayable part of a drawn card into writers that fail at every call, at drawn bytes, once or for good, that reenter the library, and from 2-3 threads under a drawn schedule",
    "C04": "a run damages some cards of a stream of 2-6 drawn cards with drawn faults (torn appends, flips, junk, zeroed ranges, lost, duplicated and swapped ranges and lines) and iterates over it strictly and loosely",
    "C05": "a run damages, duplicates, swaps or tears drawn property lines of a drawn card and reads the card loosely",
    "C06": "a run reads and renders drawn cards, foreign text and values under four drawn clocks (steady, ticking, jumping, extreme) and compares with a steady clock; then asks for the current time under drawn clocks",
    "C07": "a run executes drawn histories of calls on 2-4 threads over shared cards and texts under a drawn schedule that preempts at allocations, writes, clock, entropy and lock operations, and compares each result with the same history alone in a fresh process with other entropy",
    "C08": "a run builds, reads, clones or edits drawn cards full of marked secrets and lets them die in one of eight ways, on one thread or on several under a drawn schedule, while the allocator searches each text block that is freed",
    "C09": "a run feeds drawn streams and values after drawn damage to every reader on a small stack, counts allocations and bytes, and now and then repeats a drawn unit thousands of times to see how work grows",
    "C10": "a run reads damaged, refolded and foreign streams with every reader and passes each card that comes out through 1-3 save and load hops",
    "C11": "a run passes drawn cards and foreign text through 1-3 gateways that refold, change line ends, add blank lines and change the case of names, and reads them with every reader",
    "C12": "a run writes a drawn card as JSON through faulting writers and reads it back through faulting readers, whole, after power loss and cut at every byte or at 200 drawn bytes",
    "C13": "a run reads damaged, refolded, foreign and hostile text with the four readers side by side",
    "C14": "a run puts one drawn rule-breaking line into a drawn card (or breaks its frame), embeds it in a drawn stream, lets gateways rewrite it and reads it with every reader",
    "C15": "a run lets 1-3 clients under a drawn schedule make drawn histories of builder calls beside a reference model, validates the cards and saves them to a faulty disk",
    "C16": "a run embeds drawn photos and decoys in a card, saves it to a faulty disk, passes it through gateways and another program and decodes the photos at each stage",
    "C17": "a run writes a drawn card (built, or read from another program) directly and through faulty files and reads the text with an independent strict reader",
    "C18": "a run lets another program write a drawn card with drawn free choices, or passes drawn cards along a chain of nodes over a network with drawn faults",
    "C19": "a run is a history of 1-4 process lives in which 1-3 clients store drawn values as text in simulated files with faults and read them back after each restart, and give drawn, bent and damaged texts to value parsers and, as values of a line, to the card readers",
}
TRIVIAL = "; it counts as non-trivial when at least one comparison was made and at least one fault or preemption happened, and as distinct by the hash of its event history"

REAL = [
    "all of vcard4 (lexer, parser, iterator, helpers, properties, parameters, rendering, builder, validation, zeroize, and serde in the full and lean variants; the lean variant leaves out the default features), compiled from /repo's working tree with overflow checks and debug assertions",
    "its dependencies (logos, time, uriparse, unicode-segmentation, base64, zeroize, serde_json in the full variant)",
    "std's threads, BufWriter, LineWriter, HashMap, Once and locks",
]
STUB = [
    "scheduler: one thread runs at a time, switches are drawn at allocations, writes, clock, entropy and futex calls, and in the fine variants also at any edge of the control flow of the library and at its accesses to writable statics",
    "clock, sleep, entropy and futex system calls (interposed symbols)",
    "global allocator (counts, yields, searches freed blocks, forwards to the system allocator)",
    "the network between nodes, and the other programs on it (an independent reader and writer of the format)",
    "disk, files, power failure, transports, gateways, text and byte writers and readers",
    "process death: a life of a process is a forked child that ends at the crash point",
]


def known():
    """The open entries of the list of findings: {probe: line}."""
    found = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.md")) as f:
        for line in f:
            if line.startswith("open: "):
                words = dict(w.split("=", 1) for w in line.split() if "=" in w)
                found[words["probe"]] = (words["property"], line.split(" -- ", 1)[1].strip())
    return found


def env(fine):
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["PATH"] = ":".join(["/root/.cargo/bin", os.path.join(home, ".cargo/bin"), e.get("PATH", "/usr/bin:/bin")])
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("VCSIM_KNOWN", None)
    if "long-run" in known():
        e["VCSIM_KNOWN"] = "long-run"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    if fine:
        e["RUSTC_WRAPPER"] = os.path.join(VERIF, "tools/rustc_wrapper.sh")
    return e


def fingerprint():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim/src")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "sim/Cargo.toml"), os.path.join(VERIF, "sim/Cargo.lock")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(variant):
    """Build the simulator from the working tree."""
    target = os.path.join(BUILD, variant)
    binary = os.path.join(target, TARGET, "release/vcsim")
    stamp = os.path.join(target, "stamp")
    want = fingerprint()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == want and os.path.exists(binary):
        return binary
    os.makedirs(target, exist_ok=True)
    # Do not trust the times of files: they may have been copied
    fp = os.path.join(target, TARGET, "release/.fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith(("vcard4-", "vcsim-")):
                for f in os.listdir(os.path.join(fp, n)):
                    os.unlink(os.path.join(fp, n, f))
                os.rmdir(os.path.join(fp, n))
    if os.path.exists(stamp):
        os.unlink(stamp)
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "sim/Cargo.toml"), "--target", TARGET, "--target-dir", target]
    r = subprocess.run(cmd + VARIANTS[variant], env=env(variant.endswith("-fine")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.exit(2)
    with open(stamp, "w") as f:
        f.write(want)
    return binary


def determinism(binary, prop, seed, runs=24):
    """Execute the same runs in two fresh processes."""
    out = []
    for _ in range(2):
        r = subprocess.run([binary, "hashes", "--prop", prop, "--seed", str(seed), "--runs", str(runs)], stdout=subprocess.PIPE, text=True, env=env(False))
        out.append(r.stdout.splitlines())
    same = sum(a == b for a, b in zip(*out))
    return {"runs_executed_twice": len(out[0]), "identical": same}


def decide(prop, tier, seed):
    start = time.time()
    plan = PLAN[prop]
    reports, bad = {}, 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    for variant, runs in plan.items():
        binary = build(variant)
        # The limit of time is far above what the runs of the quick tier take
        wall = 480 // len(plan)
        if tier == "thorough":
            runs, wall = runs * 60, 780 // len(plan)
        out = os.path.join(BUILD, f"report-{prop}-{variant}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--wall", str(wall),
               "--workers", str(os.cpu_count() or 8), "--replays", replays, "--out", out, "--shrink", "45"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env(False))
        if r.returncode not in (0, 1):
            sys.stdout.write(r.stdout)
            return 2
        with open(out) as f:
            reports[variant] = json.load(f)
        if r.returncode == 1:
            sys.stdout.write(r.stdout)
            bad += 1
            path = [l.split("replay=", 1)[1] for l in r.stdout.splitlines() if l.startswith("VIOLATION ")][-1]
            again = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, text=True, env=env(False))
            print("replayed in a fresh process:", [l for l in again.stdout.splitlines() if l.startswith("reproduced")] or "not reproduced")
            break
        reports[variant]["determinism"] = determinism(binary, prop, seed)
        if variant == "default-plain" and "long-run" in known():
            p, what = known()["long-run"]
            if subprocess.run([binary, "probe"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                print(f"KNOWN-FINDING: property={p} {what}")
    write_evidence(prop, tier, seed, reports, bad, time.time() - start)
    for v, r in reports.items():
        print(f"{prop} {v}: {r['runs']} simulated runs in {r['wall_s']:.1f} s, {r['distinct_nontrivial']} distinct and non-trivial, "
              f"{sum(r['faults'].values())} faults, {r['preemptions']} preemptions, {r['checks']} comparisons")
    return 1 if bad else 0


def write_evidence(prop, tier, seed, reports, bad, wall):
    rs = list(reports.values())
    total = lambda k: sum(r[k] for r in rs)
    faults, with_fault, work = {}, {}, {}
    for r in rs:
        for to, k in ((faults, "faults"), (with_fault, "runs_with_fault")):
            for n, c in r[k].items():
                to[n] = to.get(n, 0) + c
        for n, c in r["work"].items():
            work[n] = max(work.get(n, 0), c) if n.startswith("most ") else work.get(n, 0) + c
    spent = max(total("wall_s"), 0.001)
    samples = [dict(s, variant=v) for v, r in reports.items() for s in r["samples"][:2]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total("runs"),
            "distinct_nontrivial": total("distinct_nontrivial"),
            "rule": RULE[prop] + TRIVIAL,
            "samples": samples or [{"violation": True, "see": "replay file"}],
            "comparisons": total("checks"),
            "runs_per_hour": round(total("runs") / spent * 3600),
            "seeds_per_hour": round(total("runs") / spent * 3600),
            "simulated_seconds": round(total("simulated_ms") / 1000, 3),
            "faults_injected": faults,
            "runs_with_fault": with_fault,
            "distinct_schedules": total("distinct_schedules"),
            "preemptions": total("preemptions"),
            "yield_points": total("yield_points"),
            "events_in_histories": total("events"),
            "steps_of_instrumented_code": total("steps"),
            "edges_of_library_and_dependencies_reached": {v: [r["edges_reached"], r["edges"]] for v, r in reports.items() if r["edges"]},
            "process_lives": total("process_lives"),
            "clock_reads_by_library": total("clock_reads_by_library"),
            "entropy_reads_by_library": total("entropy_reads_by_library"),
            "work": work,
            "per_variant": {v: {k: r[k] for k in ("runs", "nontrivial", "distinct_nontrivial", "wall_s", "complete")} for v, r in reports.items()},
            "determinism": {v: r.get("determinism") for v, r in reports.items()},
            "measure_of_distinctness": "64 bit hash of the event history of a run (texts, cards read, faults, writes, acknowledgements, results); of the order of thread switches for schedules; summed over variants",
            "real_components": REAL,
            "stub_components": STUB,
            "exhaustive": False,
        },
        "assumptions": [
            "the simulated disk keeps flushed bytes and loses, tears or zeroes only unflushed ones",
            "threads are preempted at allocations, writes, clock, entropy, yield and lock operations, in the fine variants also at every edge of the control flow and at accesses to writable statics of the library; memory is sequentially consistent",
            "seeded search: what no drawn run reached is not covered",
        ],
        "wall_s": round(wall, 2),
        "violations": bad,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for v in VARIANTS:
            build(v)
        return 0
    if a[0] == "replay":
        with open(a[1]) as f:
            variant = json.load(f)["variant"]
        return subprocess.run([build(variant), "replay", a[1]], env=env(False)).returncode
    if a[0] == "determinism":
        worst = 0
        for p in PLAN:
            for v in PLAN[p]:
                d = determinism(build(v), p, seed, 200)
                worst |= d["identical"] != d["runs_executed_twice"]
                print(p, v, d)
        return worst
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER") or "quick"
    return decide(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
