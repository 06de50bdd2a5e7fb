#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "Seeded search over crash points, write faults, schedules and card contents against a ledger of acknowledged saves. Trusts the simulated disk (flushed bytes stay) and the card comparison by full debug form.",
    "C02": "Every cut position of each drawn card up to 700 bytes, drawn and line-end positions above. Trusts the harness's notion of where the END line ends.",
    "C03": "Every failing call of each drawn renderable value (120 for cards), drawn byte positions, reentrant and concurrent writers. The oracle is the fault-free text of the same value.",
    "C04": "Seeded search over damage to some cards of a stream; the undamaged cards are the oracle.",
    "C05": "Seeded search over damage to property lines; each line read strictly on its own is the oracle.",
    "C06": "Interposed clock; results under drawn clocks are compared with those under a steady clock, and any clock read by the library while reading or rendering is a violation.",
    "C07": "Seeded schedules over real threads serialised by the simulator; each call's result is compared with the same history alone in a fresh process. Preempts at allocation, write, clock, entropy, yield and futex operations, at every edge of the control flow of the library and its dependencies and at accesses to writable statics (instrumented build); memory is sequentially consistent.",
    "C08": "The allocator searches every text block at the moment it is freed for planted secrets. Blocks moved by realloc while a text grows are out of scope, as are stack copies. Default features only: the full feature set exempts language tags and media types.",
    "C09": "Seeded damage; bounds on allocations, bytes and executed edges per byte of input and on their growth, a 512 KiB stack, a 20 s processor limit and a 3 GiB memory limit decide. One variant has the library without optimisation. One slow experiment in about a hundred measures real processor time with a factor 4 of margin.",
    "C10": "Seeded damage and rewriting of foreign text; what a reader returned is the oracle for the following hops.",
    "C11": "Seeded gateways; the sent card is the oracle.",
    "C12": "Seeded I/O faults and cuts around serde_json; the written card is the oracle. The variants with serde only.",
    "C13": "The four readers are oracles for each other.",
    "C14": "A table of 32 ways to break a rule, each with drawn details; the card without the line is the oracle for loose reading, refusal for the others. Trusts the table's reading of RFC 6350.",
    "C15": "A reference model of the builder kept beside each client. Trusts the model and the card comparison.",
    "C16": "The drawn bytes are the oracle; base64 is encoded by the harness with the base64 crate.",
    "C17": "An independent reader of the format (peer.rs, written from RFC 6350, shares no code with the library) is the oracle. Trusts its reading of the standard and unicode-segmentation for user-perceived characters.",
    "C18": "An independent writer (peer.rs) and a simulated network of nodes; the card the writer started from is the oracle. Liveness: delivery within a bounded number of steps after faults stop. Limits of the library's data model (comma lists inside N, ORG, ADR and NICKNAME are single texts, and others in DESIGN.md) are not drawn.",
    "C19": "Seeded search over values, faults and crash points of a store of values against a ledger; value parsers and card readers are each other's oracle on the same text. Texts with control characters are left out, and texts with backslashes except in addresses.",
}
REASON = {
}
DEFAULT_REASON = "A pure function of its input: no schedule, clock, I/O, crash or history for a simulation to decide. Testing it would be plain input generation, another family of technique."

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search, in-process simulator)",
            "level": "exploration",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": REASON.get(i, DEFAULT_REASON)})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the simulator interposes on the allocator, clock, entropy, futex and yield symbols, and on the Write, Read and fmt::Write seams of the public interface. Known findings (one open, the others repaired) are in KNOWN_FINDINGS.md. Replay a violation with: python3 check.py replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
