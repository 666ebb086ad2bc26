#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}  # property -> reason
for l in open(os.path.join(H, "tools", "not_applicable.txt")):
    l = l.strip()
    if l and not l.startswith("#"): k, v = l.split(" ", 1); NA[k] = v
NOTE = ("Seeded search, not enumeration: a quiet run is evidence and not proof. The library and the interception sample run as real code in one process under a simulated "
        "scheduler (switch points at every memory access), heap, OS and clock; results are judged by a reference model of the generated image. Trusts the image builder, the model and clang's instrumentation; "
        "assumes well-formed images apart from injected unreadable blocks, and sequentially consistent memory.")
checks = []
for p in props:
    if p["id"] in NA: continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --tier quick", thorough_cmd=f"./check.py {p['id']} --tier thorough",
        technique="deterministic simulation with fault injection (seeded schedules, faults and histories against a reference model)", level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="tools/build.sh harness", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: every seam is made at compile and link time (memory-access instrumentation call-outs, renamed libc and pthread symbols). Replay: tools/replay.sh FILE --trace.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
