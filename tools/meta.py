#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None),
        _note=level_note, _tech=technique or "deterministic simulation with fault injection: seeded search over simulated histories, map orders, clocks, random streams and faults, checked against an independent reference model"))

exec(open("tools/properties.py").read())

with open("properties.jsonl", "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./build.sh race",
    checks=[dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="./check " + p["id"] + " thorough",
        evidence_file="evidence/%s.json" % p["id"], technique=p["_tech"], level="exploration", level_note=p["_note"]) for p in P],
    not_applicable=[dict(property=p["id"], reason=p["_reason"]) for p in NA],
    notes="No hooks in /repo: the checks instrument the current working tree at build time (cmd/simgen writes a build overlay), so the shipped code is untouched and a refactoring is instrumented like the original. VERIF_TIER=thorough makes the same command explore the thorough run counts. Replay a violation with ./.build/sim replay FILE.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
