#!/usr/bin/env python3
"""The list of properties, and from it properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
T = "deterministic simulation: seeded search over thread schedules and fault sequences against a reference model"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, claimed=True, level="exploration", reason=None, hook=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"p": {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                    "why_tests_cant": why, "anchors": a}, "note": note, "claimed": claimed, "level": level, "reason": reason})
exec(open(os.path.join(HERE, "props.py")).read())
def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x["p"]) + "\n")
    m = {"version": 1, "setup_cmd": "python3 dsim/check.py --setup",
         "hooks": {"guard": "none", "enable": "No hook is compiled into /repo: the checks compile /repo's sources with compiler "
                   "instrumentation and replace the C library seams (threads, clocks, randomness, allocation, files) at link time.",
                   "source_commits": []},
         "checks": [{"property": x["p"]["id"], "quick_cmd": "python3 dsim/check.py %s --tier quick" % x["p"]["id"],
                     "thorough_cmd": "python3 dsim/check.py %s --tier thorough" % x["p"]["id"], "technique": T, "level": x["level"],
                     "level_note": x["note"], "evidence_file": "evidence/%s.json" % x["p"]["id"]} for x in P if x["claimed"]],
         "not_applicable": [{"property": x["p"]["id"], "reason": x["reason"]} for x in P if not x["claimed"]]}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
main()
