#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and sim/properties.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, race=0, secs=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  state=state or [], observe=observe or [], race=race, secs=secs))


exec(open(os.path.join(HERE, "tools", "props.inc.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "na.inc.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    for id, title, statement, why, files, reason in NA:
        f.write(json.dumps({"id": id, "title": title, "statement": statement, "quantifier": {"over": ["inputs"], "text": "every input"},
                            "why_tests_cant": why, "anchors": {"files": files, "mechanism": []}}) + "\n")

checks = []
for p in P:
    checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                   "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories"
                                + (", under the race detector" if p["race"] else ""),
                   "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./check --build",
           "hooks": {"guard": "none: /repo has no hooks; yields, clocks and locks are put in by a build overlay made from /repo's tree at check time",
                     "enable": "tools/instrument writes .build/ov/overlay.json; the simulator is built with go test -overlay", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": n[0], "reason": n[5]} for n in NA]},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
d = {}
for p in P:
    d[p["id"]] = {"race": p["race"]}
    if p["secs"]:
        d[p["id"]]["secs"] = p["secs"]
json.dump(d, open(os.path.join(HERE, "sim", "properties.json"), "w"), indent=1)
