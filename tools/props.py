#!/usr/bin/env python3
"""The list of properties and of checks: writes properties.jsonl and MANIFEST.json (run it after editing; the check `./check` does not need it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM, RDB, MGR, DBF, UTIL = "lib/src/memory/datastore.rs", "lib/src/rdb/datastore.rs", "lib/src/rdb/managers.rs", "lib/src/database.rs", "lib/src/util.rs"
MODELS = "lib/src/models/"
STATE = [{"name": "InternalMemory maps", "meaning": "vertices, edges, reversed edges, properties and index of the in-memory datastore", "where": MEM},
         {"name": "column families", "meaning": "the same tables in RocksDB", "where": RDB}]
TRUST = "Trusts rustc's MIR of the current sources and the models of std, rocksdb and tonic functions in sa/engine.py and sa/store.py; conditions are compared as sets of literals, so a condition that the analysis cannot resolve is reported, not assumed."
P, N = [], []


def p(id, title, statement, over, text, tests, files, mech, technique, note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))


def na(id, title, statement, over, text, tests, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))


exec(open(os.path.join(V, "tools", "props_list.py")).read())

assert len({x["id"] for x in P + N}) == len(P + N)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in sorted(P + N, key=lambda x: x["id"]):
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        a = {"files": x["files"], "mechanism": [{"name": m, "where": w} for m, w in x["mech"]]}
        if x.get("state"):
            a["state"] = x["state"]
        if x.get("observe"):
            a["observe_at"] = x["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["tests"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": x["id"], "quick_cmd": f"./check {x['id']}", "thorough_cmd": f"./check {x['id']} --thorough", "evidence_file": f"evidence/{x['id']}.json",
                 "technique": x["technique"], "level": "other", "level_note": (x["note"] + " " if x["note"] else "") + TRUST} for x in sorted(P, key=lambda x: x["id"])],
     "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in sorted(N, key=lambda x: x["id"])],
     "notes": "Static analysis over rustc MIR (driver/ dumps it, sa/ analyses it). No hooks in /repo. Known findings: known-findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "claimed,", len(N), "not applicable")
