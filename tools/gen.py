#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (single source of truth)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import plan
I = "include/boost/fiber/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))
CTL = "controlled-scheduler stress + "
MF = [I + "mutex.hpp", I + "timed_mutex.hpp", I + "recursive_mutex.hpp", I + "recursive_timed_mutex.hpp", "src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/waker.cpp"]
exec(open(os.path.join(HERE, "tools", "props.py")).read())
sel = [p for p in P if p[0]["id"] in plan.PROPS]
assert [p[0]["id"] for p in sel] == sorted(plan.PROPS), set(plan.PROPS) ^ {p[0]["id"] for p in sel}
for p, _, _ in sel:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in sel: f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 check.py setup",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=t, level="exploration", level_note=n) for p, t, n in sel],
    not_applicable=NOT_APPLICABLE)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in sel: jsonschema.validate(p, s)
    print("schemas ok")
except ImportError:
    print("jsonschema missing: run with python3-vt")
print(len(sel), "properties")
