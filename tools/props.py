#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run from anywhere:
python3 /verif/tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, level_note=None, claimed=True, reason=None, technique=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append((d, level_note, claimed, reason, technique))

exec(open(os.path.join(ROOT, "tools", "prop_list.py")).read())

BFS = "explicit-state model checking of the real code: every operation sequence up to a depth in lockstep with a reference model"
ENUM = "bounded-exhaustive model checking: the real code run on every structure / request sequence of a bounded space against a reference model"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, note, claimed, reason, tech in P:
    if claimed:
        checks.append(dict(property=d["id"], quick_cmd=f"bash run.sh {d['id']} quick", thorough_cmd=f"bash run.sh {d['id']} thorough",
                           evidence_file=f"evidence/{d['id']}.json", technique={"bfs": BFS, "enum": ENUM}.get(tech, tech), level="model_checking", level_note=note))
    else:
        na.append(dict(property=d["id"], reason=reason))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES)
if m["hooks"] is None:
    del m["hooks"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d, *_ in P:
        jsonschema.validate(d, s)
except ImportError:
    pass
print(len(P), "properties,", len(checks), "claimed")
