#!/usr/bin/env python3
"""The property list; writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    assert len(title) <= 80, title
    P.append((d, technique, note))
    if na: NA[id] = na


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for d, t, n in sorted(P, key=lambda x: x[0]['id']): f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 -m pv.load", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
for d, t, n in sorted(P, key=lambda x: x[0]['id']):
    if d['id'] in NA: continue
    m['checks'].append(dict(property=d['id'], quick_cmd="python3 check.py %s quick" % d['id'], thorough_cmd="python3 check.py %s thorough" % d['id'],
                            technique=t, level="other", level_note=n))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import sys
sys.path.insert(0, V)
from pv.rules import REGISTRY
ids = {d['id'] for d, _, _ in P} - set(NA)
print(len(P), 'properties;', 'unregistered:', sorted(ids - set(REGISTRY)), 'unlisted:', sorted(set(REGISTRY) - ids))
