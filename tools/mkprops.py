#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it is reviewable)."""
import json, os
D = 'dill/_dill.py'
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=hook)))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_table.py')).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
