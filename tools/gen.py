#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B'
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
na = {i for i, _ in NA}
man = dict(version=1, setup_cmd=PY + ' -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import numpy, z3"',
           checks=[dict(property=p['id'], quick_cmd='%s check.py %s quick' % (PY, p['id']),
                        thorough_cmd='%s check.py %s thorough' % (PY, p['id']),
                        evidence_file='evidence/%s.json' % p['id'],
                        technique='symbolic execution of the lifted Python source, z3 verdict per path over all inputs in bounds',
                        level='model_checking',
                        level_note=NOTES.get(p['id'], 'bounded: every value of the symbolic inputs within the bounds printed in '
                                             'the evidence; every path of the lifted source is decided by z3 and every '
                                             'counterexample is replayed on the untouched source'))
                   for p in P if p['id'] not in na],
           not_applicable=[dict(property=i, reason=r) for i, r in NA])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
