#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (regenerate: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []
VN = 'static analysis: guarded global value numbering of LLVM IR (every path, all inputs) against a reference definition'


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, thorough=True):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        c = {'property': id, 'quick_cmd': 'python3 /verif/run.py %s quick' % id, 'technique': technique or VN, 'level': 'other', 'level_note': note}
        if thorough:
            c['thorough_cmd'] = 'python3 /verif/run.py %s thorough' % id
        CHECKS.append(c)


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/run.py setup', 'checks': CHECKS, 'not_applicable': NA},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
