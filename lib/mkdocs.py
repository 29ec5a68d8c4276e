#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from propdefs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from propdefs import P
from props import PROPS
try:
    from propdefs import NA
except ImportError:
    NA = []
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda x: x['id']):
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = p['hook']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
     'hooks': {'guard': 'PLEXIL_VERIF_MONITOR', 'enable': 'the out-of-tree build in lib/vbuild.py passes -DPLEXIL_VERIF_MONITOR=1; no hook in /repo is needed so far', 'source_commits': []},
     'checks': [], 'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
     'notes': 'One driver (check.py) builds instrumented harnesses from /repo and runs them; see DESIGN.md.'}
na = {a for a, b in NA}
for p in sorted(P, key=lambda x: x['id']):
    if p['id'] in na:
        continue
    assert p['id'] in PROPS, p['id']
    m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                        'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
for k in PROPS:
    assert any(p['id'] == k for p in P), k
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')
