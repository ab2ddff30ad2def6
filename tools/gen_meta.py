#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from meta import PROPERTIES, NOT_APPLICABLE
from props import PROPS

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES + NOT_APPLICABLE:
        if p['id'] not in PROPS and p in PROPERTIES:
            continue
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')

checks = []
for p in PROPERTIES:
    if p['id'] not in PROPS:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
        'technique': 'deterministic simulation with fault injection: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['level_note'],
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py P01',
    'hooks': {
        'guard': 'JOEDB_SIMULATION',
        'enable': 'tools/build.py compiles /repo/src with -DJOEDB_SIMULATION; no source line of /repo uses it: every seam is '
                  'the libc boundary (sim/kernel.cpp interposes system calls, pthread, clocks and signals) or an interface the code already has',
        'source_commits': [],
    },
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
    'notes': 'check.py <id> builds build/sim_<id> from /repo/src, explores seeded runs for a fixed wall time and replays any '
             'violation twice in fresh processes before reporting it. build/sim_<id> replay --file evidence/<id>.replay reproduces it.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
