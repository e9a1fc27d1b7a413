#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({'property': p,
                       'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'deterministic simulation with fault injection',
                       'level': 'exploration', 'level_note': c.get('note') or 'Seeded search: %d runs (quick), %d runs (thorough). Says nothing about schedules and faults that were not drawn.' % (c['quick'][0], c['thorough'][0])})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',

     'checks': checks,
     'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE[p]} for p in props if p not in CHECKS and p in NOT_APPLICABLE],
     'notes': 'check.py builds the library sources of /repo into .build/ and runs seeded simulations (sim/). VERIF_SEED selects the plans, VERIF_TIER their number. A violation is confirmed in fresh processes, minimised and written to evidence/replay/; python3 check.py --replay FILE runs it again. Findings on the unchanged tree are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
