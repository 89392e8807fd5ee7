#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
ROOT = os.path.dirname(HERE)
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 run.py --setup',
    'hooks': {'guard': 'none',
              'enable': 'no hooks are needed: the checks compile the unmodified sources of the working tree and interpose on library calls at link time',
              'source_commits': []},
    'checks': [],
    'not_applicable': [],
    'notes': 'Each check builds the sources of /repo/genex (and /repo/cli) into build/, explores its space completely up to the stated bounds in parallel processes and confirms a failure by replaying it. "python3 run.py --replay out/<id>-replay.json" repeats a reported violation.',
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'The check of this property is not built yet.')})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
