#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
from notes import TECH, NOTE, HOOKS
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'rustc cfg openzkp_verif',
               'enable': 'harness/build.sh adds --cfg openzkp_verif to RUSTFLAGS (and builds without it when the hook does not compile)',
               'source_commits': ['ac4b189']}}
if HOOKS: m['hooks'] = HOOKS
for i in ids:
    if i in props.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'technique': TECH[i], 'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'not yet covered: the specification for this part is still being written'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
