#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'checks', p.lower() + '.py')):
        c = importlib.import_module('checks.' + p.lower()).CHECK
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s' % p,
                       'thorough_cmd': 'python3 run.py %s --thorough' % p,
                       'technique': c.technique, 'level': c.level, 'level_note': c.level_note})
    else:
        na.append({'property': p, 'reason': 'not claimed yet: its specification is being written (see DESIGN.md)'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the public API exposes all the state the specifications need. '
              'run.py <id> [--thorough]; run.py --replay <file> re-executes a reported scenario.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
