#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from registry import CHECKS, NOTE, NOT_APPLICABLE
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({'property': pid, 'quick_cmd': './check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': c['technique'], 'level': c['level'],
                       'level_note': c.get('note', NOTE)})
    else:
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'No hooks are committed in /repo: the harness and the scheduling points enter through go test -overlay.', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
