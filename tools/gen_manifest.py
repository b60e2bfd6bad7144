#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = checks.NOTES
out = {'version': 1, 'setup_cmd': 'python3 -m py_compile run.py checks.py && g++ --version >/dev/null && clang++ --version >/dev/null', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        tech, note = NOTE.get(i, ('runtime monitoring', ''))
        out['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': checks.CHECKS[i].get('level', 'exploration'), 'level_note': note})
    else: out['not_applicable'].append({'property': i, 'reason': 'not claimed yet: its monitor is still being built'})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
