#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every path of the compiled crate (LLVM IR after linking, std and pest included) is executed symbolically for inputs made of '
        'fixed text with symbolic bytes; Z3 decides branch feasibility, and a feasible failing path is replayed natively. Holds for every '
        'value of the symbolic bytes of the templates in templates.py (about 1 to 8 free bytes each), not outside them.')
checks = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'symbolic execution of the crate\'s LLVM IR with Z3 against a reference model in the harness',
                   'level': 'model_checking', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': []},
          open(H + '/MANIFEST.json', 'w'), indent=1)
