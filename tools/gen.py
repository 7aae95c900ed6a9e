#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the catalogue below"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from catalog import P, NA
seen = set()
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert p['id'] not in seen, p['id']
        seen.add(p['id'])
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['forall']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
na = dict(NA)
checks = []
for p in P:
    if p['id'] in na:
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                   'thorough_cmd': './check %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('tech', 'symbolic execution of the LLVM IR of the real sources, assertions '
                                      'decided by SMT (z3/cvc5), counterexamples replayed natively'),
                   'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA],
           'notes': 'Level "other": bounded solver-based verification (all values within the stated bounds, no claim '
                    'beyond them). No hooks are needed in /repo. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks')
