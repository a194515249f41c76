#!/usr/bin/env python3
"""MANIFEST.json from harness/specs.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/harness']
import check, specs
NA = getattr(specs, 'NOT_APPLICABLE', {})
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in specs.PROPS:
        p = specs.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % i,
                       'technique': 'bounded symbolic execution of the compiled headers (clang IR -> C -> CBMC/SAT), counterexamples replayed natively',
                       'level': p.get('level', 'other'),
                       'level_note': ('The solver decides every value within the bounds: ' + p['bounds'] + '. Outside: ' + (p['outside'] or 'nothing further') +
                                      '. Trusts clang, the IR-to-C translator (cross-checked by replaying witnesses on g++-built code) and CBMC.' + (' ' + p['note'] if p.get('note') else ''))})
    else: na.append({'property': i, 'reason': NA.get(i, 'No check for this property is registered yet.')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check regenerates its encoding from /repo/src at run time; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
