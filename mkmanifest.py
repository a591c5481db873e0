#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'not_applicable.json')) else {}
checks = []; na = []
for p in props:
    i = p['id']
    wip = open(os.path.join(V, 'wip.txt')).read().split() if os.path.exists(os.path.join(V, 'wip.txt')) else []
    if i not in wip and os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --thorough' % i,
            'technique': "bounded symbolic execution of GCC's RTL for the real headers, obligations decided by z3 (bit-vectors, uninterpreted functions, IEEE floating point)",
            'level': 'other',
            'level_note': 'Holds for all inputs of the listed harnesses, types, ABIs and instruction sets as compiled by g++ 13 -O2; trusts the RTL semantics in engine/rexec.py (validated against native runs), z3, and the rewriting in engine/terms.py (tested by setup_cmd). Outside: other compilers, targets and flags.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': '/opt/veriftools/pyvenv/bin/python3 engine/selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
