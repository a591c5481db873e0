#!/usr/bin/env python3
"""addfix.py ID PROPERTY HARNESS STATUS TEXT -- appends an entry to known_findings.json"""
import json, sys
d = json.load(open('known_findings.json'))
i, p, h, st, w = sys.argv[1:6]
e = {'id': i, 'property': p, 'harness': h, 'status': st, 'what': w}
if len(sys.argv) > 6: e['tu'] = sys.argv[6]
if len(sys.argv) > 7: e['obligation'] = sys.argv[7]
d['findings'] = [x for x in d['findings'] if x['id'] != i] + [e]
open('known_findings.json', 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
