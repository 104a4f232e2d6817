#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tools/design_props.md with the lists of findings and planted bugs filled in."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
rd = lambda p: open(os.path.join(H, p)).read()
k = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
fixes = '\n'.join('* %s %s: %s' % (f['property'], f['commit'], f['what'].split(' ', 3)[3]) for f in k if f['status'] == 'fixed')
known = '\n'.join('* %s `%s`: %s' % (f['property'], f.get('case') or f.get('cases'), f['what']) for f in k if f['status'] == 'known')
t = rd('design_head.md') + rd('design_props.md')
t = t.replace('@FIXES@', fixes).replace('@KNOWN@', known).replace('@DETECT@', rd('detect.md')).replace('@EXTRA@\n\n', '')
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
