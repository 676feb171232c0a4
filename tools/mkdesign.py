#!/usr/bin/env python3
"""Puts the table of planted bugs (from seeded/ and tools/caught.json) into DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(H, 'tools', 'caught.json')))
rows = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    c = caught.get(d, {})
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], ('caught: ' + c['class']) if c.get('caught') else ('MISSED' if c else 'not run')))
t = '| planted change | property | needs | quick check |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
p = os.path.join(H, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda x: x.group(1) + t + x.group(2), s, flags=re.S)
open(p, 'w').write(s)
