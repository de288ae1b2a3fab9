#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: counts of findings and the table of planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
k = json.load(open(V + '/known_findings.json'))
flat = json.dumps(k)
rows = ['| id | caught by | what it needs |', '|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    need = ' '.join(m['needs'].split())
    rows.append('| %s | %s | %s |' % (b, m.get('caught_by', m['property']), need[:230].replace('|', '/')))
d = re.sub(r'@TABLE@|<!--table-->.*?<!--/table-->', lambda _: '<!--table-->\n' + '\n'.join(rows) + '\n<!--/table-->', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
