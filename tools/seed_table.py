#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (between the markers)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property and check | needs |', '|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['property']} | {m['needs'].replace('|', '/')} |")
p = R + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
