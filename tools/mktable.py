#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json,os
v=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
p=v+'/DESIGN.md'; s=open(p).read()
i=s.index('| change | property |'); j=s.index('\n\n',i)
rows=['| change | property | needs | breaks |','|---|---|---|---|']
for b in sorted(os.listdir(v+'/seeded')):
    m=json.load(open(f'{v}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
open(p,'w').write(s[:i]+'\n'.join(rows)+s[j:])
