#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted bugs."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); s = open(V + '/tools/design_head.md').read()
s += '| bug | caught by | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json')); missed = m.get('missed')
    s += f"| {d} | {'missed' if missed else m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(V + '/DESIGN.md', 'w').write(s)
