#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
rows=[]
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append((m['property'],os.path.basename(d),m['needs'],m.get('note','')))
rows.sort()
t="| check | planted bug | needs |\n|---|---|---|\n"+"\n".join(f"| {a} | {b} | {c}{' ('+n+')' if n else ''} |" for a,b,c,n in rows)
s=open('DESIGN.md').read()
a='## Planted bugs and the checks that catch them\n'
s=s[:s.index(a)]+a+"\nEach is caught by the quick tier of the check named, unless noted.\n\n"+t+"\n"
open('DESIGN.md','w').write(s)
