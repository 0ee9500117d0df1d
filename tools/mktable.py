#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md.   usage: mktable.py [id=note ...]  (development tool)"""
import glob, json, os, sys
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = dict(a.split('=', 1) for a in sys.argv[1:])
rows = []
for m in sorted(glob.glob(top + '/seeded/*/meta.json')):
    i, d = m.split('/')[-2], json.load(open(m))
    rows.append(f"| {i} | {d['needs']} | {d['property']}{' ' + notes[i] if i in notes else ''} |")
p = top + '/DESIGN.md'
s = open(p).read().split('<!-- seeded -->')[0]
open(p, 'w').write(s + '<!-- seeded -->\n| change | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
