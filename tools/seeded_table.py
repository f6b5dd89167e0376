#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
res = {}
for l in (V / 'tools/caught.txt').read_text().splitlines():
    s, c, r = l.split(); res.setdefault(s, {})[c] = r
mark = '<!-- planted -->\n'
d = (V / 'DESIGN.md').read_text()
if mark in d: d = d[:d.index(mark)]
rows = ['| change | property | what it breaks | needs | checks |', '|---|---|---|---|---|']
for m in sorted(V.glob('seeded/*/meta.json')):
    j = json.loads(m.read_text()); i = m.parent.name; r = res.get(i, {})
    e = lambda t: t.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {i} | {j['property']} | {e(j['what_it_breaks'])} | {e(j['needs'])} | {', '.join(c + ' ' + k for c, k in sorted(r.items())) or 'not run'} |")
(V / 'DESIGN.md').write_text(d + mark + '\n'.join(rows) + '\n')
