#!/usr/bin/env python3
"""prints the rows of DESIGN.md's table of planted changes from seeded/*/meta.json"""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
by = {}
for d in sorted(root.iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    by.setdefault(m['property'], []).append((d.name, m['needs']))
print('| Check | Change | What it needs |\n|---|---|---|')
for p in sorted(by):
    for name, needs in by[p]:
        print(f'| {p} | {name} | {needs} |')
