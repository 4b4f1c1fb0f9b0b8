#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
NOTES = {'removed-vertex-areas': 'missed at first', 'tiny-triangles-skipped': 'missed at first',
         'compound-restart': 'at first no answer: shrinking ran out of memory',
         'editor-large-scene': 'found to be missing while planting', 'editor-palette-interaction-only': 'found to be missing while planting'}
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[1]
    rows.append(f"| {m['property']} | {i} | {m['needs']}{' (*' + NOTES[i] + '*)' if i in NOTES else ''} |")
s = open('DESIGN.md').read()
head = '| property | change | needs |\n|---|---|---|\n'
a = s.index(head) + len(head); b = s.index('\n\n', a - 1)
s = s[:a] + '\n'.join(sorted(rows)) + s[b:]
n = sum(len(x) for x in [json.load(open('known_findings.json'))['fixed']])
s = re.sub(r'\(\d+ `fix:` commits', f'({n} `fix:` commits', s); s = re.sub(r'\("fixed"\): \d+ genuine', f'("fixed"): {n} genuine', s)
open('DESIGN.md', 'w').write(s)
