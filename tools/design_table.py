"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (used by hand, never by a check)."""
import json, os
V = '/verif'
MISSED = json.load(open(f'{V}/tools/missed_first.json'))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    by = m['property'] + (f'; missed first: {MISSED[i]}' if i in MISSED else '')
    rows.append(f"| {i} | {m['needs']} | {by} |")
s = open(f'{V}/DESIGN.md').read()
h = '## Planted bugs\n'
head = s[:s.index(h)] + h
intro = '''Each lies in `seeded/<id>/` and was confirmed in a scratch copy (demo fails with it, passes without it, stable tests pass).
All are caught now; "missed first" tells what the check lacked when the bug was first tried and was given because of it.
Besides these, about 150 one-line mutations of the solvers and about forty condition-triggered edits were tried in bulk; the misses among
them that were not equivalent led to the near lattices, the extra oscillator counts (C09) and the near-equal pixels (C04).

'''
open(f'{V}/DESIGN.md', 'w').write(head + intro + '\n'.join(rows) + '\n')
