"""Append a line to the fixed list of known_findings.json (used by hand, never by a check)."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
if sys.argv[1] == 'finding':
    d['findings'].append(dict(property=sys.argv[2], key=sys.argv[3], what=sys.argv[4]))
else:
    d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d, open(p, 'w'), indent=1)
