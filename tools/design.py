"""fills the planted-bug table of DESIGN.md between its markers from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s |' % (i, d['needs'].replace('|', '/'), d.get('caught_by') or d['property']))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '| planted bug | needs | caught by |\n|---|---|---|\n', '\n\nFirst missed'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
