"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(R, 'seeded')
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property'])))
p = os.path.join(R, 'DESIGN.md')
t = open(p).read()
head = '## Planted bugs and what catches them\n'
t = t[:t.index(head)] + head + '''
Each was written from the property and the code, confirmed (builds, 13 tests pass, demo fails only with it) and then
run against the check of its property (seed 1, quick tier). Bugs that were missed at first led to the deeper workloads
described above.

''' + '\n'.join(rows) + '\n'
open(p, 'w').write(t)
