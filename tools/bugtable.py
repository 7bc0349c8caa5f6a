"""Puts the table of planted bugs into DESIGN.md (between its heading and the end)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = HERE + '/DESIGN.md'
s = open(p).read()
head = s[:s.index('their property.\n', s.index('## Planted bugs')) + len('their property.\n')]
rows = ['', '| bug (caught by the check of its prefix) | what it needs |', '|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    rows.append('| `%s` | %s |' % (d, m['needs'].replace('|', '/')))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
