"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a, b = '<!-- seeded table -->', '<!-- end of the seeded table -->'
rows = [a, '| planted | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    rows.append('| `%s` | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], m['property']))
rows.append(b)
s = open(HERE + '/DESIGN.md').read()
s = s[:s.index(a)] + '\n'.join(rows) + (s[s.index(b) + len(b):] if b in s else s[s.index(a) + len(a):])
open(HERE + '/DESIGN.md', 'w').write(s)
