"""Rewrites the generated part of DESIGN.md (per-property table) from the registered obligations."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for f in sorted(os.listdir(HERE + '/props')):
    if f.endswith('.py') and f not in ('__init__.py', 'common.py'):
        importlib.import_module('props.' + f[:-3])
from props import common
from props.notapplicable import NA
HOW = json.load(open(HERE + '/dev/how.json'))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
out = ['<!-- generated by dev/design.py from here -->', '', '## Property by property', '']
for p in props:
    i = p['id']
    out += ['### %s  %s' % (i, p['title']), '']
    if i in NA:
        out += ['Not applicable: ' + NA[i] + '.', '']
        continue
    out += [HOW[i], '']
    obs = [o.id for o in common.OBS if o.prop == i]
    rules = [r[1] for r in common.RULES if r[0] == i]
    if obs:
        out += ['Obligations (%d): ' % len(obs) + ', '.join('`%s`' % o for o in obs) + '.']
    if rules:
        out += ['Rules (%d): ' % len(rules) + ', '.join('`%s`' % o for o in rules) + '.']
    out += ['']
out += ['<!-- end of the generated part -->']
s = open(HERE + '/DESIGN.md').read()
a = '<!-- generated by dev/design.py from here -->'
b = '<!-- end of the generated part -->'
if a in s:
    s = s[:s.index(a)] + '\n'.join(out) + s[s.index(b) + len(b):]
else:
    s += '\n'.join(out) + '\n'
open(HERE + '/DESIGN.md', 'w').write(s)
