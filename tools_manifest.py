#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered obligations and rules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
    if f.endswith('.py') and f not in ('__init__.py', 'common.py'):
        importlib.import_module('props.' + f[:-3])
from props import common
from props.notapplicable import NA

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = {o.prop for o in common.OBS} | {r[0] for r in common.RULES}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        n_ob = sum(o.prop == i for o in common.OBS)
        n_r = sum(r[0] == i for r in common.RULES)
        tech = []
        if n_ob:
            tech.append('abstract interpretation of the source into value-graph normal forms, compared with reference definitions')
        if n_r:
            tech.append('dataflow and structural rules over the syntax tree and call graph')
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique='; '.join(tech), level=common.LEVELS.get(i, 'other'),
                           level_note=common.NOTES.get(i, common.NOTES['*'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no static check built for it yet')))
m = dict(version=1, setup_cmd='python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"', checks=checks, not_applicable=na,
         notes='All checks are static: they parse /repo on every run and never import or execute it.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
