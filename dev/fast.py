#!/usr/bin/env python3
"""fast.py <trials.py>... [-i id-regex]: as trial.py, but decides every distinct obligation and rule once per trial, in one process."""
import os, sys, re, importlib, importlib.util, json, shutil, tempfile, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import multiprocessing as mp
from sa import program
import ast, textwrap
for f in sorted(os.listdir(HERE + '/props')):
    if f.endswith('.py') and f not in ('__init__.py', 'common.py', 'notapplicable.py', 'zshare.py'):
        importlib.import_module('props.' + f[:-3])
from props import common
from sa.oblig import decide
import check as CK
KNOWN = CK.known_findings()
CLAIMED = {c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']}


def redefine(s, name, new):
    body = ast.parse(s).body
    for part in name.split('.'):
        n = [x for x in body if getattr(x, 'name', None) == part][0]
        body = n.body
    ind = ' ' * n.col_offset
    L = s.split('\n')
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), ind)
    return '\n'.join(L[:first - 1] + new.split('\n') + L[n.end_lineno:])


def one(t):
    d = tempfile.mkdtemp(prefix='trial_', dir='/tmp')
    try:
        shutil.copytree('/repo/GPyOpt', d + '/GPyOpt', ignore=shutil.ignore_patterns('__pycache__'))
        for f, a, b in t['edits']:
            q = d + '/' + f
            s = open(q).read()
            if a.startswith('def:'):
                s = redefine(s, a[4:], b)
            else:
                if a not in s:
                    return t['id'], 'EDIT NOT FOUND %s %r' % (f, a[:60]), [], [], 0
                s = s.replace(a, b, 1)
            compile(s, q, 'exec')
            open(q, 'w').write(s)
        t0 = time.time()
        viol, und = [], []

        def go():
            P = program.Program(d)
            for f in sorted(os.listdir(HERE + '/spec')):
                if f.endswith('.py'):
                    P.add_module('spec.' + f[:-3], HERE + '/spec/' + f)
            seen = set()
            rs = []
            for o in common.OBS:
                if o.prop not in CLAIMED:
                    continue
                k = (str(o.target), str(o.spec), str(o.id), str(o.args), str(o.kwargs), str(o.what), str(getattr(o, 'fields', '')))
                if k in seen:
                    continue
                seen.add(k)
                rs.append(decide(P, o))
            for r in common.RULES:
                if r[0] in CLAIMED:
                    rs += r[3](P, 'quick')
            for x in rs:
                x = x.as_dict()
                if x['status'] == 'violated' and x['key'] not in KNOWN or x['status'] == 'known' and x['key'] not in KNOWN:
                    viol.append(x)
                elif x['status'] == 'undecided':
                    und.append(x)
        err = []

        def guard():
            try:
                go()
            except BaseException:
                err.append(traceback.format_exc()[-400:])
        go2 = threading.Thread(target=guard)
        guard() if True else go2.start()
        return t['id'], err[0] if err else None, viol, und, time.time() - t0
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    av = sys.argv[1:]
    rx = None
    if '-i' in av:
        j = av.index('-i')
        rx = av[j + 1]
        av = av[:j]
    T = []
    for f in av:
        sp = importlib.util.spec_from_file_location('t', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        T += [t for t in m.TRIALS if not rx or re.search(rx, t['id'])]
    by = {t['id']: t for t in T}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for i, err, viol, und, dt in pool.imap(one, T, chunksize=1):
            want = set(by[i].get('expect') or ())
            got = {x['obligation'].split(':')[0] for x in viol}
            tag = err or ('ok' if (bool(viol) == bool(want)) else ('MISSED' if want else 'FALSE ALARM'))
            print('%-16s %s %s alarms=%s undecided=%d %.0fs' % (i, tag, '' if not want or want & got else '(other property)', sorted(got), len(und), dt), flush=True)
            if tag != 'ok' and not err:
                for x in (viol or und)[:5]:
                    print('      ', x['obligation'], (x.get('location') or ''), x['message'][:230])
