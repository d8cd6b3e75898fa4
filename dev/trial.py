#!/usr/bin/env python3
"""trial.py <trials.py> [id...]: apply each edit of TRIALS to a scratch copy and report what the checks say.

TRIALS: list of dict(id, edits=[(file, old, new)], expect={prop,...} (alarms wanted; empty: every check must stay quiet),
props=[...] (checks to run; default: all claimed))."""
import importlib.util, os, re, shutil, subprocess, sys, tempfile, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('t', sys.argv[1]); T = importlib.util.module_from_spec(spec); spec.loader.exec_module(T)
claimed = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]


def redefine(s, name, new):
    import ast, textwrap
    body = ast.parse(s).body
    ind = ''
    for part in name.split('.'):
        n = [x for x in body if getattr(x, 'name', None) == part][0]
        body = n.body
    ind = ' ' * n.col_offset
    L = s.split('\n')
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), ind)
    return '\n'.join(L[:first - 1] + new.split('\n') + L[n.end_lineno:])


def one(t):
    d = tempfile.mkdtemp(prefix='trial_', dir='/tmp')
    try:
        shutil.copytree('/repo/GPyOpt', d + '/GPyOpt', ignore=shutil.ignore_patterns('__pycache__'))
        for f, a, b in t['edits']:
            q = d + '/' + f
            s = open(q).read()
            if a.startswith('def:'):
                s = redefine(s, a[4:], b)
                compile(s, q, 'exec')
                open(q, 'w').write(s)
                continue
            if s.count(a) < 1:
                return t, 'EDIT NOT FOUND in %s: %r' % (f, a[:60]), {}
            s = s.replace(a, b, 1)
            compile(s, q, 'exec')
            open(q, 'w').write(s)
        res = {}
        for p in t.get('props') or (sorted(t['expect']) if t.get('expect') else claimed):
            r = subprocess.run([sys.executable, HERE + '/check.py', p, '--no-evidence'], env=dict(os.environ, GPYOPT_REPO=d), capture_output=True, text=True, cwd=d)
            lines = [l for l in (r.stdout + r.stderr).split('\n') if 'VIOL' in l or 'Error' in l or l.startswith('  ')]
            m = re.search(r'(\d+) undecided', r.stdout)
            res[p] = (r.returncode, lines[:4], m.group(1) if m else '0')
        return t, None, res
    finally:
        shutil.rmtree(d)


todo = [t for t in T.TRIALS if len(sys.argv) < 3 or any(re.search(x, t['id']) for x in sys.argv[2:])]
with cf.ThreadPoolExecutor(7) as ex:
    for t, err, res in ex.map(one, todo):
        if any('Traceback' in x or 'main()' in x for r in res.values() for x in r[1]):
            print(t['id'], 'CHECK FAILED', [r[1][-1] for r in res.values()][0]); continue
        if err:
            print('%-28s %s' % (t['id'], err)); continue
        alarms = {p for p, r in res.items() if r[0] == 1}
        odd = {p: r for p, r in res.items() if r[0] not in (0, 1)}
        want = set(t.get('expect') or ())
        ok = (not alarms) if not want else want <= alarms
        und = {p: r[2] for p, r in res.items() if r[2] != '0'}
        print('%-28s %s alarms=%s undecided=%s %s' % (t['id'], 'ok' if ok and not odd else ('FALSE ALARM' if not want else 'MISSED'), sorted(alarms), und, odd or ''))
        if not ok or '-v' in os.environ.get('V', ''):
            for p, r in res.items():
                for l in r[1]:
                    print('      ', p, l[:300])
