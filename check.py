#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on the current source of /repo.

exit 0  nothing violates the property (known findings are printed)
exit 1  a construct of the source violates it
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.program import Program, REPO
from sa.oblig import decide, Outcome, limited, Timeout

AREAS = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'props'))
               if f.endswith('.py') and f not in ('__init__.py', 'common.py', 'notapplicable.py'))


def load_program():
    p = Program()
    for f in sorted(os.listdir(os.path.join(HERE, 'spec'))):
        if f.endswith('.py'):
            p.add_module('spec.' + f[:-3], os.path.join(HERE, 'spec', f))
    return p


def known_findings():
    ids = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding:'):
                parts = l.split(None, 3)
                d = dict(x.split('=', 1) for x in parts[1:3])
                ids[d['id']] = (d['property'], parts[3] if len(parts) > 3 else '')
    return ids


_P = None
_JOBS = []


def _work(i):
    kind, prop, item, tier = _JOBS[i]
    box = []

    def run():
        if kind == 'ob':
            box.append([decide_plain(item)])
        else:
            try:
                box.append(item[3](_P, tier))
            except Exception as e:
                import traceback
                box.append([Outcome('%s:%s' % (prop, item[1]), 'undecided', '', 'internal: %s: %s %s' % (
                    type(e).__name__, e, traceback.format_exc().splitlines()[-3:]), item[1])])
    t0 = time.time()
    run()
    out = [o.as_dict() for o in box[0]]
    for o in out:
        o.setdefault('wall_s', round(time.time() - t0, 2))
    return out


def decide_plain(o):
    return decide(_P, o)


def child(i, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    res = []

    def run():
        try:
            res.append(_work(i))
        except MemoryError:
            res.append(None)
    try:
        run()
        conn.send(res[0] if res else None)
    except BaseException:
        conn.send(None)
    conn.close()


def run_jobs(limit):
    """each obligation in its own process, at most as many at a time as there are cores"""
    n = len(_JOBS)
    out = [None] * n
    todo = list(range(n))
    live = {}
    width = max(2, min(8, os.cpu_count() or 2))
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < width:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(i, b), daemon=True)
            pr.start()
            b.close()
            live[i] = (pr, a, time.time())
        for i, (pr, a, t0) in list(live.items()):
            done = False
            if a.poll(0.01):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = None
                done = True
            elif not pr.is_alive():
                done = True
            elif time.time() - t0 > limit:
                pr.kill()
                done = True
            if done:
                pr.join(5)
                a.close()
                del live[i]
                if out[i] is None:
                    kind, prop, item, tier = _JOBS[i]
                    nm = item.id if kind == 'ob' else item[1]
                    out[i] = [Outcome('%s:%s' % (prop, nm), 'undecided', '', 'analysis budget exceeded', nm).as_dict()]
    return out


def main():
    global _P
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    if tier == 'thorough':
        from sa import refute
        refute.SCALE = 4
    for a in AREAS:
        importlib.import_module('props.' + a)
    from props import common
    try:
        _P = load_program()
    except SyntaxError as e:
        print('source does not parse: %s' % e)
        sys.exit(2)
    for o in common.OBS:
        if o.prop == prop and (tier == 'thorough' or o.tier == 'quick'):
            _JOBS.append(('ob', prop, o, tier))
    for r in common.RULES:
        if r[0] == prop:
            _JOBS.append(('rule', prop, r, tier))
    outs = [o for l in run_jobs(240 if tier == 'quick' else 420) for o in l]
    known = known_findings()
    viol, undec = [], []
    counts = {}
    for o in outs:
        st = o['status']
        if st == 'known' and o['key'] not in known:
            st = o['status'] = 'violated'
            o['message'] += ' (not a listed finding)'
        elif st == 'violated' and o['key'] in known:
            st = o['status'] = 'known'
        counts[st] = counts.get(st, 0) + 1
        if st == 'violated':
            viol.append(o)
        elif st == 'undecided':
            undec.append(o)
        elif st == 'known':
            print('KNOWN-FINDING: property=%s %s %s' % (prop, o['key'], known[o['key']][1]))
    fns = sorted({f for o in outs for f in o.get('functions', ())})
    n = len(outs)
    level = common.LEVELS.get(prop, 'other')
    cov = dict(obligations=n, discharged=counts.get('held', 0) + counts.get('shape', 0),
               outcomes=counts,
               explanation='Obligations decided from the source by abstract interpretation into value-graph normal forms '
                           'and structural rules; "held" means the normal forms (or the rule) coincide for all inputs, "shape" '
                           'that they coincide up to array-shape operations, "undecided" that the analysis makes no claim.',
               functions_analysed=fns, functions=len(fns),
               samples=[dict(obligation=o['obligation'], status=o['status'], at=o['location'],
                             message=o['message'][:600], projections=o.get('projections'),
                             about=o.get('about')) for o in outs],
               checker_cmd='python3 check.py %s --tier %s' % (prop, tier),
               trusted_base=['CPython ast parser', 'sa/ (abstract interpreter and its numpy/scipy model)',
                             'spec/ (reference definitions)'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              assumptions=common.ASSUMPTIONS.get(prop, []) + common.ASSUMPTIONS.get('*', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations: %s; %.1fs' % (prop, n, ', '.join('%d %s' % (v, k) for k, v in sorted(counts.items())), time.time() - t0))
    for o in undec:
        print('  undecided %s: %s' % (o['obligation'], o['message'][:200]))
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', prop + '.json')
        with open(path, 'w') as fh:
            json.dump(viol, fh, indent=1)
        for o in viol:
            print('  %s %s: %s' % (o['location'], o['obligation'], o['message'][:700]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
