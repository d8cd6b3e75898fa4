"""dev tool: plant one bug from a description module, verify it, and store it under seeded/.
usage: seed.py <bugs.py> [id ...]     (bugs.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)])"""
import json, os, subprocess, sys, importlib.util, re
V = '/verif/seeded'
spec = importlib.util.spec_from_file_location('bugs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PRE = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the planted change
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd /repo || exit 2
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for b in m.BUGS:
    if only and b['id'] not in only: continue
    d = os.path.join(V, b['id'])
    ok = True
    try:
        for f, old, new in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # original lines?
        orig = 0; tot = 0
        for f in {e[0] for e in b['edits']}:
            bl = sh('git -C /repo blame -s HEAD -- ' + f).stdout.splitlines()
            dd = sh('git -C /repo diff -U0 -- ' + f).stdout
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                for ln in range(a, a + n):
                    tot += 1
                    orig += bl[ln - 1].lstrip('^').startswith(base[:7])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(PRE); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/build.sh'); bad = []
        if r.returncode: bad.append('build')
        rd = sh('bash %s/demo.sh' % d, cwd='/repo')
        if rd.returncode == 0: bad.append('demo passes with the change')
        sh('bash /opt/vp/test.sh /tmp/o.json'); o = json.load(open('/tmp/o.json'))
        miss = stable - set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
        if miss: bad.append('tests %s' % sorted(miss)[:3])
        rc = sh('cd /verif && python3 check.py %s --tier quick' % b['property'])
        det = [l for l in rc.stdout.splitlines() if l.startswith('VIOLATION')]
    finally:
        sh('git -C /repo checkout -- .')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r0.returncode: bad.append('demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:])
    if not orig: bad.append('no original line changed')
    print(b['id'], b['property'], 'orig %d/%d' % (orig, tot), 'caught' if det else 'MISSED rc=%d' % rc.returncode, 'OK' if not bad else 'BAD ' + '; '.join(bad), flush=True)
    if not det: print('    ', rc.stdout[-400:].replace('\n', '\n     '))
    if 'demo passes' in ' '.join(bad): print(rd.stdout[-300:], rd.stderr[-300:])
