"""own.py <trials.py>...: does the check of the bug's own property report it?"""
import sys, os, re, subprocess, tempfile, shutil, importlib.util, multiprocessing as mp
sys.path.insert(0, '/verif/dev')
src = open('/verif/dev/fast.py').read()
import ast, textwrap
i = src.index('def redefine'); j = src.index('def one')
exec(src[i:j])


def one(t):
    m = re.match(r'[a-z](\d\d)[a-z]$', t['id'])
    props = [t['prop']] if 'prop' in t else sorted(t['expect']) if t.get('expect') else ['C' + m.group(1)] if m else []
    d = tempfile.mkdtemp(prefix='own_', dir='/tmp')
    try:
        shutil.copytree('/repo/GPyOpt', d + '/GPyOpt', ignore=shutil.ignore_patterns('__pycache__'))
        for f, a, b in t['edits']:
            s = open(d + '/' + f).read()
            if not a.startswith('def:') and a not in s:
                return t['id'], 'edit not found'
            s = redefine(s, a[4:], b) if a.startswith('def:') else s.replace(a, b, 1)
            open(d + '/' + f, 'w').write(s)
        r = []
        for p in props:
            x = subprocess.run(['python3', '/verif/check.py', p, '--no-evidence'], env=dict(os.environ, GPYOPT_REPO=d), capture_output=True, text=True)
            r.append('%s:%s' % (p, 'caught' if x.returncode == 1 else 'MISSED' if x.returncode == 0 else 'error'))
        return t['id'], ' '.join(r)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    T = []
    for f in sys.argv[1:]:
        s = importlib.util.spec_from_file_location('t', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        T += m.TRIALS
    with mp.Pool(7) as p:
        for i, r in p.imap_unordered(one, T):
            if 'caught' not in r or 'MISSED' in r or 'error' in r:
                print(i, r, flush=True)
