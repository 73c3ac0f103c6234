"""Apply a bundle of behaviour-preserving edits to a scratch copy and run tests and checks on it.

refactor.py BUNDLE [C01 ..] [notests] [-p N]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
exec(open(HERE + '/refactors.py').read())


def copy(edits):
    d = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    shutil.rmtree(d + '/LinearResponseVariationalBayes/__pycache__', ignore_errors=True)
    for f, o, n in edits:
        p = d + '/LinearResponseVariationalBayes/' + f
        s = open(p).read()
        if s.count(o) != 1:
            sys.exit('%s: %d matches for\n%s' % (f, s.count(o), o))
        open(p, 'w').write(s.replace(o, n))
    return d


def main():
    a = sys.argv[1:]
    par = int(a[a.index('-p') + 1]) if '-p' in a else 3
    b = a[0]
    checks = [x for x in a[1:] if x[0] == 'C' and x[1:].isdigit()] or ['C%02d' % i for i in range(1, 31)]
    d = copy(R[b])
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
        if 'notests' not in a:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
            print(b, 'tests:', '\n'.join(l for l in t.split('\n') if l.startswith('FAILED') or ' passed' in l or ' failed' in l), flush=True)

        def one(c):
            k = subprocess.run([V + '/check', c, 'quick'], cwd=V, env=dict(os.environ, LR_REPO=d, LR_EVIDENCE='/tmp/refac-evidence'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = k.stdout.decode()
            if k.returncode:
                print(b, c, 'EXIT', k.returncode, '\n      ' + '\n      '.join(out.strip().split('\n')[:8]), flush=True)
            else:
                u = [l for l in out.split('\n') if 'decided;' in l or l.startswith('UNDEC')]
                print(b, c, 'quiet', '\n      '.join([''] + u[:8]) if u else '', flush=True)
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(one, checks))
    finally:
        shutil.rmtree(d)


main()
