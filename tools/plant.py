"""Make and try the planted bugs.

plant.py make [id..]   write seeded/<id>/ from plants.py
plant.py try  [id..]   in a scratch copy of /repo: tests, demonstration, check
"""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(R + '/tools/plants.py').read())
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as SO
import LinearResponseVariationalBayes.OptimizationUtils as opt
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.ConjugateGradient as cg
import LinearResponseVariationalBayes.regression_utils as reg
assert os.path.dirname(os.path.dirname(os.path.abspath(vb.__file__))) == os.getcwd(), vb.__file__
'''
TAIL = '''
print('holds' if ok else 'BROKEN')
sys.exit(0 if ok else 1)
'''
SH = '''#!/bin/bash
# exit 0 when the property holds, run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    shutil.rmtree(d + '/LinearResponseVariationalBayes/__pycache__', ignore_errors=True)
    return d


def apply(b, d):
    f = d + '/LinearResponseVariationalBayes/' + b['file']
    s = open(f).read()
    for o, n in b['edits']:
        assert s.count(o) == 1, (b['id'], s.count(o), o)
        s = s.replace(o, n)
    open(f, 'w').write(s)


def make(b):
    d = copy()
    apply(b, d)
    diff = subprocess.check_output(['git', '-C', d, 'diff']).decode()
    out = R + '/seeded/' + b['id']
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(HEAD + b['demo'] + TAIL)
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)


def trial(b):
    out = R + '/seeded/' + b['id']
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    d = copy()
    try:
        a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if a.returncode:
            print(a.stdout.decode()[-600:])
        subprocess.check_call(['git', '-C', d, 'apply', out + '/patch.diff'])
        c = subprocess.run(['bash', out + '/demo.sh'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = subprocess.run(['true'] if 'notests' in sys.argv else ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tl = t.stdout.decode().strip().split('\n')[-1]
        if 'nocheck' in sys.argv:
            k, line = None, ''
        else:
            e = dict(os.environ, LR_REPO=d)
            k = subprocess.run([R + '/check', b['property'], 'quick'], cwd=R, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            line = [l for l in k.stdout.decode().split('\n') if l.strip()][:3]
            k = k.returncode
        good = a.returncode == 0 and c.returncode != 0 and t.returncode == 0
        print('%-24s %s demo %d/%d tests %s | check %s %s' % (b['id'], 'OK ' if good else 'BAD', a.returncode, c.returncode, tl[:60], k,
                                                             'CAUGHT' if k == 1 else 'missed' if k == 0 else line), flush=True)
        if k is not None and good:
            cf = R + '/tools/catches.json'
            cat = json.load(open(cf)) if os.path.exists(cf) else {}
            cat[b['id']] = b['property'] if k == 1 else 'missed by ' + b['property']
            json.dump(cat, open(cf, 'w'), indent=1, sort_keys=True)
        if k == 1:
            print('      ', line[1][:200] if len(line) > 1 else line, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if a not in ('nocheck', 'notests')]
    for b in P:
        if ids and not any(a in b['id'] for a in ids):
            continue
        if sys.argv[1] == 'make':
            make(b)
        else:
            trial(b)
