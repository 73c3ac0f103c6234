"""Replay server: runs harness cases on concrete numbers against the unpatched
package.  One JSON request per line on stdin, one JSON answer per line."""
import io
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
if __name__ == '__main__':
    fd = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    out = os.fdopen(fd, 'wb', 0)
    sys.stdout = io.TextIOWrapper(os.fdopen(nul, 'wb', 0), write_through=True)
    sys.path.insert(0, os.environ.get('LR_REPO', '/repo'))
    import importlib
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    from symlrvb.ctx import ConcCtx, AssumeFail
    import LinearResponseVariationalBayes  # noqa
    REPO = os.environ.get('LR_REPO', '/repo') + '/'
    h = importlib.import_module('symlrvb.harness.' + prop.lower())
    level = getattr(h, 'LEVELS', {}).get
    cases = {c[0]: c for c in h.cases(level(tier, tier))}
    if tier != 'thorough':
        for c in h.cases(level('thorough', 'thorough')):
            cases.setdefault(c[0], c)

    def run(req):
        name, fn, params = cases[req['case']]
        ctx = ConcCtx(req['env'], seed)
        funcs = set()
        status, err = 'ok', None
        if req.get('profile'):
            def prof(frame, ev, arg):
                if ev == 'call':
                    fnm = frame.f_code.co_filename
                    if fnm.startswith(REPO) and frame.f_code.co_name != '<module>':
                        funcs.add('%s:%s' % (os.path.basename(fnm), frame.f_code.co_name))
            sys.setprofile(prof)
        try:
            fn(ctx, **params)
        except AssumeFail:
            status = 'assume'
        except Exception as e:
            status = 'exception'
            err = '%s: %s' % (type(e).__name__, str(e)[:400])
            err += ' | ' + ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                       for f in traceback.extract_tb(sys.exc_info()[2])[::-1][:4])
        finally:
            sys.setprofile(None)
            ctx.cleanup()
        return {'status': status, 'error': err, 'recs': ctx.recs, 'functions': sorted(funcs),
                'inputs': ctx.used}

    while True:
        line = sys.stdin.readline()
        if not line:
            break
        try:
            ans = run(json.loads(line))
        except Exception as e:
            ans = {'status': 'server: %r' % (e,), 'recs': []}
        out.write((json.dumps(ans) + '\n').encode())
