"""Check one property: explore its cases in parallel, write the evidence."""
import hashlib
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('LR_REPO', '/repo'))
sys.setrecursionlimit(8000)


def main(argv):
    prop = argv[0]
    tier = 'quick'
    only = None
    jobs = int(os.environ.get('LR_JOBS', '8'))
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--case='):
            only = a[7:]
        elif a == '-1':
            jobs = 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from symlrvb import npsym
    npsym.install()
    out = sys.stdout
    quiet = not os.environ.get('LR_DEBUG')
    fd = os.dup(1)
    out = os.fdopen(fd, 'w', 1)
    if quiet:
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
    import warnings
    warnings.simplefilter('ignore')
    problems = []
    results = []
    try:
        import LinearResponseVariationalBayes  # noqa
        h = importlib.import_module('symlrvb.harness.' + prop.lower())
        cases = h.cases(getattr(h, 'LEVELS', {}).get(tier, tier))
    except Exception:
        out.write('cannot load: %s\n' % traceback.format_exc())
        return finish(prop, tier, seed, t0, [], ['loading the package or harness failed: '
                      + traceback.format_exc()[-600:]], None, out)
    if only:
        cases = [c for c in cases if only in c[0]]
    names = [c[0] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    opts = dict(getattr(h, 'OPTS', {}))
    opts.update(getattr(h, 'OPTS_' + tier.upper(), {}))
    if tier == 'thorough':
        opts.setdefault('crosscheck', True)
        opts.setdefault('case_time', 1500)
        opts.setdefault('ob_timeout', 60)
    limit = opts.get('total_time', 800 if tier == 'quick' else 3000)
    order = list(range(len(cases)))
    cost = getattr(h, 'COST', None)
    if cost:
        order.sort(key=lambda i: -cost(cases[i]))
    jobs = max(1, min(jobs, len(cases)))
    workers = []
    retried = set()

    def start_worker():
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(a_w)
            os.close(b_r)
            for other in workers:
                for k in ('w', 'r'):
                    try:
                        os.close(other[k])
                    except OSError:
                        pass
            try:
                worker(prop, tier, seed, cases, opts, a_r, b_w)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        os.close(a_r)
        os.close(b_w)
        wk = {'pid': pid, 'w': a_w, 'r': b_r, 'buf': b'', 'busy': None}
        workers.append(wk)
        return wk
    for w in range(jobs):
        start_worker()
    queue = list(order)
    violation = None
    alive = {wk['r']: wk for wk in workers}

    def give(wk):
        if queue:
            i = queue.pop(0)
            wk['busy'] = i
            os.write(wk['w'], ('%d\n' % i).encode())
        else:
            wk['busy'] = None
            os.write(wk['w'], b'-1\n')
    for wk in workers:
        give(wk)
    try:
        while alive:
            left = t0 + limit - time.time()
            if left <= 0:
                problems.append('time limit of %d s reached; unfinished: %s' % (
                    limit, [cases[wk['busy']][0] for wk in alive.values() if wk['busy'] is not None]))
                break
            rs, _, _ = select.select(list(alive), [], [], min(left, 5))
            for r in rs:
                wk = alive[r]
                b = os.read(r, 1 << 16)
                if not b:
                    del alive[r]
                    i = wk['busy']
                    wk['busy'] = None
                    if i is not None and i not in retried:
                        # (memory pressure, say) once more in a fresh worker
                        retried.add(i)
                        queue.insert(0, i)
                        new = start_worker()
                        alive[new['r']] = new
                        give(new)
                    elif i is not None:
                        problems.append('worker died on case %s' % cases[i][0])
                    continue
                wk['buf'] += b
                while b'\n' in wk['buf']:
                    line, wk['buf'] = wk['buf'].split(b'\n', 1)
                    res = json.loads(line.decode())
                    results.append(res)
                    if res['violation']:
                        violation = res['violation']
                    give(wk)
            if violation:
                break
    finally:
        for wk in workers:
            try:
                os.killpg(wk['pid'], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(wk['pid'], 0)
            except OSError:
                pass
    for r in results:
        problems.extend(r['problems'])
    if not violation and len(results) != len(cases) and not problems:
        problems.append('%d of %d cases finished' % (len(results), len(cases)))
    return finish(prop, tier, seed, t0, results, problems, violation, out, h, len(cases))


def worker(prop, tier, seed, cases, opts, rfd, wfd):
    import zlib
    from symlrvb.engine import Solver
    from symlrvb.runner import CaseRunner, Server
    solver = Solver()
    server = Server(prop, tier, seed)
    server.start()
    f = os.fdopen(rfd, 'r')
    while True:
        line = f.readline()
        if not line or int(line) < 0:
            break
        name, fn, params = cases[int(line)]
        t = time.time()
        try:
            o = dict(opts)
            cr = CaseRunner(prop, name, fn, params, solver, server, o,
                            seed * 7919 + zlib.crc32(name.encode()))
            cr.run()
            res = {'case': name, 'violation': cr.violation, 'problems': cr.problems,
                   'stats': cr.stats.asdict(), 'samples': cr.samples,
                   'functions': sorted(cr.functions), 'infeasible': cr.infeasible,
                   'unwitnessed': cr.unwitnessed, 'wall': time.time() - t}
        except Exception:
            res = {'case': name, 'violation': None,
                   'problems': ['%s: internal error: %s' % (name, traceback.format_exc()[-1500:])],
                   'stats': {}, 'samples': [], 'functions': [], 'infeasible': 0,
                   'unwitnessed': 0, 'wall': time.time() - t}
        os.write(wfd, (json.dumps(res, default=str) + '\n').encode())
    solver.kill()
    server.kill()


def finish(prop, tier, seed, t0, results, problems, violation, out, h=None, ncases=0):
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k == 'maxterms' else tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions']))
    samples = []
    for r in sorted(results, key=lambda r: r['case']):
        if r['samples'] and len(samples) < 6:
            samples.append(r['samples'][0])
    src = {}
    d = os.environ.get('LR_REPO', '/repo') + '/LinearResponseVariationalBayes'
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py') and not fn.startswith('test_'):
            src[fn] = hashlib.sha256(open(os.path.join(d, fn), 'rb').read()).hexdigest()[:16]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': tot.get('traces', 0),
            'samples': samples or [{'note': 'no case finished'}],
            'obligations': tot.get('obligations', 0),
            'discharged': tot.get('discharged', 0),
            'identical_normal_forms': tot.get('trivial', 0),
            'solver_queries': tot.get('queries', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 2),
            'solver_unknown': tot.get('unknown', 0),
            'cvc5_confirmed': tot.get('crosschecked', 0),
            'cases': len(results),
            'paths_infeasible': sum(r['infeasible'] for r in results),
            'paths_without_concrete_witness': sum(r['unwitnessed'] for r in results),
            'ill_conditioned_witnesses_replaced': tot.get('ill', 0),
            'largest_polynomial_terms': tot.get('maxterms', 0),
            'functions_encoded': funcs,
            'bounds': getattr(h, 'BOUNDS', {}) if h else {},
            'source_sha256': src,
            'case_seconds': {r['case']: round(r['wall'], 2) for r in sorted(results, key=lambda r: -r['wall'])[:12]},
            'explanation': 'states = execution paths explored symbolically, transitions = solver-decided branches on '
                           'them, obligations = scalar assertions handed to the solver (identical_normal_forms of '
                           'them had equal normal forms after encoding)',
        },
        'assumptions': list(getattr(h, 'ASSUMPTIONS', [])) + [
            'arithmetic over the reals (floating-point rounding and overflow outside the claim)',
            'numpy/scipy/autograd primitives behave as their symbolic counterparts in symlrvb/npsym.py '
            '(cross-checked by replaying a model of every path on the real stack)'] if h else [],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    decided = sum(1 for r in results if not r['problems'])
    ev['coverage']['cases_decided'] = decided
    ev['coverage']['cases_undecided'] = ncases - decided
    if problems:
        ev['coverage']['problems'] = problems[:20]
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rc = 0
    if violation:
        rd = os.path.join(evd, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1, sort_keys=True)
        ev['coverage']['violation'] = violation
        rc = 1
    elif problems and 2 * decided < ncases or not ncases:
        # too little was decided to say that the property held
        rc = 2
    with open(os.path.join(evd, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    out.write('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d queries (%.1f s solver), %d replays agree, %.1f s\n' % (
        prop, tier, len(results), tot.get('paths', 0), tot.get('discharged', 0), tot.get('obligations', 0),
        tot.get('queries', 0), tot.get('solver_s', 0.0), tot.get('traces', 0), time.time() - t0))
    if problems and rc != 2:
        out.write('%d of %d cases decided; not decided:\n' % (decided, ncases))
    for p in problems[:12]:
        out.write('%s %s\n' % ('INCONCLUSIVE' if rc == 2 else 'UNDECIDED', p if os.environ.get('LR_DEBUG') else (p if len(p) < 600 else p[:150] + ' ... ' + p[-400:]).replace('\n', ' | ')))
    if violation:
        out.write('%s: %s\n' % (violation['case'], violation['observed']))
        out.write('VIOLATION property=%s replay=%s\n' % (prop, path))
    out.flush()
    return rc


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout = open(os.devnull, 'w')
    os._exit(rc)
