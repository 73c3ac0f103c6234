"""C26 repeated optimization"""
from .common import *

BOUNDS = {'sizes': '1 coordinate with up to 3 runs (thorough 4), 2 coordinates with up to 2 runs (thorough 3), 3 coordinates with 1 run; with '
                   'three or more coordinates times runs the earlier runs are restricted to increasing points, decreasing values and '
                   'nonnegative gradients (thorough: unrestricted up to 4)',
          'values': 'all starting points, all points, values and gradients of every run, all tolerances (including exactly repeated '
                    'values)'}
ASSUMPTIONS = ['the objective takes arbitrary values and gradients at the visited points (equal ones at equal points) (what an arbitrary objective can show)',
               'changes exactly equal to a tolerance are left open', 'at least one run is allowed']


def same_point(ctx, a, b):
    if np.shape(a) != np.shape(b):
        return False
    if not ctx.symbolic:
        return bool(np.array_equal(a, b))
    from ..npsym import elems
    from ..poly import lift
    return all(not (lift(x) - lift(y)).t for x, y in zip(elems(a), elems(b)))


def all_of(l):
    out = l[0]
    for v in l[1:]:
        out = out & v
    return out


def any_of(l):
    out = l[0]
    for v in l[1:]:
        out = out | v
    return out


class Table(object):
    """an objective with arbitrary values and gradients at the given points"""

    def __init__(self, ctx, points, n):
        self.ctx = ctx
        self.points = points
        self.f = [ctx.reals('f%d' % i) for i in range(len(points))]
        self.g = [ctx.vec('g%d' % i, n) for i in range(len(points))]
        self.lost = 0
        self.seen = 0          # last point handed out so far
        for i in range(len(points)):
            for j in range(i):
                same = all_of([self.f[i] == self.f[j]] + [self.g[i][k] == self.g[j][k] for k in range(n)])
                ctx.assume(any_of([same] + [points[i][k] != points[j][k] for k in range(n)]))

    def where(self, x):
        for i in range(self.seen, -1, -1):
            if same_point(self.ctx, x, self.points[i]):
                return i
        self.lost += 1
        return 0

    def fun_free(self, x, *a, **k):
        return self.f[self.where(x)]

    def fun_free_grad(self, x, *a, **k):
        return np.array(self.g[self.where(x)])


def l1(v):
    s = 0.0
    for i in range(len(v)):
        s = s + abs(v[i])
    return s


def repeat(ctx, n, runs, initial, keep, defaults, signs):
    opt = ctx.mod('OptimizationUtils')
    total = runs + 1 + (1 if initial else 0)
    pts = [ctx.vec('x%d' % i, n) for i in range(total)]
    tab = Table(ctx, pts, n)
    calls = []

    def step(x):
        k = tab.where(x)
        calls.append(k)
        if k + 1 >= total:
            tab.lost += 1
            k = 0
        tab.seen = max(tab.seen, k + 1)
        return np.array(pts[k + 1]), ('result', k + 1)
    started = []

    def first(x):
        k = tab.where(x)
        started.append(k)
        tab.seen = max(tab.seen, k + 1)
        return np.array(pts[k + 1]), ('result', k + 1)
    if defaults:
        xt = ft = gt = 1e-8
        kw = {}
    else:
        xt, ft, gt = ctx.reals('xtol', positive=True), ctx.reals('ftol', positive=True), ctx.reals('gtol', positive=True)
        kw = dict(xtol=xt, ftol=ft, gtol=gt)
    b = 1 if initial else 0
    if signs:
        # the earlier runs move up
        for i in range(runs - 1):
            for j in range(n):
                ctx.assume(pts[b + i + 1][j] >= pts[b + i][j])
                ctx.assume(tab.g[b + i + 1][j] >= 0)
            ctx.assume(tab.f[b + i + 1] <= tab.f[b + i])
    if keep:
        kw['keep_intermediate_optimizations'] = True
    if initial:
        kw['initial_optimization_fun'] = first
    got = opt.repeatedly_optimize(tab, step, np.array(pts[0]), max_iter=runs, **kw)
    x, conv, xc, fc, gc, res, results = got
    ctx.eq('only reported points are evaluated', tab.lost, 0)
    ctx.eq('the initial run starts at the start', started, [0] if initial else [])
    ctx.eq('each run starts where the previous one ended', calls, [b + i for i in range(len(calls))])
    k = len(calls)
    ctx.true('number of runs', 1 <= k <= runs)
    ctx.eq('last point', x, pts[b + k])
    ctx.true('last result', res == ('result', b + k))
    X = [l1(pts[b + i + 1] - pts[b + i]) for i in range(k)]
    F = [abs(tab.f[b + i + 1] - tab.f[b + i]) for i in range(k)]
    G = [l1(tab.g[b + i + 1]) for i in range(k)]
    want = [('result', i) for i in range(1, b + k + 1)] if keep else []
    ctx.true('kept results', list(results) == want)
    for i in range(k - 1):
        ctx.true('run %d did not converge' % i, [X[i] >= xt, F[i] >= ft, G[i] >= gt])
    xc, fc, gc, conv = bool(xc), bool(fc), bool(gc), bool(conv)
    for label, flag, size, tol in (('point', xc, X, xt), ('value', fc, F, ft), ('gradient', gc, G, gt)):
        ctx.true(label + ' criterion', size[k - 1] <= tol if flag else size[k - 1] >= tol)
    ctx.true('converged', conv == (xc or fc or gc))
    if k < runs:
        ctx.true('stopped early only when converged', conv)


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
    if tier != 'quick':
        sizes += [(1, 4), (2, 3)]
    for n, runs in sizes:
        big = n * runs >= 3 and runs > 1
        full = n * runs == 1 or (tier != 'quick' and n * runs < 4)
        for initial, keep, d in (options() if full else [(False, True, False), (True, False, False)]):
            if initial and not full and n * runs >= 3:
                continue
            for signs in ((True, False) if big else (False,)):
                if big and not signs and (tier == 'quick' or n * runs > 4):
                    continue
                out.append(('%d coordinates %d runs%s%s%s%s' % (
                    n, runs, ' initial' if initial else '', ' keep' if keep else '', ' defaults' if d else '',
                    ' ordered' if signs else ''), repeat,
                    dict(n=n, runs=runs, initial=initial, keep=keep, defaults=d, signs=signs)))
    return out


def options():
    return [(i, k, d) for i in (False, True) for k in (False, True) for d in (False, True)]


def COST(c):
    return (c[2]['n'] * c[2]['runs']) ** 3 * (1 if c[2]['signs'] else 10)
