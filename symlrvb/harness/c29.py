"""C29 the evaluation log"""
from .common import *
from .objfun import quad_coef, quad
from .c28 import choose

BOUNDS = {'sizes': 'up to 4 (thorough 6) logged evaluations of points of 1..3 coordinates; print intervals 1..5; sequences of up to 3 '
                   '(thorough 4) objective calls of any kind',
          'restriction': 'with more than three coordinates times evaluations every point exceeds the previous one, most in its first coordinate',
          'values': 'all values and points (repeated ones included), all print intervals, all call kinds, all preconditioners'}
ASSUMPTIONS = []


def state(ctx, label, lg, vals, pts, tol=0):
    k = len(vals)
    ctx.eq(label + ': number of evaluations', lg.iter, k)
    ctx.eq(label + ': sizes', [len(lg.val_array), len(lg.x_array)], [k, k])
    ctx.eq(label + ': values', np.array([np.squeeze(v) for v in lg.val_array]), np.array([np.squeeze(v) for v in vals]), tol)
    for i in range(k):
        ctx.eq(label + ': point %d' % i, lg.x_array[i], pts[i], tol)
    if k:
        ctx.eq(label + ': latest value', np.squeeze(lg.value), np.squeeze(vals[-1]))
        ctx.eq(label + ': latest recorded value', np.squeeze(lg.last_value), np.squeeze(vals[-1]))
        ctx.eq(label + ': latest point', lg.x, pts[-1], tol)
        ctx.eq(label + ': latest recorded point', lg.last_x, pts[-1], tol)
    else:
        ctx.true(label + ': nothing', lg.value is None and lg.x is None and lg.last_value is None and lg.last_x is None)


def sequence(ctx, n, k, how, reuse):
    SO = ctx.mod('SparseObjectives')
    every = 1 + choose(ctx, 'every', 5) if how != 'default' else 1
    lg = SO.Logger() if how == 'default' else (SO.Logger(print_every=every) if how == 'constructor' else SO.Logger())
    if how == 'attribute':
        lg.print_every = every
    state(ctx, 'new', lg, [], [])
    shown = []
    lg.callback = lambda l: shown.append((l, np.squeeze(l.value), np.array(l.x)))
    V = [ctx.reals('v%d' % i) for i in range(k)]
    X = [ctx.vec('x%d' % i, n) for i in range(k)]
    if n * k > 3:
        # moves in the positive direction, most in the first coordinate
        for i in range(1, k):
            for j in range(n):
                ctx.assume(X[i][j] >= X[i - 1][j])
                if j:
                    ctx.assume(X[i][j] - X[i - 1][j] <= X[i][j - 1] - X[i - 1][j - 1])
    vals, pts = [], []
    buf = np.zeros(n)
    for i in range(k):
        if reuse:
            # the caller's array is used again for the next point
            for j in range(n):
                buf[j] = X[i][j]
            lg.log(V[i], buf)
        else:
            lg.log(V[i], np.array(X[i]))
        vals.append(V[i])
        pts.append(X[i])
        if i == 0 or i == k - 1 or not reuse:
            state(ctx, 'after %d' % (i + 1), lg, vals, pts)
    want = [i for i in range(k) if i % every == 0]
    ctx.eq('shown', len(shown), len(want))
    for (l, v, x), i in zip(shown, want):
        ctx.true('shown the log', l is lg)
        ctx.eq('shown value %d' % i, v, V[i])
        ctx.eq('shown point %d' % i, x, X[i])
    lg.initialize()
    state(ctx, 'initialized', lg, [], [])
    del shown[:]
    for i in range(k - 1, -1, -1):
        lg.log(V[i], np.array(X[i]))
    state(ctx, 'second log', lg, V[::-1], X[::-1])
    ctx.eq('shown again', len(shown), len(want))
    for (l, v, x), i in zip(shown, want):
        ctx.eq('shown again %d' % i, v, V[k - 1 - i])


def two_logs(ctx):
    """separate logs do not share anything"""
    SO = ctx.mod('SparseObjectives')
    a, b = SO.Logger(), SO.Logger(print_every=2)
    a.callback = b.callback = lambda l: None
    v, x = ctx.vec('v', 3), ctx.mat('x', 3, 2)
    a.log(v[0], np.array(x[0]))
    b.log(v[1], np.array(x[1]))
    a.log(v[2], np.array(x[2]))
    state(ctx, 'first', a, [v[0], v[2]], [x[0], x[2]])
    state(ctx, 'second', b, [v[1]], [x[1]])
    a.initialize()
    state(ctx, 'first emptied', a, [], [])
    state(ctx, 'second kept', b, [v[1]], [x[1]])


KINDS = ('free', 'free verbose', 'cond', 'cond verbose', 'vector', 'gradient', 'Hessian', 'product', 'cond gradient')


def calls(ctx, k, kinds, bounded, n):
    SO = ctx.mod('SparseObjectives')
    p = ctx.vb.VectorParam('p', n, lb=0.0) if bounded else ctx.vb.VectorParam('p', n)
    coef = quad_coef(ctx, 'q', n)
    obj = SO.Objective(p, lambda: quad(coef, p.get()))
    P = ctx.mat('P', n, n)
    obj.preconditioner = np.array(P)
    shown = []
    obj.logger.callback = lambda l: shown.append(np.squeeze(l.value))
    vals, pts = [], []
    for i in range(k):
        x = ctx.vec('x%d' % i, n, lo=-1.0, hi=1.0)
        kind = kinds[choose(ctx, 'kind%d' % i, len(kinds))]
        if kind == 'free':
            obj.fun_free(np.array(x))
        elif kind == 'free verbose':
            vals.append(obj.fun_free(np.array(x), verbose=True))
            pts.append(x)
        elif kind == 'cond':
            obj.fun_free_cond(np.array(x))
        elif kind == 'cond verbose':
            vals.append(obj.fun_free_cond(np.array(x), verbose=True))
            pts.append(np.dot(P, x))
        elif kind == 'vector':
            obj.fun_vector(np.array(x) ** 2)
        elif kind == 'gradient':
            obj.fun_free_grad(np.array(x))
        elif kind == 'Hessian':
            obj.fun_free_hessian(np.array(x))
        elif kind == 'product':
            obj.fun_free_hvp(np.array(x), np.ones(n))
        elif kind == 'cond gradient':
            obj.fun_free_grad_cond(np.array(x))
    state(ctx, 'log', obj.logger, vals, pts, 1e-9)
    ctx.eq('shown', len(shown), len(vals))
    for i in range(len(vals)):
        ctx.eq('value %d' % i, np.squeeze(vals[i]), np.squeeze(quad(coef, np.exp(pts[i]) if bounded else pts[i])))
    # a log of another objective is separate
    other = SO.Objective(p, lambda: quad(coef, p.get()))
    state(ctx, 'another objective', other.logger, [], [])


def cases(tier):
    out = []
    big = tier != 'quick'
    for how in ('default', 'constructor', 'attribute'):
        for n in (1, 2, 3):
            for k in range(1, 7 if big else 5):
                if n == 3 and k > 3:
                    continue
                for reuse in (False, True):
                    out.append(('sequence %s %d %d%s' % (how, n, k, ' reused' if reuse else ''), sequence,
                                dict(n=n, k=k, how=how, reuse=reuse)))
    out.append(('two logs', two_logs, {}))
    for bounded in (False, True):
        for n, k, kinds in [(1, 1, KINDS), (2, 1, KINDS), (1, 2, KINDS), (2, 2, KINDS[:4]), (1, 3, KINDS[:4])] + \
                ([(1, 4, KINDS[:4]), (1, 3, KINDS)] if big else []):
            out.append(('calls %d on %d %d kinds%s' % (k, n, len(kinds), ' bounded' if bounded else ''), calls,
                        dict(k=k, kinds=kinds, bounded=bounded, n=n)))
    return out


def COST(c):
    return len(c[2].get('kinds', ())) ** c[2].get('k', 1)
