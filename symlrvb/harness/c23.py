"""C23 regression"""
from .common import *

BOUNDS = {'sizes': 'batch shapes (), (2,), (2,2), (1,2); 1..3 observations, 1..2 regressors (also 3); extra replicate dimensions of the '
                   'response (2,), (3,), (2,2)',
          'values': 'all designs and responses, scalar or (per group) symmetric positive definite informations, all prior means and '
                    'symmetric positive definite prior informations'}
ASSUMPTIONS = ['the information recovered is non-singular']


def index(shape):
    out = [()]
    for n in shape:
        out = [i + (k,) for i in out for k in range(n)]
    return out


def batched(shape, f, core):
    out = np.zeros(tuple(shape) + tuple(core))
    for i in index(shape):
        out[i] = f(i)
    return out


def products(ctx, batch, s, r, t):
    RU = ctx.mod('regression_utils')
    a, b = ctx.reals('a', batch + (s, r)), ctx.reals('b', batch + (s, t))
    want = batched(batch, lambda i: np.dot(a[i].T, b[i]), (r, t))
    got = RU.mat_mul_last2dims(a, b)
    ctx.eq('matrix-matrix: shape', np.shape(got), batch + (r, t))
    ctx.eq('matrix-matrix', got, want)


def vector_products(ctx, batch, extra, s, r):
    RU = ctx.mod('regression_utils')
    a, y = ctx.reals('a', batch + (s, r)), ctx.reals('y', batch + extra + (s,))

    def one(i):
        t = np.zeros(r)
        for e in index(extra):
            t = t + np.dot(a[i].T, y[i + e])
        return t
    got = RU.matvec_mul_last2dims(a, y)
    ctx.eq('matrix-vector: shape', np.shape(got), batch + (r,))
    ctx.eq('matrix-vector', got, batched(batch, one, (r,)))


def informations(ctx, batch, s, kind, name='P'):
    """(argument, per-group matrix)"""
    if kind == 'scalar':
        v = ctx.reals(name, positive=True)
        return v, lambda i: v * np.eye(s)
    m = {}
    for i in index(batch):
        m[i] = ctx.posdef(name + ''.join(map(str, i)), s)
    return batched(batch, lambda i: m[i], (s, s)), lambda i: m[i]


def likelihood(ctx, batch, extra, s, r, kind):
    RU = ctx.mod('regression_utils')
    x, y = ctx.reals('x', batch + (s, r)), ctx.reals('y', batch + extra + (s,))
    arg, P = informations(ctx, batch, s, kind)
    n1, n2 = RU.get_nat_params_from_likelihood(y, x, arg)
    reps = size_of(extra)

    def one(i):
        t = np.zeros(r)
        for e in index(extra):
            t = t + np.dot(x[i].T, np.dot(P(i), y[i + e]))
        return t
    ctx.eq('linear parameter', n1, batched(batch, one, (r,)))
    ctx.eq('quadratic parameter', n2, batched(batch, lambda i: -reps / 2 * np.dot(x[i].T, np.dot(P(i), x[i])), (r, r)))
    # up to a constant these are the log likelihood at any coefficient vector
    b, c = ctx.vec('b', r), ctx.vec('c', r)
    for i in index(batch):
        ll = 0.0
        for e in index(extra):
            for sg, v in ((1, b), (-1, c)):
                d = y[i + e] - np.dot(x[i], v)
                ll = ll - 0.5 * sg * np.dot(d, np.dot(P(i), d))
        f = lambda v: np.dot(n1[i], v) + np.dot(v, np.dot(n2[i], v))
        ctx.eq('log likelihood of group %s' % (i,), f(b) - f(c), ll)


def prior(ctx, batch, r):
    RU = ctx.mod('regression_utils')
    m = ctx.reals('m', batch + (r,))
    arg, P = informations(ctx, batch, r, 'matrix')
    n1, n2 = RU.get_nat_params_from_prior(m, arg)
    ctx.eq('linear parameter', n1, batched(batch, lambda i: np.dot(P(i), m[i]), (r,)))
    ctx.eq('quadratic parameter', n2, batched(batch, lambda i: -0.5 * P(i), (r, r)))


def from_natural(ctx, batch, r):
    RU = ctx.mod('regression_utils')
    arg, P = informations(ctx, batch, r, 'matrix')
    n1 = ctx.reals('n1', batch + (r,))
    mean, info = RU.get_mvn_from_nat_params(n1, -0.5 * arg)
    ctx.eq('information', info, arg)
    for i in index(batch):
        ctx.eq('mean of group %s' % (i,), np.dot(P(i), mean[i]), n1[i])


def gram(ctx, P, x, s, r):
    return np.dot(x.T, np.dot(P, x))


def least_squares(ctx, batch, extra, s, r, kind):
    RU = ctx.mod('regression_utils')
    x, y = ctx.reals('x', batch + (s, r)), ctx.reals('y', batch + extra + (s,))
    arg, P = informations(ctx, batch, s, kind)
    for i in index(batch):
        ctx.assume(det_small(np.dot(x[i].T, np.dot(P(i), x[i]))) > 0)
    got = RU.get_regression_coefficients(y, x, arg)
    ctx.eq('shape', np.shape(got), batch + (r,))
    for i in index(batch):
        # the normal equations
        t = np.zeros(r)
        for e in index(extra):
            t = t + np.dot(x[i].T, np.dot(P(i), y[i + e] - np.dot(x[i], got[i])))
        ctx.eq('normal equations of group %s' % (i,), t, np.zeros(r), 1e-6)


def posterior(ctx, batch, extra, s, r, kind):
    RU = ctx.mod('regression_utils')
    x, y = ctx.reals('x', batch + (s, r)), ctx.reals('y', batch + extra + (s,))
    arg, P = informations(ctx, batch, s, kind)
    m = ctx.reals('m', batch + (r,))
    parg, Q = informations(ctx, batch, r, 'matrix', 'Q')
    reps = size_of(extra)
    # positive definite plus positive semidefinite
    mean, info = RU.get_posterior_regression_coefficients(y, x, arg, m, parg)
    ctx.eq('shapes', np.shape(mean) + np.shape(info), batch + (r,) + batch + (r, r))
    for i in index(batch):
        A = Q(i) + reps * np.dot(x[i].T, np.dot(P(i), x[i]))
        rhs = np.dot(Q(i), m[i])
        for e in index(extra):
            rhs = rhs + np.dot(x[i].T, np.dot(P(i), y[i + e]))
        ctx.eq('posterior information of group %s' % (i,), info[i], A)
        ctx.eq('posterior mean of group %s' % (i,), np.dot(A, mean[i]), rhs, 1e-6)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    q = tier == 'quick'
    B = [(), (2,), (2, 2), (1, 2)]
    for b in B:
        for s, r, t in ((2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
            out.append(('products %s %d %d %d' % (list(b), s, r, t), products, dict(batch=b, s=s, r=r, t=t)))
        for extra in ((), (2,), (3, 2)):
            for s, r in ((2, 2), (3, 1), (1, 2)):
                out.append(('vector products %s %s %d %d' % (list(b), list(extra), s, r), vector_products,
                            dict(batch=b, extra=extra, s=s, r=r)))
    small = [((), (), 3, 2), ((), (2,), 2, 2), ((2,), (), 2, 2), ((2,), (2,), 2, 1), ((2, 2), (), 2, 1), ((1, 2), (3,), 1, 1),
             ((2,), (2, 2), 2, 1), ((), (2, 3), 1, 1), ((), (2, 2), 2, 1)]
    if not q:
        small += [((2,), (3,), 3, 2), ((), (2, 2), 3, 2)]
    for b, e, s, r in small:
        for kind in ('scalar', 'matrix'):
            if r == 2 and s == 3 and kind == 'matrix':
                # the solver does not settle the non-singularity of the
                # posterior information at this size
                s = 2
            d = dict(batch=b, extra=e, s=s, r=r, kind=kind)
            n = '%s %s %d %d %s' % (list(b), list(e), s, r, kind)
            out.append(('likelihood ' + n, likelihood, d))
            if s >= r:
                out.append(('least squares ' + n, least_squares, d))
            out.append(('posterior ' + n, posterior, d))
    for b in B:
        for r in (1, 2, 3):
            if size_of(b) * r > 8:
                continue
            out.append(('prior %s %d' % (list(b), r), prior, dict(batch=b, r=r)))
            out.append(('from natural %s %d' % (list(b), r), from_natural, dict(batch=b, r=r)))
    return out


def COST(c):
    return size_of(c[2]['batch']) * c[2]['r'] ** 3 * (3 if c[2].get('kind') == 'matrix' else 1) * c[2].get('s', 1)
