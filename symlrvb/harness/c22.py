"""C22 quadrature expectations"""
from .common import *

BOUNDS = {'arrays': 'means of shape (1,), (2,), (2,2), (1,2), (2,1,2); 1..3 nodes (also 4), arbitrary symbolic nodes and weights; targets of '
                    'shape (2,), (2,2)',
          'functions': 'a cubic with symbolic coefficients, exp, logistic; the log-logistic away from its underflow threshold (x > -100) and '
                       'below it'}


def gh(ctx, n):
    return ctx.vec('x', n), ctx.vec('w', n)


def oracle(shape, fun, means, sds, gx, gw):
    """sum_k w_k / sqrt(pi) f(mean + sqrt(2) sd x_k)"""
    out = []
    for m, s in zip(flat(means), flat(sds)):
        t = 0.0
        for k in range(len(gx)):
            t = t + gw[k] / np.sqrt(np.pi) * fun(m + np.sqrt(2) * s * gx[k])
        out.append(t)
    return np.reshape(np.array(out), shape)


def rule(ctx, shape, n, which):
    EF = ctx.mod('ExponentialFamilies')
    gx, gw = gh(ctx, n)
    m, s = ctx.reals('m', shape), ctx.reals('s', shape, positive=True)
    c = ctx.vec('c', 4)
    fun = {'cubic': lambda z: c[0] + c[1] * z + c[2] * z ** 2 + c[3] * z ** 3,
           'exp': lambda z: np.exp(z / 4), 'constant': lambda z: c[0] + 0 * z}[which]
    got = EF.get_e_fun_normal(m, 1 / s ** 2, gx, gw, fun)
    ctx.eq('shape', np.shape(got), shape)
    ctx.eq('weighted sum', got, oracle(shape, fun, m, s, gx, gw))


def logitnormal(ctx, shape, n):
    EF = ctx.mod('ExponentialFamilies')
    gx, gw = gh(ctx, n)
    m, s = ctx.reals('m', shape), ctx.reals('s', shape, positive=True)
    got = EF.get_e_logitnormal(m, 1 / s ** 2, gx, gw)
    ctx.eq('expected probability', got, oracle(shape, lambda z: 1 / (1 + np.exp(-z)), m, s, gx, gw))


def moderate(ctx, m, s, gx, lo=-100):
    for a, b in zip(flat(m), flat(s)):
        for k in range(len(gx)):
            ctx.assume(a + ctx.root(2) * b * gx[k] > lo)


def log_logitnormal(ctx, shape, n):
    """away from underflow, where log expit is -log(1 + exp(-x))"""
    EF = ctx.mod('ExponentialFamilies')
    gx, gw = gh(ctx, n)
    m, s = ctx.reals('m', shape), ctx.reals('s', shape, positive=True)
    moderate(ctx, m, s, gx)
    cap(ctx, m, s, gx)
    info = 1 / s ** 2
    a, b = EF.get_e_log_logitnormal(m, info, gx, gw)
    wa = oracle(shape, lambda z: -np.log(1 + np.exp(-z)), m, s, gx, gw)
    ctx.eq('expected log probability', a, wa)
    # log(1 - p) = log p - x, and the rule is exact for linear functions
    ctx.eq('expected log complement', b, wa - m)
    al = ctx.reals('al', positive=True)
    ctx.eq('Dirichlet-process prior', EF.get_e_dp_prior_logitnorm_approx(al, m, info, gx, gw), (al - 1) * (wa - m))


def cap(ctx, m, s, gx):
    """-log(1+exp(-x)) is above -1e16 for every x > -100: a fact about the
    logarithm that is stated to the solver"""
    for a, b in zip(flat(m), flat(s)):
        for k in range(len(gx)):
            ctx.assume(-np.log(1 + np.exp(-(a + ctx.root(2) * b * gx[k]))) > -1e15)


def underflow(ctx, n):
    """far below zero log expit(x) is replaced by x itself"""
    EF = ctx.mod('ExponentialFamilies')
    gx, gw = gh(ctx, n)
    d = ctx.reals('d', positive=True)
    m = np.array([-300.0 - d])
    s = np.array([1.0])
    for k in range(n):
        ctx.assume(gx[k] < 2)
        ctx.assume(gx[k] > -2)
    a, b = EF.get_e_log_logitnormal(m, 1 / s ** 2, gx, gw)
    ctx.eq('expected log probability', a, oracle((1,), lambda z: z, m, s, gx, gw))


def logistic_draws(ctx, shape, n):
    """the sampled logistic term"""
    M = ctx.mod('Modeling')
    y, zm, zs = ctx.reals('y', shape), ctx.reals('zm', shape), ctx.reals('zs', shape, positive=True)
    d = ctx.vec('d', n)
    got = M.get_e_logistic_term(y, zm, zs, d)
    want = 0.0
    for a, m, s in zip(flat(y), flat(zm), flat(zs)):
        want = want + a * m
        for k in range(n):
            want = want - np.log(1 + np.exp(m + s * d[k])) / n
    ctx.eq('expected log likelihood', got, want)


def logistic_gh(ctx, shape, n):
    M = ctx.mod('Modeling')
    zm, zs = ctx.reals('zm', shape), ctx.reals('zs', shape, positive=True)
    gx, gw = gh(ctx, n)
    want = oracle(shape, lambda z: np.log(1 + np.exp(z)), zm, zs, gx, gw)
    tot = 0.0
    for v in flat(want):
        tot = tot + v
    ctx.eq('separately', M.get_e_logistic_term_guass_hermite(zm, zs, gx, gw, aggregate_all=False), want)
    ctx.eq('in total', M.get_e_logistic_term_guass_hermite(zm, zs, gx, gw), tot)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def normal_density(ctx, shapes):
    su, sm, si = shapes
    u, m, i = ctx.reals('u', su), ctx.reals('m', sm), ctx.reals('i', si, positive=True)
    got = ctx.mod('Modeling').univariate_normal_log_prob(u, m, i)
    want = -i * (u - m) ** 2 / 2 + np.log(i) / 2 - np.log(2 * np.pi) / 2
    ctx.eq('log density', got, want)


def cases(tier):
    out = []
    for sh in [((), (), ()), ((3,), (3,), (3,)), ((2, 3), (2, 1), (2, 1)), ((4,), (), ()), ((2, 2), (2,), (2,))]:
        out.append(('normal log density %s' % (sh,), normal_density, dict(shapes=sh)))
    q = tier == 'quick'
    shapes = [(1,), (2,), (2, 2), (1, 2), (2, 1, 2)]
    for sh in shapes:
        for n in (1, 2, 3) + (() if q else (4, 5)):
            for which in ('cubic', 'exp', 'constant'):
                out.append(('rule %s %d %s' % (list(sh), n, which), rule, dict(shape=sh, n=n, which=which)))
            out.append(('logit-normal %s %d' % (list(sh), n), logitnormal, dict(shape=sh, n=n)))
            out.append(('logistic draws %s %d' % (list(sh), n), logistic_draws, dict(shape=sh, n=n)))
            out.append(('logistic quadrature %s %d' % (list(sh), n), logistic_gh, dict(shape=sh, n=n)))
    for sh, n in (((1,), 1), ((1,), 2), ((2,), 1), ((2,), 2), ((1, 2), 2)) + (() if q else (((2, 2), 2), ((2,), 3), ((1,), 4))):
        out.append(('log logit-normal %s %d' % (list(sh), n), log_logitnormal, dict(shape=sh, n=n)))
    if not q:
        # exact form of the code's underflow branch
        out.append(('underflow 1', underflow, dict(n=1)))
        out.append(('underflow 2', underflow, dict(n=2)))
    return out
