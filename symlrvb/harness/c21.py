"""C21 expected log priors"""
from .common import *
from scipy import special as sps

BOUNDS = {'sizes': 'multivariate normals of dimension 1..3 (also 4), arrays (3,), (2,2); Dirichlet of 1..4 components; LKJ of size 1..3',
          'values': 'all prior parameters (positive definite, positive) and all moments; two arbitrary moment vectors compared, so constants '
                    'independent of the moments cancel'}
ASSUMPTIONS = ['digamma is uninterpreted']


def mvn(ctx, n):
    EF = ctx.mod('ExponentialFamilies')
    m, P = ctx.vec('m', n), ctx.symmetric('P', n)

    def want(e, C):
        # -1/2 sum_ij P_ij (E[x_i x_j] - m_i e_j - e_i m_j + m_i m_j)
        s = 0.0
        for i in range(n):
            for j in range(n):
                s = s - 0.5 * P[i, j] * (e[i] * e[j] + C[i, j] - m[i] * e[j] - e[i] * m[j] + m[i] * m[j])
        return s
    e1, e2 = ctx.vec('e', n), ctx.vec('f', n)
    C1, C2 = ctx.symmetric('C', n), ctx.symmetric('D', n)
    ctx.eq('difference of two moments', EF.mvn_prior(m, P, e1, C1) - EF.mvn_prior(m, P, e2, C2), want(e1, C1) - want(e2, C2))
    ctx.eq('scalar', np.shape(EF.mvn_prior(m, P, e1, C1)), ())


def mvn_param(ctx, n):
    """with the moments reported by a parameter"""
    EF = ctx.mod('ExponentialFamilies')
    p = ctx.vb.MVNParam('p', dim=n)
    m, P = ctx.vec('m', n), ctx.symmetric('P', n)
    vals = []
    for t in 'ab':
        mu, L = ctx.vec(t + 'm', n), ctx.chol(t + 'L', n)
        p['mean'].set(mu)
        p['info'].set(np.dot(L, L.T))
        C = p.cov()
        O = p.e_outer()
        s = 0.0
        for i in range(n):
            for j in range(n):
                s = s - 0.5 * P[i, j] * (O[i, j] - m[i] * mu[j] - mu[i] * m[j])
        vals.append((EF.mvn_prior(m, P, p.e(), C), s))
    ctx.eq('difference', vals[0][0] - vals[1][0] - (vals[0][1] - vals[1][1]), 0.0)


def univariate(ctx, shape):
    EF = ctx.mod('ExponentialFamilies')
    r = (lambda n: ctx.reals(n)) if shape == () else (lambda n: ctx.reals(n, shape))
    m, i = r('m'), ctx.reals('i', positive=True) if shape == () else ctx.reals('i', shape, positive=True)
    e1, v1, e2, v2 = r('e'), r('v'), r('f'), r('w')
    got = EF.uvn_prior(m, i, e1, v1) - EF.uvn_prior(m, i, e2, v2)
    w = lambda e, v: -i * (e * e + v) / 2 + i * m * e
    ctx.eq('difference of two moments', got, w(e1, v1) - w(e2, v2))
    # scalar prior, array of moments
    if shape != ():
        m0, i0 = ctx.reals('m0'), ctx.reals('i0', positive=True)
        got = EF.uvn_prior(m0, i0, e1, v1) - EF.uvn_prior(m0, i0, e2, v2)
        w = lambda e, v: -i0 * (e * e + v) / 2 + i0 * m0 * e
        ctx.eq('scalar prior', got, w(e1, v1) - w(e2, v2))


def gamma_exponential(ctx, shape):
    EF = ctx.mod('ExponentialFamilies')
    r = (lambda n, **k: ctx.reals(n, **k)) if shape == () else (lambda n, **k: ctx.reals(n, shape, **k))
    a, b = r('a', positive=True), r('b', positive=True)
    e1, l1, e2, l2 = r('e', positive=True), r('l'), r('f', positive=True), r('k')
    ctx.eq('gamma', EF.gamma_prior(a, b, e1, l1) - EF.gamma_prior(a, b, e2, l2), (a - 1) * (l1 - l2) - b * (e1 - e2))
    ctx.eq('exponential', EF.exponential_prior(b, e1) - EF.exponential_prior(b, e2), b * (e2 - e1))


def dirichlet(ctx, n):
    EF = ctx.mod('ExponentialFamilies')
    al = ctx.vec('al', n, positive=True)
    l1, l2 = ctx.vec('l', n), ctx.vec('k', n)
    want = 0.0
    for i in range(n):
        want = want + (al[i] - 1) * (l1[i] - l2[i])
    ctx.eq('difference', EF.dirichlet_prior(al, l1) - EF.dirichlet_prior(al, l2), want)
    # together with the moments of a parameter
    p = ctx.vb.DirichletParamArray('p', shape=(n,))
    b = ctx.vec('b', n, positive=True)
    p['alpha'].set(b)
    s = 0.0
    for i in range(n):
        s = s + b[i]
    want = 0.0
    for i in range(n):
        want = want + (al[i] - 1) * (sps.digamma(b[i]) - sps.digamma(s) - l2[i])
    ctx.eq('with the expected logarithm of a parameter', EF.dirichlet_prior(al, p.e_log()) - EF.dirichlet_prior(al, l2), want)


def lkj(ctx, n, cls):
    """(eta - 1) E log |R|, R the correlation matrix of the inverse"""
    EF = ctx.mod('ExponentialFamilies')
    eta = ctx.reals('eta', positive=True)

    def both(t):
        L = ctx.chol(t + 'L', n)
        V = np.dot(L, L.T)
        df = ctx.reals(t + 'df', positive=True, lo=0.3, hi=4.0) + (n - 1)
        if cls:
            p = ctx.mod('WishartParams').WishartParam('p', size=n)
            p['df'].set(df)
            p['v'].set(V)
            got = p.e_log_lkj_inv_prior(eta)
        else:
            got = EF.expected_ljk_prior(eta, df, V)
        e = 0.0
        det = 1.0
        for i in range(n):
            e = e - sps.digamma((df - i) / 2) - np.log(2.0) - 2 * np.log(L[i, i])
            det = det * L[i, i] ** 2
        for i in range(n):
            keep = [j for j in range(n) if j != i]
            m = det_small(V[keep, :][:, keep]) if n > 1 else 1.0
            # Sigma_ii is inverse gamma with shape (df-n+1)/2, scale (V^-1)_ii / 2
            e = e - (np.log(m / det / 2) - sps.digamma((df - n + 1) / 2))
        return got, (eta - 1) * e
    (g1, w1), (g2, w2) = both('a'), both('b')
    ctx.eq('difference of two Wishart distributions', np.reshape(np.array(g1 - g2 - (w1 - w2)), (1,)), np.zeros(1))


def natural(ctx, shape):
    EF = ctx.mod('ExponentialFamilies')
    e, s = (ctx.reals('e'), ctx.reals('s', positive=True)) if shape == () else (ctx.reals('e', shape), ctx.reals('s', shape, positive=True))
    mean, info = EF.get_uvn_from_natural_parameters(e, -s)
    # e x - s x^2 = -info/2 (x - mean)^2 + constant, for every x
    ctx.eq('information', info, 2 * s)
    ctx.eq('mean', mean * 2 * s, e)
    x = ctx.reals('x')
    lhs, rhs = e * x - s * x * x, -info / 2 * (x - mean) ** 2
    y = ctx.reals('y')
    ctx.eq('same density', lhs - rhs - ((e * y - s * y * y) + info / 2 * (y - mean) ** 2), 0 * e)


def log_density(ctx, shape):
    """the normal log density integrates to one: its constant matters"""
    M = ctx.mod('Modeling')
    if shape == ():
        u, m, i = ctx.reals('u'), ctx.reals('m'), ctx.reals('i', positive=True)
    else:
        u, m, i = ctx.reals('u', shape), ctx.reals('m', shape), ctx.reals('i', shape, positive=True)
    ctx.eq('log density', M.univariate_normal_log_prob(u, m, i), (np.log(i) - np.log(2 * np.pi) - i * (u - m) ** 2) / 2)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()):
        out.append(('mvn %d' % n, mvn, dict(n=n)))
    for n in (1, 2):
        out.append(('mvn parameter %d' % n, mvn_param, dict(n=n)))
    for sh in ((), (1,), (3,), (2, 2)) + (((7,), (2, 3), (1, 2, 2)) if tier != 'quick' else ()):
        out.append(('uvn %s' % list(sh), univariate, dict(shape=sh)))
        out.append(('gamma, exponential %s' % list(sh), gamma_exponential, dict(shape=sh)))
        out.append(('natural %s' % list(sh), natural, dict(shape=sh)))
        out.append(('log density %s' % list(sh), log_density, dict(shape=sh)))
    for n in (1, 2, 3, 4) + ((6, 9) if tier != 'quick' else ()):
        out.append(('Dirichlet %d' % n, dirichlet, dict(n=n)))
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        for cls in (False, True):
            out.append(('LKJ %d %s' % (n, cls), lkj, dict(n=n, cls=cls)))
    return out
