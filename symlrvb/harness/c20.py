"""C20 gamma, Wishart, Dirichlet, beta and multinoulli quantities"""
from .common import *
from scipy import special as sps

BOUNDS = {'sizes': 'gamma scalars, vectors of 1..3 and (2,2) arrays; Wishart 1..3 (also 4); Dirichlet of 1..4 components, stacked in '
                   'arrays (k,), (k,2), (k,2,2), (k,1); beta with 1..3 rows; multinoulli up to (3,3)',
          'values': 'all positive parameters; Wishart degrees of freedom above size-1 (above size+1 for the expected inverse)'}
ASSUMPTIONS = ['digamma and log-gamma are uninterpreted functions related to nothing but equal arguments (the formulas hold for any such functions '
               'given the textbook formulas they are compared with)']


def psi(x):
    return sps.digamma(x)


def lg(x):
    return sps.gammaln(x)


def gamma(ctx, kind):
    EF = ctx.mod('ExponentialFamilies')
    sh = {'scalar': (), 'vector1': (1,), 'vector3': (3,), 'array': (2, 2)}[kind]
    if sh == ():
        a, b = ctx.reals('a', positive=True), ctx.reals('b', positive=True)
        A, B = [a], [b]
    else:
        a, b = ctx.reals('a', sh, positive=True), ctx.reals('b', sh, positive=True)
        A, B = list(flat(a)), list(flat(b))
    rs = lambda l: l[0] if sh == () else np.reshape(np.array(l), sh)
    ctx.eq('expected logarithm', EF.get_e_log_gamma(a, b), rs([psi(x) - np.log(y) for x, y in zip(A, B)]))
    want = 0.0
    for x, y in zip(A, B):
        want = want + x - np.log(y) + lg(x) + (1 - x) * psi(x)
    ctx.eq('entropy', EF.gamma_entropy(a, b), want)


def gamma_class(ctx, how):
    m1, m2 = minpar(ctx), minpar(ctx, 'mn2')
    p = ctx.vb.GammaParam('p', min_shape=m1, min_rate=m2)
    a, b = ctx.reals('a', positive=True) + m1, ctx.reals('b', positive=True) + m2
    p['shape'].set(a)
    p['rate'].set(b)
    if how == 'vector':
        p.set_vector(p.get_vector())
    if how == 'free':
        p.set_free(p.get_free())
    one = lambda x: np.reshape(np.array(x), (1,))
    ctx.eq('mean', one(p.e()), one(a / b))
    ctx.eq('expected logarithm', one(p.e_log()), one(psi(a) - np.log(b)))
    ctx.eq('entropy', one(p.entropy()), one(a - np.log(b) + lg(a) + (1 - a) * psi(a)))


def wishart(ctx, n, cls, how='set'):
    """textbook quantities in terms of the Cholesky factor of the scale"""
    EF = ctx.mod('ExponentialFamilies')
    L = ctx.chol('L', n)
    V = np.dot(L, L.T)
    df = ctx.reals('df', positive=True, lo=0.3, hi=4.0) + (n - 1)
    logdet = 0.0
    for i in range(n):
        logdet = logdet + 2 * np.log(L[i, i])
    mpsi, mlg = 0.0, n * (n - 1) / 4.0 * np.log(np.pi)
    for i in range(n):
        mpsi = mpsi + psi(df / 2 - i / 2.0)
        mlg = mlg + lg(df / 2 - i / 2.0)
    e_log_det = mpsi + n * np.log(2.0) + logdet
    # entropy = log normalizer - (df - n - 1)/2 E log det + df n / 2
    lognorm = df * n / 2 * np.log(2.0) + df / 2 * logdet + mlg
    ent = lognorm - (df - n - 1) / 2 * e_log_det + df * n / 2
    ctx.eq('multivariate digamma', EF.multivariate_digamma(df / 2, n), mpsi)
    ctx.eq('multivariate log-gamma', EF.multivariate_gammaln(df / 2, n), mlg)
    ctx.eq('expected log determinant', EF.e_log_det_wishart(df, V), e_log_det)
    ctx.eq('entropy', EF.wishart_entropy(df, V), ent)
    if not cls:
        return
    p = ctx.mod('WishartParams').WishartParam('p', size=n)
    p['df'].set(df)
    p['v'].set(V)
    if how == 'vector':
        p.set_vector(p.get_vector())
        df = df + np.zeros(1)
    one = lambda x: np.reshape(np.array(x), (1,))
    ctx.eq('parameter: mean', p.e(), df * V)
    ctx.eq('parameter: expected log determinant', one(p.e_log_det()), one(e_log_det))
    ctx.eq('parameter: entropy', one(p.entropy()), one(ent))


def wishart_inverse(ctx, n):
    L = ctx.chol('L', n)
    V = np.dot(L, L.T)
    p = ctx.mod('WishartParams').WishartParam('p', size=n)
    df = ctx.reals('df', positive=True, lo=0.3, hi=4.0) + (n + 1)
    p['df'].set(df)
    p['v'].set(V)
    E = p.e_inv()
    ctx.eq('shape', np.shape(E), (n, n))
    ctx.eq('expected inverse', np.dot(E, V) * (df - n - 1), np.eye(n))


def wishart_diag(ctx, n):
    """expected logarithm of the diagonal of the inverse"""
    EF = ctx.mod('ExponentialFamilies')
    L = ctx.chol('L', n)
    V = np.dot(L, L.T)
    df = ctx.reals('df', positive=True, lo=0.3, hi=4.0) + (n - 1)
    got = EF.e_log_inv_wishart_diag(df, V)
    # (V^-1)_ii = |V without i| / |V|
    want = []
    for i in range(n):
        keep = [j for j in range(n) if j != i]
        m = det_small(V[keep, :][:, keep]) if n > 1 else 1.0
        d = 1.0
        for j in range(n):
            d = d * L[j, j] ** 2
        want.append(np.log(m / d / 2) - psi((df - n + 1) / 2))
    ctx.eq('expected logarithms', got, np.array(want), 1e-7)


def dirichlet(ctx, shape, cls):
    EF = ctx.mod('ExponentialFamilies')
    if cls:
        fl = minpar(ctx)
        al = ctx.reals('al', shape, positive=True) + fl
        p = ctx.vb.DirichletParamArray('p', shape=shape, min_alpha=fl)
        p['alpha'].set(al)
        e, el, ent = p.e(), p.e_log(), p.entropy()
    else:
        al = ctx.reals('al', shape, positive=True)
        e, el, ent = EF.get_e_dirichlet(al), EF.get_e_log_dirichlet(al), EF.dirichlet_entropy(al)
    k = shape[0]
    rest = shape[1:]
    A = np.reshape(al, (k, -1))
    we, wl, wh = [], [], []
    for c in range(A.shape[1]):
        a = [A[i, c] for i in range(k)]
        s = 0.0
        for x in a:
            s = s + x
        we.append([x / s for x in a])
        wl.append([psi(x) - psi(s) for x in a])
        h = -lg(s) + (s - k) * psi(s)
        for x in a:
            h = h + lg(x) - (x - 1) * psi(x)
        wh.append(h)
    ctx.eq('mean', e, np.reshape(np.array(we).T, shape))
    ctx.eq('expected logarithm', el, np.reshape(np.array(wl).T, shape))
    ctx.eq('entropy', ent, np.reshape(np.array(wh), rest))


def beta(ctx, n):
    EF = ctx.mod('ExponentialFamilies')
    t = ctx.reals('t', (n, 2), positive=True)
    want = 0.0
    for i in range(n):
        a, b = t[i, 0], t[i, 1]
        want = want + lg(a) + lg(b) - lg(a + b) - (a - 1) * psi(a) - (b - 1) * psi(b) + (a + b - 2) * psi(a + b)
    ctx.eq('entropy', EF.beta_entropy(t), want)
    # the two-component Dirichlet
    d = EF.dirichlet_entropy(t.T)
    s = 0.0
    for i in range(n):
        s = s + d[i]
    ctx.eq('agrees with the Dirichlet', s, want)


def multinoulli(ctx, shape, how):
    EF = ctx.mod('ExponentialFamilies')
    p = np.array([ctx.simplex_row('p%d' % i, shape[1]) for i in range(shape[0])])
    if how == 'plain':
        fl, got = 0.0, EF.multinoulli_entropy(p, min_prob=0.0)
    elif how == 'floor':
        fl = ctx.reals('fl', positive=True)
        got = EF.multinoulli_entropy(p, min_prob=fl)
    else:
        fl, got = 1e-16, EF.multinoulli_entropy(p)
    want = []
    for i in range(shape[0]):
        s = 0.0
        for j in range(shape[1]):
            s = s - p[i, j] * np.log(p[i, j] + fl)
        want.append(s)
    ctx.eq('entropy', got, np.array(want))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for k in ('scalar', 'vector1', 'vector3', 'array'):
        out.append(('gamma %s' % k, gamma, dict(kind=k)))
    for h in ('set', 'vector', 'free'):
        out.append(('gamma parameter %s' % h, gamma_class, dict(how=h)))
    for n in (1, 2, 3) + ((4, 5) if tier != 'quick' else ()) + ((6,) if tier == 'deep' else ()):
        for cls in (False, True):
            out.append(('Wishart %d %s' % (n, cls), wishart, dict(n=n, cls=cls)))
        if n < 4:
            out.append(('Wishart %d vector' % n, wishart, dict(n=n, cls=True, how='vector')))
            out.append(('Wishart inverse %d' % n, wishart_inverse, dict(n=n)))
            out.append(('Wishart inverse diagonal %d' % n, wishart_diag, dict(n=n)))
    shapes = [(1, 1), (2,), (3,), (1,), (2, 2), (3, 2), (2, 3), (2, 2, 2), (4, 1)]
    if tier != 'quick':
        shapes += [(5,), (3, 2, 2), (2, 1, 2, 2), (8,), (6, 3), (2, 5)]
    if tier == 'deep':
        shapes += [(15,), (4, 4, 2), (1, 9)]
    for sh in shapes:
        for cls in (False, True):
            out.append(('Dirichlet %s %s' % (list(sh), cls), dirichlet, dict(shape=sh, cls=cls)))
    for n in (1, 2, 3) + ((7,) if tier != 'quick' else ()):
        out.append(('beta %d' % n, beta, dict(n=n)))
    for sh in [(1, 2), (2, 2), (2, 3), (3, 3), (1, 4)] + ([(6, 2), (2, 6)] if tier != 'quick' else []):
        for how in ('default', 'plain', 'floor'):
            out.append(('multinoulli %s %s' % (list(sh), how), multinoulli, dict(shape=sh, how=how)))
    for s in unfloored_specs():
        if not s.name.startswith(('UVN', 'MVN')):
            out.append(('default floor %s' % s, every_legal_value, dict(spec=s)))
    return out
