"""C17 Taylor expansion of the optimum"""
from .sens import *

BOUNDS = {'orders': '1..4 (thorough 5)', 'dimensions': '1..2 inputs, 1..2 hyperparameters',
          'high orders': 'orders to 5 (thorough 6) and dimensions to 3 with the jets of degree 2 and 3 and the top monomials linear in the input',
          'objectives': 'polynomials around the base point with symbolic coefficients for every monomial up to degree order+1 (so every '
                        'jet, i.e. every smooth objective) in either coordinates; dense for one input, all monomials up to degree 3 beyond '
                        'that in two',
          'values': 'base point, direction, coefficients, bounds and supplied Hessian all symbolic'}
ASSUMPTIONS = ['the base Hessian (computed or supplied) is positive definite', 'the base point is stationary']


# ---- polynomials {exponents: coefficient} in the displacements

def monomials(nv, deg):
    if nv == 0:
        return [()]
    return [(d,) + m for d in range(deg + 1) for m in monomials(nv - 1, deg - d)]


def pdiff(p, i):
    out = {}
    for m, c in p.items():
        if m[i]:
            q = m[:i] + (m[i] - 1,) + m[i + 1:]
            out[q] = out.get(q, 0) + c * m[i]
    return out


def pdir(p, off, v):
    """directional derivative"""
    out = {}
    for i in range(len(v)):
        for m, c in pdiff(p, off + i).items():
            out[m] = out.get(m, 0) + c * v[i]
    return out


def pval(p, z):
    s = 0.0
    for m, c in p.items():
        t = c
        for zi, e in zip(z, m):
            if e:
                t = t * zi ** e
        s = s + t
    return s


def pat0(p, nv):
    return p.get((0,) * nv, 0.0)


# ---- truncated power series in t

def smul(a, b, K):
    out = [0.0] * (K + 1)
    for i in range(K + 1):
        for j in range(K + 1 - i):
            out[i + j] = out[i + j] + a[i] * b[j]
    return out


def sexp(a, K):
    """exp of a series with zero constant term"""
    out = [1.0] + [0.0] * K
    for k in range(1, K + 1):
        s = 0.0
        for j in range(1, k + 1):
            s = s + j * a[j] * out[k - j]
        out[k] = s / k
    return out


def pseries(p, z, K):
    out = [0.0] * (K + 1)
    for m, c in p.items():
        if any(e and _zero(zi) for zi, e in zip(z, m)):
            continue
        t = [c] + [0.0] * K
        for zi, e in zip(z, m):
            for _ in range(e):
                t = smul(t, zi, K)
        out = [a + b for a, b in zip(out, t)]
    return out


def _zero(s):
    return all(type(x) in (int, float) and x == 0 for x in s)


def fact(k):
    return 1 if k < 2 else k * fact(k - 1)


def coefficients(ctx, n, k, deg, full, tag='c'):
    """the objective: stationary at the base point; `full` degree for all
    monomials, up to degree 3 otherwise"""
    p = {}
    for m in monomials(n + k, deg):
        d = sum(m)
        if d == 0 or (d == 1 and sum(m[:n]) == 1):
            continue
        if full == 'sparse' and not (d == 2 or d == 3 and m[-1] < 3 or sum(m[:n]) == 1 and m[-1] == deg - 1):
            continue
        if not full and d > 3 and max(m) < d:
            continue
        if sum(m[:n]) == 2 and d == 2:
            continue
        p[m] = ctx.reals(tag + ''.join(str(i) for i in m))
    return p


def put_hessian(p, H, n, k):
    for i in range(n):
        for j in range(i, n):
            m = [0] * (n + k)
            m[i] += 1
            m[j] += 1
            p[tuple(m)] = H[i, j] / 2 if i == j else H[i, j]


def expansion(ctx, n, k, order, full, fin, fh, hess, split, bounded, what=None):
    si = Box('vector', (n,), 'lower' if bounded else 'none')
    sh = Box('vector', (k,), 'lower' if bounded else 'none')
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    x, h = point(ctx, si, 'x', fin), point(ctx, sh, 'e', fh)
    lb = ctx.reals('lb') if bounded else 0.0
    # displacement coordinates of the objective: flat ones
    sx = [anp.exp(x[i]) for i in range(n)] if (bounded and fin) else [1.0] * n
    sg = [anp.exp(h[i]) for i in range(k)] if (bounded and fh) else [1.0] * k
    v0 = [lb + sx[i] if (bounded and fin) else x[i] for i in range(n)]
    e0 = [lb + sg[i] if (bounded and fh) else h[i] for i in range(k)]
    p = coefficients(ctx, n, k, order + 1, full)
    Ht = ctx.posdef('H', n)          # Hessian in flat coordinates
    put_hessian(p, Ht, n, k)
    own = coefficients(ctx, n, 0, order + 1, full, 'own') if split else {}

    def joint(v, e):
        return pval(p, [v[i] - v0[i] for i in range(n)] + [e[i] - e0[i] for i in range(k)])

    def alone(v):
        return pval(own, [v[i] - v0[i] for i in range(n)]) if split else 0.0
    full_f = lambda: joint(pi.get_vector(), ph.get_vector()) + alone(pi.get_vector())
    kw = dict(input_is_free=fin, hyper_is_free=fh)
    if split:
        kw['hyper_par_objective_functor'] = lambda: joint(pi.get_vector(), ph.get_vector())
    # Hessian in the requested coordinates (stationary point)
    H = np.array([[Ht[i, j] * sx[i] * sx[j] for j in range(n)] for i in range(n)])
    if hess == 'given':
        H = ctx.posdef('Hg', n)
        kw['hess0'] = np.array(H)
    tot = dict(p)
    for m, c in own.items():
        m = m + (0,) * k
        tot[m] = tot.get(m, 0) + c
    dh = ctx.vec('d', k)
    T = ctx.mod('ModelSensitivity').ParametricSensitivityTaylorExpansion(full_f, pi, ph, x, h, order, **kw)
    got = [T.evaluate_dkinput_dhyperk(dh, j) for j in range(1, order + 1)]
    # oracle: coefficients of the gradient along the curve
    r = []
    for K in range(1, order + 1):
        z, w = curve(n, k, r, dh, sx, sg, bounded and fin, bounded and fh, K)
        res = []
        for i in range(n):
            s = pseries(pdiff(tot, i), z, K)
            if bounded and fin:
                s = smul(s, w[i], K)
            res.append(s[K] * fact(K))
        # H r_K + res = 0
        ctx.eq('derivative of order %d' % K, np.dot(H, got[K - 1]) + np.array(res), np.zeros(n), 1e-5)
        r.append(list(got[K - 1]))
    series = 0.0
    for j in range(order):
        series = series + got[j] / fact(j + 1)
        ctx.eq('series to order %d' % (j + 1), T.evaluate_taylor_series(dh, max_order=j + 1) - (x + series), np.zeros(n), 1e-6)
        ctx.eq('series to order %d without offset' % (j + 1), T.evaluate_taylor_series(dh, add_offset=False, max_order=j + 1) - series,
               np.zeros(n), 1e-6)
    ctx.eq('whole series', T.evaluate_taylor_series(dh) - (x + series), np.zeros(n), 1e-6)
    # other directions, and back
    d2 = ctx.vec('d2', k)
    T.evaluate_taylor_series(d2)
    for j in range(order):
        ctx.eq('derivative of order %d again' % (j + 1), T.evaluate_dkinput_dhyperk(dh, j + 1) - got[j], np.zeros(n), 1e-6)
    ctx.eq('base optimum', T.evaluate_taylor_series(np.zeros(k)), x)


def curve(n, k, r, dh, sx, sg, tx, tg, K):
    """series of the displacements in flat coordinates along the curve, and of
    the slope d flat / d unconstrained"""
    z, w = [], []
    for i in range(n):
        u = [0.0] + [r[j][i] / fact(j + 1) for j in range(len(r))]
        u = (u + [0.0] * (K + 1))[:K + 1]
        if tx:
            e = sexp(u, K)
            w.append([sx[i] * c for c in e])
            z.append([0.0] + [sx[i] * c for c in e[1:]])
        else:
            z.append(u)
            w.append(None)
    for i in range(k):
        u = ([0.0, dh[i]] + [0.0] * K)[:K + 1]
        if tg:
            e = sexp(u, K)
            z.append([0.0] + [sg[i] * c for c in e[1:]])
        else:
            z.append(u)
    return z, w


# ---- every kind of parameter: truncated series with one dual direction

class Ser(object):
    """a(t) + eps b(t), eps^2 = 0, truncated after t^K"""

    def __init__(self, a, b):
        self.a, self.b, self.K = a, b, len(a) - 1

    def _lift(self, o):
        if isinstance(o, Ser):
            return o
        return Ser([o] + [0.0] * self.K, [0.0] * (self.K + 1))

    def __add__(self, o):
        o = self._lift(o)
        return Ser([x + y for x, y in zip(self.a, o.a)], [x + y for x, y in zip(self.b, o.b)])

    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, Ser):
            return Ser([x * o for x in self.a], [x * o for x in self.b])
        K = self.K
        return Ser(smul(self.a, o.a, K), [x + y for x, y in zip(smul(self.a, o.b, K), smul(self.b, o.a, K))])

    __rmul__ = __mul__

    def exp(self):
        e0 = anp.exp(self.a[0])
        e = [e0 * c for c in sexp([0.0] + self.a[1:], self.K)]
        return Ser(e, smul(e, self.b, self.K))

    def recip(self):
        K = self.K
        r = [1.0 / self.a[0]]
        for k in range(1, K + 1):
            s = 0.0
            for j in range(1, k + 1):
                s = s + self.a[j] * r[k - j]
            r.append(-s * r[0])
        m = smul(smul(r, r, K), self.b, K)
        return Ser(r, [-c for c in m])


def box_map(ctx, s, u, lb, ub):
    out = []
    for x in u:
        if lb == -INF and ub == INF:
            out.append(x)
        elif ub == INF:
            out.append(x.exp() + lb)
        elif lb == -INF:
            out.append((x * -1.0).exp() * -1.0 + ub)
        else:
            e = x.exp()
            out.append((e * ub + lb) * (e + 1.0).recip())
    return out


def free_map(ctx, s, u):
    """the documented map from unconstrained to flat values"""
    if isinstance(s, Dict):
        out, i = [], 0
        for _, m in s.members:
            out += free_map(ctx, m, u[i:i + m.nfree])
            i += m.nfree
        return out
    if isinstance(s, LowBox):
        return box_map(ctx, s, u, *s._b(ctx))
    if isinstance(s, Box):
        return box_map(ctx, s, u, *bounds(ctx, s.bk))
    if isinstance(s, PosDefStack):
        return [v for i in range(s.len) for v in free_map(ctx, s.one, u[i * s.k:(i + 1) * s.k])]
    if isinstance(s, PosDef):
        n, L, k = s.n, {}, 0
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = u[k].exp() if i == j else u[k]
                k += 1
        out = []
        for i in range(n):
            for j in range(i + 1):
                t = L[i, 0] * L[j, 0]
                for l in range(1, j + 1):
                    t = t + L[i, l] * L[j, l]
                out.append(t + s.lb(ctx) if i == j else t)
        return out
    if isinstance(s, Simplex):
        out, m = [], s.shape[1] - 1
        for r in range(s.shape[0]):
            es = [x.exp() for x in u[r * m:(r + 1) * m]]
            t = es[0] + 1.0
            for e in es[1:]:
                t = t + e
            t = t.recip()
            out += [t] + [e * t for e in es]
        return out
    raise NotImplementedError(s.name)


def kinds(ctx, si, sh, order, fin, fh, hess):
    """inputs and hyperparameters of every kind"""
    n, k = si.nvec, sh.nvec
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    x, h = point(ctx, si, 'x', fin), point(ctx, sh, 'e', fh)
    nx, nh = len(x), len(h)
    p = {}
    one = lambda *ix: tuple(sum(1 for j in ix if j == i) for i in range(n + k))
    for i in range(n):
        for j in range(k):
            p[one(i, n + j)] = ctx.reals('m%d%d' % (i, j))
        p[one(i, i, i)] = ctx.reals('c%d' % i)
        p[one(i, (i + 1) % n, n)] = ctx.reals('q%d' % i)
        p[one(i, n + k - 1, n)] = ctx.reals('r%d' % i)
        if n > 1:
            p[one(i, i, (i + 1) % n)] = ctx.reals('s%d' % i)
    A = ctx.posdef('A', n)
    put_hessian(p, A, n, k)
    const = lambda u: [Ser([c], [0.0]) for c in u]
    v0 = [s.a[0] for s in free_map(ctx, si, const(x))] if fin else list(x)
    e0 = [s.a[0] for s in free_map(ctx, sh, const(h))] if fh else list(h)

    def f():
        v, e = pi.get_vector(), ph.get_vector()
        return pval(p, [v[i] - v0[i] for i in range(n)] + [e[i] - e0[i] for i in range(k)])
    kw = dict(input_is_free=fin, hyper_is_free=fh)
    jac = lambda u, K: [[s.b for s in free_map(ctx, si, [Ser(a, [1.0 * (i == j)] + [0.0] * K) for i, a in enumerate(u)])] for j in range(nx)]
    J0 = [[b[0] for b in r] for r in jac([[c] for c in x], 0)] if fin else [[1.0 * (i == j) for j in range(n)] for i in range(n)]
    H = np.dot(np.dot(np.array(J0), A), np.array(J0).T)
    if hess == 'given':
        H = ctx.posdef('Hg', nx)
        kw['hess0'] = np.array(H)
    dh = ctx.vec('d', nh)
    T = ctx.mod('ModelSensitivity').ParametricSensitivityTaylorExpansion(f, pi, ph, x, h, order, **kw)
    got = [T.evaluate_dkinput_dhyperk(dh, j) for j in range(1, order + 1)]
    r = []
    for K in range(1, order + 1):
        u = [([x[i]] + [r[j][i] / fact(j + 1) for j in range(len(r))] + [0.0] * K)[:K + 1] for i in range(nx)]
        g = [([h[i], dh[i]] + [0.0] * K)[:K + 1] for i in range(nh)]
        nul = [0.0] * (K + 1)
        z = [s.a for s in free_map(ctx, si, [Ser(a, nul) for a in u])] if fin else u
        y = [s.a for s in free_map(ctx, sh, [Ser(a, nul) for a in g])] if fh else g
        z = [[0.0] + s[1:] for s in z] + [[0.0] + s[1:] for s in y]
        dv = [pseries(pdiff(p, i), z, K) for i in range(n)]
        if fin:
            J = jac(u, K)
            res = []
            for j in range(nx):
                t = [0.0] * (K + 1)
                for i in range(n):
                    t = [a + b for a, b in zip(t, smul(dv[i], J[j][i], K))]
                res.append(t[K] * fact(K))
        else:
            res = [s[K] * fact(K) for s in dv]
        ctx.eq('derivative of order %d' % K, np.dot(H, got[K - 1]) + np.array(res), np.zeros(nx), 1e-5)
        r.append(list(got[K - 1]))
    series = 0.0
    for j in range(order):
        series = series + got[j] / fact(j + 1)
    ctx.eq('series', T.evaluate_taylor_series(dh) - (x + series), np.zeros(nx), 1e-6)
    ctx.eq('input left at the base point', pi.get_free() if fin else pi.get_vector(), x)
    ctx.eq('hyperparameter left at the base point', ph.get_free() if fh else ph.get_vector(), h)


def chain(ctx, n, k, order):
    """the module-level functions: each derivative feeds the next"""
    MS = ctx.mod('ModelSensitivity')
    x, h, d = ctx.vec('x', n), ctx.vec('e', k), ctx.vec('d', k)
    ps = grad_polys(ctx, n, k, min(order, 3))
    H = ctx.posdef('H', n)
    D = MS.generate_two_term_derivative_array(field(ps, x, h), order + 1)
    ts = MS.get_taylor_base_terms(D)
    r = []
    for K in range(1, order + 1):
        got = MS.evaluate_dketa_depsk(H, ts, x, h, d)
        z, w = curve(n, k, r, d, [1.0] * n, [1.0] * k, False, False, K)
        res = [pseries(p, z, K)[K] * fact(K) for p in ps]
        ctx.eq('derivative of order %d' % K, np.dot(H, got) + np.array(res), np.zeros(n), 1e-5)
        r.append(list(got))
        if K < order:
            ts = MS.differentiate_terms(H, ts)


def reorder(ctx, order, new):
    """changing the order afterwards"""
    si = sh = Box('vector', (1,), 'none')
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    x, h, d = ctx.vec('x', 1), ctx.vec('e', 1), ctx.vec('d', 1)
    p = coefficients(ctx, 1, 1, max(order, new) + 1, True)
    put_hessian(p, ctx.posdef('H', 1), 1, 1)
    f = lambda: pval(p, [pi.get_vector()[0] - x[0], ph.get_vector()[0] - h[0]])
    MS = ctx.mod('ModelSensitivity')
    T = MS.ParametricSensitivityTaylorExpansion(f, pi, ph, x, h, order)
    T.evaluate_taylor_series(d)
    T.set_order(new)
    U = MS.ParametricSensitivityTaylorExpansion(f, pi, ph, x, h, new)
    ctx.eq('series after changing the order', T.evaluate_taylor_series(d), U.evaluate_taylor_series(d))
    for k in range(1, new + 1):
        ctx.eq('derivative %d after changing the order' % k, T.evaluate_dkinput_dhyperk(d, k), U.evaluate_dkinput_dhyperk(d, k))
    ctx.raises('order above the declared one', ValueError, T.evaluate_dkinput_dhyperk, d, new + 1)
    ctx.raises('series above the declared order', ValueError, T.evaluate_taylor_series, d, max_order=new + 1)
    # a new base point
    y = ctx.vec('x2', 1)
    g = lambda: pval(p, [pi.get_vector()[0] - y[0], ph.get_vector()[0] - h[0]])
    W = MS.ParametricSensitivityTaylorExpansion(g, pi, ph, x, h, new, hess0=ctx.posdef('H2', 1))
    W.set_base_values(y, h)
    V = MS.ParametricSensitivityTaylorExpansion(g, pi, ph, y, h, new)
    ctx.eq('series at the new base', W.evaluate_taylor_series(d), V.evaluate_taylor_series(d))


def vecs(ctx, name, m, n):
    return [ctx.vec('%s%d' % (name, i), n) for i in range(m)]


def grad_polys(ctx, n, k, deg):
    """a vector field g(v, e) with symbolic Taylor coefficients"""
    return [dict((m, ctx.reals('g%d_%s' % (i, ''.join(map(str, m))))) for m in monomials(n + k, deg)) for i in range(n)]


def field(ps, x, h):
    def g(v, e, *more):
        z = [v[i] - x[i] for i in range(len(x))] + [e[i] - h[i] for i in range(len(h))]
        return anp.array([pval(p, z) for p in ps])
    return g


def jvps(ctx, n, k, order):
    """directional-derivative tables"""
    MS = ctx.mod('ModelSensitivity')
    x, h = ctx.vec('x', n), ctx.vec('e', k)
    ps = grad_polys(ctx, n, k, min(2 * order, 3))
    D = MS.generate_two_term_derivative_array(field(ps, x, h), order)
    V, W = vecs(ctx, 'v', order, n), vecs(ctx, 'w', order, k)
    for i in range(order):
        for j in range(order):
            qs = ps
            for v in V[:i]:
                qs = [pdir(q, 0, v) for q in qs]
            for w in W[:j]:
                qs = [pdir(q, n, w) for q in qs]
            want = np.array([pat0(q, n + k) + 0.0 * x[0] for q in qs])
            ctx.eq('derivative (%d, %d)' % (i, j), D[i][j](x, h, *(V[:i] + W[:j])) - want, np.zeros(n), 1e-6)


def terms(ctx, n, k):
    """merging like terms keeps the sum; one term of each pattern remains"""
    MS = ctx.mod('ModelSensitivity')
    x, h, d = ctx.vec('x', n), ctx.vec('e', k), ctx.vec('d', k)
    ps = grad_polys(ctx, n, k, 3)
    D = MS.generate_two_term_derivative_array(field(ps, x, h), 4)
    E1, E2 = ctx.vec('eta1', n), ctx.vec('eta2', n)
    ev = [lambda *a: E1, lambda *a: E2]
    pats = [(2, [0, 0]), (1, [1, 0]), (0, [2, 0]), (1, [1, 0]), (0, [0, 1]), (1, [1, 0]), (2, [0, 0]), (0, [2, 0]), (2, [0, 0]), (1, [1, 0])]
    for take in (3, 4, 6, 10):
        ts = [MS.DerivativeTerm(eo, list(et), ctx.reals('pre%d' % i), ev, D) for i, (eo, et) in enumerate(pats[:take])]
        cs = MS.consolidate_terms(ts)
        seen = [(t.eps_order, tuple(t.eta_orders)) for t in cs]
        ctx.true('%d terms: patterns once each' % take, sorted(set(seen)) == sorted(seen) and
                 set(seen) == set((a, tuple(b)) for a, b in pats[:take]))
        ctx.eq('%d terms: same sum' % take, MS.evaluate_terms(cs, x, h, d) - MS.evaluate_terms(ts, x, h, d), np.zeros(n), 1e-6)
        want = [0.0] * n
        for i, (eo, et) in enumerate(pats[:take]):
            qs = ps
            for o, e in zip(et, (E1, E2)):
                for _ in range(o):
                    qs = [pdir(q, 0, e) for q in qs]
            for _ in range(eo):
                qs = [pdir(q, n, d) for q in qs]
            want = [a + ctx.reals('pre%d' % i) * pat0(q, n + k) for a, q in zip(want, qs)]
        ctx.eq('%d terms: value' % take, MS.evaluate_terms(ts, x, h, d) - np.array(want), np.zeros(n), 1e-6)
        for t in cs:
            tot = 0.0
            for i, (eo, et) in enumerate(pats[:take]):
                if (eo, tuple(et)) == (t.eps_order, tuple(t.eta_orders)):
                    tot = tot + ctx.reals('pre%d' % i)
            ctx.eq('%d terms: prefactor of %s %s' % (take, t.eps_order, t.eta_orders), t.prefactor, tot)


def differentiate(ctx, n, k, order):
    """terms of order K: the K-th derivative of the gradient along any curve"""
    MS = ctx.mod('ModelSensitivity')
    x, h, d = ctx.vec('x', n), ctx.vec('e', k), ctx.vec('d', k)
    ps = grad_polys(ctx, n, k, min(order, 3))
    D = MS.generate_two_term_derivative_array(field(ps, x, h), order + 1)
    etas = vecs(ctx, 'eta', order, n)
    ts = MS.get_taylor_base_terms(D)
    # replace the derivatives of the optimum by arbitrary vectors
    hess = np.eye(n)
    for K in range(1, order + 1):
        evs = [(lambda e: (lambda *a: e))(e) for e in etas[:K]]
        for t in ts:
            t.eval_eta_derivs = list(evs)
        z, w = curve(n, k, [list(e) for e in etas[:K]], d, [1.0] * n, [1.0] * k, False, False, K)
        want = [pseries(p, z, K)[K] * fact(K) for p in ps]
        ctx.eq('terms of order %d' % K, MS.evaluate_terms(ts, x, h, d) - np.array(want), np.zeros(n), 1e-5)
        z, w = curve(n, k, [list(e) for e in etas[:K - 1]], d, [1.0] * n, [1.0] * k, False, False, K)
        rest = [pseries(p, z, K)[K] * fact(K) for p in ps]
        ctx.eq('terms of order %d without the highest' % K,
               MS.evaluate_terms(ts, x, h, d, include_highest_eta_order=False) - np.array(rest), np.zeros(n), 1e-5)
        if K < order:
            ts = MS.differentiate_terms(hess, ts)
            for t in ts:
                ctx.true('order %d' % (K + 1), t.order == K + 1)


def cases(tier):
    out = []
    q = tier == 'quick'
    dims = [(1, 1, 4, True), (1, 2, 3, True), (2, 1, 2, True), (2, 2, 2, True), (2, 1, 3, False)]
    if not q:
        dims += [(1, 1, 5, True), (2, 2, 3, False), (1, 2, 4, True)]
    for n, k, order, full in dims:
        for hess in ('computed', 'given'):
            for split in (False, True):
                for bounded in (False, True):
                    for fin, fh in ((True, False), (True, True), (False, False), (False, True)):
                        if not bounded and (fin, fh) not in ((True, False), (False, True)):
                            continue
                        o = order
                        if q and n * k == 1 and (hess == 'given' or (split and not fin)):
                            o = 3
                        if bounded:
                            o = min(order, 3 if n * k == 1 else 2)
                        out.append(('n%d k%d order%d %s%s %s %s%s' % (n, k, o, hess, ' split' if split else '',
                                                                     'free' if fin else 'vector', 'free' if fh else 'vector',
                                                                     ' bounded' if bounded else ''), expansion,
                                    dict(n=n, k=k, order=o, full=full, fin=fin, fh=fh, hess=hess, split=split, bounded=bounded)))
    seen = set()
    out = [c for c in out if not (c[0] in seen or seen.add(c[0]))]
    for n, k, o in ((1, 1, 5), (2, 1, 4), (1, 2, 4), (3, 1, 2), (3, 1, 3), (2, 3, 2), (1, 3, 3)) + (() if q else ((1, 1, 6), (2, 1, 5), (3, 2, 3))):
        out.append(('high order n%d k%d order%d' % (n, k, o), expansion,
                    dict(n=n, k=k, order=o, full='sparse', fin=True, fh=False, hess='given' if o % 2 else 'computed', split=o == 6, bounded=False)))
    out.append(('order 1', expansion, dict(n=2, k=2, order=1, full=True, fin=True, fh=False, hess='computed', split=False, bounded=True)))
    B = Box
    none1, low1, none2 = B('vector', (1,), 'none'), B('scalar', (1,), 'lower'), B('vector', (2,), 'none')
    ks = [(B('scalar', (1,), 'upper'), none1, 3, 'computed'), (B('scalar', (1,), 'both'), low1, 3, 'computed'),
          (B('vector', (2,), 'both'), none1, 2, 'computed'), (B('array', (2, 1), 'upper'), low1, 2, 'computed'),
          (PosDef(1, True), PosDef(1, False), 3, 'computed'), (PosDef(2, False), none1, 2, 'given'),
          (PosDefStack('vector', (2,), 1, True), none1, 2, 'computed'), (PosDefStack('array', (2,), 1, False), B('scalar', (1,), 'both'), 2, 'given'),
          (Simplex((1, 2)), none1, 3, 'computed'), (Simplex((2, 2)), low1, 2, 'given'), (Simplex((1, 3)), none1, 2, 'given'),
          (none1, PosDef(2, True), 2, 'computed'), (none1, Simplex((1, 3)), 2, 'computed'),
          (Dict('dict', [('a', low1), ('b', PosDef(1, False))]), Dict('dict2', [('a', none1), ('b', B('scalar', (1,), 'upper'))]), 2, 'computed'),
          (Dict('nested', [('s', Simplex((1, 2))), ('d', Dict('in', [('v', none1)]))]), none1, 2, 'given')]
    if not q:
        ks += [(PosDef(2, True), PosDef(2, False), 2, 'given'), (PosDefStack('array', (1, 2), 2, True), none1, 2, 'given'),
               (Simplex((2, 3)), none2, 2, 'given'), (B('array', (2, 2), 'both'), none1, 2, 'given')]
    for si, sh, o, hess in ks:
        for fin, fh in ((True, False), (False, True), (True, True), (False, False)):
            if q and o * si.nvec > 4 and (fin, fh) == (False, False):
                continue
            out.append(('kinds %s by %s order %d %s %s%s' % (si, sh, o, hess, 'free' if fin else 'vector', ' free' if fh else ''), kinds,
                        dict(si=si, sh=sh, order=o, fin=fin, fh=fh, hess=hess)))
    for n, k, o in ((1, 1, 4), (2, 1, 3), (1, 2, 3), (1, 1, 5)) + (() if q else ((2, 2, 3), (1, 1, 6))):
        out.append(('chain n%d k%d order %d' % (n, k, o), chain, dict(n=n, k=k, order=o)))
    for a, b in ((1, 3), (3, 2)):
        out.append(('reorder %d %d' % (a, b), reorder, dict(order=a, new=b)))
    for n, k, o in ((1, 1, 3), (2, 1, 3), (1, 2, 2), (2, 2, 2)) + (() if q else ((2, 2, 3), (1, 1, 4))):
        out.append(('directional derivatives n%d k%d order %d' % (n, k, o), jvps, dict(n=n, k=k, order=o)))
    for n, k in ((1, 1), (2, 1), (1, 2)):
        out.append(('terms n%d k%d' % (n, k), terms, dict(n=n, k=k)))
    for n, k, o in ((1, 1, 4), (2, 1, 3), (1, 2, 3), (1, 1, 5)) + (() if q else ((2, 2, 3), (1, 1, 6))):
        out.append(('differentiate n%d k%d order %d' % (n, k, o), differentiate, dict(n=n, k=k, order=o)))
    return out


def COST(c):
    d = c[2]
    return (d.get('n', 1) * d.get('k', 1)) ** d.get('order', 1) + d.get('order', 1)
