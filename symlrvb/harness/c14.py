"""C14 objectives of two parameters"""
from .objfun import *

BOUNDS = dict(SIZES, functions='bilinear-plus-quadratic functions with symbolic coefficients (all 2-jets of a function of two arguments), '
              'products of functions of the values; extra arguments symbolic')


def pairs(tier):
    V2 = Box('vector', (2,), 'lower')
    out = [(V2, Box('vector', (3,), 'none')), (Box('scalar', (1,), 'lower'), Simplex((1, 3))), (PosDef(2, True), Box('vector', (2,), 'both')),
           (Box('vector', (3,), 'none'), Box('scalar', (1,), 'both')),
           (Dict('d', [('a', Box('vector', (2,), 'lower')), ('b', Simplex((1, 2)))]), Box('array', (1, 2), 'upper'))]
    if tier != 'quick':
        out += [(plain2(), nested2()), (Simplex((2, 3)), PosDef(2, True)), (Subspace(3, 1), V2), (PosDefStack('vector', (2,), 1, True), Simplex((1, 3)))]
    return out


def make_two(ctx, s1, s2):
    return s1.make(ctx, name='p1'), s2.make(ctx, name='p2')


def point(ctx, spec, name, free):
    if free:
        return ctx.vec(name, spec.nfree, lo=-1.0, hi=1.0)
    if isinstance(spec, Box):
        q = spec.make(ctx)
        spec.set_legal(ctx, q, name)
        return flat(q.get())
    return ctx.vec(name, spec.nvec, positive=True)


def coefs(ctx, n, m):
    return quad_coef(ctx, 'q', n), quad_coef(ctx, 'r', m), ctx.mat('M', n, m)


def bilinear(c, u, v):
    return quad(c[0], u) + quad(c[1], v) + anp.dot(u, anp.dot(c[2], v)) + anp.dot(u, u) * anp.sum(v ** 3)


def setp(q, z, free):
    (q.set_free if free else q.set_vector)(z)


def partials(ctx, s1, s2, f1, f2, kind):
    p1, p2 = make_two(ctx, s1, s2)
    s1.set_legal(ctx, p1, 'h1')
    s2.set_legal(ctx, p2, 'h2')
    x, y = point(ctx, s1, 'x', f1), point(ctx, s2, 'y', f2)
    n, m = len(x), len(y)
    a, b = ctx.reals('a'), ctx.reals('b')
    if kind == 'bilinear':
        c = coefs(ctx, s1.nvec, s2.nvec)
        f = lambda q1, q2: bilinear(c, q1.get_vector(), q2.get_vector())
    else:
        f = lambda q1, q2: smooth(s1, q1) * (1 + smooth(s2, q2))
    seen = []

    def fun(s=1.0, t=0.0):
        seen.append((s, t))
        return s * f(p1, p2) + t
    obj = ctx.mod('SparseObjectives').TwoParameterObjective(p1, p2, fun)

    def g(u, v):
        q1, q2 = make_two(ctx, s1, s2)
        setp(q1, u, f1)
        setp(q2, v, f2)
        return f(q1, q2)
    wv = sq(g(x, y))
    w1 = np.reshape(ctx.diff1(lambda u: g(u, y), x), (n,))
    w2 = np.reshape(ctx.diff1(lambda v: g(x, v), y), (m,))
    w12 = np.reshape(ctx.diffmix(lambda u, v: sq(g(u, v)), x, y), (n, m))
    ctx.eq('value', sq(obj.eval_fun(x, y, f1, f2)) - wv, np.zeros(()))
    if f1 and f2:
        ctx.eq('value, unconstrained', sq(obj.fun_free(x, y)) - wv, np.zeros(()))
    if not f1 and not f2:
        ctx.eq('value, flat', sq(obj.fun_vector(x, y)) - wv, np.zeros(()))
    ctx.eq('first gradient', obj.fun_grad1(x, y, f1, f2) - w1, np.zeros(n), 1e-6)
    ctx.eq('second gradient', obj.fun_grad2(x, y, f1, f2) - w2, np.zeros(m), 1e-6)
    ctx.eq('values after the gradients', sq(f(p1, p2)) - wv, np.zeros(()))
    h12, h21 = methods(obj, f1, f2)
    zz = np.zeros((n, m))
    ctx.eq('shape of the mixed derivatives', np.shape(h12(x, y)), (n, m))
    ctx.eq('mixed derivatives', np.reshape(h12(x, y), (n, m)) - w12, zz, 1e-5)
    if h21 is not None:
        ctx.eq('mixed derivatives, transposed', np.reshape(h21(x, y), (m, n)) - w12.T, zz.T, 1e-5)
    ctx.eq('values after the mixed derivatives', sq(f(p1, p2)) - wv, np.zeros(()))
    # extra arguments
    if kind == 'bilinear':
        del seen[:]
        ctx.eq('first gradient, arguments', obj.fun_grad1(x, y, f1, f2, a, t=b) - a * w1, np.zeros(n), 1e-6)
        ctx.eq('second gradient, arguments', obj.fun_grad2(x, y, f1, f2, a, t=b) - a * w2, np.zeros(m), 1e-6)
        ctx.eq('mixed derivatives, arguments', np.reshape(h12(x, y, a, t=b), (n, m)) - a * w12, zz, 1e-5)
        if h21 is not None:
            ctx.eq('transposed, arguments', np.reshape(h21(x, y, a, t=b), (m, n)) - a * w12.T, zz.T, 1e-5)
        ctx.eq('value, arguments', sq(obj.eval_fun(x, y, f1, f2, a, t=b)) - (a * wv + b), np.zeros(()))
        if f1 and f2:
            ctx.eq('value, unconstrained, arguments', sq(obj.fun_free(x, y, a, b)) - (a * wv + b), np.zeros(()))
        if not f1 and not f2:
            ctx.eq('value, flat, arguments', sq(obj.fun_vector(x, y, s=a, t=b)) - (a * wv + b), np.zeros(()))
        ctx.eq('arguments received', [s for s, t in seen], [a] * len(seen))
        ctx.eq('keywords received', [t for s, t in seen], [b] * len(seen))


def methods(obj, f1, f2):
    if f1 and f2:
        return obj.fun_free_hessian12, obj.fun_free_hessian21
    if not f1 and not f2:
        return obj.fun_vector_hessian12, obj.fun_vector_hessian21
    if f1:
        return obj.fun_hessian_free1_vector2, None
    return obj.fun_hessian_vector1_free2, None


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s1, s2 in pairs(tier):
        for f1 in (True, False):
            for f2 in (True, False):
                for kind in ('bilinear', 'values'):
                    if kind == 'values' and tier == 'quick' and (s1.nvec + s2.nvec > 5):
                        continue
                    out.append(('%s x %s %s %s %s' % (s1, s2, 'free' if f1 else 'vector', 'free' if f2 else 'vector', kind),
                                partials, dict(s1=s1, s2=s2, f1=f1, f2=f2, kind=kind)))
    return out


def COST(c):
    return c[2]['s1'].nvec * c[2]['s2'].nvec
