"""C11 objective values and derivatives"""
from .objfun import *

BOUNDS = dict(SIZES, functions='quadratics with symbolic coefficients (all 2-jets), functions of the values with exp/log, vector-valued '
              'functions of 2 components; extra positional and keyword arguments symbolic')


def point(ctx, spec, coords, p):
    """an arbitrary point in the coordinates, and the setter"""
    if coords == 'free':
        return ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    q = spec.make(ctx)
    spec.set_legal(ctx, q, 'x')
    if not isinstance(spec, (Dict, PosDef, PosDefStack, Simplex, Subspace)):
        return flat(q.get())      # the inputs themselves
    return ctx.vec('y', spec.nvec, positive=True)


def value_at(ctx, spec, coords, f):
    def g(z):
        q = spec.make(ctx)
        (q.set_free if coords == 'free' else q.set_vector)(z)
        return f(q)
    return g


def warm(obj, spec, *args):
    """evaluate everything at a fixed other point"""
    for coords, n in (('free', spec.nfree), ('vector', spec.nvec)):
        z = np.array([0.25 + 0.125 * i for i in range(n)])
        if coords == 'vector':
            z = z + 1
        for k in ('', '_grad', '_hessian', '_jacobian'):
            getattr(obj, 'fun_%s%s' % (coords, k))(z, *args)
        getattr(obj, 'fun_%s_hvp' % coords)(z, *(args + (np.ones(n),)))


def derivatives(ctx, spec, coords, kind):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    x = point(ctx, spec, coords, p)
    n = len(x)
    if kind == 'quadratic':
        coef = quad_coef(ctx, 'q', spec.nvec)
        f = lambda q: quad(coef, q.get_vector())
    else:
        f = lambda q: smooth(spec, q)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: f(p))
    g = value_at(ctx, spec, coords, f)
    w = ctx.vec('w', n)
    val, grad, hess, jac, hvp = (getattr(obj, 'fun_%s%s' % (coords, k)) for k in ('', '_grad', '_hessian', '_jacobian', '_hvp'))
    # evaluations elsewhere, in both coordinates, come first
    warm(obj, spec)
    wv, wg, wh = g(x), ctx.diff1(g, x), ctx.diff2(g, x)
    ctx.eq('value', sq(val(x) - wv), np.zeros(()))
    ctx.eq('gradient shape', np.shape(grad(x)), (n,))
    ctx.eq('gradient', grad(x) - np.reshape(wg, (n,)), np.zeros(n), 1e-6)
    wh = np.reshape(wh, (n, n))
    ctx.eq('Hessian', hess(x) - wh, np.zeros((n, n)), 1e-5)
    ctx.eq('Jacobian', np.reshape(jac(x), (n,)) - np.reshape(wg, (n,)), np.zeros(n), 1e-6)
    ctx.eq('Hessian-vector product', hvp(x, w) - np.dot(wh, w), np.zeros(n), 1e-5)
    # and again, in the other order, with evaluations elsewhere in between
    warm(obj, spec)
    ctx.eq('gradient again', grad(x) - np.reshape(wg, (n,)), np.zeros(n), 1e-6)
    ctx.eq('value again', sq(val(x) - wv), np.zeros(()))


def jacobian(ctx, spec, coords):
    """vector-valued functions"""
    p = spec.make(ctx)
    x = point(ctx, spec, coords, p)
    n = len(x)
    c1, c2 = quad_coef(ctx, 'q', spec.nvec), quad_coef(ctx, 'r', spec.nvec)

    def f(q):
        v = q.get_vector()
        return anp.array([quad(c1, v), quad(c2, v)])
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: f(p))
    want = ctx.diff1(value_at(ctx, spec, coords, f), x)
    J = getattr(obj, 'fun_%s_jacobian' % coords)(x)
    ctx.eq('Jacobian shape', np.shape(J), (2, n))
    ctx.eq('Jacobian', J - np.reshape(want, (2, n)), np.zeros((2, n)), 1e-6)


def arguments(ctx, spec, coords):
    """extra arguments reach the function unchanged"""
    p = spec.make(ctx)
    x = point(ctx, spec, coords, p)
    n = len(x)
    coef = quad_coef(ctx, 'q', spec.nvec)
    a, b, c = ctx.reals('a'), ctx.vec('b', 2), ctx.reals('c')
    seen = []

    def fun(s, t, shift=None, flag='unset', *more):
        seen.append((s, t, shift, flag) + more)
        v = p.get_vector()
        return s * quad(coef, v) + anp.sum(t * v[0]) * shift

    obj = ctx.mod('SparseObjectives').Objective(p, fun)
    w = ctx.vec('w', n)

    def sets(a, c):
        def f(q):
            v = q.get_vector()
            return a * quad(coef, v) + (b[0] + b[1]) * v[0] * c
        g = value_at(ctx, spec, coords, f)
        wg, wh = np.reshape(ctx.diff1(g, x), (n,)), np.reshape(ctx.diff2(g, x), (n, n))
        return {'': g(x), '_grad': wg, '_hessian': wh, '_jacobian': wg, '_hvp': np.dot(wh, w)}
    a2, c2 = ctx.reals('a2'), ctx.reals('c2')
    runs = [('', a, c, sets(a, c)), (', other keyword', a, c2, sets(a, c2)), (', other positional', a2, c2, sets(a2, c2))]
    for k in ('', '_grad', '_hessian', '_jacobian', '_hvp'):
        m = getattr(obj, 'fun_%s%s' % (coords, k))
        last = (w,) if k == '_hvp' else ()

        def check(label, got, want):
            d = np.reshape(np.array(got), np.shape(sq(want[k]))) - sq(want[k])
            ctx.eq(label + k, d, np.zeros(np.shape(d)), 1e-5)
        for tag, s, t, want in runs:
            del seen[:]
            check('with keywords' + tag, m(x, s, b, *last, shift=t, flag='on'), want)
            ctx.true('called' + tag + k, len(seen) > 0)
            for r in seen:
                ctx.true('arguments received' + k, r[1] is b and r[2] is t and r[3] == 'on' and len(r) == 4)
                ctx.eq('first argument' + k, r[0], s)
        for tag, s, t, want in runs:
            del seen[:]
            check('all keywords' + tag, m(x, *last, s=s, t=b, shift=t, flag='kw'), want)
            ctx.true('last keyword received' + k, len(seen) > 0 and seen[-1][3] == 'kw')
        for tag, s, t, want in runs:
            del seen[:]
            check('all positional' + tag, m(x, s, b, t, 'pos', *last), want)
            ctx.true('last positional received' + k, len(seen) > 0 and seen[-1][3] == 'pos')


def two_points(ctx, spec):
    """evaluations do not influence each other"""
    p = spec.make(ctx)
    x, y = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0), ctx.vec('y', spec.nfree, lo=-1.0, hi=1.0)
    coef = quad_coef(ctx, 'q', spec.nvec)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: quad(coef, p.get_vector()))
    fx, gx = obj.fun_free(x), obj.fun_free_grad(x)
    obj.fun_free_hessian(y)
    obj.fun_free(y)
    obj.fun_vector_grad(p.get_vector())
    ctx.eq('value', obj.fun_free(x) - fx, np.zeros(np.shape(fx)))
    ctx.eq('gradient', obj.fun_free_grad(x) - gx, np.zeros(np.shape(gx)))
    v = p.get_vector()
    ctx.eq('both coordinates agree', obj.fun_vector(v) - fx, np.zeros(np.shape(fx)))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s in obj_specs(tier):
        for coords in ('free', 'vector'):
            for kind in ('quadratic', 'values'):
                if kind == 'values' and coords == 'vector' and not isinstance(s, Box):
                    pass
                out.append(('derivatives %s %s %s' % (s, coords, kind), derivatives, dict(spec=s, coords=coords, kind=kind)))
            out.append(('jacobian %s %s' % (s, coords), jacobian, dict(spec=s, coords=coords)))
        out.append(('two points %s' % s, two_points, dict(spec=s)))
    for s in [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), PosDef(2, True), Dict('d', [('a', Box('vector', (2,), 'none')), ('b', Simplex((1, 2)))])]:
        for coords in ('free', 'vector'):
            out.append(('arguments %s %s' % (s, coords), arguments, dict(spec=s, coords=coords)))
    return out


def COST(c):
    s = c[2]['spec']
    return s.nvec * s.nfree * s.nfree
