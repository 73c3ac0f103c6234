"""C32 results do not depend on what was evaluated before"""
from .convs import *
from .sens import setup, assume_posdef, coords_of
from .c14 import make_two, methods, setp, point, pairs
from .c31 import functions, Tagged, csr
from . import c27

BOUNDS = dict(SIZES, histories='one or two arbitrary earlier calls of every kind (points, vectors, extra arguments, preconditioners and '
              'parameter settings arbitrary, in particular equal or arbitrarily close to the later ones), on the same or on another '
              'object, with the same array used again, or with the data of the objective changed in between; then every method')
ASSUMPTIONS = ['optimizers, conjugate-gradient and Cholesky solvers are replaced by stubs']


def same(ctx, label, got, want, tol=1e-10):
    """exactly the same numbers"""
    if isinstance(want, (list, tuple)):
        ctx.eq(label + ': number of results', len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            same(ctx, '%s [%d]' % (label, i), a, b, tol)
        return
    a, b = np.array(dense(got)), np.array(dense(want))
    ctx.eq(label + ': shape', np.shape(a), np.shape(b))
    if np.shape(a) == np.shape(b):
        ctx.eq(label, a - b, np.zeros(np.shape(b)), tol)


# ------------------------------------------------------------------ objectives

class Model(object):
    """a parameter and an objective that also reads the data c"""

    def __init__(self, ctx, spec, c, other=0):
        self.spec, self.c = spec, c
        self.p = spec.make(ctx)
        spec.set_legal(ctx, self.p, 'held')
        self.obj = ctx.mod('SparseObjectives').Objective(self.p, self.fun)
        self.other = other

    def fun(self, s=1.0, t=0.0):
        v = self.p.get_vector()
        return s * (self.c[0] * anp.sum(v ** 3) + (self.c[0] + self.other) * anp.sum(v) ** 2 + anp.sum(v)) + t


class Args(object):
    """everything one call can need"""

    def __init__(self, ctx, spec, tag, A):
        self.free = point(ctx, spec, tag + 'x', True)
        self.vector = point(ctx, spec, tag + 'y', False)
        self.w = {'free': ctx.vec(tag + 'w', spec.nfree), 'vector': ctx.vec(tag + 'wv', spec.nvec)}
        self.s, self.t = ctx.reals(tag + 's'), ctx.reals(tag + 't')
        self.A = A


def ops(spec):
    out = []
    for c in ('free', 'vector'):
        for k in ('', '_grad', '_hessian', '_jacobian'):
            out.append((c + k, lambda m, a, c=c, k=k: getattr(m.obj, 'fun_%s%s' % (c, k))(getattr(a, c), a.s, t=a.t)))
        out.append((c + '_hvp', lambda m, a, c=c: getattr(m.obj, 'fun_%s_hvp' % c)(getattr(a, c), a.s, a.t, a.w[c])))

    def cond(k):
        def f(m, a):
            m.obj.preconditioner = a.A
            g = getattr(m.obj, 'fun_free%s_cond' % k)
            return g(a.free, a.s, a.t, a.w['free']) if k == '_hvp' else g(a.free, a.s, t=a.t)
        return f
    for k in ('', '_grad', '_hessian', '_hvp'):
        out.append(('cond' + k, cond(k)))
    return out


def quiet_ops(spec):
    """steps that only belong to histories"""
    return [('set_free', lambda m, a: m.p.set_free(a.free)), ('set_vector', lambda m, a: m.p.set_vector(a.vector)),
            ('verbose', lambda m, a: m.obj.fun_free(a.free, a.s, a.t, verbose=True)),
            ('jac', lambda m, a: m.p.free_to_vector_jac(a.free)), ('precondition', lambda m, a: setattr(m.obj, 'preconditioner', a.A))]


def matrices(ctx, spec):
    A, B = ctx.mat('A', spec.nfree, spec.nfree), ctx.mat('B', spec.nfree, spec.nfree)
    return A, B


def targets(ctx, spec, m, a, c, only=None, label=''):
    for name, op in ops(spec):
        if only is not None and name not in only:
            continue
        got = op(m, a)
        ref = Model(ctx, spec, c)
        same(ctx, '%s%s' % (label, name), got, op(ref, a))


def objective_pair(ctx, spec, first):
    """one earlier call, then each method"""
    A, B = matrices(ctx, spec)
    c = [ctx.reals('c')]
    b, a = Args(ctx, spec, 'before ', A), Args(ctx, spec, '', B)
    hist = dict(ops(spec) + quiet_ops(spec))[first]
    for name, op in ops(spec):
        m = Model(ctx, spec, c)
        hist(m, b)
        got = op(m, a)
        same(ctx, name, got, op(Model(ctx, spec, c), a))


def objective_all(ctx, spec, how):
    """every method, then every method elsewhere"""
    A, B = matrices(ctx, spec)
    c = [ctx.reals('c')]
    b, a = Args(ctx, spec, 'before ', A), Args(ctx, spec, '', B)
    m = Model(ctx, spec, c)
    h = Model(ctx, spec, c, ctx.reals('other')) if how == 'other object' else m
    for name, op in ops(spec) + quiet_ops(spec):
        op(h, b)
    if how == 'same array':
        # the caller's arrays are overwritten with the next point
        for k in ('free', 'vector'):
            buf = getattr(b, k)
            buf[...] = getattr(a, k)
            setattr(a, k, buf)
            b.w[k][...] = a.w[k]
            a.w[k] = b.w[k]
        b.A[...] = a.A
        a.A = b.A
    elif how == 'same point':
        a.free, a.vector = b.free, b.vector
    elif how == 'same point, data changed':
        a = b
        c[0] = ctx.reals('c2')
    targets(ctx, spec, m, a, c)


def objective_twice(ctx, spec, how):
    """each method right after itself"""
    A, B = matrices(ctx, spec)
    c0, c2 = ctx.reals('c'), ctx.reals('c2')
    b0, a0 = Args(ctx, spec, 'before ', A), Args(ctx, spec, '', B)

    def dup(z):
        r = Args.__new__(Args)
        r.free, r.vector, r.A = np.array(z.free), np.array(z.vector), np.array(z.A)
        r.w = dict((k, np.array(v)) for k, v in z.w.items())
        r.s, r.t = z.s, z.t
        return r
    for name, op in ops(spec):
        c = [c0]
        m = Model(ctx, spec, c)
        b, a = dup(b0), dup(a0)
        op(m, b)
        if how == 'same array':
            for k in ('free', 'vector'):
                getattr(b, k)[...] = getattr(a, k)
                b.w[k][...] = a.w[k]
            b.A[...] = a.A
            want = a
        elif how == 'matrix only':
            b.A[...] = a.A
            want = dup(b)
        elif how == 'vector only':
            for k in b.w:
                b.w[k][...] = a.w[k]
            want = dup(b)
        elif how == 'point only':
            for k in ('free', 'vector'):
                getattr(b, k)[...] = getattr(a, k)
            want = dup(b)
        elif how == 'argument only':
            b.s, b.t = a.s, a.t
            want = dup(b)
        else:
            c[0] = c2
            want = b
        want.s, want.t = b.s, b.t
        same(ctx, name, op(m, b), op(Model(ctx, spec, c), want))


# ------------------------------------------------- two parameters, conversions

def two(ctx, s1, s2, f1, f2, how):
    SO = ctx.mod('SparseObjectives')
    c = [ctx.reals('c')]

    def make():
        p1, p2 = make_two(ctx, s1, s2)
        s1.set_legal(ctx, p1, 'h1')
        s2.set_legal(ctx, p2, 'h2')

        def fun(s=1.0):
            u, v = p1.get_vector(), p2.get_vector()
            return s * (c[0] * anp.sum(u ** 2) * anp.sum(v ** 2) + anp.sum(u) ** 3 + anp.sum(u) * anp.sum(v))
        return SO.TwoParameterObjective(p1, p2, fun)
    pts = [(point(ctx, s1, t + 'x', f1), point(ctx, s2, t + 'y', f2), ctx.reals(t + 's')) for t in ('before ', '')]

    def ms(obj):
        h12, h21 = methods(obj, f1, f2)
        out = [('value', lambda a, b, s: obj.eval_fun(a, b, f1, f2, s)), ('first gradient', lambda a, b, s: obj.fun_grad1(a, b, f1, f2, s)),
               ('second gradient', lambda a, b, s: obj.fun_grad2(a, b, f1, f2, s)), ('mixed', h12)]
        return out + ([('transposed', h21)] if h21 is not None else [])
    (u, v, s), (x, y, r) = pts
    c0, c2 = c[0], ctx.reals('c2')
    for i in range(len(ms(make()))):
        # each method right after itself, and after all the others
        c[0] = c0
        obj = make()
        u1, v1, x1, y1, r1 = np.array(u), np.array(v), x, y, r
        if i == 0:
            for label, m in ms(obj):
                m(u1, v1, s)
        ms(obj)[i][1](u1, v1, s)
        if how == 'same arrays':
            u1[...], v1[...] = x, y
            x1, y1, r1 = u1, v1, s
        elif how == 'data changed':
            x1, y1, r1 = u1, v1, s
            c[0] = c2
        elif how == 'first kept':
            x1, r1 = u1, s
        elif how == 'second kept':
            y1, r1 = v1, s
        label, m = ms(obj)[i]
        same(ctx, label, m(x1, y1, r1), ms(make())[i][1](x1, y1, r1))


def convert(ctx, conv, fin, fout, how):
    name, si, so, f = conv
    scale = [ctx.reals('scale')]

    def make():
        pi, po = si.make(ctx, name='in'), so.make(ctx, name='out')
        si.set_legal(ctx, pi, 'hi')
        so.set_legal(ctx, po, 'ho')

        def conversion():
            f(ctx, pi, po)
            if not isinstance(so, (Dict, Simplex, PosDef)):
                po.set_free(scale[0] * po.get_free())
        return pi, po, ctx.mod('SparseObjectives').ParameterConverter(pi, po, conversion)
    a, b = 'free' if fin else 'vec', 'free' if fout else 'vec'

    def pt(nm):
        if fin:
            return ctx.vec(nm, si.nfree, lo=-1.0, hi=1.0)
        q = si.make(ctx)
        si.set_legal(ctx, q, nm)
        return np.array(q.get_vector())
    x0, y0 = pt('x'), pt('before')
    s0, s2 = scale[0], ctx.reals('scale2')
    for k in ('converter_%s_to_%s', '%s_to_%s_jacobian'):
        scale[0] = s0
        x, y = x0, np.array(y0)
        pi, po, PC = make()
        for which in (('free', 'vec') if fin else ('vec',)):
            getattr(PC, 'converter_%s_to_%s' % (a, which))(y)
            getattr(PC, '%s_to_%s_jacobian' % (a, which))(y)
        getattr(PC, k % (a, b))(y)
        if how == 'parameters moved':
            so.set_legal(ctx, po, 'moved')
            si.set_legal(ctx, pi, 'moved in')
        elif how == 'same array':
            y[...] = x
            x = y
        elif how == 'data changed':
            x = y
            scale[0] = s2
        got = getattr(PC, k % (a, b))(x)
        same(ctx, k % (a, b), got, getattr(make()[2], k % (a, b))(x))


# ------------------------------------------------------------------ sensitivity

def sens_make(ctx, si, sh, fin, fh, c):
    """objective with data c in coordinates that keep it convex"""
    nat = 'free' if fin else 'vector'
    n, k = (si.nfree if fin else si.nvec), sh.nvec
    M = ctx.mat('QM', n, k)
    H = ctx.posdef('QH', n)

    def make():
        pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
        si.set_legal(ctx, pi, 'hi')
        sh.set_legal(ctx, ph, 'hh')

        def full():
            v, e = coords_of(pi, nat), ph.get_vector()
            return 0.5 * anp.dot(v, anp.dot(H, v)) + anp.sum(v ** 4) / 12 + c[0] * anp.dot(v, anp.dot(M, e)) + anp.sum(v) * anp.sum(e ** 2)
        return pi, ph, full
    return make


def base(ctx, si, sh, fin, fh, tag):
    return point(ctx, si, tag + 'x', fin), point(ctx, sh, tag + 'e', fh)


def linear(ctx, si, sh, fin, fh, given, how):
    c = [ctx.reals('c')]
    make = sens_make(ctx, si, sh, fin, fh, c)
    LA = ctx.mod('ModelSensitivity').ParametricSensitivityLinearApproximation
    (x1, h1), (x2, h2) = base(ctx, si, sh, fin, fh, 'before '), base(ctx, si, sh, fin, fh, '')
    n, k = len(x1), len(h1)
    G = [ctx.posdef('G%d' % i, n) if given else None for i in range(2)]
    pi, ph, full = make()
    s = LA(full, pi, ph, x1, h1, input_is_free=fin, hyper_is_free=fh, hess0=G[0])
    g1, g2 = ctx.vec('g1', k), ctx.vec('g2', k)
    if how == 'predictions':
        a = s.predict_input_par_from_hyperparameters(g1)
        b = s.predict_input_par_from_hyperparameters(g2)
        p2, q2, f2 = make()
        t = LA(f2, p2, q2, x1, h1, input_is_free=fin, hyper_is_free=fh, hess0=G[0])
        same(ctx, 'second prediction', b, t.predict_input_par_from_hyperparameters(g2))
        same(ctx, 'first prediction again', s.predict_input_par_from_hyperparameters(g1), a)
        same(ctx, 'derivative', s.get_dinput_dhyper(), t.get_dinput_dhyper())
        return
    s.predict_input_par_from_hyperparameters(g1)
    if how == 'data changed':
        x2, h2, G[1] = x1, h1, G[0]
        c[0] = ctx.reals('c2')
    elif how == 'same hyper':
        h2 = h1
    elif how == 'same input':
        x2 = x1
    elif how == 'same arrays':
        x1[...], h1[...] = x2, h2
        x2, h2 = x1, h1
        if given:
            G[0][...] = G[1]
            G[1] = G[0]
    elif how == 'parameters moved':
        si.set_legal(ctx, pi, 'moved')
        sh.set_legal(ctx, ph, 'moved h')
    s.set_base_values(x2, h2, hess0=G[1])
    p2, q2, f2 = make()
    t = LA(f2, p2, q2, x2, h2, input_is_free=fin, hyper_is_free=fh, hess0=G[1])
    same(ctx, 'derivative', s.get_dinput_dhyper(), t.get_dinput_dhyper())
    same(ctx, 'prediction', s.predict_input_par_from_hyperparameters(g2), t.predict_input_par_from_hyperparameters(g2))
    same(ctx, 'prediction at the earlier point', s.predict_input_par_from_hyperparameters(g1), t.predict_input_par_from_hyperparameters(g1))
    same(ctx, 'held input', pi.get_vector(), p2.get_vector())
    same(ctx, 'held hyperparameter', ph.get_vector(), q2.get_vector())


def taylor(ctx, si, sh, fin, fh, given, order, how):
    c = [ctx.reals('c')]
    make = sens_make(ctx, si, sh, fin, fh, c)
    TE = ctx.mod('ModelSensitivity').ParametricSensitivityTaylorExpansion
    (x1, h1), (x2, h2) = base(ctx, si, sh, fin, fh, 'before '), base(ctx, si, sh, fin, fh, '')
    n, k = len(x1), len(h1)
    G = [ctx.posdef('G%d' % i, n) if given else None for i in range(2)]
    pi, ph, full = make()
    kw = dict(input_is_free=fin, hyper_is_free=fh)
    d1, d2 = ctx.vec('d1', k), ctx.vec('d2', k)
    first = order if how != 'order raised' else 1
    if how == 'order lowered':
        first = order + 1
    s = TE(full, pi, ph, x1, h1, first, hess0=G[0], **kw)
    for o in range(1, first + 1):
        s.evaluate_dkinput_dhyperk(d1, o)
    s.evaluate_taylor_series(d1)
    s.evaluate_taylor_series(d2, add_offset=False, max_order=1)
    if how.startswith('order'):
        s.set_order(order)
        x2, h2, G[1] = x1, h1, G[0]
    elif how == 'directions':
        x2, h2, G[1] = x1, h1, G[0]
    else:
        if how == 'data changed':
            x2, h2, G[1] = x1, h1, G[0]
            c[0] = ctx.reals('c2')
        elif how == 'same hyper':
            h2 = h1
        elif how == 'same input':
            x2 = x1
        elif how == 'parameters moved':
            si.set_legal(ctx, pi, 'moved')
            sh.set_legal(ctx, ph, 'moved h')
        s.set_base_values(x2, h2, hess0=G[1])
    p2, q2, f2 = make()
    t = TE(f2, p2, q2, x2, h2, order, hess0=G[1], **kw)
    for o in range(1, order + 1):
        same(ctx, 'derivative %d' % o, s.evaluate_dkinput_dhyperk(d2, o), t.evaluate_dkinput_dhyperk(d2, o))
    same(ctx, 'series', s.evaluate_taylor_series(d2), t.evaluate_taylor_series(d2))
    same(ctx, 'series of order 1', s.evaluate_taylor_series(d2, max_order=1), t.evaluate_taylor_series(d2, max_order=1))
    same(ctx, 'series along the earlier direction', s.evaluate_taylor_series(d1), t.evaluate_taylor_series(d1))


def older(ctx, given, how):
    si, sh, so = Box('vector', (2,), 'lower'), Box('vector', (2,), 'none'), Box('vector', (2,), 'none')
    c = [ctx.reals('c')]
    make1 = sens_make(ctx, si, sh, True, False, c)
    PS = ctx.mod('SparseObjectives').ParametricSensitivity
    x1, x2 = ctx.vec('before x', 2, lo=-1.0, hi=1.0), ctx.vec('x', 2, lo=-1.0, hi=1.0)
    h1, h2 = ctx.vec('before h', 2), ctx.vec('h', 2)
    G = [ctx.posdef('G%d' % i, 2) if given else None for i in range(2)]

    def make(x, h, hess):
        pi, ph, full = make1()
        po = so.make(ctx, name='out')
        so.set_legal(ctx, po, 'ho')
        ph.set_vector(np.array(h))

        def conv():
            v = pi.get_vector()
            po.set_vector(anp.array([c[0] * v[0] * v[1], anp.sum(v ** 2)]))
        return pi, ph, po, PS(full, pi, po, ph, conv, optimal_input_par=np.array(x), objective_hessian=hess)
    pi, ph, po, s = make(x1, h1, G[0])
    g1, g2 = ctx.vec('g1', 2), ctx.vec('g2', 2)
    s.predict_output_par_from_hyperparameters(g1, False)
    s.predict_output_par_from_hyperparameters(g1, True)
    s.predict_input_par_from_hyperparameters(g1)
    if how == 'predictions':
        x2, h2, G[1] = x1, h1, G[0]
    else:
        if how == 'data changed':
            x2, h2, G[1] = x1, h1, G[0]
            c[0] = ctx.reals('c2')
        elif how == 'parameters moved':
            si.set_legal(ctx, pi, 'moved')
            so.set_legal(ctx, po, 'moved o')
        ph.set_vector(np.array(h2))
        if how == 'held':
            pi.set_free(np.array(x2))
            s.set_optimal_input_par(objective_hessian=G[1])
        else:
            s.set_optimal_input_par(np.array(x2), objective_hessian=G[1])
    t = make(x2, h2, G[1])[3]
    same(ctx, 'derivative of the input', s.get_dinput_dhyper(), t.get_dinput_dhyper())
    same(ctx, 'derivative of the output', s.get_doutput_dhyper(), t.get_doutput_dhyper())
    for label, f in (('linear', lambda q, g: q.predict_output_par_from_hyperparameters(g, True)),
                     ('nonlinear', lambda q, g: q.predict_output_par_from_hyperparameters(g, False)),
                     ('input', lambda q, g: q.predict_input_par_from_hyperparameters(g))):
        same(ctx, label + ' prediction', f(s, g2), f(t, g2))
        same(ctx, label + ' prediction at the earlier point', f(s, g1), f(t, g1))


# ------------------------------------------------------------------ parameters

PSETS = ['set', 'set_free', 'set_vector', 'refused']
PREADS = ['free_to_vector', 'free_to_vector_jac', 'free_to_vector_hess', 'get_free', 'get_vector']


def parameter(ctx, spec, how):
    x, y = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0), ctx.vec('before', spec.nfree, lo=-1.0, hi=1.0)
    q = spec.make(ctx)
    q.set_free(x)
    z = np.array(q.get_vector())
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    if how == 'other object':
        h = spec.make(ctx, name='h')
        spec.set_legal(ctx, h, 'vh')
    else:
        h = p
    h.get_free(), h.get_vector()
    h.free_to_vector_jac(y)
    h.free_to_vector_hess(y)
    h.set_free(y)
    h.get_free(), h.get_vector()
    h.free_to_vector(y)
    if how == 'same array':
        y[...] = x
        x = y
    if how == 'no reset':
        # no call between the histories and the Jacobians at the new point
        pass
    fresh = lambda: spec.make(ctx)
    r = fresh()
    J, H = p.free_to_vector_jac(x), p.free_to_vector_hess(x)
    same(ctx, 'Jacobian', J, r.free_to_vector_jac(x))
    W = r.free_to_vector_hess(x)
    ctx.eq('number of Hessians', len(H), len(W))
    for i, (a, b) in enumerate(zip(H, W)):
        same(ctx, 'Hessian %d' % i, a, b)
    same(ctx, 'free_to_vector', p.free_to_vector(x), fresh().free_to_vector(x))
    g, C = ctx.vec('g', spec.nvec), ctx.symmetric('C', spec.nvec)
    if spec.nvec < 7:
        conv = ctx.mod('Parameters').convert_vector_to_free_hessian
        same(ctx, 'converted Hessian', conv(p, x, g, C), conv(fresh(), x, g, C))
    p.set_free(x)
    r = fresh()
    r.set_free(x)
    same(ctx, 'flat vector', p.get_vector(), r.get_vector())
    same(ctx, 'unconstrained vector', p.get_free(), r.get_free())
    p.set_free(ctx.vec('then', spec.nfree, lo=-1.0, hi=1.0))
    p.get_free(), p.get_vector()
    p.set_vector(z)
    r = fresh()
    r.set_vector(z)
    same(ctx, 'flat vector after set_vector', p.get_vector(), r.get_vector())
    same(ctx, 'unconstrained vector after set_vector', p.get_free(), r.get_free())
    spec.set_legal(ctx, p, 'u')
    r = fresh()
    spec.set_legal(ctx, r, 'u')
    same(ctx, 'flat vector after set', p.get_vector(), r.get_vector())
    same(ctx, 'unconstrained vector after set', p.get_free(), r.get_free())


def modified(ctx, spec):
    """arrays given and returned are written to by the caller: what the
    parameter says about itself stays consistent with its value"""
    v = np.array(spec.legal(ctx, 'v'))
    u = np.array(spec.legal(ctx, 'u'))
    x = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    q = spec.make(ctx)
    q.set(np.array(u))
    z, t = np.array(q.get_vector()), np.array(q.get_free())
    p = spec.make(ctx)
    p.set(v)

    def agree(label):
        r = spec.make(ctx)
        r.set(np.array(p.get()))
        same(ctx, label + ': flat vector', p.get_vector(), r.get_vector())
        same(ctx, label + ': unconstrained vector', p.get_free(), r.get_free())

    def write(a, b):
        if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable:
            a[...] = b
    agree('set')
    write(v, u)
    agree('value given overwritten')
    p.set(np.array(v))
    p.get_free()
    write(p.get(), u)
    agree('value read overwritten')
    for label, f in (('set', lambda: p.set(np.array(v))), ('set_free', lambda: p.set_free(np.array(x)))):
        f()
        write(p.get_free(), t)
        agree(label + ', unconstrained vector read overwritten')
        f()
        p.get_free()
        write(p.get_vector(), z)
        agree(label + ', flat vector read overwritten')
    y = np.array(x)
    p.set_free(y)
    write(y, t)
    agree('unconstrained vector given overwritten')
    y = np.array(z)
    p.set_vector(y)
    w = np.array(z)
    p.set_vector(w)
    agree('flat vector given twice')


def members(ctx, spec):
    """dictionary and member calls interleaved"""
    x, y = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0), ctx.vec('y', spec.nfree, lo=-1.0, hi=1.0)
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    p.set_free(y)
    p.get_free(), p.get_vector(), p.free_to_vector_jac(y)
    for i, (n, s) in enumerate(spec.members):
        # changing a member directly is seen by the dictionary
        s.set_legal(ctx, p[n], 'm%d' % i)
        r = spec.make(ctx)
        r.set_free(y)
        for j, (n2, s2) in enumerate(spec.members):
            if j <= i:
                s2.set_legal(ctx, r[n2], 'm%d' % j)
        same(ctx, 'flat vector after changing %s' % n, p.get_vector(), r.get_vector())
        same(ctx, 'unconstrained vector after changing %s' % n, p.get_free(), r.get_free())
        same(ctx, 'member vector %s' % n, p[n].get_vector(), r[n].get_vector())
    p.set_free(x)
    for n, s in spec.members:
        r = spec.make(ctx)
        r.set_free(x)
        same(ctx, 'member %s' % n, p[n].get_vector(), r[n].get_vector())


def families(ctx, i):
    spec = family_specs('quick')[i]

    def call(p, m):
        f = getattr(p, m)
        if not callable(f):
            return None
        return f(lk) if 'lkj' in m else f()
    lk = ctx.reals('lkj', positive=True)
    p = spec.make(ctx)
    wish = 'Wishart' in spec.name

    def put(q, tag):
        spec.set_legal(ctx, q, tag)
        if wish:
            q['df'].set(q['df'].get() + 3)
        if moment:
            q['e2'].set(q['e2'].get() + q['e'].get() ** 2)
    moment = 'Moment' in spec.name
    put(p, 'before')
    names = [m for m in dir(type(p)) if m.startswith('e') or m in ('var', 'cov', 'info', 'mean')]
    for m in names:
        call(p, m)
    put(p, 'v')
    for m in names:
        r = spec.make(ctx)
        put(r, 'v')
        want = call(r, m)
        if want is not None:
            same(ctx, m, call(p, m), want)
    # one member changed only
    n0, s0 = spec.members[0]
    if moment:
        return
    s0.set_legal(ctx, p[n0], 'third')
    if wish:
        p[n0].set(p[n0].get() + 3)
    for m in names:
        r = spec.make(ctx)
        put(r, 'v')
        s0.set_legal(ctx, r[n0], 'third')
        if wish:
            r[n0].set(r[n0].get() + 3)
        want = call(r, m)
        if want is not None:
            same(ctx, m + ' after one member changed', call(p, m), want)


def function(ctx, i):
    """a second call does not see the first one: the same as after an
    intervening call with other arguments"""
    name, mod, mk = functions()[i]
    f = getattr(ctx.mod(mod), name)
    a1, a2, a3 = mk(Tagged(ctx, 'before ')), mk(ctx), mk(Tagged(ctx, 'between '))
    f(*a1)
    r = f(*a2)
    f(*a3)
    same(ctx, 'after other calls', f(*a2), r)
    a4 = []
    for u, v in zip(a1, a2):
        if isinstance(u, np.ndarray) and u.ndim and u.dtype.kind not in 'i':
            u[...] = v
            v = u
        a4.append(v)
    same(ctx, 'arrays used again', f(*a4), r)


# ------------------------------------------------------- solvers and optimizers

def cg(ctx, n, how):
    CG = ctx.mod('ConjugateGradient')
    seen = []

    def answer(a):
        seen.append((a['x0'], a['M'], a['tol'], a['mv'](np.array(w)), a['b']))
        return ctx.vec('ans%d' % len(seen), n)
    c27.stubs(ctx, CG, answer)
    p = ctx.vb.VectorParam('p', n)
    c = [ctx.reals('c')]
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: c[0] * anp.sum(p.get() ** 3) + anp.sum(p.get()) ** 2)
    x, w, b1, b2, st = (ctx.vec(k, n) for k in ('x', 'w', 'b1', 'b2', 'st'))
    make = lambda: CG.ConjugateGradientSolver(obj.fun_free_hvp, np.array(x))
    s = make()
    if how == 'other solver':
        h = CG.ConjugateGradientSolver(obj.fun_free_hvp, ctx.vec('xo', n))
        h.preconditioner = ctx.mat('Mo', n, n)
        h.tol = ctx.reals('tolo', positive=True)
    else:
        h = s
    h.get_hinv_vec(b1, x0=st)
    h.get_hinv_vec_subsets(np.array(b1), CG.get_masks(n, 1) if n > 1 else [np.ones(1, dtype=bool)])
    if how == 'objective elsewhere':
        obj.fun_free_hessian(ctx.vec('z', n))
        p.set_vector(ctx.vec('z2', n))
    elif how == 'data changed':
        c[0] = ctx.reals('c2')
    elif how == 'same array':
        b1[...] = b2
        b2 = b1
    del seen[:]
    s.get_hinv_vec(b2)
    got = seen.pop()
    make().get_hinv_vec(b2)
    want = seen.pop()
    ctx.true('no start', got[0] is None and want[0] is None)
    ctx.true('no preconditioner', got[1] is None and want[1] is None)
    ctx.eq('tolerance', got[2], want[2], 0)
    same(ctx, 'operator', got[3], want[3])
    same(ctx, 'right-hand side', got[4], want[4])


def wrappers(ctx, which, n, precondition, how):
    import scipy.optimize
    opt = ctx.mod('OptimizationUtils')
    c = [ctx.reals('c')]
    best = ctx.vec('best', n, lo=-1.0, hi=1.0)
    z, v = ctx.vec('z', n, lo=-1.0, hi=1.0), ctx.vec('v', n)
    seen = []

    class Result(object):
        pass

    def minimize(fun, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, tol=None, options=None, **k):
        rec = [x0]
        for y in (x0, z):
            rec += [fun(y), jac(y)]
            if hess is not None:
                rec.append(np.dot(hess(y), v))
            if hessp is not None:
                rec.append(hessp(y, v))
        seen.append(rec)
        r = Result()
        r.x = np.array(best)
        r.success = True
        return r
    ctx.stub(scipy.optimize, 'minimize', minimize)
    if hasattr(opt, 'minimize'):
        ctx.stub(opt, 'minimize', minimize)

    def make():
        p = ctx.vb.VectorParam('p', n, lb=0.0)
        return ctx.mod('SparseObjectives').Objective(p, lambda: c[0] * anp.sum(p.get() ** 2) + anp.sum(p.get()))
    f = opt.minimize_objective_trust_ncg if which == 'trust' else opt.minimize_objective_bfgs
    obj = make()
    P, Q = ctx.mat('P', n, n), ctx.mat('Q', n, n)
    ctx.assume(det_small(P) != 0)
    ctx.assume(det_small(Q) != 0)
    obj.preconditioner = P
    x1, x2 = ctx.vec('before', n, lo=-1.0, hi=1.0), ctx.vec('x', n, lo=-1.0, hi=1.0)
    f(obj, x1, precondition=True, disp=False)
    f(obj, x1, precondition=False, disp=False)
    if how == 'data changed':
        c[0] = ctx.reals('c2')
    elif how == 'same array':
        x1[...] = x2
        x2 = x1
        P[...] = Q
        Q = P
    obj.preconditioner = Q
    del seen[:]
    a, r1 = f(obj, x2, precondition=precondition, disp=False)
    o2 = make()
    o2.preconditioner = Q
    b, r2 = f(o2, x2, precondition=precondition, disp=False)
    same(ctx, 'point', a, b)
    ctx.eq('runs', len(seen), 2)
    ctx.eq('number of evaluations', len(seen[0]), len(seen[1]))
    for i, (u, w) in enumerate(zip(*seen)):
        same(ctx, 'evaluation %d' % i, u, w)


def preconditioner(ctx, n, how):
    from .c24 import frame
    opt = ctx.mod('OptimizationUtils')
    U = frame(ctx, 'rot', n)
    H = [np.dot(U, np.dot(np.diag(ctx.vec(k, n, positive=True)), U.T)) for k in ('d', 'e')]

    def make():
        p = ctx.vb.VectorParam('p', n)
        return ctx.mod('SparseObjectives').Objective(p, lambda: anp.sum(p.get() ** 4) + anp.sum(p.get()) ** 2)
    obj = make()
    lo = ctx.reals('lo', positive=True)
    opt.set_objective_preconditioner(obj, hessian=H[0], ev_min=lo)
    x = ctx.vec('x', n)
    obj.fun_free_cond(x)
    if how == 'same array':
        H[0][...] = H[1]
        H[1] = H[0]
    got = opt.set_objective_preconditioner(obj, hessian=H[1])
    o2 = make()
    want = opt.set_objective_preconditioner(o2, hessian=H[1])
    same(ctx, 'result', got, want)
    for k in ('', '_grad', '_hessian'):
        same(ctx, 'rescaled' + k, getattr(obj, 'fun_free%s_cond' % k)(x), getattr(o2, 'fun_free%s_cond' % k)(x))


def cases(tier):
    out = []
    big = tier != 'quick'
    S1, V2, N2 = Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), Box('vector', (2,), 'none')
    for spec in ((S1, N2, Simplex((1, 2))) if not big else (S1, N2, V2, Simplex((1, 3)), PosDef(1, True))):
        for first, _ in ops(spec) + quiet_ops(spec):
            out.append(('pair %s %s' % (spec, first), objective_pair, dict(spec=spec, first=first)))
    for spec in (S1, V2, N2, Simplex((1, 3)), PosDef(2, True)) + ((plain2(),) if big else ()):
        for how in ('elsewhere', 'same array', 'same point', 'same point, data changed', 'other object'):
            out.append(('objective %s %s' % (spec, how), objective_all, dict(spec=spec, how=how)))
        for how in ('same array', 'matrix only', 'vector only', 'point only', 'argument only', 'data changed'):
            out.append(('twice %s %s' % (spec, how), objective_twice, dict(spec=spec, how=how)))
    for s1, s2 in pairs('quick') if big else [(Box('vector', (2,), 'lower'), Box('vector', (2,), 'none')), (Box('scalar', (1,), 'lower'), Simplex((1, 2)))]:
        for f1 in (True, False):
            for f2 in (True, False):
                for how in ('elsewhere', 'first kept', 'second kept', 'same arrays', 'data changed'):
                    out.append(('two %s x %s %s %s %s' % (s1, s2, f1, f2, how), two, dict(s1=s1, s2=s2, f1=f1, f2=f2, how=how)))
    for c in conversions(tier):
        for fin in (True, False):
            for fout in (True, False):
                for how in ('elsewhere', 'parameters moved', 'same array', 'data changed'):
                    if how == 'data changed' and isinstance(c[2], (Dict, Simplex, PosDef)):
                        continue
                    if not big and how != 'parameters moved' and c[0] in ('quadratic', 'dictionary'):
                        continue
                    out.append(('convert %s %s %s %s' % (c[0], fin, fout, how), convert, dict(conv=c, fin=fin, fout=fout, how=how)))
    hows = ('elsewhere', 'data changed', 'same hyper', 'same input', 'same arrays', 'parameters moved', 'predictions')
    for si in (S1, N2, Box('vector', (2,), 'lower'), Simplex((1, 2))):
        for sh in (Box('scalar', (1,), 'none'), Box('vector', (2,), 'upper')):
            for fin, fh in ((True, False), (True, True), (False, False), (False, True)):
                if isinstance(si, Simplex) and not fin:
                    continue
                for given in (True, False):
                    for how in hows:
                        if not big and si.nvec + sh.nvec > 2 and how not in ('elsewhere', 'same arrays', 'predictions'):
                            continue
                        out.append(('linear %s %s %s %s %s %s' % (si, sh, fin, fh, given, how), linear,
                                    dict(si=si, sh=sh, fin=fin, fh=fh, given=given, how=how)))
    for si, sh in ((S1, Box('scalar', (1,), 'none')), (N2, Box('scalar', (1,), 'none')), (Box('scalar', (1,), 'none'), Box('vector', (2,), 'upper'))):
        for fin, fh in ((True, False), (True, True), (False, False)):
            for given in (True, False):
                for how in ('elsewhere', 'data changed', 'same hyper', 'same input', 'parameters moved', 'directions', 'order raised', 'order lowered'):
                    out.append(('taylor %s %s %s %s %s %s' % (si, sh, fin, fh, given, how), taylor,
                                dict(si=si, sh=sh, fin=fin, fh=fh, given=given, order=3 if big else 2, how=how)))
    for given in (True, False):
        for how in ('elsewhere', 'data changed', 'parameters moved', 'predictions', 'held'):
            out.append(('older %s %s' % (given, how), older, dict(given=given, how=how)))
    for s in base_specs('quick') + subspace_specs('quick') + [plain_dict(), nested_dict()]:
        if s.nvec > 8:
            continue
        for how in ('elsewhere', 'same array', 'other object'):
            out.append(('parameter %s %s' % (s, how), parameter, dict(spec=s, how=how)))
        if not isinstance(s, Dict):
            out.append(('parameter %s overwritten' % s, modified, dict(spec=s)))
    for s in (plain_dict(), nested_dict(), plain2(), nested2()):
        out.append(('members %s' % s, members, dict(spec=s)))
    for i, s in enumerate(family_specs('quick')):
        out.append(('family %s' % s, families, dict(i=i)))
    for i, f in enumerate(functions()):
        if 'pack_csr' in f[0]:
            continue
        out.append(('function %s %d' % (f[0], i), function, dict(i=i)))
    for n in (1, 2, 3):
        for how in ('elsewhere', 'other solver', 'objective elsewhere', 'data changed', 'same array'):
            out.append(('cg %d %s' % (n, how), cg, dict(n=n, how=how)))
    for n in (1, 2):
        for which in ('trust', 'bfgs'):
            for pre in (False, True):
                for how in ('elsewhere', 'data changed', 'same array'):
                    out.append(('wrapper %s %d %s %s' % (which, n, pre, how), wrappers, dict(which=which, n=n, precondition=pre, how=how)))
        for how in ('elsewhere', 'same array'):
            out.append(('preconditioner %d %s' % (n, how), preconditioner, dict(n=n, how=how)))
    return out
