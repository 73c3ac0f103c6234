"""C13 plain numbers after derivative evaluations"""
from .convs import *
from .c14 import pairs, make_two, methods, coefs, bilinear, setp, point

BOUNDS = dict(SIZES, histories='each derivative method alone, and all of them in sequence, interleaved with value evaluations; '
              'objective, preconditioned objective, two-parameter objective, converter, linear, Taylor and older sensitivity objects')


def fresh_vec(ctx, spec, x, free):
    q = spec.make(ctx)
    setp(q, x, free)
    return q.get_vector()


def reads_work(ctx, label, spec, p):
    for s, q in leaves(spec, p):
        q.dictval()
        q.names()
    f = p.get_free()
    ctx.true(label + ': unconstrained read', ctx.is_plain(f))
    ctx.true(label + ': flat read', ctx.is_plain(p.get_vector()))


def objective(ctx, spec, coords):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    free = coords == 'free'
    x, y = point(ctx, spec, 'x', free), point(ctx, spec, 'z', free)
    n = len(x)
    w = ctx.vec('w', n)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda s=1.0, t=0.0: s * smooth(spec, p) + t)
    vx, vy = fresh_vec(ctx, spec, x, free), fresh_vec(ctx, spec, y, free)
    for k in ('_grad', '_hessian', '_jacobian'):
        m = getattr(obj, 'fun_%s%s' % (coords, k))
        m(x)
        held_ok(ctx, k, spec, p, vx)
        if free:
            reads_work(ctx, k, spec, p)
        m(y, 2.0, t=1.0)
        held_ok(ctx, k + ' elsewhere', spec, p, vy)
    m = getattr(obj, 'fun_%s_hvp' % coords)
    m(x, w)
    held_ok(ctx, 'hvp', spec, p, vx)
    m(y, 2.0, 1.0, w)
    held_ok(ctx, 'hvp elsewhere, with arguments', spec, p, vy)
    v = getattr(obj, 'fun_' + coords)(x)
    ctx.true('value is plain', ctx.is_plain(v))
    held_ok(ctx, 'value', spec, p, vx)


def conditioned(ctx, spec, how):
    import scipy.sparse as sp
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    n = spec.nfree
    A = ctx.mat('A', n, n)
    x, w = ctx.vec('x', n, lo=-0.8, hi=0.8), ctx.vec('w', n)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: smooth(spec, p))
    obj.preconditioner = A if how == 'dense' else sp.csr_matrix(A)
    want = fresh_vec(ctx, spec, np.dot(A, x), True)
    for k, a in (('_grad', (x,)), ('_hessian', (x,)), ('_hvp', (x, w))):
        getattr(obj, 'fun_free%s_cond' % k)(*a)
        held_ok(ctx, k, spec, p, want)


def two(ctx, s1, s2, f1, f2):
    p1, p2 = make_two(ctx, s1, s2)
    s1.set_legal(ctx, p1, 'h1')
    s2.set_legal(ctx, p2, 'h2')
    x, y = point(ctx, s1, 'x', f1), point(ctx, s2, 'y', f2)
    v1, v2 = fresh_vec(ctx, s1, x, f1), fresh_vec(ctx, s2, y, f2)
    x2, y2 = point(ctx, s1, 'xx', f1), point(ctx, s2, 'yy', f2)
    w1, w2 = fresh_vec(ctx, s1, x2, f1), fresh_vec(ctx, s2, y2, f2)
    obj = ctx.mod('SparseObjectives').TwoParameterObjective(p1, p2, lambda: smooth(s1, p1) * smooth(s2, p2))
    ms = [('first gradient', lambda a, b: obj.fun_grad1(a, b, f1, f2)), ('second gradient', lambda a, b: obj.fun_grad2(a, b, f1, f2))]
    h12, h21 = methods(obj, f1, f2)
    ms.append(('mixed', h12))
    if h21 is not None:
        ms.append(('transposed', h21))
    for label, m in ms:
        m(x, y)
        held_ok(ctx, label + ': first', s1, p1, v1)
        held_ok(ctx, label + ': second', s2, p2, v2)
        m(x2, y2)
        held_ok(ctx, label + ', elsewhere: first', s1, p1, w1)
        held_ok(ctx, label + ', elsewhere: second', s2, p2, w2)


def converter(ctx, conv, fin, fout):
    name, si, so, f = conv
    pi, po = si.make(ctx, name='in'), so.make(ctx, name='out')
    si.set_legal(ctx, pi, 'hi')
    so.set_legal(ctx, po, 'ho')
    PC = ctx.mod('SparseObjectives').ParameterConverter(pi, po, lambda: f(ctx, pi, po))
    x, y = point(ctx, si, 'x', fin), point(ctx, si, 'y', fin)
    if isinstance(si, PosDef) and not fin:
        ctx.assume(x[0] * x[2] - x[1] * x[1] > 0)
        ctx.assume(y[0] * y[2] - y[1] * y[1] > 0)
    before = np.array(po.get_vector())
    m = getattr(PC, '%s_to_%s_jacobian' % ('free' if fin else 'vec', 'free' if fout else 'vec'))
    for label, z in (('first', x), ('second', y)):
        m(z)
        held_ok(ctx, label + ': input', si, pi, fresh_vec(ctx, si, z, fin))
        held_ok(ctx, label + ': output', so, po, before)


def sensitivity(ctx, which, fin, fh, kind):
    if kind == 'plain':
        si, sh = Box('vector', (2,), 'none'), Box('scalar', (1,), 'none')
    else:
        si, sh = Box('vector', (1,), 'lower'), Box('vector', (2,), 'lower')
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    si.set_legal(ctx, pi, 'hi')
    sh.set_legal(ctx, ph, 'hh')

    def fun():
        v, h = pi.get_vector(), ph.get_vector()
        return anp.sum(v ** 2) * (1 + anp.sum(h ** 2)) + anp.sum(v) * anp.sum(h) + anp.sum(v ** 3)
    x, h = point(ctx, si, 'x', fin), point(ctx, sh, 'h', fh)
    vx, vh = fresh_vec(ctx, si, x, fin), fresh_vec(ctx, sh, h, fh)
    MS = ctx.mod('ModelSensitivity')
    n, k = len(x), len(h)
    H = np.eye(n) * ctx.reals('H0', positive=True) if which != 'older' else np.eye(n) * 2.0
    dh = ctx.vec('dh', k)

    def ok(label):
        held_ok(ctx, label + ': input', si, pi, vx)
        held_ok(ctx, label + ': hyperparameter', sh, ph, vh)
    if which == 'linear':
        s = MS.ParametricSensitivityLinearApproximation(fun, pi, ph, x, h, input_is_free=fin, hyper_is_free=fh, hess0=H)
        ok('construction')
        s.get_dinput_dhyper()
        ok('derivative')
        r = s.predict_input_par_from_hyperparameters(h + dh)
        ctx.true('prediction is plain', ctx.is_plain(r))
        ok('prediction')
        y, g = point(ctx, si, 'x2', fin), point(ctx, sh, 'h2', fh)
        s.set_base_values(y, g, hess0=H)
        vx, vh = fresh_vec(ctx, si, y, fin), fresh_vec(ctx, sh, g, fh)
        held_ok(ctx, 'new base: input', si, pi, vx)
        held_ok(ctx, 'new base: hyperparameter', sh, ph, vh)
    elif which == 'taylor':
        s = MS.ParametricSensitivityTaylorExpansion(fun, pi, ph, x, h, 2, input_is_free=fin, hyper_is_free=fh, hess0=H)
        ok('construction')
        for kk in (1, 2):
            r = s.evaluate_dkinput_dhyperk(dh, kk)
            ctx.true('derivative %d is plain' % kk, ctx.is_plain(r))
            ok('derivative %d' % kk)
        r = s.evaluate_taylor_series(dh)
        ctx.true('series is plain', ctx.is_plain(r))
        ok('series')
        r = s.evaluate_taylor_series(dh, add_offset=False, max_order=1)
        ctx.true('first-order series is plain', ctx.is_plain(r))
        ok('first-order series')
    else:
        so = Box('scalar', (1,), 'none')
        po = so.make(ctx, name='out')
        so.set_legal(ctx, po, 'ho')
        setp(ph, h, fh)
        conv = lambda: po.set(anp.sum(pi.get() ** 2))
        s = ctx.mod('SparseObjectives').ParametricSensitivity(fun, pi, po, ph, conv, optimal_input_par=x, objective_hessian=H)
        ok('construction')
        ctx.true('output is plain', ctx.is_plain(po.get()))
        s.get_dinput_dhyper()
        s.get_doutput_dhyper()
        ok('derivatives')
        hv = ph.get_vector()
        r = s.predict_input_par_from_hyperparameters(hv + dh)
        ok('input prediction')
        r2 = s.predict_output_par_from_hyperparameters(hv + dh, True)
        ok('linear output prediction')
        r3 = s.predict_output_par_from_hyperparameters(hv + dh, False)
        ctx.true('predictions are plain', ctx.is_plain(r) and ctx.is_plain(r2) and ctx.is_plain(r3))
        ctx.true('parameters are plain', ctx.is_plain(pi.get()) and ctx.is_plain(po.get()) and ctx.is_plain(ph.get()))


def computed_hessian(ctx, which):
    """the Hessian is computed by the object itself"""
    si, sh = Box('vector', (1,), 'lower'), Box('scalar', (1,), 'none')
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    c = ctx.reals('c', positive=True)

    def fun():
        v, h = pi.get_free(), ph.get_vector()
        return c * anp.sum(v ** 2) + anp.sum(v) * anp.sum(h)
    x, h = ctx.vec('x', 1, lo=-1.0, hi=1.0), ctx.vec('h', 1)
    vx = fresh_vec(ctx, si, x, True)
    if which == 'linear':
        s = ctx.mod('ModelSensitivity').ParametricSensitivityLinearApproximation(fun, pi, ph, x, h)
    elif which == 'taylor':
        s = ctx.mod('ModelSensitivity').ParametricSensitivityTaylorExpansion(fun, pi, ph, x, h, 2)
        s.evaluate_taylor_series(ctx.vec('dh', 1))
    else:
        po = Box('scalar', (1,), 'none').make(ctx, name='out')
        ph.set_vector(h)
        s = ctx.mod('SparseObjectives').ParametricSensitivity(fun, pi, po, ph, lambda: po.set(anp.sum(pi.get())), optimal_input_par=x)
    held_ok(ctx, 'input', si, pi, vx)
    held_ok(ctx, 'hyperparameter', sh, ph, h)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s in obj_specs(tier):
        for coords in ('free', 'vector'):
            out.append(('objective %s %s' % (s, coords), objective, dict(spec=s, coords=coords)))
    for s in [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), Simplex((1, 3)), PosDef(1, True)]:
        for how in ('dense', 'sparse'):
            out.append(('conditioned %s %s' % (s, how), conditioned, dict(spec=s, how=how)))
    for s1, s2 in pairs(tier):
        for f1 in (True, False):
            for f2 in (True, False):
                out.append(('two %s x %s %s %s' % (s1, s2, f1, f2), two, dict(s1=s1, s2=s2, f1=f1, f2=f2)))
    for c in conversions(tier):
        for fin in (True, False):
            for fout in (True, False):
                out.append(('converter %s %s %s' % (c[0], fin, fout), converter, dict(conv=c, fin=fin, fout=fout)))
    for which in ('linear', 'taylor', 'older'):
        for fin, fh in ((True, False), (True, True), (False, False), (False, True)):
            if which == 'older' and (not fin or fh):
                continue
            for kind in ('plain', 'bounded'):
                out.append(('sensitivity %s %s %s %s' % (which, fin, fh, kind), sensitivity,
                            dict(which=which, fin=fin, fh=fh, kind=kind)))
        out.append(('computed Hessian %s' % which, computed_hessian, dict(which=which)))
    return out
