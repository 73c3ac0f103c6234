"""C18 input and output sensitivities"""
from .sens import *

BOUNDS = dict(SIZES, inputs='1..2 unconstrained (1..3 flat) inputs, 1..2 hyperparameters, outputs of 1..3 flat components', objectives='quadratics with symbolic '
              'coefficients (all 2-jets), cubics and exponentials', conversions='quadratics with symbolic coefficients, softmax, powers')
ASSUMPTIONS = ['the Hessian at the optimum is positive definite (the Cholesky factorization is replaced by its contract)']


def outputs(tier):
    def quad_out(ctx, pi, po):
        v = pi.get_vector()
        n = len(v)
        po.set_vector(anp.array([quad(quad_coef(ctx, 'o%d' % i, n), v) for i in range(2)]))

    def exp_out(ctx, pi, po):
        v = pi.get_vector()
        po.set(anp.exp(anp.sum(v) / 2) + v[0] ** 2)

    def soft(ctx, pi, po):
        e = anp.exp(pi.get_vector()[0] / 2)
        po.set(anp.array([[e / (1 + e), 1 / (1 + e)]]))

    def both(ctx, pi, po):
        v = pi.get_vector()
        po['m'].set(v[0] * anp.sum(v))
        po['s'].set_vector(v ** 3)
    return [('quadratic', lambda si: Box('vector', (2,), 'none'), quad_out),
            ('exponential', lambda si: Box('scalar', (1,), 'none'), exp_out),
            ('simplex', lambda si: Simplex((1, 2)), soft),
            ('dictionary', lambda si: Dict('od', [('m', Box('scalar', (1,), 'none')), ('s', Box('vector', (si.nvec,), 'none'))]), both)]


def older(ctx, si, sh, kind, hess, split, oname, optimum, nat):
    oname, mk, conv = oname
    so = mk(si)
    pi, ph, x, h, a, b, at = setup(ctx, si, sh, True, False, kind, nat)
    po = so.make(ctx, name='out')
    so.set_legal(ctx, po, 'ho')
    ph.set_vector(h)
    full = lambda: a(coords_of(pi, nat)) + b(coords_of(pi, nat), ph.get_vector())
    part = lambda: b(coords_of(pi, nat), ph.get_vector())
    n, k, m = len(x), len(h), so.nvec
    ffull = at(lambda v, e: a(v) + b(v, e))
    kw = {}
    if hess == 'given':
        H = ctx.posdef('Hg', n)
        kw['objective_hessian'] = np.array(H)
    else:
        H = np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (n, n))
        assume_posdef(ctx, H)
    if split:
        kw['hyper_par_objective_fun'] = part
    if optimum == 'given':
        kw['optimal_input_par'] = np.array(x)
    else:
        pi.set_free(x)

    def out_at(u):
        qi, qo = si.make(ctx), so.make(ctx)
        qi.set_free(u)
        conv(ctx, qi, qo)
        return qo.get_vector()
    O = np.reshape(ctx.diff1(out_at, x), (m, n))
    C = np.reshape(ctx.diffmix(lambda u, v: sq(ffull(u, v)), x, h), (n, k))
    s = ctx.mod('SparseObjectives').ParametricSensitivity(full, pi, po, ph, lambda: conv(ctx, pi, po), **kw)
    S, D = s.get_dinput_dhyper(), s.get_doutput_dhyper()
    ctx.eq('shapes', (np.shape(S), np.shape(D)), ((n, k), (m, k)))
    ctx.eq('derivative of the optimum', np.dot(H, S) + C, np.zeros((n, k)), 1e-5)
    ctx.eq('derivative of the output', D - np.dot(O, S), np.zeros((m, k)), 1e-5)
    dh = ctx.vec('dh', k)
    zi, zo = np.zeros(n), np.zeros(m)
    u1 = x + np.dot(S, dh)

    def predictions(label):
        ctx.eq(label + 'input prediction', s.predict_input_par_from_hyperparameters(h + dh) - u1, zi)
        ctx.eq(label + 'linear output prediction',
               s.predict_output_par_from_hyperparameters(h + dh, True) - (out_at(x) + np.dot(D, dh)), zo, 1e-6)

    predictions('')
    if kind != 'exp' and n == 1:
        ctx.eq('nonlinear output prediction', s.predict_output_par_from_hyperparameters(h + dh, False) - out_at(u1), zo)
        predictions('afterwards: ')
    else:
        got = s.predict_output_par_from_hyperparameters(h + dh, False)
        ctx.eq('nonlinear output prediction', got - out_at(s.predict_input_par_from_hyperparameters(h + dh)), zo)
        predictions('afterwards: ')
    ctx.eq('at the base: input', s.predict_input_par_from_hyperparameters(h) - x, zi)
    ctx.eq('at the base: linear output', s.predict_output_par_from_hyperparameters(h, True) - out_at(x), zo)
    ctx.eq('at the base: nonlinear output', s.predict_output_par_from_hyperparameters(h, False) - out_at(x), zo)
    ctx.eq('derivatives kept', s.get_doutput_dhyper() - D, np.zeros((m, k)))


def rebase(ctx, hess):
    """a new optimum, evaluated where the hyperparameter is now"""
    si, sh, so = Box('vector', (2,), 'none'), Box('scalar', (1,), 'none'), Box('vector', (2,), 'none')
    pi, ph, x, h, a, b, at = setup(ctx, si, sh, True, False, 'cubic')
    po = so.make(ctx, name='out')
    full = lambda: a(pi.get_vector()) + b(pi.get_vector(), ph.get_vector())
    ffull = at(lambda v, e: a(v) + b(v, e))
    c1, c2 = quad_coef(ctx, 'o', 2), quad_coef(ctx, 'p', 2)
    conv = lambda: po.set(anp.array([quad(c1, pi.get()), quad(c2, pi.get())]))
    ph.set_vector(h)
    s = ctx.mod('SparseObjectives').ParametricSensitivity(full, pi, po, ph, conv, optimal_input_par=x, objective_hessian=np.eye(2))
    y, g = ctx.vec('x2', 2), ctx.vec('e2', 1)
    ph.set_vector(g)
    if hess == 'given':
        H = ctx.posdef('Hg', 2)
        s.set_optimal_input_par(np.array(y), np.array(H))
    else:
        H = np.reshape(ctx.diff2(lambda u: ffull(u, g), y), (2, 2))
        assume_posdef(ctx, H)
        s.set_optimal_input_par(np.array(y))
    C = np.reshape(ctx.diffmix(lambda u, v: sq(ffull(u, v)), y, g), (2, 1))
    S = s.get_dinput_dhyper()
    out = lambda u: np.array([quad(c1, u), quad(c2, u)])
    O = ctx.diff1(out, y)
    ctx.eq('derivative of the optimum', np.dot(H, S) + C, np.zeros((2, 1)), 1e-5)
    ctx.eq('derivative of the output', s.get_doutput_dhyper() - np.dot(O, S), np.zeros((2, 1)), 1e-5)
    ctx.eq('input at the base', s.predict_input_par_from_hyperparameters(g), y)
    ctx.eq('output at the base', s.predict_output_par_from_hyperparameters(g, True), out(y))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    q = tier == 'quick'
    inputs = [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'none'), Box('vector', (2,), 'lower'), Simplex((1, 3))]
    if not q:
        inputs += [Box('vector', (3,), 'none'), Box('array', (1, 2), 'both'), PosDef(1, True)]
    if tier == 'deep':
        inputs += [s for s in input_specs(tier) if str(s) not in [str(i) for i in inputs]]
    extra = [str(s) for s in inputs[4:]]
    for si in inputs:
        for sh in hyper_specs(tier):
            for kind in ('quadratic', 'cubic', 'exp'):
                for hess in ('computed', 'given'):
                    for split in (False, True):
                        for o in outputs(tier):
                            for optimum in ('given', 'current'):
                                if kind == 'exp' and (hess == 'given' or not split or o[0] == 'simplex'):
                                    continue
                                if kind == 'cubic' and isinstance(si, Simplex):
                                    continue
                                if kind != 'quadratic' and sh.nvec == 1:
                                    continue
                                if str(si) in extra and (kind != 'quadratic' or hess != 'given' and not (isinstance(si, Box) and si.bk == 'none')):
                                    continue
                                if not q and o[0] != 'quadratic' and si.nfree > 2 and not (isinstance(si, Box) and si.bk == 'none' or isinstance(si, Simplex)):
                                    continue
                                if not q and beyond(si, sh, kind, hess, split):
                                    continue
                                if q and optimum == 'current' and (o[0] in ('quadratic', 'exponential') or split):
                                    continue
                                nat = 'free' if hess == 'computed' and isinstance(si, Simplex) else 'vector'
                                out.append(('%s x %s %s %s%s %s optimum %s' % (si, sh, kind, hess, ' split' if split else '', o[0], optimum), older,
                                            dict(si=si, sh=sh, kind=kind, hess=hess, split=split, oname=o, optimum=optimum, nat=nat)))
    for hess in ('computed', 'given'):
        out.append(('base %s' % hess, rebase, dict(hess=hess)))
    return out


def COST(c):
    return (c[2]['si'].nvec * 10 + c[2]['sh'].nvec) * (2 if c[2]['hess'] == 'computed' else 1) if 'si' in c[2] else 0
