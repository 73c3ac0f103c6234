"""C16 linear sensitivity"""
from .sens import *

BOUNDS = dict(SIZES, inputs='1..2 unconstrained (1..3 flat) input coordinates, 1..2 hyperparameter coordinates; quadratics with symbolic '
              'coefficients (all 2-jets), cubics and exponentials; supplied Hessians arbitrary positive definite')
ASSUMPTIONS = ['the Hessian at the base point is positive definite (the Cholesky factorization is replaced by its contract: solving with the matrix itself)']


def sensitivity(ctx, si, sh, fin, fh, kind, hess, split, nat):
    pi, ph, x, h, a, b, at = setup(ctx, si, sh, fin, fh, kind, nat)
    full = lambda: a(coords_of(pi, nat)) + b(coords_of(pi, nat), ph.get_vector())
    part = lambda: b(coords_of(pi, nat), ph.get_vector())
    n, k = len(x), len(h)
    ffull = at(lambda v, e: a(v) + b(v, e))
    kw = {}
    if hess == 'given':
        H = ctx.posdef('Hg', n)
        kw['hess0'] = np.array(H)
    else:
        H = np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (n, n))
        assume_posdef(ctx, H)
    if split:
        kw['hyper_par_objective_functor'] = part
    if not fin or fh:
        kw['input_is_free'], kw['hyper_is_free'] = fin, fh
    C = np.reshape(ctx.diffmix(lambda u, v: sq(ffull(u, v)), x, h), (n, k))
    s = ctx.mod('ModelSensitivity').ParametricSensitivityLinearApproximation(full, pi, ph, x, h, **kw)
    S = s.get_dinput_dhyper()
    ctx.eq('shape', np.shape(S), (n, k))
    ctx.eq('implicit function theorem', np.dot(H, S) + C, np.zeros((n, k)), 1e-5)
    dh = ctx.vec('dh', k)
    ctx.eq('prediction', s.predict_input_par_from_hyperparameters(h + dh) - (x + np.dot(S, dh)), np.zeros(n))
    ctx.eq('prediction at the base', s.predict_input_par_from_hyperparameters(h), x)
    # reading does not consume anything, and the parameters may move
    if fin and not isinstance(sh, Dict):
        pi.set_free(ctx.vec('moved', si.nfree, lo=-1.0, hi=1.0))
    ctx.eq('derivative again', s.get_dinput_dhyper() - S, np.zeros((n, k)))
    ctx.eq('prediction after the parameters moved', s.predict_input_par_from_hyperparameters(h + dh) - (x + np.dot(S, dh)), np.zeros(n))


def aliasing(ctx, hess):
    """changing the arrays passed in afterwards, or re-basing, does not leave
    a mixture of points"""
    si, sh = Box('vector', (2,), 'none'), Box('scalar', (1,), 'none')
    pi, ph, x, h, a, b, at = setup(ctx, si, sh, True, False, 'cubic')
    full = lambda: a(pi.get_vector()) + b(pi.get_vector(), ph.get_vector())
    ffull = at(lambda v, e: a(v) + b(v, e))
    H1 = np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (2, 2))
    assume_posdef(ctx, H1)
    y, g = ctx.vec('x2', 2), ctx.vec('e2', 1)
    H2 = np.reshape(ctx.diff2(lambda u: ffull(u, g), y), (2, 2))
    if hess == 'given':
        H2 = ctx.posdef('Hg', 2)
    else:
        assume_posdef(ctx, H2)
    C2 = np.reshape(ctx.diffmix(lambda u, v: sq(ffull(u, v)), y, g), (2, 1))
    s = ctx.mod('ModelSensitivity').ParametricSensitivityLinearApproximation(full, pi, ph, x, h)
    xx, hh = np.array(y), np.array(g)
    if hess == 'given':
        s.set_base_values(xx, hh, hess0=H2)
    else:
        s.set_base_values(xx, hh)
    xx[0] = xx[0] + 1
    hh[0] = hh[0] + 1
    S = s.get_dinput_dhyper()
    ctx.eq('derivative at the new base', np.dot(H2, S) + C2, np.zeros((2, 1)), 1e-5)
    ctx.eq('prediction at the new base', s.predict_input_par_from_hyperparameters(g), y)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for si in input_specs(tier):
        for sh in hyper_specs(tier):
            for fin, fh in ((True, False), (True, True), (False, False), (False, True)):
                if not fin and isinstance(si, Simplex) and tier == 'quick':
                    continue
                for kind in ('quadratic', 'cubic', 'exp'):
                    for hess in ('computed', 'given'):
                        for split in (False, True):
                            if tier == 'quick':
                                if kind == 'exp' and (hess == 'given' or not split):
                                    continue
                                if kind == 'cubic' and isinstance(si, Simplex):
                                    continue
                                if kind != 'quadratic' and sh.nvec == 1:
                                    continue
                            if tier == 'deep' and beyond(si, sh, kind, hess, split):
                                continue
                            if kind == 'exp' and fin and fh and isinstance(si, Box) and si.bk == 'both':
                                continue
                            nat = 'vector'
                            if fin and hess == 'computed' and (isinstance(si, (Simplex, Dict)) or (si.nfree > 1 and isinstance(si, Box) and si.bk == 'both')):
                                nat = 'free'
                            out.append(('%s x %s %s %s %s %s%s' % (si, sh, 'free' if fin else 'vector', 'free' if fh else 'vector', kind, hess,
                                                                  ' split' if split else ''), sensitivity,
                                        dict(si=si, sh=sh, fin=fin, fh=fh, kind=kind, hess=hess, split=split, nat=nat)))
    for hess in ('computed', 'given'):
        out.append(('base %s' % hess, aliasing, dict(hess=hess)))
    return out


def COST(c):
    return (c[2]['si'].nvec * 10 + c[2]['sh'].nvec) * (2 if c[2]['hess'] == 'computed' else 1) if 'si' in c[2] else 0
