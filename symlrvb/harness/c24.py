"""C24 inverse square root of a Hessian"""
import autograd.numpy as anp
from .common import *

BOUNDS = {'sizes': '1x1, 2x2, 3x3 and 4x4 (thorough 5x5) in the frames below, symbolic eigenvalues',
          'frames': '2x2: all plane rotations but the half turn; 3x3: all rotations with nonzero quaternion real part; 4x4, 5x5: products of n-1 plane rotations (these and 3x3 without limits in the quick tier); a fixed rotation; diagonal matrices of any order of eigenvalues',
          'values': 'all eigenvalues (any sign when a positive lower limit is given, else positive), all positive limits with lower <= upper'}
ASSUMPTIONS = ['np.linalg.eigh returns an orthonormal eigenbasis with ascending eigenvalues (its contract)']


def frame(ctx, kind, n):
    if kind == 'diag':
        return np.eye(n)
    if kind == 'rot':
        return ctx.rotation('t', n)
    # a fixed rational rotation
    R = {2: [[0.6, -0.8], [0.8, 0.6]],
         3: [[2 / 3, -1 / 3, 2 / 3], [2 / 3, 2 / 3, -1 / 3], [-1 / 3, 2 / 3, 2 / 3]]}[n]
    if ctx.symbolic:
        from fractions import Fraction
        R = {2: [[Fraction(3, 5), Fraction(-4, 5)], [Fraction(4, 5), Fraction(3, 5)]],
             3: [[Fraction(2, 3), Fraction(-1, 3), Fraction(2, 3)], [Fraction(2, 3), Fraction(2, 3), Fraction(-1, 3)],
                 [Fraction(-1, 3), Fraction(2, 3), Fraction(2, 3)]]}[n]
        from ..npsym import from_lists
        from ..poly import lift
        U = from_lists([[lift(v) for v in row] for row in R])
    else:
        U = np.array(R)
    ctx.register_frame(U)
    return U


def limits(ctx, lim):
    lo = ctx.reals('lo', positive=True) if 'lo' in lim else None
    hi = ctx.reals('hi', positive=True) if 'hi' in lim else None
    if lo is not None and hi is not None:
        ctx.assume(lo <= hi)
    kw = {}
    if lo is not None:
        kw['ev_min'] = lo
    if hi is not None:
        kw['ev_max'] = hi
    return lo, hi, kw


def limited(d, lo, hi):
    out = []
    for v in d:
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        out.append(v)
    return np.array(out)


def check(ctx, inv, corr, U, d, lo, hi, n):
    e = limited(d, lo, hi)
    want = np.dot(U, np.dot(np.diag(e), U.T))
    ctx.eq('limited matrix', corr, want)
    ctx.eq('symmetric', inv, inv.T)
    ctx.eq('squares to the inverse', np.dot(np.dot(inv, inv), want), np.eye(n), 1e-6)


def root(ctx, n, kind, lim, ordered=False):
    opt = ctx.mod('OptimizationUtils')
    U = frame(ctx, kind, n)
    d = ctx.vec('d', n, positive='lo' not in lim)
    if ordered:
        ascending(ctx, d)
    lo, hi, kw = limits(ctx, lim)
    H = np.dot(U, np.dot(np.diag(d), U.T))
    inv, corr = opt.get_sym_matrix_inv_sqrt(H, **kw)
    check(ctx, inv, corr, U, d, lo, hi, n)
    ctx.eq('argument untouched', H, np.dot(U, np.dot(np.diag(d), U.T)))


def ascending(ctx, v):
    for i in range(len(v) - 1):
        ctx.assume(v[i] <= v[i + 1])


def install(ctx, n, kind, lim, how):
    opt, SO = ctx.mod('OptimizationUtils'), ctx.mod('SparseObjectives')
    U = frame(ctx, kind, n)
    c = ctx.vec('c', n, positive=True)
    if n == 3 and how == 'quadratic':
        ascending(ctx, c)
    x = ctx.vec('x', n, positive=True)
    # convex with an orthonormal eigenbasis that does not depend on the point
    p = ctx.vb.VectorParam('p', n)
    cubic = how != 'quadratic'

    def fun():
        z = anp.dot(U.T, p.get())
        return anp.sum(c * (z ** 4 + z ** 2)) if cubic else anp.sum(c * z ** 2)
    obj = SO.Objective(p, fun)
    lo, hi, kw = limits(ctx, lim)
    z = np.dot(U.T, x)
    d = c * (12 * z ** 2 + 2) if cubic else 2 * c
    H = np.dot(U, np.dot(np.diag(d), U.T))
    before = ctx.vec('before', n)
    p.set_vector(np.array(before))
    if how == 'given':
        dg = ctx.vec('dg', n, positive=True)
        if n == 3:
            ascending(ctx, dg)
        G = np.dot(U, np.dot(np.diag(dg), U.T))
        h, inv, corr = opt.set_objective_preconditioner(obj, hessian=G, **kw)
        H, d = G, dg
        ctx.eq('parameter untouched', p.get_vector(), before)
    elif how == 'both':
        dg = ctx.vec('dg', n, positive=True)
        if n == 3:
            ascending(ctx, dg)
        G = np.dot(U, np.dot(np.diag(dg), U.T))
        h, inv, corr = opt.set_objective_preconditioner(obj, free_par=x, hessian=G, **kw)
        H, d = G, dg
    else:
        h, inv, corr = opt.set_objective_preconditioner(obj, x, **kw)
    ctx.eq('Hessian', h, H)
    check(ctx, inv, corr, U, d, lo, hi, n)
    ctx.eq('installed', obj.preconditioner, inv)
    ctx.true('nothing logged', obj.logger.iter == 0 and len(obj.logger.x_array) == 0)
    # the objective itself did not change
    y = ctx.vec('y', n)
    zy = np.dot(U.T, y)
    ctx.eq('objective', obj.fun_free(y), np.sum(c * (zy ** 4 + zy ** 2)) if cubic else np.sum(c * zy ** 2))
    ctx.eq('rescaled objective', obj.fun_free_cond(y), obj.fun_free(np.dot(inv, y)))


def neither(ctx):
    opt, SO = ctx.mod('OptimizationUtils'), ctx.mod('SparseObjectives')
    p = ctx.vb.VectorParam('p', 2)
    obj = SO.Objective(p, lambda: anp.sum(p.get() ** 2))
    ctx.raises('neither a point nor a Hessian', ValueError, opt.set_objective_preconditioner, obj)
    ctx.true('nothing installed', obj.preconditioner is None)


def cases(tier):
    out = []
    L = [(), ('lo',), ('hi',), ('lo', 'hi')]
    more = [(4, 'diag', L[:3]), (3, 'rot', L[:1]), (4, 'rot', L[:1])]
    if tier != 'quick':
        more = [(4, 'diag', L), (5, 'diag', L[:1]), (3, 'rot', L[:1]), (4, 'rot', L[:2]), (5, 'rot', L[:1])]
    for n, k, lims in more:
        for lim in lims:
            out.append(('root %d %s %s sorted' % (n, k, '+'.join(lim)), root, dict(n=n, kind=k, lim=lim, ordered=True)))
    frames = [(1, 'diag'), (2, 'diag'), (2, 'rot'), (2, 'fixed'), (3, 'diag'), (3, 'fixed')]
    for n, k in frames:
        for lim in L:
            out.append(('root %d %s %s' % (n, k, '+'.join(lim)), root,
                        dict(n=n, kind=k, lim=lim, ordered=n == 3 and tier == 'quick')))
    for n, k in frames:
        for how in ('quadratic', 'quartic', 'given', 'both'):
            for lim in L:
                if n == 3 and (tier == 'quick' or how in ('both', 'quartic')):
                    continue
                if k == 'rot' and how == 'quartic' and (tier == 'quick' or len(lim) == 2):
                    continue
                out.append(('install %s %d %s %s' % (how, n, k, '+'.join(lim)), install, dict(n=n, kind=k, lim=lim, how=how)))
    out.append(('neither', neither, {}))
    return out
