"""Objectives of an input and a hyperparameter for the sensitivity harnesses"""
from .objfun import *
from .c14 import setp, point


def det(m):
    return det_small(m)


def assume_posdef(ctx, H):
    for k in range(1, H.shape[0] + 1):
        ctx.assume(det_small(H[:k, :k]) > 0)


def joint(ctx, n, k, kind):
    """a(v), b(v, e): the objective is a + b, b holds all dependence on e"""
    c = ctx.reals('Qc')
    g, H = ctx.vec('Qg', n), ctx.symmetric('QH', n)
    M = ctx.mat('QM', n, k)
    r = ctx.vec('Qr', k)

    def a(v):
        out = c + anp.dot(g, v) + 0.5 * anp.dot(v, anp.dot(H, v))
        if kind == 'cubic':
            out = out + anp.sum(v ** 3) + anp.sum(v) ** 3 / 3
        return out

    def b(v, e):
        out = anp.dot(v, anp.dot(M, e)) + anp.dot(r, e)
        if kind == 'cubic':
            out = out + anp.sum(v ** 2) * anp.sum(e ** 2) / 2 + anp.sum(v * v[0]) * e[0]
        if kind == 'exp':
            out = out + anp.sum(anp.exp(v / 2)) * e[0] + v[0] * anp.exp(anp.sum(e) / 2)
        return out
    return a, b


def input_specs(tier):
    out = [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'none'), Box('vector', (2,), 'lower'), Box('array', (1, 2), 'both'), Simplex((1, 3))]
    if tier != 'quick':
        out += [Dict('d', [('a', Box('scalar', (1,), 'upper')), ('b', Simplex((1, 2)))]), PosDef(1, True), Box('vector', (3,), 'none')]
    if tier == 'deep':
        out += [PosDef(2, True), Box('vector', (3,), 'upper'), Box('vector', (4,), 'none'), Box('array', (2, 2), 'lower'), Subspace(3, None), PosDefStack('vector', (2,), 1, True)]
    return out


def hyper_specs(tier):
    out = [Box('scalar', (1,), 'none'), Box('vector', (2,), 'upper')]
    if tier == 'deep':
        out += [Simplex((1, 3)), Box('array', (1, 3), 'both'), PosDef(2, False)]
    return out


def beyond(si, sh, kind, hess, split):
    """combinations of the deep sizes that are left out (normal forms too large)"""
    big_in = si.nfree > 2 and not isinstance(si, (Simplex, Dict)) or isinstance(si, PosDefStack) or isinstance(si, Subspace)
    big_hyper = isinstance(sh, (Simplex, PosDef)) or sh.nvec > 2
    if big_in and big_hyper:
        return True
    if big_in and not (isinstance(si, Box) and si.bk == 'none') and (kind != 'quadratic' or hess != 'given'):
        return True
    if big_in and si.nfree > 3 and (hess != 'given' or kind != 'quadratic'):
        return True
    if big_hyper and (kind != 'quadratic' or hess != 'given' or isinstance(si, (Simplex, Dict, PosDef))):
        return True
    return False


def coords_of(q, nat):
    return q.get_free() if nat == 'free' else q.get_vector()


def setup(ctx, si, sh, fin, fh, kind, nat='vector'):
    """nat: the coordinates of the input in which the objective is written"""
    pi, ph = si.make(ctx, name='in'), sh.make(ctx, name='hyper')
    si.set_legal(ctx, pi, 'hi')
    sh.set_legal(ctx, ph, 'hh')
    x, h = point(ctx, si, 'x', fin), point(ctx, sh, 'e', fh)
    a, b = joint(ctx, si.nvec if nat == 'vector' else si.nfree, sh.nvec, kind)

    def at(f):
        def g(u, v):
            qi, qh = si.make(ctx), sh.make(ctx)
            setp(qi, u, fin)
            setp(qh, v, fh)
            return f(coords_of(qi, nat), qh.get_vector())
        return g
    return pi, ph, x, h, a, b, at
