"""C10 conversion of a flat Hessian to unconstrained coordinates"""
import numpy as np
from .common import *
from .c07 import vec_map

BOUNDS = SIZES


def oracle(ctx, spec, x, g, H):
    f = vec_map(ctx, spec)
    J = ctx.diff1(f, x)
    T = ctx.diff2(f, x)
    out = np.dot(J.T, np.dot(H, J))
    for k in range(spec.nvec):
        out = out + g[k] * T[k]
    return out


def convert(ctx, spec, kind):
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    g = ctx.vec('g', spec.nvec)
    H = ctx.symmetric('H', spec.nvec)
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    want = oracle(ctx, spec, x, g, H)
    arg = H
    if kind != 'dense':
        import scipy.sparse as sp
        arg = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix}[kind](H)
    got = ctx.mod('Parameters').convert_vector_to_free_hessian(p, x, g, arg)
    ctx.eq('Hessian in unconstrained coordinates', dense(got) - want, np.zeros((spec.nfree, spec.nfree)), 1e-5)


def sparse_blocks(ctx, spec):
    """a Hessian with structural zeros"""
    import scipy.sparse as sp
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    g = ctx.vec('g', spec.nvec)
    n = spec.nvec
    H = np.zeros((n, n))
    d = ctx.vec('d', n)
    for i in range(n):
        H[i, i] = d[i]
    if n > 1:
        o = ctx.reals('o')
        H[0, n - 1] = o
        H[n - 1, 0] = o
    rows = [i for i in range(n)] + ([0, n - 1] if n > 1 else [])
    cols = [i for i in range(n)] + ([n - 1, 0] if n > 1 else [])
    arg = sp.csr_matrix((np.array([H[i, j] for i, j in zip(rows, cols)]), (rows, cols)), (n, n))
    p = spec.make(ctx)
    want = oracle(ctx, spec, x, g, H)
    got = ctx.mod('Parameters').convert_vector_to_free_hessian(p, x, g, arg)
    ctx.eq('Hessian in unconstrained coordinates', dense(got) - want, np.zeros((spec.nfree, spec.nfree)), 1e-5)


def function(ctx, spec):
    """end to end: a function of the flat vector through an Objective"""
    p = spec.make(ctx)
    n = spec.nvec
    a = ctx.vec('a', n)
    x = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    import autograd.numpy as anp

    def fun():
        v = p.get_vector()
        s = 0.
        for i in range(n):
            s = s + a[i] * v[i] ** 3 + v[i] * v[(i + 1) % n]
        return s
    obj = ctx.mod('SparseObjectives').Objective(p, fun)
    p.set_free(x)
    v = p.get_vector()
    g, H = obj.fun_vector_grad(v), obj.fun_vector_hessian(v)
    got = ctx.mod('Parameters').convert_vector_to_free_hessian(p, x, g, H)
    want = obj.fun_free_hessian(x)
    ctx.eq('Hessian of the composed function', dense(got) - want, np.zeros((spec.nfree, spec.nfree)), 1e-6)


def small(tier):
    out = [Box('vector', (2,), 'both'), Box('scalar', (1,), 'lower'), Box('array', (1, 2), 'upper'),
           PosDef(2, True), Simplex((2, 2)), Simplex((1, 3)), PosDefStack('vector', (2,), 1, True),
           PosDefStack('array', (1, 2), 1, True), plain2(), nested2()]
    if tier != 'quick':
        out += [PosDefStack('vector', (2,), 2, True), PosDefStack('array', (2,), 2, True), PosDef(3, False), Simplex((2, 3)),
                Box('array', (2, 2), 'both'), plain_dict(), nested_dict()]
    return out


def plain2():
    return Dict('dict2', [('a', Box('scalar', (1,), 'lower')), ('d', Simplex((1, 3))), ('c', PosDef(2, True))])


def nested2():
    return Dict('nested2', [('s', Simplex((1, 2))), ('in', Dict('in', [('x', Box('vector', (2,), 'lower')), ('y', Simplex((1, 2)))]))])


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s in small(tier):
        for kind in ('dense', 'csr', 'csc', 'coo'):
            if tier == 'quick' and kind in ('csc', 'coo') and s.nvec > 3:
                continue
            out.append(('convert %s %s' % (s, kind), convert, dict(spec=s, kind=kind)))
        out.append(('sparse %s' % s, sparse_blocks, dict(spec=s)))
        if s.nfree <= 6:
            out.append(('function %s' % s, function, dict(spec=s)))
    return out


def COST(c):
    s = c[2]['spec']
    return s.nvec * s.nfree * s.nfree
