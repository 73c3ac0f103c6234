"""C05 simplex parameters"""
import numpy as np
from .common import *

BOUNDS = {'shapes': '(1,2), (1,3), (2,2), (2,3), (3,2) (also: (1,5), (2,4), (4,2), (3,3))', 'values': 'all reals'}


def roundtrip(ctx, spec):
    p = spec.make(ctx)
    x = ctx.vec('x', spec.nfree)
    p.set_free(x)
    spec.check(ctx, 'value', p)
    ctx.eq('free value back', p.get_free(), x)
    ctx.eq('declared size', p.free_size(), spec.nfree)
    q = spec.make(ctx)
    q.set_free(ctx.vec('y', spec.nfree))
    q.set_free(x)
    ctx.eq('value does not depend on the history', q.get(), p.get())


def reverse(ctx, spec):
    v = spec.legal(ctx, 'v')
    p = spec.make(ctx)
    p.set(v)
    f = p.get_free()
    ctx.eq('size', np.shape(f), (spec.nfree,))
    ctx.eq('reading keeps the value', p.get(), v)
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('rows back', q.get(), v)


def rows(ctx, spec):
    p = spec.make(ctx)
    x = ctx.vec('x', spec.nfree)
    p.set_free(x)
    v = p.get()
    n, k = spec.shape
    one = Simplex((1, k))
    for i in range(n):
        q = one.make(ctx)
        q.set_free(x[i * (k - 1):(i + 1) * (k - 1)])
        ctx.eq('row %d is that of its own segment' % i, v[i:(i + 1), :], q.get())

    def f(z):
        q = spec.make(ctx)
        q.set_free(z)
        return flat(q.get())
    J = ctx.diff1(f, x)
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.eq('row %d does not depend on segment %d' % (i, j),
                       J[i * k:(i + 1) * k, j * (k - 1):(j + 1) * (k - 1)], np.zeros((k, k - 1)), 1e-6)


def functions(ctx, spec):
    """the module-level maps"""
    M = ctx.mod('SimplexParams')
    n, k = spec.shape
    x = ctx.vec('x', spec.nfree)
    m = M.constrain_simplex_matrix(x.reshape((n, k - 1)))
    ctx.eq('back', M.unconstrain_simplex_matrix(m), x.reshape((n, k - 1)))
    for i in range(n):
        ctx.eq('vector form, row %d' % i, M.constrain_simplex_vector(x[i * (k - 1):(i + 1) * (k - 1)]), m[i])


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    shapes = [(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (1, 4)]
    if tier != 'quick':
        shapes += [(1, 5), (2, 4), (4, 2), (3, 3), (7, 2), (1, 8), (5, 4)]
    if tier == 'deep':
        shapes += [(12, 2), (2, 9), (6, 6), (1, 15)]
    for sh in shapes:
        s = Simplex(sh)
        for f in (roundtrip, reverse, rows, functions):
            out.append(('%s %s' % (f.__name__, s), f, dict(spec=s)))
    return out
