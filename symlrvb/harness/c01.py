"""C01 box-constrained parameters"""
import numpy as np
from .common import *

BOUNDS = {'vector sizes': '1 to 6 and wide ones',
          'array shapes': '(2,2), (1,3), (2,1,2), (3,2), (2,2,2)',
          'bounds': 'symbolic, all four finite/infinite combinations',
          'values': 'all reals'}


def roundtrip(ctx, kind, shape, bk):
    lb, ub = bounds(ctx, bk)
    n = size_of(shape)
    p = box_param(ctx, kind, shape, lb, ub)
    x = ctx.vec('x', n)
    p.set_free(x[0] if kind == 'scalar' else x)
    v = p.get()
    inside(ctx, 'value', v, lb, ub)
    ctx.eq('free value back', p.get_free(), x)
    # order and separation: the value at element i depends on x_i only, and
    # increases with it

    def f(y):
        q = box_param(ctx, kind, shape, lb, ub)
        q.set_free(y[0] if kind == 'scalar' else y)
        return flat(q.get())
    J = ctx.diff1(f, x)
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.eq('element %d does not depend on %d' % (i, j), J[i, j], 0.0, 1e-6)
        ctx.true('element %d increases' % i, J[i, i] > 0)
    # every element is mapped by the same scalar map
    for i in range(n):
        s = ctx.vb.ScalarParam('s', lb=lb, ub=ub)
        s.set_free(x[i])
        ctx.eq('element %d maps like a scalar' % i, flat(v)[i], s.get())


def monotone(ctx, bk):
    lb, ub = bounds(ctx, bk)
    p = ctx.vb.ScalarParam('p', lb=lb, ub=ub)
    x, y = ctx.reals('x'), ctx.reals('y')
    ctx.assume(x < y)
    p.set_free(x)
    a = p.get()
    p.set_free(y)
    ctx.true('strictly increasing', a < p.get())


def reverse(ctx, kind, shape, bk):
    lb, ub = bounds(ctx, bk)
    n = size_of(shape)
    w = legal_value(ctx, 'w', n, lb, ub)
    val = shaped(kind, w, shape)
    p = box_param(ctx, kind, shape, lb, ub)
    p.set(val)
    f = p.get_free()
    ctx.eq('unconstrained size', np.shape(f), (n,))
    ctx.eq('reading keeps the value', p.get(), val)
    q = box_param(ctx, kind, shape, lb, ub)
    q.set_free(f[0] if kind == 'scalar' else f)
    ctx.eq('constrained value back', q.get(), val)
    # and through the same object
    p.set_free(f[0] if kind == 'scalar' else f)
    ctx.eq('constrained value back (same object)', p.get(), val)


def outside(ctx, kind, shape, bk, which, side):
    lb, ub = bounds(ctx, bk)
    n = size_of(shape)
    w = ctx.vec('w', n)
    for i in range(n):
        if i == which:
            ctx.assume(w[i] > ub if side == 'above' else w[i] < lb)
        else:
            if ub < INF:
                ctx.assume(w[i] < ub)
            if lb > -INF:
                ctx.assume(w[i] > lb)
    p = box_param(ctx, kind, shape, lb, ub)
    p.set(shaped(kind, w, shape))
    ctx.raises('out-of-bounds value refused', ValueError, p.get_free)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    shapes = [('scalar', (1,)), ('vector', (1,)), ('vector', (3,)), ('array', (2, 2)),
              ('array', (1, 3)), ('array', (2, 1, 2))]
    if tier != 'quick':
        shapes += [('vector', (6,)), ('array', (3, 2)), ('array', (2, 2, 2)), ('array', (4,)), ('vector', (17,)), ('array', (3, 5))]
    if tier == 'deep':
        shapes += [('vector', (40,)), ('array', (3, 3, 4)), ('array', (1, 2, 1, 3)), ('vector', (2,)), ('vector', (9,))]
    for bk in BOUNDS4:
        out.append(('monotone %s' % bk, monotone, dict(bk=bk)))
        for kind, sh in shapes:
            out.append(('roundtrip %s %s %s' % (kind, sh, bk), roundtrip, dict(kind=kind, shape=sh, bk=bk)))
            out.append(('reverse %s %s %s' % (kind, sh, bk), reverse, dict(kind=kind, shape=sh, bk=bk)))
            for side in ('above', 'below'):
                if (side == 'above' and bk in ('none', 'lower')) or (side == 'below' and bk in ('none', 'upper')):
                    continue
                for which in range(size_of(sh)):
                    if which and tier == 'quick' and which != size_of(sh) - 1:
                        continue
                    out.append(('outside %s %s %s %s %d' % (kind, sh, bk, side, which), outside,
                                dict(kind=kind, shape=sh, bk=bk, which=which, side=side)))
    return out
