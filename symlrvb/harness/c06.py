"""C06 subspace vectors"""
import numpy as np
from .common import *

BOUNDS = {'dimensions': '2..5 with 1..4 constraint rows (thorough 6, 5 rows); the default zero-mean constraint up to dimension 8 (thorough 12)',
          'constraints': 'every full-rank matrix L Q with L lower triangular (positive diagonal) and Q rows of an orthonormal frame '
                         '(dimension 2: all planar rotations but the half turn; 3: all rotations with nonzero quaternion real part; 4 and more: products of n-1 plane rotations)'}
ASSUMPTIONS = ['eigh is a contract stub: it returns an orthonormal eigenbasis (the registered frame) with ascending eigenvalues']


def roundtrip(ctx, spec):
    X, R = spec.constraint(ctx)
    p = spec.make(ctx)
    x = ctx.vec('x', spec.nfree)
    p.set_free(x)
    v = p.get()
    ctx.eq('size', np.shape(v), (spec.dim,))
    ctx.eq('zero inner products', np.dot(X, v), np.zeros(spec.k))
    ctx.eq('free value back', p.get_free(), x)
    ctx.eq('sizes', (p.free_size(), p.vector_size(), p.dim()), (spec.nfree, spec.dim, spec.dim))
    # the map is an isometry: nothing is scaled or lost
    ctx.eq('norm kept', np.dot(v, v), np.dot(x, x))


def reverse(ctx, spec):
    v = spec.legal(ctx, 'v')
    p = spec.make(ctx)
    p.set(v)
    f = p.get_free()
    ctx.eq('size', np.shape(f), (spec.nfree,))
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('vector back', q.get(), v)
    ctx.eq('unchanged by reading', p.get(), v)


def history(ctx, spec):
    X, R = spec.constraint(ctx)
    p = spec.make(ctx)
    for i in range(2):
        x = ctx.vec('x%d' % i, spec.nfree)
        p.set_free(x)
        ctx.eq('step %d: zero inner products' % i, np.dot(X, p.get()), np.zeros(spec.k))
        ctx.eq('step %d: free value back' % i, p.get_free(), x)
        w = spec.legal(ctx, 'w%d' % i)
        p.set_vector(w)
        y = p.get_free()
        p.set_free(y)
        ctx.eq('step %d: vector back' % i, p.get_vector(), w)


def caller_matrix(ctx, spec):
    """changing the caller's constraint matrix later has no effect"""
    X, R = spec.constraint(ctx)
    Y = np.array(X)
    p = ctx.vb.SubspaceVectorParam('p', dim=spec.dim, perp_subspace=Y)
    Y[0, 0] = Y[0, 0] + 1
    x = ctx.vec('x', spec.nfree)
    p.set_free(x)
    ctx.eq('zero inner products', np.dot(X, p.get()), np.zeros(spec.k))


def refuse(ctx):
    vb = ctx.vb
    ctx.raises('rows of the wrong length', ValueError, vb.SubspaceVectorParam, 'p', dim=3, perp_subspace=ctx.mat('a', 1, 2))
    ctx.raises('too many rows', ValueError, vb.SubspaceVectorParam, 'p', dim=2, perp_subspace=ctx.mat('b', 2, 2))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = [('refuse', refuse, {})]
    specs = [Subspace(2, None), Subspace(3, None), Subspace(4, None), Subspace(2, 1), Subspace(3, 1), Subspace(3, 2)]
    if tier != 'quick':
        specs += [Subspace(5, None), Subspace(6, None), Subspace(8, None), Subspace(4, 1), Subspace(4, 2), Subspace(4, 3), Subspace(5, 2), Subspace(5, 4)]
    if tier == 'deep':
        specs += [Subspace(7, None), Subspace(10, None), Subspace(12, None), Subspace(5, 1), Subspace(5, 3), Subspace(6, 1), Subspace(6, 3), Subspace(6, 5)]
    for s in specs:
        out.append(('roundtrip %s' % s, roundtrip, dict(spec=s)))
        out.append(('reverse %s' % s, reverse, dict(spec=s)))
        out.append(('history %s' % s, history, dict(spec=s)))
        if s.rows is not None:
            out.append(('caller matrix %s' % s, caller_matrix, dict(spec=s)))
    return out
