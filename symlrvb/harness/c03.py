"""C03 packing into a flat vector is lossless"""
import numpy as np
from .common import *

BOUNDS = SIZES


def flatten_dictval(d):
    if isinstance(d, dict):
        out = []
        for k in d:
            out += flatten_dictval(d[k])
        return out
    if isinstance(d, (list, tuple)):
        out = []
        for x in d:
            out += flatten_dictval(x)
        return out
    return [d]


def roundtrip(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = spec.held(p)
    vec = p.get_vector()
    ctx.eq('flat size', np.shape(vec), (spec.nvec,))
    ctx.eq('declared flat size', p.vector_size(), spec.nvec)
    ctx.eq('declared unconstrained size', p.free_size(), spec.nfree)
    ctx.eq('unconstrained size', np.shape(p.get_free()), (spec.nfree,))
    ctx.eq('documented order', vec, spec.vec_of_param(p), 0)
    q = spec.make(ctx)
    q.set_vector(vec)
    ctx.eq('value reproduced', spec.held(q), before, 0)
    ctx.eq('unchanged by packing', spec.held(p), before, 0)
    ctx.eq('dictionary form', np.array(flatten_dictval(p.dictval())), before, 0)


def declared(ctx, spec):
    """the dimensions a parameter reports are those it was made with"""
    for held in (False, True):
        p = spec.make(ctx, name='nm')
        if held:
            spec.set_legal(ctx, p, 'v')
        ctx.eq('flat size', p.vector_size(), spec.nvec)
        ctx.eq('unconstrained size', p.free_size(), spec.nfree)
        if isinstance(spec, Box):
            if spec.kind == 'array':
                ctx.eq('shape', tuple(p.shape()), tuple(spec.shape))
            else:
                ctx.eq('size', p.size(), spec.nvec)
        if isinstance(spec, PosDef):
            ctx.eq('matrix size', p.size(), spec.n)
        if isinstance(spec, PosDefStack):
            ctx.eq('number of matrices', p.length(), spec.len)
            ctx.eq('matrix size', p.matrix_size(), spec.n)
        if isinstance(spec, Simplex):
            ctx.eq('shape', tuple(p.shape()), tuple(spec.shape))
            ctx.eq('unconstrained shape', tuple(p.free_shape()), (spec.shape[0], spec.shape[1] - 1))
        if isinstance(spec, Subspace):
            ctx.eq('dimension', p.dim(), spec.dim)


def any_vector(ctx, spec):
    p = spec.make(ctx)
    y = ctx.vec('y', spec.nvec)
    p.set_vector(y)
    ctx.eq('reads back', p.get_vector(), y, 0)
    if spec.shape is not None and spec.shape != ():
        ctx.eq('value shape', np.shape(p.get()), spec.shape)
    ctx.eq('documented order', flat(spec.vec_of_param(p)), y, 0)
    ctx.eq('dictionary form', np.array(flatten_dictval(p.dictval())), flat(spec.held(p)), 0)
    # the size check of the flat vector is against the flat size
    ctx.eq('declared flat size', p.vector_size(), spec.nvec)


def symindex(ctx, n):
    M = ctx.mod('MatrixParameters')
    v = M.vectorize_ld_matrix
    m = ctx.symmetric('m', n)
    vec = v(m)
    for i in range(n):
        for j in range(n):
            ctx.eq('index %d %d' % (i, j), vec[M.SymIndex(i, j)], m[i, j], 0)
    ctx.eq('unpacked', M.unvectorize_symmetric_matrix(vec), m, 0)
    lower = M.unvectorize_ld_matrix(vec)
    for i in range(n):
        for j in range(n):
            ctx.eq('lower %d %d' % (i, j), lower[i, j], m[i, j] if j <= i else 0.0, 0)
    ctx.eq('lower packs back', v(lower), vec, 0)
    bad = ctx.vec('bad', n * (n + 1) // 2 + 1) if n > 1 else ctx.vec('bad', 2)
    ctx.raises('impossible size', ValueError, M.unvectorize_ld_matrix, bad)
    ctx.raises('not square', ValueError, v, ctx.mat('r', n, n + 1))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s in base_specs(tier) + (wide_specs() if tier == 'thorough' else []) + subspace_specs(tier)[:4] + family_specs(tier) + [plain_dict(), nested_dict()]:
        out.append(('roundtrip %s' % s, roundtrip, dict(spec=s)))
        out.append(('any vector %s' % s, any_vector, dict(spec=s)))
        out.append(('declared %s' % s, declared, dict(spec=s)))
    for n in (1, 2, 3, 4) + ((5, 6, 7, 8) if tier != 'quick' else ()) + ((9, 10, 12, 15) if tier == 'deep' else ()):
        out.append(('triangle %d' % n, symindex, dict(n=n)))
    return out
