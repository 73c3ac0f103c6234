"""C09 wrong sizes and shapes are refused"""
import numpy as np
from .common import *

BOUNDS = {'wrong sizes': 'one less, one more, twice, empty; wrong shapes: transposed, flattened, an extra dimension, each dimension one off, permuted dimensions',
          'values': 'all reals (held and offered)'}


def wrong_shapes(shape):
    shape = tuple(shape)
    out = []
    for i in range(len(shape)):
        for d in (1, -1):
            s = shape[:i] + (shape[i] + d,) + shape[i + 1:]
            if all(k > 0 for k in s):
                out.append(s)
    out.append(shape + (1,))
    out.append((1,) + shape)
    if len(shape) > 1:
        out.append((size_of(shape),))
        out.append(shape[::-1])
        out.append((shape[1], shape[0]) + shape[2:])
        out.append(shape[1:])
        out.append(tuple(k + 1 for k in shape))
    u = []
    for s in out:
        if s != shape and s not in u:
            u.append(s)
    return u


def lengths(n):
    return [m for m in (n - 1, n + 1, 2 * n, 2 * n + 1) if m > 0 and m != n]


def refuse_vectors(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    before = spec.held(p)
    for m in lengths(spec.nfree):
        ctx.raises('unconstrained vector of length %d' % m, ValueError, p.set_free, ctx.vec('f%d' % m, m))
        ctx.eq('unchanged after unconstrained %d' % m, spec.held(p), before)
    for m in lengths(spec.nvec):
        ctx.raises('flat vector of length %d' % m, ValueError, p.set_vector, ctx.vec('v%d' % m, m))
        ctx.eq('unchanged after flat %d' % m, spec.held(p), before)
    # the right size is still accepted
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    p.set_free(x)
    ctx.eq('right size accepted', p.get_free(), x)


def refuse_values(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    before = spec.held(p)
    if isinstance(spec, (Box, Subspace)) and len(spec.shape) == 1 and getattr(spec, 'kind', 'vector') == 'vector':
        shapes = [(m,) for m in lengths(spec.shape[0])]
    else:
        shapes = wrong_shapes(spec.shape)
    for sh in shapes:
        tag = 'x'.join(str(k) for k in sh)
        v = spd_stack(ctx, 'w' + tag, sh, spec)
        ctx.raises('value of shape %s' % tag, ValueError, p.set, v)
        ctx.eq('unchanged after %s' % tag, spec.held(p), before)


def spd_stack(ctx, name, sh, spec):
    """a value of the wrong shape, but otherwise as legal as possible"""
    if isinstance(spec, (PosDef, PosDefStack)) and len(sh) >= 2 and sh[-1] == sh[-2]:
        out = np.zeros(sh)
        m = ctx.symmetric(name, sh[-1])
        r = out.reshape((-1, sh[-1], sh[-1]))
        for i in range(r.shape[0]):
            r[i] = m
        return r.reshape(sh)
    return ctx.reals(name, sh)


def asymmetric(ctx, n):
    p = PosDef(n, False).make(ctx)
    v = PosDef(n, False).legal(ctx, 'held')
    p.set(v)
    w = ctx.mat('w', n, n)
    ctx.assume(w[0, n - 1] - w[n - 1, 0] > 0)
    ctx.raises('asymmetric matrix', ValueError, p.set, w)
    ctx.eq('unchanged', p.get(), v)


def create(ctx, spec):
    """at creation"""
    for sh in wrong_shapes(spec.shape):
        if isinstance(spec, (Box, Subspace)) and getattr(spec, 'kind', 'vector') == 'vector' and \
                size_of(sh) == size_of(spec.shape):
            continue
        tag = 'x'.join(str(k) for k in sh)
        ctx.raises('value of shape %s' % tag, ValueError, spec.make, ctx, spd_stack(ctx, 'w' + tag, sh, spec))


def derivative_sizes(ctx, n):
    p = PosDef(n, False).make(ctx)
    for m in lengths(n * (n + 1) // 2):
        ctx.raises('Jacobian at length %d' % m, ValueError, p.free_to_vector_jac, ctx.vec('f%d' % m, m))
        ctx.raises('Hessian at length %d' % m, ValueError, p.free_to_vector_hess, ctx.vec('f%d' % m, m))


def specs(tier):
    out = [Box('vector', (3,), 'none'), Box('vector', (2,), 'both'), Box('vector', (1,), 'lower'),
           Box('array', (2, 3), 'none'), Box('array', (2, 2), 'both'), Box('array', (2, 1, 3), 'lower'), Box('array', (3,), 'upper'),
           PosDef(1, False), PosDef(2, True), PosDef(3, False),
           PosDefStack('vector', (2,), 2, True), PosDefStack('vector', (3,), 2, False), PosDefStack('vector', (2,), 1, False),
           PosDefStack('array', (2,), 2, True), PosDefStack('array', (2, 3), 2, False), PosDefStack('array', (1, 2), 2, False),
           Simplex((2, 3)), Simplex((1, 2)), Simplex((3, 2)), Subspace(3, None), Subspace(3, 1), Subspace(3, 2)]
    if tier != 'quick':
        out += [PosDefStack('array', (2, 2), 3, True), Box('array', (2, 2, 2), 'both'), Simplex((3, 4)), PosDef(4, False), Box('vector', (8,), 'lower'),
                Box('array', (3, 4), 'none'), PosDefStack('vector', (6,), 2, True), Simplex((6, 2)), Subspace(5, None)]
    if tier == 'deep':
        out += wide_specs() + [PosDef(5, True), PosDef(6, False)]
    return list({str(s): s for s in out}.values())


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for s in specs(tier):
        out.append(('vectors %s' % s, refuse_vectors, dict(spec=s)))
        out.append(('values %s' % s, refuse_values, dict(spec=s)))
        out.append(('create %s' % s, create, dict(spec=s)))
    for s in [plain_dict(), nested_dict()] + family_specs(tier):
        out.append(('vectors %s' % s, refuse_vectors, dict(spec=s)))
    for n in (2, 3):
        out.append(('asymmetric %d' % n, asymmetric, dict(n=n)))
    return out
