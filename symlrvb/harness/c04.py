"""C04 positive-definite parameters"""
import numpy as np
from .common import *

BOUNDS = {'sizes': 'single 1..3 (also 4); vectors of up to 3, arrays of shape (2,), (1,2), (2,2) (also (2,1,2)) of matrices of size 1..2 (also 3)',
          'values': 'all reals; every symmetric positive definite matrix as L L^T', 'floor': 'symbolic, >= 0, and 0'}


def roundtrip(ctx, spec):
    p = spec.make(ctx)
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    p.set_free(x)
    spec.check(ctx, 'value', p)
    ctx.eq('free value back', p.get_free(), x)
    ctx.eq('declared size', p.free_size(), spec.nfree)
    # ... also when the parameter held something else before
    q = spec.make(ctx)
    q.set_free(ctx.vec('y', spec.nfree, lo=-1.2, hi=1.2))
    q.set_free(x)
    ctx.eq('value does not depend on the history', q.get(), p.get())


def reverse(ctx, spec):
    v = spec.legal(ctx, 'v')
    p = spec.make(ctx)
    p.set(v)
    ctx.eq('value held', p.get(), v)
    f = p.get_free()
    ctx.eq('size', np.shape(f), (spec.nfree,))
    ctx.eq('reading keeps the value', p.get(), v)
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('matrix back', q.get(), v)
    r = spec.make(ctx)
    r.set_vector(p.get_vector())
    ctx.eq('unconstrained value of the packed matrix', r.get_free(), f)


def segments(ctx, spec):
    """every matrix is the single-matrix map of its own segment, in order"""
    p = spec.make(ctx)
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    p.set_free(x)
    ms = spec.mats(p.get())
    y = x
    for i in range(spec.len):
        q = spec.one.make(ctx)
        q.set_free(x[i * spec.k:(i + 1) * spec.k])
        ctx.eq('matrix %d is that of its own segment' % i, ms[i], q.get())
    J = ctx.diff1(lambda z: via(ctx, spec, z), x)
    n2 = spec.n * spec.n
    for i in range(spec.len):
        for j in range(spec.len):
            if i != j:
                B = J[i * n2:(i + 1) * n2, j * spec.k:(j + 1) * spec.k]
                ctx.eq('matrix %d does not depend on segment %d' % (i, j), B, np.zeros((n2, spec.k)), 1e-6)
    v = spec.legal(ctx, 'v')
    p.set(v)
    f = p.get_free()
    for i in range(spec.len):
        q = spec.one.make(ctx)
        q.set(spec.mats(v)[i])
        ctx.eq('segment %d' % i, f[i * spec.k:(i + 1) * spec.k], q.get_free())


def via(ctx, spec, z):
    q = spec.make(ctx)
    q.set_free(z)
    return flat(q.get())


def cholesky_form(ctx, n, floor):
    """the unconstrained vector is the Cholesky factor with log diagonal,
    packed row by row"""
    s = PosDef(n, floor)
    p = s.make(ctx)
    L = ctx.chol('L', n)
    p.set(np.dot(L, L.T) + s.lb(ctx) * np.eye(n))
    f = p.get_free()
    k = 0
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                ctx.eq('diagonal %d' % i, np.exp(f[k]), L[i, i])
            k += 1
    ctx.eq('number of unconstrained values', k, len(f))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    specs = [PosDef(n, f) for n in (1, 2, 3) for f in (False, True)]
    specs += [PosDefStack('vector', (3,), 1, True), PosDefStack('vector', (2,), 2, True), PosDefStack('vector', (2,), 2, False),
              PosDefStack('array', (2,), 2, True), PosDefStack('array', (1, 2), 2, False), PosDefStack('array', (2, 2), 2, True),
              PosDefStack('array', (2, 2), 1, True), PosDefStack('vector', (1,), 2, True)]
    if tier != 'quick':
        specs += [PosDef(4, True), PosDefStack('vector', (2,), 3, True), PosDefStack('array', (2, 1, 2), 2, True),
                  PosDefStack('array', (2,), 3, True), PosDefStack('vector', (4,), 2, True),
                  PosDefStack('vector', (7,), 2, True), PosDefStack('array', (3, 2), 2, False), PosDefStack('vector', (3,), 3, True)]
    if tier == 'deep':
        specs += [PosDef(5, True), PosDef(5, False), PosDefStack('vector', (3,), 4, True), PosDefStack('array', (2, 3), 3, False),
                  PosDefStack('vector', (12,), 2, True), PosDefStack('array', (2, 2, 2), 2, True), PosDefStack('vector', (20,), 1, True)]
    for s in specs:
        out.append(('roundtrip %s' % s, roundtrip, dict(spec=s)))
        out.append(('reverse %s' % s, reverse, dict(spec=s)))
        if isinstance(s, PosDefStack):
            out.append(('segments %s' % s, segments, dict(spec=s)))
    return out
