"""C07 free-to-vector derivatives"""
import numpy as np
from .common import *

BOUNDS = SIZES
ASSUMPTIONS = ['subspace parameters: eigh is a contract stub returning the registered orthonormal frame']


def vec_map(ctx, spec):
    def f(z):
        q = spec.make(ctx)
        q.set_free(z)
        return q.get_vector()
    return f


def derivatives(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    f = vec_map(ctx, spec)
    J = dense(p.free_to_vector_jac(x))
    ctx.eq('Jacobian shape', np.shape(J), (spec.nvec, spec.nfree))
    ctx.eq('Jacobian', J - ctx.diff1(f, x), np.zeros((spec.nvec, spec.nfree)), 1e-6)
    H = p.free_to_vector_hess(x)
    ctx.eq('one Hessian per flat component', len(H), spec.nvec)
    T = ctx.diff2(f, x)
    for k in range(spec.nvec):
        h = dense(H[k])
        ctx.eq('Hessian %d shape' % k, np.shape(h), (spec.nfree, spec.nfree))
        ctx.eq('Hessian %d' % k, h - T[k], np.zeros((spec.nfree, spec.nfree)), 1e-5)
    # the map itself
    ctx.eq('free_to_vector', p.free_to_vector(x) - f(x), np.zeros(spec.nvec) if spec.shape != () else np.zeros(1))


def held_value(ctx, spec):
    """the result does not depend on the value the parameter holds"""
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    p, q = spec.make(ctx), spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    Jp, Hp = dense(p.free_to_vector_jac(x)), [dense(h) for h in p.free_to_vector_hess(x)]
    q.set_free(x)
    Jq, Hq = dense(q.free_to_vector_jac(x)), [dense(h) for h in q.free_to_vector_hess(x)]
    ctx.eq('Jacobian', Jp - Jq, np.zeros((spec.nvec, spec.nfree)))
    ctx.eq('Hessians', np.array(Hp) - np.array(Hq), np.zeros((spec.nvec, spec.nfree, spec.nfree)))
    # evaluating elsewhere in between changes nothing
    y = ctx.vec('y', spec.nfree, lo=-1.2, hi=1.2)
    p.free_to_vector_jac(y)
    p.free_to_vector_hess(y)
    ctx.eq('Jacobian again', dense(p.free_to_vector_jac(x)) - Jp, np.zeros((spec.nvec, spec.nfree)))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    specs = base_specs(tier) + ([s for s in wide_specs() if s.nvec < 18] if tier == 'thorough' else []) + subspace_specs(tier)[:4] + family_specs(tier) + [plain_dict(), nested_dict()]
    for s in specs:
        out.append(('derivatives %s' % s, derivatives, dict(spec=s)))
    for s in specs:
        if tier == 'deep' or s.nfree <= 8:
            out.append(('held value %s' % s, held_value, dict(spec=s)))
    return out


def COST(c):
    s = c[2]['spec']
    return s.nvec * s.nfree * s.nfree
