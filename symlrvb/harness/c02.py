"""C02 defaults are legal; impossible bounds refused"""
import numpy as np
from .common import *

BOUNDS = SIZES


def default(ctx, spec):
    p = spec.make(ctx)
    spec.check(ctx, 'default', p)
    f = p.get_free()
    ctx.eq('unconstrained size', np.shape(f), (spec.nfree,))
    v = p.get_vector()
    ctx.eq('flat size', np.shape(v), (spec.nvec,))
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('default survives its unconstrained value', q.get_vector(), v)


def no_arguments(ctx):
    vb = ctx.vb
    W = ctx.mod('WishartParams').WishartParam
    for mk in (vb.ScalarParam, vb.VectorParam, vb.ArrayParam, vb.PosDefMatrixParam, vb.PosDefMatrixParamVector,
               vb.PosDefMatrixParamArray, vb.SimplexParam, vb.UVNParam, vb.UVNParamVector, vb.UVNParamArray,
               vb.UVNMomentParamArray, vb.MVNParam, vb.MVNArray, vb.GammaParam, vb.DirichletParamArray, W):
        p = mk()
        ctx.eq(mk.__name__ + ': unconstrained size', np.shape(p.get_free()), (p.free_size(),))
        ctx.eq(mk.__name__ + ': flat size', np.shape(p.get_vector()), (p.vector_size(),))
    helm = Subspace(3, None)
    p = helm.make(ctx)
    ctx.eq('subspace: unconstrained size', np.shape(p.get_free()), (2,))


def given(ctx, spec):
    v = spec.legal(ctx, 'v')
    p = spec.make(ctx, val=v)
    ctx.eq('value held', p.get(), v)
    f = p.get_free()
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('and its unconstrained value means it', flat(q.get()), flat(v))


def given_dirichlet(ctx):
    a = ctx.mat('a', 2, 2, positive=True)
    d = ctx.reals('mn', lo=0.0, hi=0.2)
    ctx.assume(d >= 0)
    p = ctx.vb.DirichletParamArray('p', shape=(2, 2), min_alpha=d, val=a + d)
    ctx.eq('value held', p['alpha'].get(), a + d)


def refused(ctx, kind, val, eq):
    lb = ctx.reals('lb')
    if eq:
        ub = lb
    else:
        ub = ctx.reals('ub', lo=-3, hi=0)
        ctx.assume(ub < lb)
    shape = {'scalar': (1,), 'vector': (2,), 'array': (2, 2)}[kind]
    v = shaped(kind, ctx.vec('v', size_of(shape)), shape) if val else None
    ctx.raises('upper bound not above the lower one', ValueError, box_param, ctx, kind, shape, lb, ub, v)


def refused_inf(ctx, kind):
    shape = {'scalar': (1,), 'vector': (2,), 'array': (2, 2)}[kind]
    for lb, ub in ((INF, INF), (-INF, -INF), (INF, -INF), (1.0, -INF), (INF, 0.0)):
        ctx.raises('bounds %s %s' % (lb, ub), ValueError, box_param, ctx, kind, shape, lb, ub)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = [('no arguments', no_arguments, {}), ('given DirichletParamArray', given_dirichlet, {})]
    for s in base_specs(tier) + (wide_specs() if tier == 'thorough' else []) + subspace_specs(tier) + family_specs('thorough') + [plain_dict(), nested_dict()]:
        out.append(('default %s' % s, default, dict(spec=s)))
    for s in base_specs(tier) + (wide_specs() if tier == 'thorough' else []) + subspace_specs(tier):
        out.append(('given %s' % s, given, dict(spec=s)))
    for kind in ('scalar', 'vector', 'array'):
        for val in (False, True):
            for eq in (False, True):
                out.append(('refused %s val=%s equal=%s' % (kind, val, eq), refused, dict(kind=kind, val=val, eq=eq)))
        out.append(('refused infinite %s' % kind, refused_inf, dict(kind=kind)))
    return out
