"""C19 normal families"""
import copy
from .common import *

BOUNDS = {'sizes': 'vectors of 1..3, arrays (1,2), (2,2), (2,1,2), (3,), (2,3,1); multivariate normals of dimension 1..3 (also 4)',
          'values': 'all means, all positive informations above a symbolic floor; all second moments above the squared mean'}


def shapes(tier):
    out = [(1,), (3,), (1, 2), (2, 2), (2, 1, 2)]
    if tier != 'quick':
        out += [(2, 3), (3, 2, 2), (2, 3, 1), (5,)]
    if tier == 'deep':
        out += [(9,), (3, 4), (1, 1, 2, 2)]
    return out


def positive(ctx, name, shape, floor):
    if shape == ():
        return ctx.reals(name, positive=True) + floor
    return ctx.reals(name, shape, positive=True) + floor


def flatl(v):
    return [v] if np.shape(v) == () else list(flat(np.array(v)))


def expect(ctx, p, m, s, label=''):
    """m: means, s: variances (same shape); p: the parameter"""
    sh = np.shape(m)
    M, S = flatl(m), flatl(s)

    def same(name, got, want):
        if sh == ():
            # a scalar set from a vector holds a length-one array
            ctx.eq(label + name, np.reshape(np.array(got), (1,)), np.array(want))
            return
        ctx.eq(label + name + ': shape', np.shape(got), sh)
        ctx.eq(label + name, got, np.reshape(np.array(want), sh))
    same('mean', p.e(), M)
    same('second moment', p.e_outer(), [a * a + b for a, b in zip(M, S)])
    same('variance', p.var(), S)
    same('log-normal mean', p.e_exp(), [np.exp(a + b / 2) for a, b in zip(M, S)])
    same('log-normal variance', p.var_exp(), [np.exp(2 * a + 2 * b) - np.exp(2 * a + b) for a, b in zip(M, S)])
    same('log-normal second moment', p.e2_exp(), [np.exp(2 * a + 2 * b) for a, b in zip(M, S)])
    want = 0.0
    for b in S:
        want = want + 0.5 * (np.log(b) + 1 + np.log(2 * np.pi))
    ctx.eq(label + 'entropy', p.entropy(), want)


def univariate(ctx, cls, shape):
    fl = minpar(ctx)
    kw = {'UVNParam': {}, 'UVNParamVector': {'length': shape[0] if shape else 1}, 'UVNParamArray': {'shape': shape}}[cls]
    m = ctx.reals('m') if shape == () else ctx.reals('m', shape)
    i = positive(ctx, 'i', shape, fl)
    p = getattr(ctx.vb, cls)('p', min_info=fl, **kw)
    p['mean'].set(m)
    p['info'].set(i)
    var = 1 / i
    expect(ctx, p, m, var)
    # as functions of the flat and of the unconstrained coordinates
    q = getattr(ctx.vb, cls)('q', min_info=fl, **kw)
    q.set_vector(p.get_vector())
    expect(ctx, q, m, var, 'from the flat vector: ')
    r = getattr(ctx.vb, cls)('r', min_info=fl, **kw)
    r.set_free(p.get_free())
    expect(ctx, r, m, var, 'from the unconstrained vector: ')
    # the moments follow the value
    p['mean'].set(m + 1)
    ctx.eq('mean of a changed value', p.e(), m + 1)
    # reading the moments left the value alone
    ctx.eq('information', p['info'].get(), i)


def moment_array(ctx, shape):
    fl = minpar(ctx)
    p = ctx.vb.UVNMomentParamArray('p', shape=shape, min_info=fl)
    m = ctx.reals('m', shape)
    s = ctx.reals('s', shape, positive=True) + fl
    p['e'].set(m)
    p['e2'].set(m * m + s)
    expect(ctx, p, m, s)
    ctx.true('shape', p.shape() == shape)


def copying(ctx, shape):
    NP = ctx.mod('NormalParams')
    fl = minpar(ctx)
    src = ctx.vb.UVNParamArray('s', shape=shape)
    m, i = ctx.reals('m', shape), ctx.reals('i', shape, positive=True)
    src['mean'].set(m)
    src['info'].set(i)
    p = ctx.vb.UVNMomentParamArray('p', shape=shape)
    p.set_from_uvn_param_array(src)
    expect(ctx, p, m, 1 / i)
    ctx.eq('source mean kept', src.e(), m)
    ctx.eq('source information kept', src['info'].get(), i)
    # from another moment array
    m2, s2 = ctx.reals('m2', shape), ctx.reals('s2', shape, positive=True)
    q = ctx.vb.UVNMomentParamArray('q', shape=shape)
    q['e'].set(m2)
    q['e2'].set(m2 * m2 + s2)
    p.set_from_uvn_param_array(q)
    expect(ctx, p, m2, s2, 'second copy: ')
    # from constants
    c = ctx.vb.ArrayParam('c', shape=shape)
    x = ctx.reals('x', shape)
    c.set(x)
    p.set_from_constant(c)
    ctx.eq('constant: mean', p.e(), x)
    ctx.eq('constant: second moment', p.e_outer(), x * x)
    ctx.eq('constant: variance', p.var(), np.zeros(shape))
    ctx.eq('constant kept', c.get(), x)


def independent_copy(ctx, shape):
    """the copy does not follow later changes of its source"""
    src = ctx.vb.UVNParamArray('s', shape=shape)
    m, i = ctx.reals('m', shape), ctx.reals('i', shape, positive=True)
    src['mean'].set(m)
    src['info'].set(i)
    p = ctx.vb.UVNMomentParamArray('p', shape=shape)
    p.set_from_uvn_param_array(src)
    src.set_free(ctx.vec('f', 2 * size_of(shape), lo=-1.0, hi=1.0))
    ctx.eq('mean', p.e(), m)
    ctx.eq('second moment', p.e_outer(), m * m + 1 / i)


def multivariate(ctx, n):
    fl = minpar(ctx)
    p = ctx.vb.MVNParam('p', dim=n, min_info=fl)
    m = ctx.vec('m', n)
    # a diagonal floor keeps the information in the allowed set
    L = ctx.chol('L', n)
    I = np.dot(L, L.T) + fl * np.eye(n)
    p['mean'].set(m)
    p['info'].set(I)
    ctx.eq('mean', p.e(), m)
    C = p.cov()
    ctx.eq('covariance shape', np.shape(C), (n, n))
    ctx.eq('covariance', np.dot(I, C), np.eye(n))
    ctx.eq('covariance, from the right', np.dot(C, I), np.eye(n))
    O = p.e_outer()
    R = O - np.outer(m, m)
    ctx.eq('outer product', np.dot(R, I), np.eye(n))
    ctx.eq('outer product symmetric', O, O.T)
    ctx.eq('information kept', p['info'].get(), I)


def mvn_entropy(ctx, n, floor):
    """entropy from the determinant of the information"""
    p = ctx.vb.MVNParam('p', dim=n)
    L = ctx.chol('L', n)
    I = np.dot(L, L.T)
    p['mean'].set(ctx.vec('m', n))
    p['info'].set(I)
    want = n * 0.5 * (1 + np.log(2 * np.pi))
    for i in range(n):
        want = want - np.log(L[i, i])
    ctx.eq('entropy', p.entropy(), want)
    ctx.eq('entropy, function', ctx.mod('ExponentialFamilies').multivariate_normal_entropy(I), want)


def mvn_diag(ctx, n):
    """independent components: sums of the univariate entropies"""
    EF = ctx.mod('ExponentialFamilies')
    i = ctx.vec('i', n, positive=True)
    want = 0.0
    for k in range(n):
        want = want + EF.univariate_normal_entropy(i[k])
    ctx.eq('entropy', EF.multivariate_normal_entropy(np.diag(i)), want)
    ctx.eq('sum of univariate entropies', EF.univariate_normal_entropy(i), want)


def mvn_array(ctx, shape):
    fl = minpar(ctx)
    p = ctx.vb.MVNArray('p', shape=shape, min_info=fl)
    m = ctx.reals('m', shape)
    i = ctx.vec('i', shape[0], positive=True) + fl
    p['mean'].set(m)
    p['info'].set(i)
    ctx.eq('mean', p.e(), m)
    want = np.array([[m[a, b] ** 2 + 1 / i[a] for b in range(shape[1])] for a in range(shape[0])])
    ctx.eq('second moment', p.e2(), want)


def functions(ctx, shape):
    """the stand-alone functions, elementwise over arrays"""
    EF = ctx.mod('ExponentialFamilies')
    m = ctx.reals('m', shape)
    s = ctx.reals('s', shape, positive=True)
    n = size_of(shape)
    M, S = flatl(m), flatl(s)
    ctx.eq('log-normal mean', EF.get_e_lognormal(m, s), np.reshape(np.array([np.exp(a + b / 2) for a, b in zip(M, S)]), shape))
    ctx.eq('log-normal variance', EF.get_var_lognormal(m, s),
           np.reshape(np.array([np.exp(2 * a + 2 * b) - np.exp(2 * a + b) for a, b in zip(M, S)]), shape))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = [('UVNParam', univariate, dict(cls='UVNParam', shape=()))]
    for n in (1, 2, 3) + ((8,) if tier != 'quick' else ()):
        out.append(('UVNParamVector %d' % n, univariate, dict(cls='UVNParamVector', shape=(n,))))
    for sh in shapes(tier):
        out.append(('UVNParamArray %s' % list(sh), univariate, dict(cls='UVNParamArray', shape=sh)))
        out.append(('UVNMomentParamArray %s' % list(sh), moment_array, dict(shape=sh)))
        out.append(('copying %s' % list(sh), copying, dict(shape=sh)))
        out.append(('independent copy %s' % list(sh), independent_copy, dict(shape=sh)))
        out.append(('functions %s' % list(sh), functions, dict(shape=sh)))
    for n in (1, 2, 3):
        out.append(('MVNParam %d' % n, multivariate, dict(n=n)))
        out.append(('MVNParam entropy %d' % n, mvn_entropy, dict(n=n, floor=False)))
        out.append(('diagonal %d' % n, mvn_diag, dict(n=n)))
    if tier != 'quick':
        out.append(('MVNParam entropy 4', mvn_entropy, dict(n=4, floor=False)))
        out.append(('MVNParam 4', multivariate, dict(n=4)))
        out.append(('diagonal 5', mvn_diag, dict(n=5)))
    for sh in [(1, 1), (2, 2), (3, 2), (2, 3)] + ([(5, 2), (1, 4)] if tier != 'quick' else []):
        out.append(('MVNArray %s' % list(sh), mvn_array, dict(shape=sh)))
    for s in unfloored_specs():
        if s.name.startswith(('UVN', 'MVN')):
            out.append(('default floor %s' % s, every_legal_value, dict(spec=s)))
    return out
