"""C12 the preconditioned objective"""
from .objfun import *

BOUNDS = dict(SIZES, preconditioner='arbitrary (symbolic) matrices of size 1..5 (not necessarily symmetric or invertible), dense, csr, csc, '
              'and sparse with structural zeros')


def sparse_a(ctx, n):
    import scipy.sparse as sp
    A = np.zeros((n, n))
    rows, cols, vals = [], [], []
    for i in range(n):
        for j in {i, (i + 1) % n}:
            A[i, j] = ctx.reals('s%d%d' % (i, j))
            rows.append(i)
            cols.append(j)
            vals.append(A[i, j])
    return A, sp.csr_matrix((np.array(vals), (rows, cols)), (n, n))


def conditioned(ctx, spec, how, kind):
    import scipy.sparse as sp
    p = spec.make(ctx)
    n = spec.nfree
    if how in ('pattern', 'band', 'bandcsc'):
        A, arg = sparse_a(ctx, n)
        if how == 'band':
            arg = A
        elif how == 'bandcsc':
            arg = sp.csc_matrix(A)
    else:
        A = ctx.mat('A', n, n)
        arg = {'dense': lambda a: a, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix}[how](A)
    x = ctx.vec('x', n, lo=-0.8, hi=0.8)
    w = ctx.vec('w', n)
    coef = quad_coef(ctx, 'q', spec.nvec)
    a, b = ctx.reals('a'), ctx.reals('b')
    f = (lambda q: quad(coef, q.get_vector())) if kind == 'quadratic' else (lambda q: smooth(spec, q))
    SO = ctx.mod('SparseObjectives')
    obj = SO.Objective(p, lambda s=1.0, t=0.0: s * f(p) + t)
    # another preconditioner was in use before
    obj.preconditioner = np.eye(n) * 0.5 + np.triu(np.ones((n, n))) * 0.25
    z = np.array([0.25 + 0.125 * i for i in range(n)])
    for m in (obj.fun_free_cond, obj.fun_free_grad_cond, obj.fun_free_hessian_cond, obj.uncondition_x):
        m(z)
    obj.fun_free_hvp_cond(z, np.ones(n))
    obj.preconditioner = arg

    def g(z):
        q = spec.make(ctx)
        q.set_free(np.dot(A, z))
        return f(q)
    wv, wg, wh = g(x), np.reshape(ctx.diff1(g, x), (n,)), np.reshape(ctx.diff2(g, x), (n, n))
    z0, zn, znn = np.zeros(()), np.zeros(n), np.zeros((n, n))
    ctx.eq('value', sq(obj.fun_free_cond(x) - wv), z0)
    ctx.eq('gradient', obj.fun_free_grad_cond(x) - wg, zn, 1e-6)
    ctx.eq('Hessian', dense(obj.fun_free_hessian_cond(x)) - wh, znn, 1e-5)
    ctx.eq('Hessian-vector product', obj.fun_free_hvp_cond(x, w) - np.dot(wh, w), zn, 1e-5)
    # converting back
    ctx.eq('converted point', obj.uncondition_x(x), np.dot(A, x))
    ctx.eq('conditioned point', obj.get_conditioned_x(x), np.dot(A, x))
    ctx.eq('value at the converted point', sq(obj.fun_free(obj.uncondition_x(x)) - wv), z0)
    ctx.eq('parameter is at the converted point', p.get_free() - np.dot(A, x), zn)
    # extra arguments
    ctx.eq('value, arguments', sq(obj.fun_free_cond(x, a, t=b) - (a * wv + b)), z0)
    ctx.eq('gradient, arguments', obj.fun_free_grad_cond(x, a, t=b) - a * wg, zn, 1e-6)
    ctx.eq('Hessian, arguments', dense(obj.fun_free_hessian_cond(x, a, t=b)) - a * wh, znn, 1e-5)
    ctx.eq('Hessian-vector product, arguments', obj.fun_free_hvp_cond(x, a, b, w) - a * np.dot(wh, w), zn, 1e-5)
    # the unconditioned objective is unchanged
    ctx.eq('unconditioned objective', sq(obj.fun_free(x) - f_at(ctx, spec, f, x)), z0)
def f_at(ctx, spec, f, z):
    q = spec.make(ctx)
    q.set_free(z)
    return f(q)


def logged(ctx, how):
    """value and point in the log refer to the same coordinates"""
    import scipy.sparse as sp
    spec = Box('vector', (2,), 'lower')
    p = spec.make(ctx)
    A = ctx.mat('A', 2, 2)
    coef = quad_coef(ctx, 'q', 2)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: quad(coef, p.get_vector()))
    obj.logger.callback = lambda l: None
    obj.preconditioner = A if how == 'dense' else sp.csr_matrix(A)
    x = ctx.vec('x', 2, lo=-0.8, hi=0.8)
    v = obj.fun_free_cond(x, verbose=True)
    ctx.eq('logged value', obj.logger.value, v)
    ctx.eq('logged point', obj.logger.x, np.dot(A, x))
    ctx.eq('value of the logged point', obj.fun_free(obj.logger.x), v)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    specs = [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), Box('vector', (3,), 'none'), Box('array', (1, 2), 'upper'),
             PosDef(2, True), Simplex((1, 3)), Dict('d', [('a', Box('vector', (2,), 'lower')), ('b', Simplex((1, 2)))])]
    if tier != 'quick':
        specs += [plain2(), Simplex((2, 3)), Box('vector', (4,), 'both')]
    if tier == 'deep':
        specs += [Box('vector', (6,), 'lower'), Box('array', (2, 3), 'none'), nested_dict(), PosDef(3, True), Subspace(4, None)]
    for s in specs:
        # a full symbolic matrix of size 4 is beyond the normal forms
        for how in ('dense', 'csr', 'csc', 'pattern') if s.nfree < 4 and not isinstance(s, Dict) or s in specs[:7] else ('band', 'bandcsc', 'pattern'):
            for kind in ('quadratic', 'values'):
                if kind == 'values' and (how == 'csc' or isinstance(s, PosDef)) and tier == 'quick':
                    continue
                out.append(('conditioned %s %s %s' % (s, how, kind), conditioned, dict(spec=s, how=how, kind=kind)))
    for how in ('dense', 'sparse'):
        out.append(('logged %s' % how, logged, dict(how=how)))
    return out


def COST(c):
    s = c[2].get('spec')
    return s.nvec * s.nfree ** 2 if s else 0
