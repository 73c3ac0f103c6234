"""C27 conjugate-gradient helpers"""
import autograd.numpy as anp
from .common import *
from .objfun import quad_coef, quad

BOUNDS = {'sizes': 'masks of length 0..5 (also 7) with every pattern; recursive splits of masks of length up to 6 (also 9) '
                   'with limits 1..4; fixed-length masks for every length up to 9 (also 14) and every smaller mask length; systems '
                   'of 1..3 unknowns',
          'values': 'all mask patterns (one symbolic sign per position), all Hessians, right-hand sides, starting points, tolerances '
                    'and preconditioners'}
ASSUMPTIONS = ['scipy.sparse.linalg.cg is replaced by a stub that solves the system it is handed exactly or returns an arbitrary point',
               'scipy.sparse.linalg.LinearOperator is replaced by a stub that applies the function it was given']


def pattern(ctx, name, n):
    """an arbitrary boolean vector"""
    v = ctx.vec(name, n)
    return np.array([bool(v[i] > 0) for i in range(n)], dtype=bool)


def picks(m):
    return [i for i in range(len(m)) if bool(m[i])]


def split(ctx, n):
    CG = ctx.mod('ConjugateGradient')
    m = pattern(ctx, 'm', n)
    want = picks(m)
    a, b = CG.split_vector(m)
    ctx.eq('lengths', [len(a), len(b)], [n, n])
    pa, pb = picks(a), picks(b)
    ctx.true('disjoint', not set(pa) & set(pb))
    ctx.eq('union', sorted(pa + pb), want)
    ctx.true('halves', abs(len(pa) - len(pb)) <= 1)
    ctx.eq('argument untouched', picks(m), want)


def partition(ctx, masks, n, want, limit):
    ctx.true('lengths', all(len(k) == n for k in masks))
    count = [0] * n
    for k in masks:
        p = picks(k)
        ctx.true('no mask selects too many', len(p) <= limit)
        for i in p:
            count[i] += 1
    ctx.eq('every index exactly once', count, [1 if i in want else 0 for i in range(n)])


def recursive(ctx, n, limit):
    CG = ctx.mod('ConjugateGradient')
    m = pattern(ctx, 'm', n)
    res = []
    CG.recursive_split(m, results=res, terminate_len=limit)
    partition(ctx, res, n, picks(m), limit)


def fixed(ctx, n, length):
    CG = ctx.mod('ConjugateGradient')
    masks = CG.get_masks(n, length)
    partition(ctx, masks, n, list(range(n)), length)
    ctx.true('no empty mask', all(len(picks(k)) > 0 for k in masks))


class Operator(object):
    def __init__(self, shape, matvec, *a, **k):
        self.shape = tuple(shape)
        self.matvec = matvec

    def dot(self, v):
        return self.matvec(v)

    __mul__ = __matmul__ = dot


def stubs(ctx, CG, answer):
    import scipy.sparse.linalg as sl
    calls = []

    def cg(A, b, x0=None, tol=1e-5, maxiter=None, M=None, callback=None, atol=None, rtol=None):
        mv = A.matvec if hasattr(A, 'matvec') else (lambda v: np.dot(A, v))
        calls.append(dict(A=A, b=np.array(b), x0=x0, tol=tol if rtol is None else rtol, M=M, mv=mv))
        return answer(calls[-1]), ('info', len(calls))
    ctx.stub(sl, 'LinearOperator', Operator)
    ctx.stub(sl, 'cg', cg)
    for name, v in (('LinearOperator', Operator), ('cg', cg)):
        if hasattr(CG, name):
            ctx.stub(CG, name, v)
    return calls


def product(ctx, n, via):
    """(Hessian-vector product, base point, Hessian at the base point)"""
    x = ctx.vec('x', n)
    if via == 'function':
        H, c = ctx.mat('H', n, n), ctx.vec('c', n)
        f = lambda y, v: np.dot(H, v) + c * y * v
        return f, x, H + np.diag(c * x)
    p = ctx.vb.VectorParam('p', n)
    coef = quad_coef(ctx, 'q', n)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: quad(coef, p.get()) + anp.sum(p.get() ** 3))
    return obj.fun_free_hvp, x, coef[2] + np.diag(6 * x)


def solver(ctx, n, via, start, pre):
    CG = ctx.mod('ConjugateGradient')
    ans = ctx.vec('ans', n)
    calls = stubs(ctx, CG, lambda a: np.array(ans))
    f, x, H = product(ctx, n, via)
    s = CG.ConjugateGradientSolver(f, np.array(x))
    tol = None
    M = None
    if pre:
        tol = ctx.reals('tol', positive=True)
        M = ctx.mat('M', n, n)
        s.tol = tol
        s.preconditioner = np.array(M)
    b, w = ctx.vec('b', n), ctx.vec('w', n)
    st = ctx.vec('start', n) if start else None
    out = s.get_hinv_vec(np.array(b), x0=np.array(st)) if start else s.get_hinv_vec(np.array(b))
    got, info = out
    ctx.eq('one system', len(calls), 1)
    a = calls[0]
    ctx.eq('dimension', a['A'].shape, (n, n))
    ctx.eq('operator', a['mv'](np.array(w)), np.dot(H, w))
    ctx.eq('operator again', a['mv'](np.array(w) + 1), np.dot(H, w + 1))
    ctx.eq('right-hand side', a['b'], b, 0)
    if start:
        ctx.eq('start', a['x0'], st, 0)
    else:
        ctx.true('no start', a['x0'] is None)
    ctx.eq('tolerance', a['tol'], tol if pre else 1e-8)
    if pre:
        ctx.eq('preconditioner', a['M'], M)
    else:
        ctx.true('no preconditioner', a['M'] is None)
    ctx.eq('answer', got, ans, 0)
    ctx.true('information', info == ('info', 1))
    ctx.true('nothing recorded', len(s.vecs) + len(s.hinv_vecs) + len(s.masks) + len(s.times) + len(s.cg_infos) == 0)


def exact(ctx, n):
    """an answer computed from the operator, as an iterative solver would"""
    def answer(a):
        m = np.zeros((n, n))
        for j in range(n):
            m[:, j] = a['mv'](np.eye(n)[j])
        ctx.assume(det_small(m) != 0)
        return np.linalg.solve(m, a['b'])
    return answer


def system(ctx, n, via):
    CG = ctx.mod('ConjugateGradient')
    stubs(ctx, CG, exact(ctx, n))
    f, x, H = product(ctx, n, via)
    s = CG.ConjugateGradientSolver(f, np.array(x))
    b = ctx.vec('b', n)
    got, info = s.get_hinv_vec(b)
    ctx.eq('solves the system', np.dot(H, got) - b, np.zeros(n), 1e-5)


def subsets(ctx, n, how, twice):
    CG = ctx.mod('ConjugateGradient')
    calls = stubs(ctx, CG, exact(ctx, n) if n < 3 else (lambda a: ctx.vec('ans', n) * len(a['b'])))
    f, x, H = product(ctx, n, 'function')
    s = CG.ConjugateGradientSolver(f, np.array(x))
    b = ctx.vec('b', n)
    if how == 'pattern':
        masks = [pattern(ctx, 'm', n), pattern(ctx, 'k', n)]
    else:
        masks = CG.get_masks(n, how)
    arg = np.array(b)
    s.get_hinv_vec_subsets(arg, masks)
    ctx.eq('argument untouched', arg, b)
    rec = list(masks)
    if twice:
        s.initialize()
        ctx.true('emptied', len(s.vecs) + len(s.hinv_vecs) + len(s.masks) + len(s.times) + len(s.cg_infos) == 0)
        b = ctx.vec('b2', n)
        rec = list(reversed(masks))
        s.get_hinv_vec_subsets(np.array(b), rec)
        del calls[:len(masks)]
    k = len(rec)
    ctx.eq('records', [len(s.vecs), len(s.hinv_vecs), len(s.masks), len(s.times), len(s.cg_infos), len(calls)], [k] * 6)
    for i in range(k):
        want = np.array([b[j] if bool(rec[i][j]) else 0.0 * b[j] for j in range(n)])
        ctx.eq('mask %d' % i, picks(s.masks[i]), picks(rec[i]))
        ctx.eq('masked vector %d' % i, s.vecs[i], want, 0)
        ctx.eq('right-hand side %d' % i, calls[i]['b'], want, 0)
        if n < 3:
            ctx.eq('solution %d' % i, np.dot(H, s.hinv_vecs[i]) - want, np.zeros(n), 1e-5)
        ctx.true('information %d' % i, s.cg_infos[i] == ('info', i + 1 + (len(masks) if twice else 0)))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    big = tier != 'quick'
    for n in range(0, 8 if big else 6):
        out.append(('split %d' % n, split, dict(n=n)))
    for n in range(0, 10 if big else 7):
        for limit in range(1, 5):
            out.append(('recursive %d %d' % (n, limit), recursive, dict(n=n, limit=limit)))
    for n in range(2, 15 if big else 10):
        for length in range(1, n):
            out.append(('fixed %d %d' % (n, length), fixed, dict(n=n, length=length)))
    for n in (1, 2, 3):
        for via in ('function', 'objective'):
            for start in (False, True):
                for pre in (False, True):
                    out.append(('solver %d %s%s%s' % (n, via, ' start' if start else '', ' preconditioned' if pre else ''), solver,
                                dict(n=n, via=via, start=start, pre=pre)))
            if n < 3:
                out.append(('system %d %s' % (n, via), system, dict(n=n, via=via)))
    for n, how in ((1, 'pattern'), (2, 'pattern'), (3, 'pattern'), (2, 1), (3, 1), (3, 2), (5, 2), (4, 3)):
        for twice in (False, True):
            out.append(('subsets %d %s%s' % (n, how, ' twice' if twice else ''), subsets, dict(n=n, how=how, twice=twice)))
    return out
