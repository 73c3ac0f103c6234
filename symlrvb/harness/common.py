"""Shared builders for the harnesses (run in both modes)."""
import numpy as np

INF = float('inf')
BOUNDS4 = ('none', 'lower', 'upper', 'both')


def bounds(ctx, kind, tag=''):
    """symbolic bounds of the given kind"""
    if kind == 'none':
        return -INF, INF
    if kind == 'lower':
        return ctx.reals('lb' + tag), INF
    if kind == 'upper':
        return -INF, ctx.reals('ub' + tag)
    lb, ub = ctx.reals('lb' + tag), ctx.reals('ub' + tag)
    ctx.assume(lb < ub)
    return lb, ub


def legal_value(ctx, name, n, lb, ub):
    """arbitrary values strictly inside the bounds (flat list)"""
    v = ctx.vec(name, n)
    for i in range(n):
        if ub < INF:
            ctx.assume(v[i] < ub)
        if lb > -INF:
            ctx.assume(v[i] > lb)
    return v


def inside(ctx, label, val, lb, ub):
    if lb > -INF:
        ctx.true(label + ': above the lower bound', val > lb)
    if ub < INF:
        ctx.true(label + ': below the upper bound', val < ub)


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def box_param(ctx, kind, shape, lb, ub, val=None, name='p'):
    vb = ctx.vb
    if kind == 'scalar':
        return vb.ScalarParam(name, lb=lb, ub=ub, val=val)
    if kind == 'vector':
        return vb.VectorParam(name, size_of(shape), lb=lb, ub=ub, val=val)
    return vb.ArrayParam(name, shape=shape, lb=lb, ub=ub, val=val)


def shaped(kind, v, shape):
    if kind == 'scalar':
        return v[0]
    if kind == 'vector':
        return v
    return v.reshape(shape)


def dense(x):
    return x.toarray() if hasattr(x, 'toarray') else x


def flat(x):
    return np.reshape(np.array(x), (-1,)) if not hasattr(x, 'ravel') else np.ravel(x)


def tril_vec(m):
    """lower triangle, row by row"""
    return np.array([m[i, j] for i in range(m.shape[0]) for j in range(i + 1)])


def sym_from_vec(v, n):
    m = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            m[i, j] = v[k]
            m[j, i] = v[k]
            k += 1
    return m


def minors_positive(ctx, label, m):
    n = m.shape[0]
    for k in range(1, n + 1):
        ctx.true('%s: leading minor %d positive' % (label, k), det_small(m[:k, :k]) > 0)


def det_small(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    s = 0
    for j in range(n):
        keep = [c for c in range(n) if c != j]
        s = s + (-1) ** j * m[0, j] * det_small(m[1:, :][:, keep])
    return s


def copy_list(x):
    return list(x)


# --------------------------------------------------------------------------
# parameter kinds

class Spec(object):
    """one kind of parameter of one size; the symbolic bounds of a spec are
    shared by every parameter made from it (within a path)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    # shape of the value (None for dictionaries)
    shape = None

    def set_legal(self, ctx, p, tag):
        """set an arbitrary legal value through the public interface"""
        v = self.legal(ctx, tag)
        p.set(v)
        return v

    def vec_of(self, v):
        """the documented flat order of a value"""
        return flat(v)

    def value_of(self, p):
        return p.get()

    def held(self, p):
        return flat(p.get())


class Box(Spec):
    def __init__(self, kind, shape, bk):
        Spec.__init__(self, '%s%s/%s' % (kind, '' if kind == 'scalar' else list(shape), bk))
        self.kind, self.bk = kind, bk
        self.shape = () if kind == 'scalar' else ((size_of(shape),) if kind == 'vector' else shape)
        self.bshape = shape
        self.nvec = self.nfree = size_of(shape)

    def make(self, ctx, val=None, name='p'):
        lb, ub = bounds(ctx, self.bk)
        return box_param(ctx, self.kind, self.bshape, lb, ub, val, name)

    def legal(self, ctx, tag):
        lb, ub = bounds(ctx, self.bk)
        return shaped(self.kind, legal_value(ctx, tag, self.nvec, lb, ub), self.bshape)

    def check(self, ctx, label, p):
        lb, ub = bounds(ctx, self.bk)
        ctx.eq(label + ': shape', np.shape(p.get()), self.shape)
        inside(ctx, label, p.get(), lb, ub)


class PosDef(Spec):
    def __init__(self, n, floor):
        Spec.__init__(self, 'posdef[%d]%s' % (n, '/floor' if floor else ''))
        self.n, self.floor = n, floor
        self.shape = (n, n)
        self.nvec = self.nfree = n * (n + 1) // 2

    def lb(self, ctx):
        if not self.floor:
            return 0.0
        d = ctx.reals('dlb', lo=0.1, hi=1.0)
        ctx.assume(d >= 0)
        return d

    def make(self, ctx, val=None, name='p'):
        return ctx.vb.PosDefMatrixParam(name, size=self.n, diag_lb=self.lb(ctx), val=val)

    def legal(self, ctx, tag):
        return ctx.posdef(tag, self.n) + self.lb(ctx) * np.eye(self.n)

    def vec_of(self, v):
        return tril_vec(v)

    def check(self, ctx, label, p):
        self.check_one(ctx, label, p.get())

    def check_one(self, ctx, label, m):
        ctx.eq(label + ': shape', np.shape(m), (self.n, self.n))
        ctx.eq(label + ': symmetric', m, m.T)
        minors_positive(ctx, label, m - self.lb(ctx) * np.eye(self.n))


class PosDefStack(Spec):
    def __init__(self, kind, shape, n, floor):
        Spec.__init__(self, 'posdef%s%s[%d]%s' % (kind, list(shape), n, '/floor' if floor else ''))
        self.kind, self.n, self.floor = kind, n, floor
        self.ashape = shape
        self.shape = tuple(shape) + (n, n)
        self.k = n * (n + 1) // 2
        self.len = size_of(shape)
        self.nvec = self.nfree = self.len * self.k
        self.one = PosDef(n, floor)

    def make(self, ctx, val=None, name='p'):
        if self.kind == 'vector':
            return ctx.vb.PosDefMatrixParamVector(name, length=self.len, matrix_size=self.n,
                                                  diag_lb=self.one.lb(ctx), val=val)
        return ctx.vb.PosDefMatrixParamArray(name, array_shape=tuple(self.ashape), matrix_size=self.n,
                                             diag_lb=self.one.lb(ctx), val=val)

    def legal(self, ctx, tag):
        ms = [self.one.legal(ctx, '%s%d' % (tag, i)) for i in range(self.len)]
        return np.array(ms).reshape(self.shape)

    def mats(self, v):
        return list(np.reshape(v, (self.len, self.n, self.n)))

    def vec_of(self, v):
        return np.hstack([tril_vec(m) for m in self.mats(v)])

    def check(self, ctx, label, p):
        v = p.get()
        ctx.eq(label + ': shape', np.shape(v), self.shape)
        for i, m in enumerate(self.mats(v)):
            self.one.check_one(ctx, '%s: matrix %d' % (label, i), m)


class Simplex(Spec):
    def __init__(self, shape):
        Spec.__init__(self, 'simplex%s' % list(shape))
        self.shape = shape
        self.nvec = size_of(shape)
        self.nfree = shape[0] * (shape[1] - 1)

    def make(self, ctx, val=None, name='p'):
        return ctx.vb.SimplexParam(name, shape=self.shape, val=val)

    def legal(self, ctx, tag):
        return np.array([ctx.simplex_row('%s%d' % (tag, i), self.shape[1]) for i in range(self.shape[0])])

    def check(self, ctx, label, p):
        v = p.get()
        ctx.eq(label + ': shape', np.shape(v), self.shape)
        ctx.true(label + ': entries positive', v > 0)
        for i in range(self.shape[0]):
            s = 0
            for j in range(self.shape[1]):
                s = s + v[i, j]
            ctx.eq('%s: row %d sums to one' % (label, i), s, 1.0)


def helmert(ctx, n):
    """orthonormal frame whose first column is along (1, ..., 1)"""
    R = np.zeros((n, n))
    for i in range(n):
        R[i, 0] = 1 / ctx.root(n)
    for j in range(1, n):
        for i in range(j):
            R[i, j] = 1 / ctx.root(j * (j + 1))
        R[j, j] = -j / ctx.root(j * (j + 1))
    return R


class Subspace(Spec):
    """rows: None = the default constraint (zero mean); otherwise the number
    of constraint rows, an arbitrary full-rank matrix"""

    def __init__(self, dim, rows):
        Spec.__init__(self, 'subspace[%d]/%s' % (dim, 'mean' if rows is None else rows))
        self.dim, self.rows = dim, rows
        self.k = 1 if rows is None else rows
        self.shape = (dim,)
        self.nvec, self.nfree = dim, dim - self.k

    def frame(self, ctx):
        if self.rows is None:
            R = helmert(ctx, self.dim)
            ctx.register_frame(R)
            return R
        return ctx.rotation('rot', self.dim)

    def constraint(self, ctx):
        R = self.frame(ctx)
        if self.rows is None:
            return np.full((1, self.dim), 1.0), R
        L = ctx.chol('Lq', self.k)
        return np.dot(L, R[:, :self.k].T), R

    def make(self, ctx, val=None, name='p'):
        X, R = self.constraint(ctx)
        if self.rows is None:
            return ctx.vb.SubspaceVectorParam(name, dim=self.dim, val=val)
        return ctx.vb.SubspaceVectorParam(name, dim=self.dim, val=val, perp_subspace=X)

    def legal(self, ctx, tag):
        R = self.frame(ctx)
        return np.dot(R[:, self.k:], ctx.vec(tag, self.nfree))

    def check(self, ctx, label, p):
        X, R = self.constraint(ctx)
        ctx.eq(label + ': shape', np.shape(p.get()), self.shape)
        ctx.eq(label + ': orthogonal to the constraints', np.dot(X, p.get()), np.zeros(self.k))


class Dict(Spec):
    """a ModelParamsDict (or a subclass made by `maker`) with member specs"""

    def __init__(self, name, members, maker=None):
        Spec.__init__(self, name)
        self.members = members        # list of (member name, Spec)
        self.maker = maker
        self.nvec = sum(s.nvec for _, s in members)
        self.nfree = sum(s.nfree for _, s in members)

    def make(self, ctx, val=None, name='p'):
        if self.maker is not None:
            return self.maker(ctx)
        p = ctx.vb.ModelParamsDict(name)
        for n, s in self.members:
            p.push_param(s.make(ctx, name=n))
        return p

    def legal(self, ctx, tag):
        return [(n, s.legal(ctx, '%s.%s' % (tag, n))) for n, s in self.members]

    def set_legal(self, ctx, p, tag):
        for n, s in self.members:
            s.set_legal(ctx, p[n], '%s.%s' % (tag, n))

    def held(self, p):
        return np.hstack([s.held(p[n]) for n, s in self.members])

    def check(self, ctx, label, p):
        for n, s in self.members:
            s.check(ctx, '%s: %s' % (label, n), p[n])

    def vec_of_param(self, p):
        return np.hstack([s.vec_of_param(p[n]) for n, s in self.members])


def _vec_of_param(self, p):
    return self.vec_of(p.get())


Spec.vec_of_param = _vec_of_param


class LowBox(Box):
    """box with a symbolic non-negative lower bound (dictionary members)"""

    def __init__(self, kind, shape, lbname):
        Box.__init__(self, kind, shape, 'lower')
        self.lbname = lbname

    def _b(self, ctx):
        if self.lbname is None:
            return 0.0, INF
        d = ctx.reals(self.lbname, lo=0.05, hi=0.8)
        ctx.assume(d >= 0)
        return d, INF

    def make(self, ctx, val=None, name='p'):
        lb, ub = self._b(ctx)
        return box_param(ctx, self.kind, self.bshape, lb, ub, val, name)

    def legal(self, ctx, tag):
        lb, ub = self._b(ctx)
        return shaped(self.kind, legal_value_pos(ctx, tag, self.nvec, lb), self.bshape)

    def check(self, ctx, label, p):
        lb, ub = self._b(ctx)
        inside(ctx, label, p.get(), lb, ub)


def legal_value_pos(ctx, name, n, lb):
    v = ctx.vec(name, n, positive=True)
    return v + lb


class Floored(PosDef):
    def __init__(self, n, lbname):
        PosDef.__init__(self, n, True)
        self.lbname = lbname

    def lb(self, ctx):
        d = ctx.reals(self.lbname, lo=0.05, hi=0.8)
        ctx.assume(d >= 0)
        return d


def minpar(ctx, name='mn'):
    d = ctx.reals(name, lo=0.05, hi=0.8)
    ctx.assume(d >= 0)
    return d


def family_specs(tier):
    """the ready-made dictionaries"""
    out = []
    V, S, A = 'vector', 'scalar', 'array'
    out.append(Dict('UVNParam', [('mean', Box(S, (1,), 'none')), ('info', LowBox(S, (1,), 'mn'))],
                    lambda c: c.vb.UVNParam('p', min_info=minpar(c))))
    out.append(Dict('UVNParamVector', [('mean', Box(V, (2,), 'none')), ('info', LowBox(V, (2,), 'mn'))],
                    lambda c: c.vb.UVNParamVector('p', length=2, min_info=minpar(c))))
    out.append(Dict('UVNParamArray', [('mean', Box(A, (2, 2), 'none')), ('info', LowBox(A, (2, 2), 'mn'))],
                    lambda c: c.vb.UVNParamArray('p', shape=(2, 2), min_info=minpar(c))))
    out.append(Dict('UVNMomentParamArray', [('e', Box(A, (1, 2), 'none')), ('e2', LowBox(A, (1, 2), 'mn'))],
                    lambda c: c.vb.UVNMomentParamArray('p', shape=(1, 2), min_info=minpar(c))))
    out.append(Dict('MVNParam', [('mean', Box(V, (2,), 'none')), ('info', Floored(2, 'mn'))],
                    lambda c: c.vb.MVNParam('p', dim=2, min_info=minpar(c))))
    out.append(Dict('MVNArray', [('mean', Box(A, (2, 3), 'none')), ('info', LowBox(V, (2,), 'mn'))],
                    lambda c: c.vb.MVNArray('p', shape=(2, 3), min_info=minpar(c))))
    out.append(Dict('GammaParam', [('shape', LowBox(S, (1,), 'mn')), ('rate', LowBox(S, (1,), 'mn2'))],
                    lambda c: c.vb.GammaParam('p', min_shape=minpar(c), min_rate=minpar(c, 'mn2'))))
    out.append(Dict('DirichletParamArray', [('alpha', LowBox(A, (3, 2), 'mn'))],
                    lambda c: c.vb.DirichletParamArray('p', shape=(3, 2), min_alpha=minpar(c))))
    for n in ((2, 3) if tier != 'quick' else (2,)):
        out.append(Dict('WishartParam%d' % n, [('df', LowBoxPlus(S, (1,), 'mdf', n - 1)), ('v', Floored(n, 'mn'))],
                        lambda c, n=n: c.mod('WishartParams').WishartParam(
                            'p', size=n, diag_lb=minpar(c), min_df=minpar(c, 'mdf') + (n - 1))))
    return out


def unfloored_specs():
    """the ready-made dictionaries with no floor asked for: every positive
    information, shape, rate, ... is legal"""
    V, S, A = 'vector', 'scalar', 'array'
    pos = lambda k, sh: LowBox(k, sh, None)
    out = [Dict('UVNParam()', [('mean', Box(S, (1,), 'none')), ('info', pos(S, (1,)))], lambda c: c.vb.UVNParam('p')),
           Dict('UVNParamVector()', [('mean', Box(V, (2,), 'none')), ('info', pos(V, (2,)))], lambda c: c.vb.UVNParamVector('p', length=2)),
           Dict('UVNParamArray()', [('mean', Box(A, (2, 2), 'none')), ('info', pos(A, (2, 2)))], lambda c: c.vb.UVNParamArray('p', shape=(2, 2))),
           Dict('UVNMomentParamArray()', [('e', Box(A, (1, 2), 'none')), ('e2', pos(A, (1, 2)))],
                lambda c: c.vb.UVNMomentParamArray('p', shape=(1, 2))),
           Dict('MVNParam()', [('mean', Box(V, (2,), 'none')), ('info', PosDef(2, False))], lambda c: c.vb.MVNParam('p', dim=2)),
           Dict('MVNArray()', [('mean', Box(A, (2, 3), 'none')), ('info', pos(V, (2,)))], lambda c: c.vb.MVNArray('p', shape=(2, 3))),
           Dict('GammaParam()', [('shape', pos(S, (1,))), ('rate', pos(S, (1,)))], lambda c: c.vb.GammaParam('p')),
           Dict('DirichletParamArray()', [('alpha', pos(A, (3, 2)))], lambda c: c.vb.DirichletParamArray('p', shape=(3, 2)))]
    for n in (1, 2, 3):
        out.append(Dict('WishartParam%d()' % n, [('df', LowBoxFixed(S, (1,), n - 1)), ('v', PosDef(n, False))],
                        lambda c, n=n: c.mod('WishartParams').WishartParam('p', size=n)))
    return out


def every_legal_value(ctx, spec):
    """with the default floors every legal value is representable"""
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    v = p.get_vector()
    f = p.get_free()
    q = spec.make(ctx)
    q.set_free(f)
    ctx.eq('value after the trip through its unconstrained value', q.get_vector(), v)


class LowBoxFixed(LowBox):
    def __init__(self, kind, shape, low):
        LowBox.__init__(self, kind, shape, None)
        self.low = low

    def _b(self, ctx):
        return float(self.low), INF


class LowBoxPlus(LowBox):
    def __init__(self, kind, shape, lbname, off):
        LowBox.__init__(self, kind, shape, lbname)
        self.off = off

    def _b(self, ctx):
        d = minpar(ctx, self.lbname)
        return d + self.off, INF


def plain_dict():
    return Dict('dict', [('a', Box('scalar', (1,), 'lower')), ('b', Box('vector', (2,), 'none')),
                         ('c', PosDef(2, False)), ('d', Simplex((2, 2))), ('e', Box('array', (1, 2), 'upper'))])


def nested_dict():
    inner = Dict('inner', [('x', Box('vector', (2,), 'lower')), ('y', Simplex((1, 3)))])
    inner2 = Dict('inner2', [('u', Box('scalar', (1,), 'none')), ('sub', inner), ('w', PosDef(2, True))])
    return Dict('nested', [('h', Box('array', (2, 1), 'upper')), ('in', inner2), ('k', Box('scalar', (1,), 'both'))])


def base_specs(tier):
    out = []
    for bk in BOUNDS4:
        out.append(Box('scalar', (1,), bk))
        out.append(Box('vector', (2,), bk))
        out.append(Box('array', (2, 2) if bk in ('none', 'both') else (1, 3), bk))
    out.append(Box('vector', (1,), 'both'))
    out.append(Box('array', (2, 1, 2), 'lower'))
    for n in (1, 2, 3):
        out.append(PosDef(n, True))
    out.append(PosDef(2, False))
    out.append(PosDefStack('vector', (2,), 2, True))
    out.append(PosDefStack('vector', (3,), 1, False))
    out.append(PosDefStack('array', (2,), 2, True))
    out.append(PosDefStack('array', (2, 2), 2, False))
    out.append(PosDefStack('array', (2, 1), 1, True))
    out.append(Simplex((1, 2)))
    out.append(Simplex((2, 3)))
    out.append(Simplex((3, 2)))
    if tier != 'quick':
        for bk in BOUNDS4:
            out.append(Box('vector', (5,), bk))
            out.append(Box('array', (2, 3), bk))
        out.append(PosDef(4, True))
        out.append(PosDefStack('vector', (2,), 3, True))
        out.append(PosDefStack('vector', (4,), 2, True))
        out.append(PosDefStack('array', (1, 3), 2, True))
        out.append(PosDefStack('array', (2, 1, 2), 2, True))
        out.append(Simplex((2, 4)))
        out.append(Simplex((1, 5)))
    if tier == 'deep':
        out += wide_specs() + [Box('vector', (40,), 'upper'), Box('array', (3, 3, 3), 'both'), PosDef(5, True), Simplex((4, 6)),
                               PosDefStack('vector', (3,), 4, True), PosDefStack('array', (2, 3), 3, False)]
    return out


def wide_specs():
    """more elements than anything a shortcut for small sizes would cover"""
    return [Box('vector', (7,), 'lower'), Box('vector', (12,), 'none'), Box('vector', (17,), 'both'), Box('array', (3, 4), 'upper'),
            Box('array', (2, 3, 2), 'both'), Box('array', (1, 1, 2, 1), 'lower'), Box('array', (6,), 'none'),
            PosDefStack('vector', (6,), 2, True), PosDefStack('array', (3, 2), 2, True), PosDefStack('array', (4, 3), 1, False),
            Simplex((5, 3)), Simplex((1, 7)), Simplex((4, 4)), Simplex((9, 2))]


def subspace_specs(tier):
    out = [Subspace(2, None), Subspace(3, None), Subspace(2, 1), Subspace(3, 1), Subspace(3, 2)]
    if tier != 'quick':
        out += [Subspace(4, None), Subspace(5, None), Subspace(4, 3), Subspace(5, 2)]
    if tier == 'deep':
        out += [Subspace(6, None), Subspace(8, None)]
    return out


SIZES = {'sizes': 'scalars; vectors of 1, 2, 5 (wide: 7, 12, 17; thorough 40); arrays (2,2), (1,3), (2,3), (2,1,2) (wide: (3,4), (2,3,2), (1,1,2,1), (6,); thorough (3,3,3)); '
                  'positive definite 1..4 (thorough 5), vectors/arrays of up to 4 such matrices (wide: 6); simplexes (1,2)..(2,4), (3,2), (1,5) (wide: (5,3), (1,7), (4,4), (9,2); thorough (4,6)); '
                  'subspaces of dimension 2..5 with up to 3 constraints (thorough 8); the ready-made families; nested dictionaries',
         'bounds': 'symbolic bounds and floors, all finite/infinite combinations',
         'values': 'all reals'}
