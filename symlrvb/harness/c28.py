"""C28 sparse helpers"""
import json
from .common import *

BOUNDS = {'sizes': 'embedded matrices up to 2x3 in matrices up to 4x5 (also 3x3 in 5x5); packed matrices up to 3x3 with every '
                   'zero pattern; products up to 3x3; index parameters of every parameter kind, size and nesting of the catalogue',
          'values': 'all entries (zeros included, for fixed positions; nonzero ones at all positions), all distinct row and column positions (integers or floats), all offsets'}
ASSUMPTIONS = ['json_tricks.loads(json_tricks.dumps(x)) reproduces x (the real library is used when a path is replayed)',
               'the positions given for rows, and those given for columns, are distinct']


def choose(ctx, name, n):
    """an arbitrary integer below n"""
    v = ctx.reals(name, lo=0.0, hi=float(n))
    for i in range(n - 1):
        if v < i + 1:
            return i
    return n - 1


def distinct(ctx, name, k, n):
    left = list(range(n))
    return [left.pop(choose(ctx, '%s%d' % (name, i), len(left))) for i in range(k)]


def positions(kind, l):
    if kind == 'float':
        return np.array([float(i) for i in l])
    if kind == 'int':
        return np.array(l, dtype=int)
    return list(l)


def placed(m, rows, cols, shape):
    out = np.zeros(shape)
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            out[r, c] = m[i, j]
    return out


def embed(ctx, k, l, rd, cd, kind, at=None):
    """at: the positions, or None for all of them (entries then nonzero)"""
    SO = ctx.mod('SparseObjectives')
    m = ctx.mat('m', k, l, positive=at is None)
    rows, cols = at or (distinct(ctx, 'r', k, rd), distinct(ctx, 'c', l, cd))
    got = SO.get_sparse_sub_matrix(m, positions(kind, rows), positions(kind, cols), rd, cd)
    ctx.eq('matrix', dense(got), placed(m, rows, cols, (rd, cd)), 0)


def embed_hessian(ctx, k, n, kind, at=None):
    SO = ctx.mod('SparseObjectives')
    m = ctx.mat('m', k, k, positive=at is None)
    ind = at or distinct(ctx, 'i', k, n)
    got = SO.get_sparse_sub_hessian(m, positions(kind, ind), n)
    ctx.eq('matrix', dense(got), placed(m, ind, ind, (n, n)), 0)


def sparse_of(ctx, kind, m):
    import scipy.sparse as sp
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix}[kind](m)


def offset(ctx, k, l, rd, cd):
    P = ctx.mod('Parameters')
    m = ctx.mat('m', k, l, positive=rd * cd > 4)
    a, b = choose(ctx, 'a', rd - k + 1), choose(ctx, 'b', cd - l + 1)
    sm = sparse_of(ctx, 'coo', m)
    got = P.offset_sparse_matrix(sm, (a, b), (rd, cd))
    ctx.eq('matrix', dense(got), placed(m, range(a, a + k), range(b, b + l), (rd, cd)), 0)
    ctx.eq('argument untouched', dense(sm), m, 0)


class Texts(object):
    """json_tricks as a lossless text encoding"""

    def __init__(self):
        self.t = []

    def dumps(self, x, *a, **k):
        self.t.append(np.array(x))
        return 'text %d' % (len(self.t) - 1)

    def loads(self, s, *a, **k):
        return self.t[int(s.split()[1])]


def pattern(ctx, k, l):
    """an arbitrary matrix with an arbitrary zero pattern"""
    m = ctx.mat('m', k, l)
    for i in range(k):
        for j in range(l):
            if m[i, j] < 0:
                m[i, j] = 0.0
    return m


def pack(ctx, k, l, kind):
    SO = ctx.mod('SparseObjectives')
    m = pattern(ctx, k, l)
    s = sparse_of(ctx, kind, m)
    d = SO.pack_csr_matrix(s)
    got = SO.unpack_csr_matrix(d)
    ctx.eq('shape', np.shape(got), (k, l))
    ctx.eq('matrix', dense(got), m, 0)
    ctx.eq('argument untouched', dense(s), m, 0)


def pack_text(ctx, k, l):
    SO = ctx.mod('SparseObjectives')
    m = pattern(ctx, k, l)
    s = sparse_of(ctx, 'csr', m)
    if ctx.symbolic:
        ctx.stub(SO, 'json_tricks', Texts())
    d = SO.json_pack_csr_matrix(s)
    # the packed form is plain text and numbers
    d = json.loads(json.dumps(d))
    got = SO.json_unpack_csr_matrix(d)
    ctx.eq('shape', np.shape(got), (k, l))
    ctx.eq('matrix', dense(got), m, 0)


def index(ctx, spec):
    SO = ctx.mod('SparseObjectives')
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    before = p.get_vector()
    ip = SO.make_index_param(p)
    ctx.eq('all positions', ip.get_vector(), list(range(spec.nvec)))
    ctx.eq('parameter untouched', p.get_vector(), before)

    def walk(s, q, iq, at):
        if isinstance(s, Dict):
            for n, t in s.members:
                at = walk(t, q[n], iq[n], at)
            return at
        pos = np.reshape(iq.get_vector(), (-1,))
        ctx.eq('positions at %d' % at, pos, list(range(at, at + s.nvec)))
        # the flat vector holds the member's values there
        mine = np.reshape(q.get_vector(), (-1,))
        ctx.eq('values at %d' % at, np.array([before[int(pos[i])] for i in range(s.nvec)]), mine)
        if isinstance(s, (Box, Simplex)):
            ctx.eq('shape at %d' % at, np.size(iq.get()), np.size(q.get()))
            ctx.eq('addressed values at %d' % at, np.array([before[int(i)] for i in np.reshape(iq.get(), (-1,))]),
                   np.reshape(q.get(), (-1,)))
        return at + s.nvec
    ctx.eq('covers everything', walk(spec, p, ip, 0), spec.nvec)


def product(ctx, k, l, n, left, right):
    SO = ctx.mod('SparseObjectives')
    a = ctx.mat('a', k, l)
    b = ctx.vec('b', l) if n == 0 else ctx.mat('b', l, n)
    x = a if left == 'dense' else sparse_of(ctx, left, a)
    y = b if right == 'dense' else sparse_of(ctx, right, b)
    got = SO.safe_matmul(x, y)
    ctx.eq('product', dense(got), np.dot(a, b))
    ctx.eq('again', dense(SO.safe_matmul(x, y)), np.dot(a, b))


def row_product(ctx, l, n, right):
    SO = ctx.mod('SparseObjectives')
    a, b = ctx.vec('a', l), ctx.mat('b', l, n)
    got = SO.safe_matmul(a, b if right == 'dense' else sparse_of(ctx, right, b))
    ctx.eq('product', dense(got), np.dot(a, b))


def squeezed(ctx, k, l, kind):
    SO = ctx.mod('SparseObjectives')
    a = ctx.mat('a', k, l)
    got = SO.compress(a if kind == 'dense' else sparse_of(ctx, kind, a))
    ctx.eq('shape', np.shape(got), tuple(v for v in (k, l) if v != 1))
    ctx.eq('values', np.reshape(got, (-1,)), np.reshape(a, (-1,)))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    big = tier != 'quick'
    for kind in ('int', 'float', 'list'):
        for k, l, rd, cd in [(1, 1, 1, 1), (1, 2, 2, 3), (2, 1, 3, 2), (2, 2, 2, 3), (2, 2, 3, 3)] + ([(2, 3, 4, 3), (1, 3, 2, 5), (3, 2, 3, 4)] if big else []):
            if kind != 'int' and rd * cd > 6:
                continue
            out.append(('embed %s %dx%d in %dx%d' % (kind, k, l, rd, cd), embed, dict(k=k, l=l, rd=rd, cd=cd, kind=kind)))
        for rows, cols, rd, cd in [([1], [0, 2], 3, 3), ([0, 2], [1, 0], 3, 2)] + ([([2, 0], [3, 1], 3, 4), ([1, 0, 2], [2, 0], 3, 3)] if big else []):
            out.append(('embed %s values at %s %s' % (kind, rows, cols), embed,
                        dict(k=len(rows), l=len(cols), rd=rd, cd=cd, kind=kind, at=(rows, cols))))
        out.append(('embed Hessian %s values' % kind, embed_hessian, dict(k=2, n=4, kind=kind, at=[3, 1])))
        for k, n in [(1, 1), (1, 3), (2, 2), (2, 3), (2, 4)] + ([(3, 3)] if big else []):
            out.append(('embed Hessian %s %d in %d' % (kind, k, n), embed_hessian, dict(k=k, n=n, kind=kind)))
    for k, l, rd, cd in [(1, 1, 1, 1), (1, 2, 3, 4), (2, 2, 2, 2), (2, 2, 4, 5), (2, 3, 4, 5), (3, 1, 5, 3)] + ([(3, 3, 5, 5)] if big else []):
        out.append(('offset %dx%d in %dx%d' % (k, l, rd, cd), offset, dict(k=k, l=l, rd=rd, cd=cd)))
    for k, l in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3)] + ([(3, 2), (3, 3)] if big else []):
        for kind in ('csr', 'csc', 'coo'):
            if k * l > 6 and kind != 'csr':
                continue
            out.append(('pack %s %dx%d' % (kind, k, l), pack, dict(k=k, l=l, kind=kind)))
        out.append(('pack to text %dx%d' % (k, l), pack_text, dict(k=k, l=l)))
    specs = base_specs(tier) + subspace_specs(tier) + family_specs(tier) + [plain_dict(), nested_dict()]
    for s in specs:
        out.append(('index %s' % s, index, dict(spec=s)))
    F = ('dense', 'csr', 'csc', 'coo')
    for k, l, n in [(1, 1, 1), (2, 3, 2), (3, 2, 1), (1, 3, 3), (2, 2, 0), (3, 2, 0), (1, 2, 0)]:
        for a in F:
            for b in (F if n else ('dense',)):
                out.append(('product %s %s %d %d %d' % (a, b, k, l, n), product, dict(k=k, l=l, n=n, left=a, right=b)))
    for l, n in ((2, 2), (3, 2), (1, 3)):
        for b in F:
            out.append(('row product %s %d %d' % (b, l, n), row_product, dict(l=l, n=n, right=b)))
    for k, l in ((1, 3), (3, 1), (2, 3), (1, 1)):
        for a in F:
            out.append(('compress %s %dx%d' % (a, k, l), squeezed, dict(k=k, l=l, kind=a)))
    return out
