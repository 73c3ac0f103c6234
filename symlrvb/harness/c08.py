"""C08 parameter dictionaries"""
import numpy as np
from .common import *

BOUNDS = {'dictionaries': 'all orders of the members of a four-member dictionary (also of a five-member one), '
                          'nested to depth 3, the ready-made families', 'values': 'all reals'}


def perms(n):
    if n == 0:
        return [[]]
    return [p[:i] + [n - 1] + p[i:] for p in perms(n - 1) for i in range(n)]


MEMBERS = [('a', Box('scalar', (1,), 'lower')), ('b', Box('vector', (2,), 'none')),
           ('d', Simplex((1, 3))), ('e', Box('array', (1, 2), 'upper')), ('c', PosDef(2, True))]


def concat(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    parts = [p[n] for n, s in spec.members]
    ctx.eq('flat vector', p.get_vector(), np.hstack([q.get_vector() for q in parts]), 0)
    ctx.eq('unconstrained vector', p.get_free(), np.hstack([q.get_free() for q in parts]))
    ctx.eq('flat size', p.vector_size(), sum(q.vector_size() for q in parts))
    ctx.eq('unconstrained size', p.free_size(), sum(q.free_size() for q in parts))
    v, f = p.get_vector(), p.get_free()
    ctx.eq('size of the flat vector', len(v), p.vector_size())
    ctx.eq('size of the unconstrained vector', len(f), p.free_size())
    for n, s in spec.members:
        ri, fi = list(p.vector_indices_dict[n]), list(p.free_indices_dict[n])
        ctx.eq('indices of %s: flat' % n, v[ri], p[n].get_vector(), 0)
        ctx.eq('indices of %s: unconstrained' % n, f[fi], p[n].get_free())
        ctx.eq('indices of %s: contiguous' % n, ri + fi, list(range(ri[0], ri[0] + s.nvec)) + list(range(fi[0], fi[0] + s.nfree)))
    ctx.true('names in order', list(p.param_dict.keys()) == [n for n, s in spec.members])
    ctx.true('dictionary form has the members in order', list(p.dictval().keys()) == [n for n, s in spec.members])


def write(ctx, spec):
    """a vector changes each member by its own segment"""
    y = ctx.vec('y', spec.nvec)
    x = ctx.vec('x', spec.nfree, lo=-1.2, hi=1.2)
    p = spec.make(ctx)
    p.set_vector(y)
    for n, s in spec.members:
        q = s.make(ctx)
        q.set_vector(y[list(p.vector_indices_dict[n])])
        ctx.eq('flat segment of %s' % n, flat(s.held(p[n])), flat(s.held(q)), 0)
    ctx.eq('flat vector back', p.get_vector(), y, 0)
    p.set_free(x)
    for n, s in spec.members:
        q = s.make(ctx)
        q.set_free(x[list(p.free_indices_dict[n])])
        ctx.eq('unconstrained segment of %s' % n, flat(s.held(p[n])), flat(s.held(q)))
    ctx.eq('unconstrained vector back', p.get_free(), x)
    # the segments cover every index once, in the order of the members
    ctx.eq('flat indices', sum([list(p.vector_indices_dict[n]) for n, s in spec.members], []), list(range(spec.nvec)))
    ctx.eq('unconstrained indices', sum([list(p.free_indices_dict[n]) for n, s in spec.members], []), list(range(spec.nfree)))


def access(ctx, spec, which):
    """access by name touches that member only"""
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = dict((n, s.held(p[n])) for n, s in spec.members)
    name, ms = spec.members[which]
    if ms.shape is None:
        ms.set_legal(ctx, p[name], 'w')
        new = ms.held(p[name])
    else:
        w = ms.legal(ctx, 'w')
        p.get()[name] = w
        new = flat(w)
        ctx.eq('read by name', p.get()[name], w, 0)
        ctx.eq('read through the member', p[name].get(), w, 0)
    v = p.get_vector()
    for n, s in spec.members:
        ctx.eq('member %s' % n, flat(s.held(p[n])), new if n == name else flat(before[n]), 0)
        seg = v[list(p.vector_indices_dict[n])]
        ctx.eq('segment of %s' % n, seg, flat(p[n].get_vector()), 0)


def duplicate(ctx, spec, which):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = p.get_vector()
    name, ms = spec.members[which]
    ctx.raises('name in use', ValueError, p.push_param, ms.make(ctx, name=name))
    ctx.raises('name in use, other kind', ValueError, p.push_param, Box('vector', (3,), 'none').make(ctx, name=name))
    ctx.eq('nothing changed', p.get_vector(), before, 0)
    ctx.eq('sizes', (p.vector_size(), p.free_size()), (spec.nvec, spec.nfree))


def grow(ctx, order):
    """the dictionary is consistent after every addition"""
    p = ctx.vb.ModelParamsDict('p')
    nv = nf = 0
    done = []
    for i in order:
        n, s = MEMBERS[i]
        q = s.make(ctx, name=n)
        s.set_legal(ctx, q, 'v' + n)
        p.push_param(q)
        done.append((n, s, q))
        ctx.eq('%s: flat indices' % n, list(p.vector_indices_dict[n]), list(range(nv, nv + s.nvec)))
        ctx.eq('%s: unconstrained indices' % n, list(p.free_indices_dict[n]), list(range(nf, nf + s.nfree)))
        nv += s.nvec
        nf += s.nfree
        ctx.eq('%s: sizes' % n, (p.vector_size(), p.free_size()), (nv, nf))
        ctx.eq('%s: flat vector' % n, p.get_vector(), np.hstack([flat(t.get_vector()) for _, _, t in done]), 0)
        ctx.eq('%s: unconstrained vector' % n, p.get_free(), np.hstack([flat(t.get_free()) for _, _, t in done]))
        ctx.true('%s: the member itself is stored' % n, p[n] is q)
    x = ctx.vec('x', nf, lo=-1.2, hi=1.2)
    p.set_free(x)
    ctx.eq('vector written', p.get_free(), x)


def offsets(ctx, spec, pad):
    """the helpers that read and write one parameter inside a longer vector"""
    P = ctx.mod('Parameters')
    p = spec.make(ctx)
    for what, n, setter, getter, get in (('flat', spec.nvec, P.set_vector_offset, P.get_vector_offset, lambda q: q.get_vector()),
                                         ('unconstrained', spec.nfree, P.set_free_offset, P.get_free_offset, lambda q: q.get_free())):
        y = ctx.vec('y' + what[0], n + pad + 2, lo=-1.2, hi=1.2)
        nxt = setter(p, y, pad)
        ctx.eq(what + ': next offset after writing', nxt, pad + n)
        q = spec.make(ctx)
        seg = y[pad:pad + n]
        if what == 'flat':
            q.set_vector(seg)
        else:
            q.set_free(seg)
        ctx.eq(what + ': the segment is what was written', spec.held(p), spec.held(q), 0 if what == 'flat' else 1e-7)
        z = ctx.vec('z' + what[0], n + pad + 2)
        out = np.array(z)
        nxt = getter(p, out, pad)
        ctx.eq(what + ': next offset after reading', nxt, pad + n)
        ctx.eq(what + ': read into the segment', out[pad:pad + n], get(p))
        ctx.eq(what + ': before the segment', out[:pad], z[:pad], 0)
        ctx.eq(what + ': after the segment', out[pad + n:], z[pad + n:], 0)


def names(ctx):
    p = nested_dict().make(ctx)
    nm = list(p.names())
    ctx.true('names of the members in order', nm == ['h', 'u', 'x_0', 'x_1', 'y', 'w', 'k'], nm)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = [('names', names, {})]
    specs = [plain_dict(), nested_dict()] + family_specs(tier)
    for s in specs:
        out.append(('concat %s' % s, concat, dict(spec=s)))
        out.append(('write %s' % s, write, dict(spec=s)))
        for i, (n, _) in enumerate(s.members):
            out.append(('access %s %s' % (s, n), access, dict(spec=s, which=i)))
    for s in specs[:2] + base_specs('quick'):
        out.append(('offsets %s' % s, offsets, dict(spec=s, pad=1)))
    out.append(('offsets at the start', offsets, dict(spec=MEMBERS[3][1], pad=0)))
    for s in specs[:2]:
        for i, (n, _) in enumerate(s.members):
            out.append(('duplicate %s %s' % (s, n), duplicate, dict(spec=s, which=i)))
    for o in perms(4 if tier == 'quick' else 5):
        out.append(('grow %s' % ''.join(MEMBERS[i][0] for i in o), grow, dict(order=o)))
    return out
