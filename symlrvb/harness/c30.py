"""C30 reads change nothing; deep copies are independent"""
import copy
import numpy as np
from .common import *
from .c10 import plain2, nested2

BOUNDS = dict(SIZES, histories='each read alone and all reads in sequence; copy / change copy / change original / differentiate copy, in both orders')


def names_of(p):
    return p.names()


READS = [
    ('get', lambda p, x: p.get()),
    ('get_free', lambda p, x: p.get_free()),
    ('get_vector', lambda p, x: p.get_vector()),
    ('dictval', lambda p, x: p.dictval()),
    ('names', lambda p, x: p.names()),
    ('free_size', lambda p, x: p.free_size()),
    ('vector_size', lambda p, x: p.vector_size()),
    ('free_to_vector_jac', lambda p, x: p.free_to_vector_jac(x)),
    ('free_to_vector_hess', lambda p, x: p.free_to_vector_hess(x)),
    ('get_free again', lambda p, x: p.get_free()),
    ('get_vector again', lambda p, x: p.get_vector()),
]


def plain(ctx, label, spec, p):
    ctx.true(label + ': plain numbers', members_plain(ctx, spec, p))


def members_plain(ctx, spec, p):
    if isinstance(spec, Dict):
        return all(members_plain(ctx, s, p[n]) for n, s in spec.members)
    return ctx.is_plain(p.get())


def reads(ctx, spec):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    fb = np.array(p.get_free())
    x = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    for n, f in READS:
        f(p, x)
        plain(ctx, n, spec, p)
        ctx.eq(n + ': value unchanged', spec.held(p), before)
    ctx.eq('unconstrained value unchanged', p.get_free() - fb, np.zeros(spec.nfree))
    # the argument is not changed either
    ctx.eq('argument unchanged', x, ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0))


def results_owned(ctx, spec):
    """unconstrained vectors and derivative matrices handed out are not views
    of the held value"""
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    f = p.get_free()
    f[0] = f[0] + 1
    ctx.eq('value unchanged when the unconstrained vector is overwritten', spec.held(p), before)
    x = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    q = spec.make(ctx)
    y = np.array(x)
    q.set_free(y)
    held = np.array(spec.held(q))
    if not bounds_free(spec):
        y[0] = y[0] + 1
        ctx.eq('value unchanged when the argument is overwritten', np.array(spec.held(q)) - held, np.zeros(held.shape))


def bounds_free(spec):
    """no constraint anywhere: the unconstrained vector is the value itself"""
    if isinstance(spec, Dict):
        return any(bounds_free(s) for n, s in spec.members)
    return isinstance(spec, Box) and spec.bk == 'none'


def copies(ctx, spec, first):
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    q = copy.deepcopy(p)
    ctx.eq('copy holds the same value', spec.held(q), before)
    ctx.eq('same sizes', (q.free_size(), q.vector_size()), (spec.nfree, spec.nvec))
    ctx.eq('same unconstrained value', q.get_free() - p.get_free(), np.zeros(spec.nfree))
    ctx.eq('same flat vector', q.get_vector(), p.get_vector())
    x = ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    a, b = (q, p) if first == 'copy' else (p, q)
    # a is used, b must not notice
    a.free_to_vector_jac(x)
    plain(ctx, 'derivatives of one, the other', spec, b)
    ctx.eq('derivatives of one leave the other', spec.held(b), before)
    a.free_to_vector_hess(x)
    plain(ctx, 'Hessians of one, the other', spec, b)
    ctx.eq('Hessians of one leave the other', spec.held(b), before)
    a.set_free(x)
    ctx.eq('setting one leaves the other', spec.held(b), before)
    ref = spec.make(ctx)
    ref.set_free(x)
    ctx.eq('and works like on a fresh parameter', np.array(spec.held(a)) - np.array(spec.held(ref)), np.zeros(before.shape))
    y = ctx.vec('y', spec.nvec)
    a.set_vector(y)
    ctx.eq('setting the flat vector of one leaves the other', spec.held(b), before)
    ctx.eq('the flat vector reads back', a.get_vector(), y)
    z = ctx.vec('z', spec.nfree, lo=-1.0, hi=1.0)
    b.set_free(z)
    ctx.eq('setting the other leaves the one', a.get_vector(), y)
    ref.set_free(z)
    ctx.eq('and works', np.array(spec.held(b)) - np.array(spec.held(ref)), np.zeros(before.shape))
    J = dense(b.free_to_vector_jac(x)) - dense(ref.free_to_vector_jac(x))
    ctx.eq('same derivatives', J, np.zeros((spec.nvec, spec.nfree)))


def in_place(ctx, spec):
    """overwriting an element of the value of the copy"""
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    q = copy.deepcopy(p)
    if isinstance(spec, Dict):
        for n, s in spec.members:
            if isinstance(s, Box) and s.kind != 'scalar':
                q[n].get()[...] = q[n].get() + 1
                ctx.eq('%s: original untouched' % n, spec.held(p), before)
    else:
        q.get()[...] = q.get() + 1
        ctx.eq('original untouched', spec.held(p), before)


def two_parameters(ctx, spec):
    """parameters of the same kind do not share state either"""
    p, q = spec.make(ctx), spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    q.set_free(ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0))
    q.set_vector(ctx.vec('y', spec.nvec))
    ctx.eq('the other parameter keeps its value', spec.held(p), before)


def dict_values(ctx):
    """the value accessor of a copied dictionary reads and writes the copy"""
    spec = plain2()
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    before = np.array(spec.held(p))
    q = copy.deepcopy(p)
    a = ctx.reals('new', positive=True) + bounds(ctx, 'lower')[0]
    q.get()['a'] = a
    ctx.eq('copy changed', q['a'].get(), a)
    ctx.eq('copy read', q.get()['a'], a)
    ctx.eq('original kept', spec.held(p), before)
    p.get()['a'] = a + 1
    ctx.eq('copy kept', q.get()['a'], a)
    q.push_param(Box('vector', (2,), 'none').make(ctx, name='new'))
    ctx.eq('original size kept', (p.vector_size(), p.free_size()), (spec.nvec, spec.nfree))
    ctx.eq('copy size', (q.vector_size(), q.free_size()), (spec.nvec + 2, spec.nfree + 2))


def specs(tier):
    out = []
    for bk in BOUNDS4:
        out += [Box('scalar', (1,), bk), Box('vector', (2,), bk), Box('array', (1, 2), bk)]
    out += [PosDef(2, True), PosDef(1, False), PosDefStack('vector', (2,), 2, True), PosDefStack('array', (2, 1), 2, True),
            Simplex((2, 3)), Simplex((1, 2)), Subspace(3, None), Subspace(3, 1), plain2(), nested2()]
    out += family_specs(tier)
    if tier != 'quick':
        out += [PosDef(3, True), Simplex((3, 3)), plain_dict(), nested_dict(), PosDefStack('array', (2, 2), 2, True), Box('array', (2, 2, 2), 'both')]
    return out


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = [('dict values', dict_values, {})]
    for s in specs(tier):
        out.append(('reads %s' % s, reads, dict(spec=s)))
        out.append(('results %s' % s, results_owned, dict(spec=s)))
        for first in ('copy', 'original'):
            out.append(('copies %s %s' % (s, first), copies, dict(spec=s, first=first)))
        if not (isinstance(s, Box) and s.kind == 'scalar'):
            out.append(('in place %s' % s, in_place, dict(spec=s)))
        out.append(('two %s' % s, two_parameters, dict(spec=s)))
    return out


def COST(c):
    s = c[2].get('spec')
    return s.nvec * s.nfree ** 2 if s else 0
