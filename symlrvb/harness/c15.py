"""C15 parameter converters"""
from .convs import *

BOUNDS = dict(SIZES, conversions='quadratic maps with symbolic coefficients in either coordinates, softmax / log-ratio, Gram matrix, '
              'log determinant, dictionary to dictionary')


def in_point(ctx, spec, free):
    if free:
        return ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)
    if isinstance(spec, Box):
        q = spec.make(ctx)
        spec.set_legal(ctx, q, 'x')
        return flat(q.get())
    # off the constraint set as well: flat coordinates are arbitrary
    v = ctx.vec('y', spec.nvec, positive=True)
    if isinstance(spec, PosDef):
        ctx.assume(v[0] * v[2] - v[1] * v[1] > 0)
    return v


def convert(ctx, conv, fin, fout):
    name, si, so, f = conv
    pi, po = si.make(ctx, name='in'), so.make(ctx, name='out')
    si.set_legal(ctx, pi, 'hi')
    so.set_legal(ctx, po, 'ho')
    PC = ctx.mod('SparseObjectives').ParameterConverter(pi, po, lambda: f(ctx, pi, po))
    x = in_point(ctx, si, fin)
    n, m = len(x), (so.nfree if fout else so.nvec)

    def g(z):
        qi, qo = si.make(ctx), so.make(ctx)
        (qi.set_free if fin else qi.set_vector)(z)
        f(ctx, qi, qo)
        return qo.get_free() if fout else qo.get_vector()
    a, b = 'free' if fin else 'vec', 'free' if fout else 'vec'
    want = ctx.diff1(g, x)
    val = getattr(PC, 'converter_%s_to_%s' % (a, b))(x)
    ctx.eq('converted value', val - g(x), np.zeros(m))
    J = getattr(PC, '%s_to_%s_jacobian' % (a, b))(x)
    ctx.eq('Jacobian shape', np.shape(J), (m, n))
    ctx.eq('Jacobian', np.reshape(J, (m, n)) - np.reshape(want, (m, n)), np.zeros((m, n)), 1e-6)
    # at another point, and back
    if fin:
        y = ctx.vec('x2', n, lo=-1.0, hi=1.0)
    elif isinstance(si, Box):
        y = x + ctx.vec('dx', n, positive=True, lo=0.1, hi=0.3) * (1 if si.bk in ('none', 'lower') else -1)
    else:
        y = x * 2
    getattr(PC, '%s_to_%s_jacobian' % (a, b))(y)
    ctx.eq('value again', getattr(PC, 'converter_%s_to_%s' % (a, b))(x) - g(x), np.zeros(m))
    ctx.eq('Jacobian again', np.reshape(getattr(PC, '%s_to_%s_jacobian' % (a, b))(x), (m, n)) - J, np.zeros((m, n)), 1e-6)


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for c in conversions(tier):
        for fin in (True, False):
            for fout in (True, False):
                out.append(('%s %s to %s' % (c[0], 'free' if fin else 'vector', 'free' if fout else 'vector'),
                            convert, dict(conv=c, fin=fin, fout=fout)))
    return out
