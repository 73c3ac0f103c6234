"""Conversions between parameters: (name, input spec, output spec, conversion)"""
from .objfun import *


def conversions(ctx_free_tier):
    tier = ctx_free_tier
    V = lambda n, b: Box('vector', (n,), b)
    out = []

    def quadratic(ctx, pi, po):
        v = pi.get_vector()
        cs = [quad_coef(ctx, 'k%d' % i, 2) for i in range(3)]
        po.set_vector(anp.array([quad(c, v) for c in cs]))
    out.append(('quadratic', V(2, 'none'), V(3, 'none'), quadratic))
    out.append(('quadratic from bounded', V(2, 'lower'), V(3, 'none'), quadratic))

    def quadratic_free(ctx, pi, po):
        v = pi.get_free()
        cs = [quad_coef(ctx, 'k%d' % i, 2) for i in range(2)]
        po.set_free(anp.array([quad(c, v) for c in cs]))
    out.append(('quadratic to bounded', Box('array', (1, 2), 'lower'), V(2, 'upper'), quadratic_free))

    def ratio(ctx, pi, po):
        v = pi.get()
        po.set(anp.log(v[:, 1:] / v[:, :1]) ** 2 + v[:, :1])
    out.append(('simplex to array', Simplex((1, 3)), Box('array', (1, 2), 'none'), ratio))

    def softmax(ctx, pi, po):
        e = anp.exp(pi.get() / 2)
        d = anp.array([anp.concatenate([e, anp.array([1.0])])])
        po.set(d / anp.sum(d))
    out.append(('vector to simplex', V(2, 'none'), Simplex((1, 3)), softmax))

    def gram(ctx, pi, po):
        v = pi.get()
        po.set(anp.array([[1 + v[0] ** 2, v[0] * v[1]], [v[0] * v[1], 1 + v[1] ** 2]]))
    out.append(('vector to matrix', V(2, 'none'), PosDef(2, False), gram))

    def logdet(ctx, pi, po):
        m = pi.get()
        po.set(anp.log(m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]) + anp.exp(m[0, 1]))
    out.append(('matrix to scalar', PosDef(2, False), Box('scalar', (1,), 'none'), logdet))

    def scale(ctx, pi, po):
        po['x'].set(pi['a'].get() ** 2)
        po['y'].set(pi['b'].get())
    d1 = Dict('in', [('a', Box('scalar', (1,), 'none')), ('b', Simplex((1, 2)))])
    d2 = Dict('out', [('y', Simplex((1, 2))), ('x', Box('scalar', (1,), 'none'))])
    out.append(('dictionary', d1, d2, scale))
    if tier != 'quick':
        d3 = Dict('in3', [('m', PosDef(2, True)), ('in', d1)])

        def deep(ctx, pi, po):
            po['x'].set(pi['in']['a'].get() * anp.sum(pi['m'].get() ** 2))
            po['y'].set(pi['in']['b'].get())
        out.append(('nested dictionary', d3, d2, deep))
        out.append(('matrix to matrix', PosDef(2, True), PosDef(2, False),
                    lambda ctx, pi, po: po.set(anp.dot(pi.get(), pi.get()))))
        out.append(('simplexes', Simplex((2, 3)), Box('array', (2, 2), 'none'), ratio))
    return out
