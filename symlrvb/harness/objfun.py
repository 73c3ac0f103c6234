"""Functions of parameters used by the objective harnesses.

A quadratic with symbolic coefficients takes every possible value, gradient
and Hessian at the evaluated point, so it stands for every smooth function as
far as first and second derivatives go; the exponential / logarithmic ones
exercise the value accessors of the individual parameters."""
import numpy as np
import autograd.numpy as anp
from .common import *
from .c10 import plain2, nested2


def quad_coef(ctx, name, n):
    return ctx.reals(name + 'c'), ctx.vec(name + 'g', n), ctx.symmetric(name + 'H', n)


def quad(coef, v):
    c, g, H = coef
    return c + anp.dot(g, v) + 0.5 * anp.dot(v, anp.dot(H, v))


def leaves(spec, p):
    """(spec, parameter) of all leaves"""
    if isinstance(spec, Dict):
        out = []
        for n, s in spec.members:
            out += leaves(s, p[n])
        return out
    return [(spec, p)]


def smooth(spec, p):
    """a function of the values themselves"""
    out = 0.0
    for i, (s, q) in enumerate(leaves(spec, p)):
        v = q.get()
        out = out + (i + 2) * anp.sum(v ** 2)
        if isinstance(s, (PosDef, PosDefStack)):
            out = out + anp.sum(v) ** 2
        elif isinstance(s, Simplex):
            out = out - anp.sum(v * anp.log(v))
        else:
            out = out + anp.exp(anp.sum(v) / 4)
    return out


def obj_specs(tier):
    out = [Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), Box('vector', (2,), 'none'), Box('array', (1, 2), 'upper'),
           PosDef(2, True), Simplex((1, 3)), Subspace(3, 1), PosDefStack('vector', (2,), 1, True), plain2(), nested2()]
    if tier != 'quick':
        out += [PosDefStack('array', (1, 2), 2, True), Simplex((2, 3)), Box('array', (2, 2), 'both'), Subspace(3, None)]
        out += family_specs('quick')
    return out


def sq(x):
    return np.squeeze(np.array(x))


def held_ok(ctx, label, spec, p, want):
    """plain numbers, with the given flat vector"""
    plain = all(ctx.is_plain(q.get()) for s, q in leaves(spec, p))
    ctx.true(label + ': plain numbers', plain)
    if plain:
        ctx.eq(label + ': values', np.array(p.get_vector()) - np.array(want), np.zeros(np.shape(want)))
