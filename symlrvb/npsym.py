"""Make the real numpy / scipy / autograd stack compute on symbolic reals.

install() must run before autograd (and the package under check) is imported:
it replaces the public functions of numpy, math, scipy.special, scipy.linalg
and scipy.sparse by wrappers which behave exactly as before unless symbolic
execution is active (ACTIVE) .
"""
import os
os.environ.setdefault('NUMPY_EXPERIMENTAL_ARRAY_FUNCTION', '1')
import copy as _copy
import functools
import itertools
import math as real_math
from . import omath as math
import numbers
import types
from fractions import Fraction

import numpy as np

from . import poly as P
from .poly import Sym, SymBool, Unsupported

ACTIVE = [False]

O = {}            # original numpy functions
nd = np.ndarray
_empty = np.empty
_zeros = np.zeros
_asarray = np.asarray
_array = np.array
_broadcast_arrays = np.broadcast_arrays
_object = np.dtype('O')
_ndindex = np.ndindex


# --------------------------------------------------------------------------
class SymArray(nd):
    __array_priority__ = 20.0

    def __array_finalize__(self, obj):
        pass

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for x in inputs:
            if hasattr(x, '_node') or isinstance(x, SymSparse):
                return NotImplemented
        return ufunc_dispatch(ufunc.__name__, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        # numpy-internal calls that reach a dispatched function directly
        w = FUNC_BY_ORIG.get(func)
        if w is not None:
            return w(*args, **kwargs)
        impl = getattr(func, '_implementation', None)
        if impl is None:
            impl = func.__wrapped__
        return post(impl(*args, **kwargs))

    def view(self, *a, **k):
        if a and a[0] is nd and self.dtype == _object:
            return self
        return nd.view(self, *a, **k)

    def astype(self, dtype, *a, **k):
        if self.dtype != _object:
            return nd.astype(self, dtype, *a, **k)
        kind = np.dtype(dtype).kind
        if kind in 'fcO':
            return mk([x for x in self.ravel().tolist()], self.shape, keep=True)
        if kind == 'b':
            return _array([bool(x) for x in self.ravel().tolist()], dtype=bool).reshape(self.shape)
        return _array([int(x) for x in self.ravel().tolist()], dtype=dtype).reshape(self.shape)

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic array')

    def __getitem__(self, idx):
        r = nd.__getitem__(self, fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        if hasattr(val, '_node'):
            raise ValueError('setting an array element with a sequence.')
        if isinstance(val, SymSparse):
            raise ValueError('setting an array element with a sparse matrix')
        nd.__setitem__(self, fix_index(idx), val)

    def __matmul__(self, o):
        if hasattr(o, '_node') or isinstance(o, SymSparse):
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        if hasattr(o, '_node') or isinstance(o, SymSparse):
            return NotImplemented
        return matmul(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().tolist()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(self.ravel().tolist()[0])

    def all(self, axis=None, out=None, keepdims=False):
        return reduce_generic(lambda xs: P.sb_and(xs), self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return reduce_generic(lambda xs: P.sb_or(xs), self, axis, keepdims)

    def dot(self, o, out=None):
        return f_dot(self, o)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return call_ufunc('sqrt', f_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def argmax(self, axis=None, out=None):
        return f_argext(self, axis, True)

    def argmin(self, axis=None, out=None):
        return f_argext(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = f_sort(self, axis)

    def clip(self, min=None, max=None, out=None):
        return f_clip(self, min, max)

    def round(self, *a, **k):
        raise Unsupported('round')

    def ptp(self, axis=None, out=None):
        return self.max(axis) - self.min(axis)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum(-1)

    def __repr__(self):
        return 'SymArray(%s)' % (self.tolist(),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def fix_index(idx):
    if type(idx) is tuple:
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, nd) and idx.dtype == _object:
        vals = idx.ravel().tolist()
        if vals and all(isinstance(v, (bool, SymBool, np.bool_)) for v in vals):
            r = _array([bool(v) for v in vals], dtype=bool).reshape(idx.shape)
            return r
        return _array([v.__index__() for v in vals], dtype=int).reshape(idx.shape)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return idx.__index__()
    if type(idx) is list and any(isinstance(v, (Sym, SymBool)) for v in idx):
        return [bool(v) if isinstance(v, SymBool) else v.__index__() for v in idx]
    return idx


def mk(lst, shape, keep=False):
    """object SymArray from a flat list of elements (scalar for shape ())"""
    if shape == () and not keep:
        return lst[0]
    a = _empty(len(lst), dtype=_object)
    for i, x in enumerate(lst):
        a[i] = x
    return a.reshape(shape).view(SymArray)


def as_sym(x):
    """-> SymArray (0-d allowed)"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, nd):
        if x.dtype == _object:
            return x.view(SymArray)
        return mk([P.lift(v) if not isinstance(v, bool) else v for v in x.ravel().tolist()],
                  x.shape, keep=True)
    if isinstance(x, SymSparse):
        return x.toarray()
    if isinstance(x, (list, tuple)):
        return as_sym(w_array(x))
    a = _empty((), dtype=_object)
    a[()] = x
    return a.view(SymArray)


def obj(x):
    """plain object ndarray view of anything array-like"""
    if isinstance(x, nd):
        if x.dtype == _object:
            return nd.view(x, nd)
        return x.astype(_object)
    if isinstance(x, (list, tuple)):
        return obj(w_array(x))
    a = _empty((), dtype=_object)
    a[()] = x
    return a


def elems(x):
    return obj(x).ravel().tolist()


def has_sym(x, depth=0):
    t = type(x)
    if t is Sym or t is SymBool or t is SymArray:
        return True
    if t is list or t is tuple:
        if depth > 4:
            return False
        for y in x:
            if has_sym(y, depth + 1):
                return True
        return False
    if isinstance(x, nd):
        return x.dtype == _object
    return isinstance(x, SymSparse)


def has_box(x, depth=0):
    if hasattr(x, '_node'):
        return True
    if type(x) in (list, tuple) and depth < 4:
        return any(has_box(y, depth + 1) for y in x)
    if isinstance(x, nd) and x.dtype == _object:
        return any(hasattr(y, '_node') for y in x.ravel().tolist())
    return False


def post(r):
    t = type(r)
    if t is nd and r.dtype == _object:
        return r.view(SymArray)
    if t is tuple and any(type(x) is nd for x in r):
        return tuple(post(x) for x in r)
    if t is list:
        return [post(x) for x in r]
    return r


def finish(lst, shape):
    """result of an elementwise op: real bool array if all concrete bools"""
    if shape == ():
        return lst[0]
    if lst and all(type(x) is bool for x in lst):
        return _array(lst, dtype=bool).reshape(shape)
    return mk(lst, shape)


# --------------------------------------------------------------------------
# elementwise functions on scalars


def lf(x):
    return P.lift(x)


def s_add(a, b):
    return lf(a) + lf(b)


def s_sub(a, b):
    return lf(a) - lf(b)


def s_mul(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return P.sb_and([a, b])
    return lf(a) * lf(b)


def s_div(a, b):
    a = lf(a)
    b = lf(b)
    return P.div(a, b)


def s_pow(a, b):
    return P.power(lf(a), lf(b))


def s_max(a, b):
    a = lf(a)
    b = lf(b)
    if type(a) is float and a != a or type(b) is float and b != b:
        return P.NAN
    return a if bool(a >= b) else b


def s_min(a, b):
    a = lf(a)
    b = lf(b)
    if type(a) is float and a != a or type(b) is float and b != b:
        return P.NAN
    return a if bool(a <= b) else b


def s_abs(a):
    return abs(lf(a))


def s_logaddexp(a, b):
    return P.log(P.exp(lf(a)) + P.exp(lf(b)))


def s_isfinite(a):
    a = lf(a)
    return not (type(a) is float)


def s_isnan(a):
    a = lf(a)
    return type(a) is float and a != a


def s_isinf(a):
    a = lf(a)
    return type(a) is float and a == a


def _b(r):
    return r


def s_expit(a):
    e = P.exp(lf(a))
    if type(e) is float:
        return P.ONE if e > 0 else P.ZERO
    return P.div(e, e + 1)


def s_logit(a):
    a = lf(a)
    return P.log(a) - P.log(1 - a)


def s_floor(a):
    a = lf(a)
    if type(a) is float:
        return a
    if a.is_numeric():
        return P.const(int(math.floor(float(a))))
    raise Unsupported('floor of a symbolic value')


def s_ceil(a):
    a = lf(a)
    if type(a) is float:
        return a
    if a.is_numeric():
        return P.const(int(math.ceil(float(a))))
    raise Unsupported('ceil of a symbolic value')


def _const2(name, f):
    def g(a, b):
        a, b = lf(a), lf(b)
        if type(a) is Sym and type(b) is Sym and a.is_const() and b.is_const():
            return P.lift(Fraction(f(Fraction(a.constval()), Fraction(b.constval()))))
        raise Unsupported(name + ' of symbolic values')
    return g


SCALAR = {
    'add': s_add, 'subtract': s_sub, 'multiply': s_mul,
    'divide': s_div, 'true_divide': s_div, 'power': s_pow, 'float_power': s_pow,
    'negative': lambda a: -lf(a) if not isinstance(a, (bool, SymBool)) else P.sb_not(a),
    'positive': lambda a: lf(a),
    'exp': lambda a: P.exp(lf(a)), 'log': lambda a: P.log(lf(a)),
    'log1p': lambda a: P.log(lf(a) + 1), 'expm1': lambda a: P.exp(lf(a)) - 1,
    'log2': lambda a: P.div(P.log(lf(a)), P.logconst(2)),
    'log10': lambda a: P.div(P.log(lf(a)), P.logconst(10)),
    'exp2': lambda a: P.exp(P.logconst(2) * lf(a)),
    'sqrt': lambda a: P.sqrt(lf(a)), 'square': lambda a: lf(a) * lf(a),
    'cbrt': lambda a: P.power(lf(a), P.const(Fraction(1, 3))),
    'reciprocal': lambda a: P.div(P.ONE, lf(a)),
    'absolute': s_abs, 'abs': s_abs, 'fabs': s_abs,
    'sign': lambda a: P.lift(P.sign(lf(a))),
    'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
    'greater': lambda a, b: lf(a) > lf(b), 'greater_equal': lambda a, b: lf(a) >= lf(b),
    'less': lambda a, b: lf(a) < lf(b), 'less_equal': lambda a, b: lf(a) <= lf(b),
    'equal': lambda a, b: lf(a) == lf(b), 'not_equal': lambda a, b: lf(a) != lf(b),
    'logical_and': lambda a, b: P.sb_and([a, b]),
    'logical_or': lambda a, b: P.sb_or([a, b]),
    'logical_not': lambda a: P.sb_not(a),
    'logical_xor': lambda a, b: bool(a) != bool(b),
    'bitwise_and': lambda a, b: P.sb_and([a, b]),
    'bitwise_or': lambda a, b: P.sb_or([a, b]),
    'bitwise_xor': lambda a, b: bool(a) != bool(b),
    'invert': lambda a: P.sb_not(a),
    'isfinite': s_isfinite, 'isnan': s_isnan, 'isinf': s_isinf,
    'sin': lambda a: P.fn('sin', lf(a)), 'cos': lambda a: P.fn('cos', lf(a)),
    'tan': lambda a: P.div(P.fn('sin', lf(a)), P.fn('cos', lf(a))),
    'tanh': lambda a: P.tanh(a),
    'sinh': lambda a: (P.exp(lf(a)) - P.exp(-lf(a))) * Fraction(1, 2),
    'cosh': lambda a: (P.exp(lf(a)) + P.exp(-lf(a))) * Fraction(1, 2),
    'logaddexp': s_logaddexp,
    'conjugate': lambda a: a, 'conj': lambda a: a,
    'hypot': lambda a, b: P.sqrt(lf(a) * lf(a) + lf(b) * lf(b)),
    'floor': s_floor, 'ceil': s_ceil,
    'signbit': lambda a: lf(a) < 0,
    'heaviside': lambda a, h: 1 if bool(lf(a) > 0) else (0 if bool(lf(a) < 0) else h),
    'floor_divide': _const2('floor_divide', lambda a, b: a // b),
    'remainder': _const2('remainder', lambda a, b: a % b),
    'mod': _const2('mod', lambda a, b: a % b),
}
BOOL_OUT = {'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal'}

# functions whose value on plain floats is kept exact while ACTIVE
EXACT = {'exp', 'log', 'log1p', 'expm1', 'sqrt', 'cbrt', 'log2', 'log10', 'tanh',
         'logaddexp', 'exp2'}


def fix_py_nan(f, args):
    # comparisons of two floats (nan/inf against constants)
    return f(*args)


def call_ufunc(name, *inputs):
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported('ufunc ' + name)
    if len(inputs) == 1:
        a = obj(inputs[0])
        return finish([f(x) for x in a.ravel().tolist()], a.shape)
    arrs = [obj(x) for x in inputs]
    try:
        bs = _broadcast_arrays(*arrs)
    except ValueError as e:
        raise ValueError('operands could not be broadcast together with shapes '
                         + ' '.join(str(a.shape) for a in arrs))
    lists = [b.ravel().tolist() for b in bs]
    return finish([f(*xs) for xs in zip(*lists)], bs[0].shape)


def norm_axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    r = []
    for a in axis:
        a = int(a)
        if a < -ndim or a >= ndim:
            raise np.AxisError(a, ndim) if hasattr(np, 'AxisError') else ValueError('axis')
        r.append(a % ndim)
    return tuple(r)


def reduce_generic(f, x, axis=None, keepdims=False):
    a = obj(x)
    axes = norm_axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes))
    rshape = tuple(a.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= a.shape[i]
    flat = b.reshape((-1, n) if b.size else (int(np.prod(rshape)) if rshape else 1, n))
    out = [f(row) for row in flat.tolist()]
    if keepdims:
        shape = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
    else:
        shape = rshape
    return finish(out, shape)


RED_ID = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}


def reduce_ufunc(name, x, axis=0, keepdims=False, initial=None):
    if name == 'logical_and':
        return reduce_generic(P.sb_and, x, axis, keepdims)
    if name == 'logical_or':
        return reduce_generic(P.sb_or, x, axis, keepdims)
    f = SCALAR[name]

    def red(xs):
        if not xs:
            if initial is not None:
                return initial
            if name in RED_ID:
                return P.lift(RED_ID[name])
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        r = xs[0]
        if name in ('add', 'multiply'):
            r = lf(r)
        for y in xs[1:]:
            r = f(r, y)
        if initial is not None:
            r = f(initial, r)
        return r
    return reduce_generic(red, x, axis, keepdims)


def ufunc_dispatch(name, method, inputs, kw):
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    if where is not True:
        raise Unsupported('ufunc where=')
    if method == '__call__':
        if name == 'matmul':
            r = matmul(*inputs)
        else:
            r = call_ufunc(name, *inputs)
    elif method == 'reduce':
        r = reduce_ufunc(name, inputs[0], kw.get('axis', inputs[1] if len(inputs) > 1 else 0),
                         kw.get('keepdims', False),
                         kw.get('initial', None) if not _is_novalue(kw.get('initial', None)) else None)
    elif method == 'accumulate':
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        a = obj(inputs[0])
        res = _empty(a.shape, dtype=_object)
        ax = axis % a.ndim
        a2 = np.moveaxis(a, ax, 0) if False else a.swapaxes(ax, 0)
        r2 = res.swapaxes(ax, 0)
        f = SCALAR[name]
        for idx in itertools.product(*[range(n) for n in a2.shape[1:]]):
            acc = None
            for i in range(a2.shape[0]):
                v = a2[(i,) + idx]
                acc = v if acc is None else f(acc, v)
                r2[(i,) + idx] = acc
        r = res.view(SymArray)
    elif method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        r = call_ufunc(name, a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'at':
        tgt, idx = inputs[0], fix_index(inputs[1])
        pos = _asarray(range(tgt.size)).reshape(tgt.shape)[idx]
        vals = _broadcast_arrays(pos, obj(inputs[2]))[1] if len(inputs) > 2 else None
        f = SCALAR[name]
        flat = nd.reshape(tgt, -1)
        for k, p_ in enumerate(pos.ravel().tolist()):
            i = np.unravel_index(p_, tgt.shape)
            tgt[i] = f(tgt[i], vals.ravel()[k]) if vals is not None else f(tgt[i])
        return None
    else:
        raise Unsupported('ufunc method ' + method)
    if out is not None:
        if isinstance(out, nd):
            if out.dtype != _object:
                raise TypeError('Cannot cast ufunc %s output from dtype(\'O\') to dtype(\'%s\')'
                                % (name, out.dtype))
            out[...] = r
            return out
    return r


def _is_novalue(x):
    return x is not None and type(x).__name__ == '_NoValueType'


# --------------------------------------------------------------------------
# array functions


def sdot(xs, ys):
    r = P.ZERO
    for x, y in zip(xs, ys):
        r = r + lf(x) * lf(y)
    return r


def mm2(a, b):
    """2-d x 2-d lists"""
    bt = list(zip(*b)) if b else []
    return [[sdot(r, c) for c in bt] for r in a]


def matmul(x, y):
    a, b = obj(x), obj(y)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1 = a.ndim == 1
    b1 = b.ndim == 1
    if a1:
        a = a.reshape(1, -1)
    if b1:
        b = b.reshape(-1, 1)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: mismatch in core dimension')
    lead = np.broadcast(_empty(a.shape[:-2]), _empty(b.shape[:-2])).shape \
        if (a.ndim > 2 or b.ndim > 2) else ()
    A = np.broadcast_to(a, lead + a.shape[-2:]) if lead else a
    B = np.broadcast_to(b, lead + b.shape[-2:]) if lead else b
    out = _empty(lead + (a.shape[-2], b.shape[-1]), dtype=_object)
    for idx in itertools.product(*[range(n) for n in lead]):
        r = mm2(A[idx].tolist() if a.shape[-1] else [[] for _ in range(a.shape[-2])],
                B[idx].tolist())
        o = out[idx]
        if a.shape[-1] == 0:
            o[...] = P.ZERO
        else:
            for i in range(a.shape[-2]):
                for j in range(b.shape[-1]):
                    o[i, j] = r[i][j]
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    if not isinstance(out, nd):
        return out
    if out.shape == ():
        return out.item()
    return out.view(SymArray)


def f_dot(a, b, out=None):
    if isinstance(b, SymSparse) or isinstance(a, SymSparse):
        return a * b
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return call_ufunc('multiply', a, b)
    if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    if b.ndim <= 2:
        return matmul(a, b) if not (a.ndim > 2 and b.ndim == 1) else matmul(a, b)
    k = a.shape[-1]
    bb = np.moveaxis(b, -2, 0).reshape(k, -1)
    r = matmul(a.reshape(-1, k), bb)
    return post(obj(r).reshape(a.shape[:-1] + b.shape[:-2] + b.shape[-1:]))


def f_einsum(*ops, **kw):
    kw.pop('optimize', None)
    kw.pop('out', None)
    from numpy.core.einsumfunc import _parse_einsum_input
    ins, outsub, arrays = _parse_einsum_input(
        [_shape_only(o) if _is_operand(ops, i) else o for i, o in enumerate(ops)])
    real = [obj(o) for i, o in enumerate(ops) if _is_operand(ops, i)]
    ins = ins.split(',')
    dims = {}
    for sub, a in zip(ins, real):
        if len(sub) != a.ndim:
            raise ValueError('einstein sum subscripts string does not match operand dimensions')
        for ch, n in zip(sub, a.shape):
            o = dims.get(ch)
            if o is None or o == 1:
                dims[ch] = n
            elif n != 1 and n != o:
                raise ValueError('operands could not be broadcast together (einsum)')
    labels = list(outsub) + [c for c in dims if c not in outsub]
    sums = [c for c in dims if c not in outsub]
    oshape = tuple(dims[c] for c in outsub)
    res = []
    lsts = [a for a in real]
    for oi in itertools.product(*[range(n) for n in oshape]):
        env = dict(zip(outsub, oi))
        acc = P.ZERO
        for si in itertools.product(*[range(dims[c]) for c in sums]):
            env.update(zip(sums, si))
            t = None
            for sub, a in zip(ins, lsts):
                v = a[tuple(env[c] if a.shape[k] != 1 else 0 for k, c in enumerate(sub))]
                t = lf(v) if t is None else t * lf(v)
            acc = acc + t
        res.append(acc)
    return finish(res, oshape)


def _is_operand(ops, i):
    if isinstance(ops[0], str):
        return i > 0
    return i % 2 == 0 and not (i == len(ops) - 1 and len(ops) % 2 == 1)


def _shape_only(o):
    return _zeros(np.shape(obj(o)))


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = obj(a)
    if _is_novalue(keepdims):
        keepdims = False
    axes = norm_axes(axis, a.ndim)
    n = 1
    for i in axes:
        n *= a.shape[i]
    return call_ufunc('divide', reduce_ufunc('add', a, axis, keepdims), n)


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = obj(a)
    if _is_novalue(keepdims):
        keepdims = False
    axes = norm_axes(axis, a.ndim)
    n = 1
    for i in axes:
        n *= a.shape[i]
    m = f_mean(a, axis, keepdims=True)
    d = call_ufunc('square', call_ufunc('subtract', a, m))
    return call_ufunc('divide', reduce_ufunc('add', d, axis, keepdims), n - ddof)


def f_average(a, axis=None, weights=None, returned=False):
    if returned:
        raise Unsupported('average(returned)')
    if weights is None:
        return f_mean(a, axis)
    a = obj(a)
    w = obj(weights)
    if w.ndim != a.ndim:
        w = np.moveaxis(np.broadcast_to(w, a.shape[:0] + (1,) * (a.ndim - 1) + w.shape), -1, axis)
    return call_ufunc('divide', reduce_ufunc('add', call_ufunc('multiply', a, w), axis),
                      reduce_ufunc('add', np.broadcast_to(obj(w), a.shape), axis))


def f_clip(a, a_min=None, a_max=None, out=None):
    r = a
    if a_min is not None:
        r = call_ufunc('maximum', r, a_min)
    if a_max is not None:
        r = call_ufunc('minimum', r, a_max)
    return r


def f_where(c, *xy):
    if not xy:
        v = elems(c)
        return _array([bool(x) for x in v]).reshape(np.shape(obj(c))).nonzero()
    bs = _broadcast_arrays(obj(c), obj(xy[0]), obj(xy[1]))
    ls = [b.ravel().tolist() for b in bs]
    return finish([x if bool(cc) else y for cc, x, y in zip(*ls)], bs[0].shape)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lf(x), lf(y)
        if type(x) is float or type(y) is float:
            return x == y
        z = P.atomic('eq', x - y)
        if z is True:
            return True
        d = x - y
        t = lf(atol) + lf(rtol) * abs(y)
        return P.sb_and([d <= t, -d <= t])
    bs = _broadcast_arrays(obj(a), obj(b))
    return finish([f(x, y) for x, y in zip(bs[0].ravel().tolist(), bs[1].ravel().tolist())], bs[0].shape)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(P.sb_and(elems(f_isclose(a, b, rtol, atol))))


def f_array_equal(a, b):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return bool(P.sb_and(elems(call_ufunc('equal', a, b))))


def f_argext(a, axis, mx):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0

    def f(xs):
        k = 0
        for i in range(1, len(xs)):
            c = (lf(xs[i]) > lf(xs[k])) if mx else (lf(xs[i]) < lf(xs[k]))
            if bool(c):
                k = i
        return k
    r = reduce_generic(f, a, axis)
    return r if not isinstance(r, nd) else _array(r.tolist(), dtype=int)


def _sort_idx(xs):
    return sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(lf(xs[i]) < lf(xs[j])) else (1 if bool(lf(xs[j]) < lf(xs[i])) else 0)))


def f_argsort(a, axis=-1, kind=None, order=None):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    out = _zeros(a.shape, dtype=int)
    A = a.swapaxes(axis, -1)
    R = out.swapaxes(axis, -1)
    for idx in itertools.product(*[range(n) for n in A.shape[:-1]]):
        R[idx] = _sort_idx(A[idx].tolist())
    return out


def f_sort(a, axis=-1, kind=None, order=None):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    out = _empty(a.shape, dtype=_object)
    A = a.swapaxes(axis, -1)
    R = out.swapaxes(axis, -1)
    for idx in itertools.product(*[range(n) for n in A.shape[:-1]]):
        xs = A[idx].tolist()
        for k, i in enumerate(_sort_idx(xs)):
            R[idx + (k,)] = xs[i]
    return out.view(SymArray)


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    n = int(num)
    div = (n - 1) if endpoint else n
    s, e = lf(start), lf(stop)
    r = [s + (e - s) * Fraction(i, div) if div else s for i in range(n)]
    return mk(r, (n,))


def f_nan_to_num(x, *a, **k):
    a = obj(x)
    v = []
    for y in a.ravel().tolist():
        z = lf(y)
        if type(z) is float:
            z = P.ZERO if z != z else P.lift(1.7976931348623157e308 if z > 0 else -1.7976931348623157e308)
        v.append(z)
    return finish(v, a.shape)


def f_dotlike_inner(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return call_ufunc('multiply', a, b)
    if b.ndim == 1:
        return matmul(a, b)
    return f_dot(a, b.swapaxes(-1, -2))


def f_tensordot(a, b, axes=2):
    a, b = obj(a), obj(b)
    try:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    except TypeError:
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    for x, y in zip(ax, bx):
        if a.shape[x] != b.shape[y]:
            raise ValueError('shape-mismatch for sum')
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    n = 1
    for x in ax:
        n *= a.shape[x]
    A = a.transpose(ra + ax).reshape(-1, n)
    B = b.transpose(bx + rb).reshape(n, -1)
    r = matmul(A, B)
    sh = tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb)
    if sh == ():
        return elems(r)[0]
    return post(obj(r).reshape(sh))


def f_vdot(a, b):
    return sdot(elems(a), elems(b))


def f_count_nonzero(a, axis=None):
    return reduce_generic(lambda xs: sum(1 for x in xs if bool(x)), a, axis)


def f_nonzero(a):
    return _array([bool(x) for x in elems(a)]).reshape(np.shape(obj(a))).nonzero()


def f_argwhere(a):
    return np.transpose(f_nonzero(a))


def f_result_type(*a):
    return _object


def f_cumsum(a, axis=None, dtype=None, out=None):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_dispatch('add', 'accumulate', (a,), {'axis': axis})


def f_cumprod(a, axis=None, dtype=None, out=None):
    a = obj(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_dispatch('multiply', 'accumulate', (a,), {'axis': axis})


def f_bincount(x, weights=None, minlength=0):
    xs = [int(v) for v in elems(x)]
    n = max([minlength] + [v + 1 for v in xs])
    ws = elems(weights) if weights is not None else [1] * len(xs)
    r = [P.ZERO] * n
    for i, w in zip(xs, ws):
        r[i] = r[i] + lf(w)
    return mk(r, (n,))


def f_searchsorted(*a, **k):
    raise Unsupported('searchsorted')


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None):
    if isinstance(a, SymSparse):
        return a.sum(axis)
    if _is_novalue(keepdims):
        keepdims = False
    if _is_novalue(initial):
        initial = None
    return reduce_ufunc('add', a, axis, keepdims, initial)


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None):
    if _is_novalue(keepdims):
        keepdims = False
    if _is_novalue(initial):
        initial = None
    return reduce_ufunc('multiply', a, axis, keepdims, initial)


def _max_args(xs):
    """xs without repetitions and without entries below another one by their
    form alone; floats (nan, inf) are returned as they are"""
    xs = [lf(x) for x in xs]
    for x in xs:
        if type(x) is float and x != x:
            return [x]
    out = []
    for x in xs:
        keep = True
        for y in list(out):
            r = x <= y
            if r is True:
                keep = False
                break
            if r is False:
                out.remove(y)
        if keep:
            out.append(x)
    return out


def max_red(xs):
    """the largest of xs as one opaque value (no fork on which it is)"""
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    xs = _max_args(xs)
    if len(xs) == 1:
        return xs[0]
    if any(type(x) is float for x in xs):
        r = xs[0]
        for y in xs[1:]:
            r = s_max(r, y)
        return r
    return P.max_atom(xs)


def max_weights(xs):
    """autograd's weights of the gradient of max: one over the number of
    maximal entries at each of them, zero elsewhere"""
    ys = [P.canon(lf(x)) if type(lf(x)) is not float else lf(x) for x in xs]
    keep = [P.canon(x) if type(x) is not float else x for x in _max_args(xs)]
    cnt = [sum(1 for y in ys if same_num(y, k)) for k in keep]
    if len(keep) == 1:
        return [Fraction(1, cnt[0]) if same_num(y, keep[0]) else 0 for y in ys]
    if any(type(x) is float for x in keep) or any(c != 1 for c in cnt):
        loc = [bool(sum_ok) for sum_ok in [sb_all_ge(y, keep) for y in ys]]
        n = sum(loc)
        return [Fraction(1, n) if l else 0 for l in loc]
    out = []
    for y in ys:
        i = [j for j, k in enumerate(keep) if same_num(y, k)]
        out.append(P.max_weight(keep, i[0]) if i else 0)
    return out


def same_num(a, b):
    if type(a) is float or type(b) is float:
        return type(a) is type(b) and a == b
    return a.t == b.t


def sb_all_ge(y, keep):
    return P.sb_and([y >= k for k in keep])


def f_max(a, axis=None, out=None, keepdims=False, initial=None):
    if initial is not None and not _is_novalue(initial):
        return reduce_ufunc('maximum', a, axis, keepdims is True, initial)
    return reduce_generic(max_red, a, axis, keepdims if keepdims is True else False)


def f_min(a, axis=None, out=None, keepdims=False, initial=None):
    if initial is not None and not _is_novalue(initial):
        return reduce_ufunc('minimum', a, axis, keepdims is True, initial)
    return reduce_generic(lambda xs: 0 - max_red([0 - lf(x) for x in xs]) if len(xs) else max_red(xs),
                          a, axis, keepdims if keepdims is True else False)


def max_chooser(orig, sg):
    """vjp of max / min over symbolic entries"""
    def chooser(ans, x, axis=None, keepdims=None):
        import autograd.numpy as anp
        from autograd.numpy.numpy_vjps import repeat_to_match_shape
        v = x
        while hasattr(v, '_value'):
            v = v._value
        if not isinstance(v, (SymArray, Sym)) or isinstance(v, Sym):
            return orig(ans, x, axis, keepdims)
        shape = v.shape
        W = max_weight_array(v if sg > 0 else 0 - v, axis)

        def vjp(g):
            g_rep, _ = repeat_to_match_shape(g, shape, anp.result_type(v), axis, keepdims)
            return g_rep * W
        return vjp
    return chooser


def max_weight_array(v, axis):
    flat = v.ravel()
    n = flat.shape[0]
    ind = O['arange'](n).reshape(v.shape)
    res = [0] * n
    if axis is None:
        groups = [list(range(n))]
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = [ax % v.ndim for ax in axes]
        rest = [i for i in range(v.ndim) if i not in axes]
        m = 1
        for i in rest:
            m *= v.shape[i]
        groups = [[int(k) for k in row] for row in ind.transpose(rest + axes).reshape(m, -1)]
    vals = list(flat)
    for gr in groups:
        for k, w in zip(gr, max_weights([vals[i] for i in gr])):
            res[k] = P.lift(w)
    return mk(res, v.shape, True)


def f_any(a, axis=None, out=None, keepdims=False):
    return reduce_generic(P.sb_or, a, axis, keepdims is True)


def f_all(a, axis=None, out=None, keepdims=False):
    return reduce_generic(P.sb_and, a, axis, keepdims is True)


# ---- linear algebra (exact, small)


def lists(m):
    return [[lf(x) for x in row] for row in obj(m).tolist()]


def from_lists(l, ncol=None):
    n = len(l)
    k = len(l[0]) if n else (ncol or 0)
    return mk([x for r in l for x in r], (n, k), keep=True)


class LinAlgError(Exception):
    pass


LinAlgError = np.linalg.LinAlgError


def check_square(a):
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if a.shape[-1] != a.shape[-2]:
        raise LinAlgError('Last 2 dimensions of the array must be square')


def det_l(m):
    n = len(m)
    if n == 0:
        return P.ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    # Laplace with memo on column subsets
    memo = {}

    def d(r, cols):
        if len(cols) == 1:
            return m[r][cols[0]]
        k = cols
        if k in memo:
            return memo[k]
        s = P.ZERO
        sg = 1
        for i, c in enumerate(cols):
            x = m[r][c]
            if x.t:
                sub = d(r + 1, cols[:i] + cols[i + 1:])
                s = s + x * sub if sg > 0 else s - x * sub
            sg = -sg
        memo[k] = s
        return s
    return d(0, tuple(range(n)))


def minor(m, i, j):
    return [[x for k, x in enumerate(r) if k != j] for q, r in enumerate(m) if q != i]


def blocks(m):
    """connected components of the nonzero pattern (exploit block structure)"""
    n = len(m)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and (m[i][j].t):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return list(groups.values())


def c_(x):
    return P.canon(x) if type(x) is Sym else x


def inv_l(m):
    n = len(m)
    out = [[P.ZERO] * n for _ in range(n)]
    for g in blocks(m):
        b = [[m[i][j] for j in g] for i in g]
        k = len(g)
        if k > 5:
            raise Unsupported('symbolic inverse of size %d' % k)
        d = c_(det_l(b))
        di = P.inv(d)
        if type(di) is float:
            raise LinAlgError('Singular matrix')
        for x in range(k):
            for y in range(k):
                cof = det_l(minor(b, y, x))
                if (x + y) % 2:
                    cof = -cof
                out[g[x]][g[y]] = P.div(cof, d)
    return out


def stack_apply(f, a, core_out):
    """apply f to the trailing matrices of a"""
    a = obj(a)
    lead = a.shape[:-2]
    res = [f(a[idx]) for idx in itertools.product(*[range(n) for n in lead])]
    return lead, res


def nosym_nan(a):
    for v in elems(a):
        if type(v) is float and (v != v or v in (P.INF, -P.INF)):
            return True
    return False


def l_inv(a):
    a = obj(a)
    check_square(a)
    if nosym_nan(a):
        return mk([P.NAN] * a.size, a.shape)
    if a.ndim == 2:
        return from_lists(inv_l(lists(a)))
    lead, res = stack_apply(lambda m: inv_l(lists(m)), a, None)
    return mk([x for r in res for row in r for x in row], a.shape)


def solve_l(A, B):
    """A x = B with lists (B: n x k), by Cramer/adjugate"""
    Ai = inv_l(A)
    return mm2(Ai, B)


def l_solve(a, b, **kw):
    a, b = obj(a), obj(b)
    check_square(a)
    if nosym_nan(a) or nosym_nan(b):
        return mk([P.NAN] * b.size, b.shape)
    if a.ndim == 2 and b.ndim == 1:
        if b.shape[0] != a.shape[0]:
            raise ValueError('solve: mismatch in core dimension')
        r = solve_l(lists(a), [[lf(x)] for x in b.tolist()])
        return mk([c_(x[0]) for x in r], b.shape)
    if a.ndim == 2 and b.ndim == 2:
        if b.shape[0] != a.shape[0]:
            raise ValueError('solve: mismatch in core dimension')
        r = solve_l(lists(a), lists(b))
        return from_lists([[c_(x) for x in row] for row in r], b.shape[1])
    if b.ndim == a.ndim - 1:
        return post(obj(matmul(l_inv(a), b[..., None]))[..., 0])
    return matmul(l_inv(a), b)


def l_det(a):
    a = obj(a)
    check_square(a)
    if nosym_nan(a):
        return P.NAN
    if a.ndim == 2:
        return c_(det_l(lists(a)))
    lead, res = stack_apply(lambda m: c_(det_l(lists(m))), a, None)
    return mk(res, lead)


def l_slogdet(a):
    def one(m):
        if nosym_nan(m):
            return P.NAN, P.NAN
        d = c_(det_l(lists(m)))
        s = P.sign(d)
        if s == 0:
            return 0.0, -P.INF
        return float(s), P.log(d if s > 0 else -d)
    a = obj(a)
    check_square(a)
    if a.ndim == 2:
        return one(a)
    lead, res = stack_apply(one, a, None)
    return mk([r[0] for r in res], lead), mk([r[1] for r in res], lead)


def chol_l(m):
    n = len(m)
    L = [[P.ZERO] * n for _ in range(n)]
    for j in range(n):
        s = m[j][j]
        for k in range(j):
            s = s - L[j][k] * L[j][k]
        s = c_(s)
        if not (P.syn_sign(s) == 'pos' or P.decide_pos(s)):
            raise LinAlgError('Matrix is not positive definite')
        L[j][j] = P.power(s, P.const(Fraction(1, 2)), True)
        for i in range(j + 1, n):
            t = m[i][j]
            for k in range(j):
                t = t - L[i][k] * L[j][k]
            L[i][j] = P.div(c_(t), L[j][j])
    return L


def l_cholesky(a):
    # numpy reads the lower triangle only
    a = obj(a)
    check_square(a)

    def one(m):
        if nosym_nan(m):
            raise LinAlgError('Matrix is not positive definite')
        l = lists(m)
        return chol_l(l)
    if a.ndim == 2:
        return from_lists(one(a))
    lead, res = stack_apply(one, a, None)
    return mk([x for r in res for row in r for x in row], a.shape)


FRAMES = []       # orthonormal frames registered by the harness (lists of columns)


def l_eigh(a, UPLO='L', **kw):
    """Contract stub: an arbitrary orthonormal eigenbasis.  The harness
    registers parametrised orthonormal frames; a frame is used if (by exact
    algebra) it diagonalises the argument.  1x1 and diagonal matrices need no
    frame."""
    a = obj(a)
    check_square(a)
    if a.ndim != 2:
        raise Unsupported('stacked eigh')
    m = lists(a)
    n = len(m)
    for i in range(n):
        for j in range(i):
            m[j][i] = m[i][j]         # lower triangle
    cands = [f for f in FRAMES if len(f) == n]
    if all(not m[i][j].t for i in range(n) for j in range(n) if i != j):
        cands = cands + [[[P.ONE if i == j else P.ZERO for j in range(n)] for i in range(n)]]
    for f in cands:          # f: list of columns
        D = [[c_(sdot(f[i], [sdot(row, f[j]) for row in m])) for j in range(n)] for i in range(n)]
        ok = all(i == j or P.atomic('eq', D[i][j]) is True for i in range(n) for j in range(n))
        if not ok:
            continue
        ev = [D[i][i] for i in range(n)]
        idx = _sort_idx(ev)
        w = mk([ev[i] for i in idx], (n,))
        v = from_lists([[f[i][r] for i in idx] for r in range(n)])
        return w, v
    raise Unsupported('eigh of a matrix outside the registered frames')


def l_eigvalsh(a, UPLO='L', **kw):
    return l_eigh(a)[0]


def l_norm(x, ord=None, axis=None, keepdims=False):
    a = obj(x)
    if axis is None and (ord is None or ord == 'fro' or (ord == 2 and a.ndim == 1)):
        return P.sqrt(sdot(elems(a), elems(a)))
    if ord in (None, 2) and isinstance(axis, int):
        return call_ufunc('sqrt', reduce_ufunc('add', call_ufunc('square', a), axis, keepdims))
    if ord == 1 and (a.ndim == 1 or isinstance(axis, int)):
        return reduce_ufunc('add', call_ufunc('absolute', a), axis, keepdims)
    if ord == np.inf and (a.ndim == 1 or isinstance(axis, int)):
        return reduce_ufunc('maximum', call_ufunc('absolute', a), axis, keepdims)
    raise Unsupported('norm ord=%r' % (ord,))


def l_pinv(a, *k, **kw):
    a = obj(a)
    m = lists(a)
    n, k_ = a.shape
    mt = [list(r) for r in zip(*m)]
    if n >= k_:
        return from_lists(mm2(inv_l(mm2(mt, m)), mt))
    return from_lists(mm2(mt, inv_l(mm2(m, mt))))


def l_qr(a, mode='reduced'):
    a = obj(a)
    m = lists(a)
    n, k = a.shape
    if mode not in ('reduced', 'economic') and n != k:
        raise Unsupported('full qr')
    cols = [list(c) for c in zip(*m)]
    q = []
    R = [[P.ZERO] * k for _ in range(min(n, k))]
    for j in range(k):
        v = cols[j]
        for i in range(len(q)):
            R[i][j] = sdot(q[i], cols[j])
            v = [c_(x - R[i][j] * y) for x, y in zip(v, q[i])]
        if len(q) < n:
            nr = P.sqrt(c_(sdot(v, v)))
            R[len(q)][j] = nr
            q.append([P.div(x, nr) for x in v])
    return from_lists([list(r) for r in zip(*q)]), from_lists(R)


def l_matrix_power(a, n):
    n = int(n)
    if n < 0:
        a = l_inv(a)
        n = -n
    r = as_sym(np.eye(np.shape(a)[0]))
    for _ in range(n):
        r = matmul(r, a)
    return r


def l_multi_dot(arrs):
    r = arrs[0]
    for x in arrs[1:]:
        r = f_dot(r, x)
    return r


def l_unsup(name):
    def f(*a, **k):
        raise Unsupported('linalg.' + name)
    return f


def l_lstsq(a, b, rcond=None):
    return (matmul(l_pinv(a), b), None, None, None)


# --------------------------------------------------------------------------
# creation


def w_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    """np.array for data containing symbols"""
    if isinstance(x, SymSparse):
        a = _empty((), dtype=_object)
        a[()] = x
        return a
    if dtype is not None and np.dtype(dtype).kind in 'ib':
        a = w_array(x)
        if np.dtype(dtype).kind == 'b':
            return _array([bool(v) for v in elems(a)], dtype=bool).reshape(obj(a).shape)
        return _array([int(v) for v in elems(a)], dtype=dtype).reshape(obj(a).shape)
    if isinstance(x, nd):
        r = nd.view(x, nd)
        if x.dtype != _object:
            r = r.astype(_object)
        elif copy:
            r = r.copy()
    elif isinstance(x, (list, tuple)):
        parts = [w_array(y) if (isinstance(y, (list, tuple)) or isinstance(y, nd)) else y for y in x]
        shapes = [np.shape(y) if isinstance(y, nd) else () for y in parts]
        if shapes and all(s == shapes[0] for s in shapes):
            s0 = shapes[0]
            r = _empty((len(parts),) + s0, dtype=_object)
            for i, y in enumerate(parts):
                if s0 == ():
                    r[i] = y.item() if isinstance(y, nd) else y
                else:
                    r[i] = nd.view(y, nd) if y.dtype == _object else y.astype(_object)
        elif not shapes:
            r = _empty((0,), dtype=_object)
        else:
            r = _array(list(parts), dtype=_object)
    else:
        r = _empty((), dtype=_object)
        r[()] = x
    while r.ndim < ndmin:
        r = r[None]
    r = r.view(SymArray)
    return r


def is_floaty(dtype):
    return dtype is None or np.dtype(dtype).kind in 'fcO'


def c_zeros(shape, dtype=None, order='C'):
    if ACTIVE[0] and is_floaty(dtype):
        return c_full(shape, P.ZERO)
    return O['zeros'](shape, **({} if dtype is None else {'dtype': dtype}))


def c_ones(shape, dtype=None, order='C'):
    if ACTIVE[0] and is_floaty(dtype):
        return c_full(shape, P.ONE)
    return O['ones'](shape, **({} if dtype is None else {'dtype': dtype}))


def c_empty(shape, dtype=None, order='C'):
    if ACTIVE[0] and is_floaty(dtype):
        return c_full(shape, P.NAN)
    return O['empty'](shape, **({} if dtype is None else {'dtype': dtype}))


def c_full(shape, fill_value, dtype=None, order='C'):
    if ACTIVE[0] and (has_sym(fill_value) or isinstance(fill_value, (float, np.floating)) or
                      (dtype is not None and np.dtype(dtype).kind in 'fcO')):
        a = _empty(shape, dtype=_object)
        if isinstance(fill_value, nd):
            a[...] = obj(fill_value)
        elif isinstance(fill_value, (list, tuple)):
            a[...] = obj(w_array(fill_value))
        else:
            v = P.lift(fill_value) if not isinstance(fill_value, SymBool) else fill_value
            flat = a.reshape(-1)
            for i in range(flat.size):
                flat[i] = v
        return a.view(SymArray)
    return O['full'](shape, fill_value, **({} if dtype is None else {'dtype': dtype}))


def c_eye(N, M=None, k=0, dtype=float, order='C'):
    r = O['eye'](N, M, k)
    if ACTIVE[0] and is_floaty(dtype):
        return as_sym(r)
    return r.astype(dtype)


def c_identity(n, dtype=None):
    return c_eye(n, dtype=dtype or float)


def _like(maker):
    def f(a, dtype=None, order='K', subok=True, **kw):
        if dtype is None:
            if isinstance(a, nd) and a.dtype.kind in 'iub':
                dtype = a.dtype
            elif isinstance(a, (int, bool)) and not isinstance(a, Sym):
                dtype = type(a)
        return maker(np.shape(a) if not hasattr(a, 'shape') else a.shape, dtype)
    return f


def c_full_like(a, fill_value, dtype=None, order='K', subok=True):
    if dtype is None and isinstance(a, nd) and a.dtype.kind in 'iub' and not has_sym(fill_value):
        dtype = a.dtype
    elif dtype is None and not has_sym(fill_value):
        dtype = float
    return c_full(np.shape(a), fill_value, dtype)


def c_asarray(a, dtype=None, order=None):
    if isinstance(a, SymArray) and is_floaty(dtype):
        return a
    return w_array(a, dtype=dtype, copy=False)


def c_diag(v, k=0):
    v = obj(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = c_full((n, n), P.ZERO)
        for i in range(len(v)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return r
    return post(v.diagonal(k).copy())


def c_broadcast_to(a, shape, subok=False):
    return post(O['broadcast_to'](obj(a), shape))


def c_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if isinstance(x, Sym) and ndmin == 0:
        return w_array(x)
    return w_array(x, dtype, copy, order, subok, ndmin)


def c_concatenate(arrs, axis=0, out=None):
    arrs = [obj(a) for a in arrs]
    return O['concatenate'](arrs, axis).view(SymArray)


def c_tile(A, reps):
    return post(O['tile'](obj(A), reps))


def c_copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        raise Unsupported('copyto where')
    dst[...] = src


def c_meshgrid(*a, **k):
    return [post(x) for x in O['meshgrid'](*[obj(x) for x in a], **k)]


def c_isscalar(x):
    return isinstance(x, (Sym, SymBool)) or O['isscalar'](x)


def c_tri(f):
    def g(m, k=0):
        a = obj(m)
        mask = f(a.shape[-2], a.shape[-1], k)
        r = a.copy()
        for idx in itertools.product(*[range(n) for n in a.shape]):
            if not mask[idx[-2], idx[-1]]:
                r[idx] = P.ZERO
        return r.view(SymArray)
    return g


OVERRIDES = {
    'array': c_array, 'asarray': c_asarray, 'asanyarray': c_asarray,
    'ascontiguousarray': c_asarray, 'asfortranarray': c_asarray,
    'asarray_chkfinite': c_asarray, 'require': c_asarray,
    'asfarray': lambda a, dtype=None: c_asarray(a),
    'diag': c_diag, 'broadcast_to': c_broadcast_to,
    'concatenate': c_concatenate, 'tile': c_tile, 'copyto': c_copyto,
    'meshgrid': c_meshgrid, 'isscalar': c_isscalar,
    'tril': c_tri(lambda n, m, k: O['tri'](n, m, k) > 0),
    'triu': c_tri(lambda n, m, k: O['tri'](n, m, k - 1) == 0),
    'einsum': f_einsum, 'matmul': matmul, 'dot': f_dot, 'inner': f_dotlike_inner,
    'tensordot': f_tensordot, 'vdot': f_vdot,
    'mean': f_mean, 'average': f_average, 'var': f_var,
    'std': lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False:
        call_ufunc('sqrt', f_var(a, axis, None, None, ddof, keepdims)),
    'clip': f_clip, 'where': f_where, 'isclose': f_isclose, 'allclose': f_allclose,
    'array_equal': f_array_equal, 'argmax': lambda a, axis=None, out=None: f_argext(a, axis, True),
    'argmin': lambda a, axis=None, out=None: f_argext(a, axis, False),
    'argsort': f_argsort, 'sort': f_sort, 'linspace': f_linspace,
    'nan_to_num': f_nan_to_num, 'count_nonzero': f_count_nonzero,
    'nonzero': f_nonzero, 'flatnonzero': lambda a: f_nonzero(obj(a).ravel())[0],
    'argwhere': f_argwhere, 'result_type': f_result_type,
    'cumsum': f_cumsum, 'cumprod': f_cumprod, 'bincount': f_bincount,
    'searchsorted': f_searchsorted, 'sum': f_sum, 'prod': f_prod, 'product': f_prod,
    'max': f_max, 'amax': f_max, 'min': f_min, 'amin': f_min, 'any': f_any, 'all': f_all,
    'nansum': f_sum, 'real': lambda a: a, 'iscomplexobj': lambda a: False,
    'real_if_close': lambda a, tol=100: a, 'isreal': lambda a: O['ones'](np.shape(a), dtype=bool),
    'copy': lambda a, order='K': as_sym(a).copy() if isinstance(a, (nd, list, tuple)) else as_sym(a).copy(),
    'trapz': None,
}
LINALG = {
    'inv': l_inv, 'solve': l_solve, 'det': l_det, 'slogdet': l_slogdet,
    'cholesky': l_cholesky, 'eigh': l_eigh, 'eigvalsh': l_eigvalsh, 'norm': l_norm,
    'pinv': l_pinv, 'qr': l_qr, 'matrix_power': l_matrix_power, 'multi_dot': l_multi_dot,
    'eig': l_unsup('eig'), 'svd': l_unsup('svd'), 'lstsq': l_lstsq,
    'eigvals': l_unsup('eigvals'), 'cond': l_unsup('cond'),
    'matrix_rank': l_unsup('matrix_rank'),
}
del OVERRIDES['trapz']
CREATE = {
    'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty, 'full': c_full, 'eye': c_eye,
    'identity': c_identity, 'zeros_like': _like(c_zeros), 'ones_like': _like(c_ones),
    'empty_like': _like(c_empty), 'full_like': c_full_like,
}
FUNC_BY_ORIG = {}


def wrap_fn(name, orig, override=None):
    def wrapper(*a, **k):
        if not ACTIVE[0]:
            return orig(*a, **k)
        if name in EXACT:
            if any(isinstance(x, (Sym, nd, float, int, np.number, list, tuple)) for x in a) \
                    and not has_box(a):
                return ufunc_dispatch(name, '__call__', a, dict(k))
        sym = has_sym(a) or (k and has_sym(list(k.values())))
        if not sym:
            return orig(*a, **k)
        if override is not None:
            return post(override(*a, **k))
        if isinstance(orig, np.ufunc):
            if any(isinstance(x, SymSparse) for x in a):
                return _sparse_ufunc(name, a)
            return ufunc_dispatch(name_of(orig), '__call__', a, dict(k))
        impl = getattr(orig, '_implementation', None) or getattr(orig, '__wrapped__', None) or orig
        return post(impl(*a, **k))
    try:
        functools.update_wrapper(wrapper, orig)
    except Exception:
        pass
    if hasattr(wrapper, '__wrapped__'):
        del wrapper.__wrapped__
    wrapper.__name__ = getattr(orig, '__name__', name)
    wrapper._lr_orig = orig
    if isinstance(orig, np.ufunc):
        for meth in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            setattr(wrapper, meth, getattr(orig, meth))
        for at in ('nin', 'nout', 'nargs', 'identity'):
            setattr(wrapper, at, getattr(orig, at))
    return wrapper


def _sparse_ufunc(name, a):
    import operator
    f = {'multiply': operator.mul, 'add': operator.add, 'subtract': operator.sub,
         'divide': operator.truediv, 'true_divide': operator.truediv,
         'negative': operator.neg, 'matmul': operator.mul,
         'absolute': operator.abs}.get(name)
    if f is None:
        raise Unsupported('ufunc %s on sparse' % name)
    return f(*a)


def name_of(u):
    return u.__name__


def create_wrap(name, orig, fn):
    def wrapper(*a, **k):
        if not ACTIVE[0]:
            return orig(*a, **k)
        return fn(*a, **k)
    functools.update_wrapper(wrapper, orig)
    if hasattr(wrapper, '__wrapped__'):
        del wrapper.__wrapped__
    wrapper._lr_orig = orig
    return wrapper


def lin_wrap(name, orig, fn):
    def wrapper(*a, **k):
        if not ACTIVE[0] or has_box(a):
            return orig(*a, **k)
        return fn(*a, **k)
    functools.update_wrapper(wrapper, orig)
    if hasattr(wrapper, '__wrapped__'):
        del wrapper.__wrapped__
    wrapper._lr_orig = orig
    return wrapper


# --------------------------------------------------------------------------
# sparse matrices


def _idx_list(x):
    if isinstance(x, range):
        return list(x)
    return [int(v) for v in (x.tolist() if isinstance(x, nd) else list(x))]


class SymSparse(object):
    """stand-in for scipy.sparse matrices (real ones cannot hold objects)"""
    __array_ufunc__ = None
    __array_priority__ = 10.1
    format = 'coo'
    ndim = 2

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        if isinstance(shape, nd):
            shape = tuple(int(x) for x in shape)
        if isinstance(arg1, SymSparse):
            self._set(arg1._e_fmt(self.format), arg1.shape)
        elif isinstance(arg1, tuple) and len(arg1) == 2 and \
                all(isinstance(x, numbers.Integral) for x in arg1):
            self._set([], tuple(int(x) for x in arg1))
        elif isinstance(arg1, tuple) and len(arg1) == 2:
            data, (r, c) = arg1
            data = elems(data) if not isinstance(data, (list, tuple)) else list(data)
            data = [d.item() if isinstance(d, nd) else d for d in data]
            data = [_plain(d) for d in data]
            r, c = _idx_list(r), _idx_list(c)
            if len(data) != len(r) or len(r) != len(c):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                if not r:
                    raise ValueError('cannot infer dimensions from zero sized index arrays')
                shape = (max(r) + 1, max(c) + 1)
            shape = tuple(int(x) for x in shape)
            if r:
                if max(r) >= shape[0]:
                    raise ValueError('row index exceeds matrix dimensions')
                if max(c) >= shape[1]:
                    raise ValueError('column index exceeds matrix dimensions')
                if min(r) < 0:
                    raise ValueError('negative row index found')
                if min(c) < 0:
                    raise ValueError('negative column index found')
            self._set(list(zip(r, c, data)), shape)
            if self.format != 'coo':
                self._set(self._e_fmt(self.format), shape)
        elif isinstance(arg1, tuple) and len(arg1) == 3:
            data, ind, ptr = arg1
            data = elems(data)
            ind, ptr = _idx_list(ind), _idx_list(ptr)
            e = []
            nmaj = len(ptr) - 1
            if len(data) != len(ind):
                raise ValueError('indices and data should have the same size')
            if ptr and ptr[0] != 0:
                raise ValueError('index pointer should start with 0')
            if ptr[-1] > len(ind):
                raise ValueError('Last value of index pointer should be less than '
                                 'the size of index and data arrays')
            for i in range(nmaj):
                for k in range(ptr[i], ptr[i + 1]):
                    e.append((i, ind[k], data[k]) if self.format == 'csr' else (ind[k], i, data[k]))
            if shape is None:
                mn = max(ind) + 1 if ind else 0
                shape = (nmaj, mn) if self.format == 'csr' else (mn, nmaj)
            shape = tuple(int(x) for x in shape)
            if (shape[0] if self.format == 'csr' else shape[1]) != nmaj:
                raise ValueError('index pointer size (%d) should be (%d)' % (nmaj + 1, shape[0] + 1))
            for r, c, v in e:
                if r >= shape[0] or c >= shape[1]:
                    raise ValueError('column index values must be < %d' % shape[1])
            self._set(e, shape)
        else:
            if isinstance(arg1, (list, tuple)):
                arg1 = w_array(arg1)
            if hasattr(arg1, '_node'):
                raise TypeError('no supported conversion for types')
            a = obj(arg1)
            if a.ndim == 0:
                a = a.reshape(1, 1)
            if a.ndim == 1:
                a = a.reshape(1, -1)
            if a.ndim != 2:
                raise TypeError('expected dimension <= 2 array or matrix')
            e = []
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    v = P.lift(a[i, j])
                    if type(v) is float or P.atomic('eq', v) is not True:
                        e.append((i, j, v))
            self._set(e, a.shape)

    def _set(self, e, shape):
        self._e = [(int(r), int(c), P.lift(v) if not hasattr(v, '_node') else v) for r, c, v in e]
        self.shape = tuple(int(x) for x in shape)

    # canonical entries: duplicates summed, sorted
    def _sum(self):
        d = {}
        for r, c, v in self._e:
            d[(r, c)] = d[(r, c)] + v if (r, c) in d else v
        return [(r, c, d[(r, c)]) for r, c in sorted(d)]

    def _e_fmt(self, fmt):
        if fmt == 'coo':
            return list(self._e)
        s = self._sum()
        if fmt == 'csc':
            s.sort(key=lambda t: (t[1], t[0]))
        return s

    @property
    def row(self):
        return _array([r for r, c, v in self._e], dtype=np.int32)

    @row.setter
    def row(self, r):
        self._e = [(int(a), e[1], e[2]) for a, e in zip(_idx_list(r), self._e)]

    @property
    def col(self):
        return _array([c for r, c, v in self._e], dtype=np.int32)

    @col.setter
    def col(self, c):
        self._e = [(e[0], int(a), e[2]) for a, e in zip(_idx_list(c), self._e)]

    @property
    def data(self):
        return mk([v for r, c, v in self._e], (len(self._e),), keep=True)

    @data.setter
    def data(self, d):
        d = elems(d)
        self._e = [(e[0], e[1], P.lift(v)) for e, v in zip(self._e, d)]

    @property
    def indices(self):
        if self.format == 'csr':
            return self.col
        if self.format == 'csc':
            return self.row
        raise AttributeError('indices not found')

    @property
    def indptr(self):
        if self.format not in ('csr', 'csc'):
            raise AttributeError('indptr not found')
        k = 0 if self.format == 'csr' else 1
        n = self.shape[k]
        cnt = [0] * (n + 1)
        for e in self._e:
            cnt[e[k] + 1] += 1
        for i in range(n):
            cnt[i + 1] += cnt[i]
        return _array(cnt, dtype=np.int32)

    @property
    def nnz(self):
        return len(self._e)

    def getnnz(self, axis=None):
        return len(self._e)

    @property
    def dtype(self):
        return _object

    @property
    def T(self):
        return self.transpose()

    def getformat(self):
        return self.format

    def transpose(self, axes=None, copy=False):
        f = {'csr': 'csc', 'csc': 'csr'}.get(self.format, self.format)
        return new_sparse([(c, r, v) for r, c, v in self._e], self.shape[::-1], f)

    def copy(self):
        return new_sparse(list(self._e), self.shape, self.format)

    def __deepcopy__(self, memo):
        return self.copy()

    def toarray(self, order=None, out=None):
        a = _empty(self.shape, dtype=_object)
        a[...] = P.ZERO if False else 0
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                a[i, j] = P.ZERO
        for r, c, v in self._e:
            a[r, c] = a[r, c] + v
        return a.view(SymArray)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def asformat(self, f, copy=False):
        if f is None:
            return self
        return new_sparse(self._e_fmt(f), self.shape, f)

    def tocsr(self, copy=False): return self.asformat('csr')
    def tocsc(self, copy=False): return self.asformat('csc')
    def tocoo(self, copy=False): return self.asformat('coo')
    def tolil(self, copy=False): return self.asformat('lil')
    def todok(self, copy=False): return self.asformat('dok')
    def todia(self, copy=False): return self.asformat('dia')

    def astype(self, t, *a, **k):
        return self.copy()

    def sum_duplicates(self):
        self._e = self._e_fmt(self.format) if self.format != 'coo' else self._sum()

    def eliminate_zeros(self):
        self._e = [e for e in self._e if not (type(e[2]) is Sym and P.atomic('eq', e[2]) is True)]

    def sort_indices(self):
        pass

    has_sorted_indices = True
    has_canonical_format = True

    def nonzero(self):
        e = [t for t in self._sum() if not (type(t[2]) is Sym and P.atomic('eq', t[2]) is True)]
        return _array([t[0] for t in e], dtype=np.int32), _array([t[1] for t in e], dtype=np.int32)

    def diagonal(self, k=0):
        a = obj(self.toarray())
        return post(a.diagonal(k).copy())

    def sum(self, axis=None, dtype=None, out=None):
        r = reduce_ufunc('add', self.toarray(), axis, keepdims=axis is not None)
        return r

    def dot(self, o):
        return self * o

    def multiply(self, o):
        r = call_ufunc('multiply', self.toarray(), o.toarray() if isinstance(o, SymSparse) else o)
        return new_sparse_dense(r, 'csr')

    def power(self, n, dtype=None):
        return new_sparse([(r, c, v ** n) for r, c, v in self._sum()], self.shape, 'csr')

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = tuple(shape[0])
        return new_sparse_dense(self.toarray().reshape(shape), self.format)

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz() or shape[0]')

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all().')

    def __getitem__(self, idx):
        if self.format in ('coo', 'dia'):
            raise TypeError("'%s_matrix' object is not subscriptable" % self.format)
        a = self.toarray()
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        i, j = idx
        if isinstance(i, numbers.Integral) and isinstance(j, numbers.Integral):
            return a[i, j]
        if isinstance(i, numbers.Integral):
            i = slice(i, i + 1) if i != -1 else slice(-1, None)
        if isinstance(j, numbers.Integral):
            j = slice(j, j + 1) if j != -1 else slice(-1, None)
        return new_sparse_dense(a[i, j], self.format)

    def __setitem__(self, idx, v):
        if self.format in ('coo', 'dia'):
            raise TypeError("'%s_matrix' object does not support item assignment" % self.format)
        a = self.toarray()
        a[idx] = v.toarray() if isinstance(v, SymSparse) else v
        self._e = new_sparse_dense(a, self.format)._e

    def _bin(self, o, sg):
        if isinstance(o, SymSparse):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            e = list(self._e) + [(r, c, v if sg > 0 else -v) for r, c, v in o._e]
            return new_sparse(new_sparse(e, self.shape, 'coo')._sum(), self.shape, 'csr')
        if isinstance(o, (nd, list)):
            o = obj(o)
            return call_ufunc('add' if sg > 0 else 'subtract', self.toarray(), o)
        if P.lift(o) == 0:
            return self.copy()
        raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')

    def __add__(self, o):
        return self._bin(o, 1)

    def __radd__(self, o):
        return self._bin(o, 1)

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return (-self)._bin(o, 1)

    def __neg__(self):
        return new_sparse([(r, c, -v) for r, c, v in self._e], self.shape, self.format)

    def __abs__(self):
        return new_sparse([(r, c, abs(v)) for r, c, v in self._sum()], self.shape, self.format)

    def __mul__(self, o):
        if hasattr(o, '_node'):
            raise Unsupported('sparse times traced value')
        if isinstance(o, SymSparse):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            byrow = {}
            for r, c, v in o._sum():
                byrow.setdefault(r, []).append((c, v))
            acc = {}
            for r, c, v in self._sum():
                for c2, v2 in byrow.get(c, ()):
                    k = (r, c2)
                    acc[k] = acc[k] + v * v2 if k in acc else v * v2
            return new_sparse([(r, c, acc[(r, c)]) for r, c in sorted(acc)],
                              (self.shape[0], o.shape[1]), 'csr')
        if isinstance(o, (list, tuple)):
            o = w_array(o)
        if isinstance(o, nd) and o.ndim > 0:
            if o.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            return matmul(self.toarray(), o)
        return new_sparse([(r, c, v * P.lift(o)) for r, c, v in self._e], self.shape, self.format)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            o = w_array(o)
        if isinstance(o, nd) and o.ndim > 0:
            if o.shape[-1] != self.shape[0]:
                raise ValueError('dimension mismatch')
            return matmul(o, self.toarray())
        return self * o

    def __matmul__(self, o):
        if np.isscalar(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self * o

    def __rmatmul__(self, o):
        return self.__rmul__(o)

    def __truediv__(self, o):
        if isinstance(o, (nd, SymSparse)):
            return call_ufunc('divide', self.toarray(), o)
        return new_sparse([(r, c, v / P.lift(o)) for r, c, v in self._e], self.shape, self.format)

    def __pow__(self, n):
        r = new_sparse_dense(as_sym(np.eye(self.shape[0])), 'csr')
        for _ in range(int(n)):
            r = r * self
        return r

    def __eq__(self, o):
        return call_ufunc('equal', self.toarray(), o.toarray() if isinstance(o, SymSparse) else o)

    def __ne__(self, o):
        return call_ufunc('not_equal', self.toarray(), o.toarray() if isinstance(o, SymSparse) else o)

    __hash__ = object.__hash__

    def __repr__(self):
        return '<sparse %s %s>' % (self.shape, self._e)

    def setdiag(self, values, k=0):
        a = self.toarray()
        v = obj(values)
        n = min(a.shape[0], a.shape[1] - k) if k >= 0 else min(a.shape[0] + k, a.shape[1])
        for i in range(n):
            x = v if v.ndim == 0 else v[i]
            a[(i, i + k) if k >= 0 else (i - k, i)] = x.item() if isinstance(x, nd) else x
        self._e = new_sparse_dense(a, self.format)._e


def _plain(d):
    return d


class coo_matrix(SymSparse):
    format = 'coo'


class csr_matrix(SymSparse):
    format = 'csr'


class csc_matrix(SymSparse):
    format = 'csc'


class lil_matrix(SymSparse):
    format = 'lil'


class dok_matrix(SymSparse):
    format = 'dok'


class dia_matrix(SymSparse):
    format = 'dia'


FMT = {'coo': coo_matrix, 'csr': csr_matrix, 'csc': csc_matrix, 'lil': lil_matrix,
       'dok': dok_matrix, 'dia': dia_matrix}


def new_sparse(e, shape, fmt):
    m = FMT[fmt or 'coo'].__new__(FMT[fmt or 'coo'])
    m._set(e, shape)
    return m


def new_sparse_dense(a, fmt):
    return FMT[fmt](a)


def sp_block_diag(mats, format=None, dtype=None):
    e = []
    r0 = c0 = 0
    for m in mats:
        m = m if isinstance(m, SymSparse) else coo_matrix(m)
        e += [(r + r0, c + c0, v) for r, c, v in m._e]
        r0 += m.shape[0]
        c0 += m.shape[1]
    return new_sparse(e, (r0, c0), 'coo').asformat(format or 'coo')


def sp_bmat(blocks_, format=None, dtype=None):
    rows = [list(r) for r in blocks_]
    hs = [next(b.shape[0] if hasattr(b, 'shape') else 1 for b in r if b is not None) for r in rows]
    ws = [next(r[j].shape[1] for r in rows if r[j] is not None) for j in range(len(rows[0]))]
    e = []
    for i, r in enumerate(rows):
        for j, b in enumerate(r):
            if b is None:
                continue
            b = b if isinstance(b, SymSparse) else coo_matrix(b)
            if b.shape != (hs[i], ws[j]):
                raise ValueError('incompatible dimensions')
            e += [(x + sum(hs[:i]), y + sum(ws[:j]), v) for x, y, v in b._e]
    return new_sparse(e, (sum(hs), sum(ws)), 'coo').asformat(format or 'coo')


def sp_vstack(blocks_, format=None, dtype=None):
    return sp_bmat([[b] for b in blocks_], format)


def sp_hstack(blocks_, format=None, dtype=None):
    return sp_bmat([list(blocks_)], format)


def sp_eye(m, n=None, k=0, dtype=float, format=None):
    return FMT[format or 'csr'](as_sym(O['eye'](m, n, k)))


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, numbers.Integral):
        if len(diagonals) and np.ndim(obj(diagonals[0])) == 0:
            diagonals = [diagonals]
        offsets = [offsets]
    if shape is None:
        m = len(diagonals[0]) + abs(int(offsets[0]))
        shape = (m, m)
    e = []
    for d, k in zip(diagonals, offsets):
        d = elems(d)
        n = min(shape[0], shape[1] - k) if k >= 0 else min(shape[0] + k, shape[1])
        if len(d) == 1:
            d = d * n
        for i in range(n):
            e.append((i, i + k, d[i]) if k >= 0 else (i - k, i, d[i]))
    return new_sparse(e, shape, format or 'dia')


def sp_kron(a, b, format=None):
    a = a if isinstance(a, SymSparse) else coo_matrix(a)
    b = b if isinstance(b, SymSparse) else coo_matrix(b)
    e = [(r1 * b.shape[0] + r2, c1 * b.shape[1] + c2, v1 * v2)
         for r1, c1, v1 in a._e for r2, c2, v2 in b._e]
    return new_sparse(e, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), format or 'coo')


def sp_issparse(x):
    return isinstance(x, SymSparse)


# --------------------------------------------------------------------------
# scipy.special & co


def sp_elem(f):
    def g(*a, **k):
        arrs = _broadcast_arrays(*[obj(x) for x in a])
        return finish([f(*xs) for xs in zip(*[b.ravel().tolist() for b in arrs])], arrs[0].shape)
    return g


def s_polygamma(n, x):
    n = lf(n)
    return P.polygamma(n.constval(), lf(x))


def s_gammaln(x):
    return P.fn('gammaln', lf(x))


def s_beta(a, b):
    return P.exp(s_betaln(a, b))


def s_betaln(a, b):
    a, b = lf(a), lf(b)
    return s_gammaln(a) + s_gammaln(b) - s_gammaln(a + b)


def s_xlogy(x, y):
    x = lf(x)
    if type(x) is Sym and P.atomic('eq', x) is True:
        return P.ZERO
    l = P.log(lf(y))
    if type(l) is float:
        if bool(x == 0):
            return P.ZERO
    return x * l


def f_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise Unsupported('logsumexp(return_sign)')
    e = call_ufunc('exp', a)
    if b is not None and not _is_novalue(b):
        e = call_ufunc('multiply', e, b)
    return call_ufunc('log', reduce_ufunc('add', e, axis, keepdims))


def f_softmax(x, axis=None):
    e = call_ufunc('exp', x)
    return call_ufunc('divide', e, reduce_ufunc('add', e, axis, True))


def f_multigammaln(a, d):
    def one(x):
        x = lf(x)
        s = P.LOGPI() * Fraction(d * (d - 1), 4)
        for j in range(int(d)):
            s = s + s_gammaln(x - Fraction(j, 2))
        return s
    a = obj(a)
    return finish([one(x) for x in a.ravel().tolist()], a.shape)


SPECIAL = {
    'gammaln': sp_elem(s_gammaln), 'loggamma': sp_elem(s_gammaln),
    'digamma': sp_elem(lambda x: P.polygamma(0, lf(x))),
    'psi': sp_elem(lambda x: P.polygamma(0, lf(x))),
    'polygamma': sp_elem(s_polygamma),
    'gamma': sp_elem(lambda x: P.fn('gamma', lf(x))),
    'beta': sp_elem(s_beta), 'betaln': sp_elem(s_betaln),
    'expit': sp_elem(s_expit), 'logit': sp_elem(s_logit),
    'logsumexp': f_logsumexp, 'softmax': f_softmax, 'multigammaln': f_multigammaln,
    'xlogy': sp_elem(s_xlogy), 'entr': sp_elem(lambda x: -s_xlogy(x, x)),
    'xlog1py': sp_elem(lambda x, y: s_xlogy(x, lf(y) + 1)),
    'log1p': sp_elem(SCALAR['log1p']), 'expm1': sp_elem(SCALAR['expm1']),
    'erf': sp_elem(lambda x: P.fn('erf', lf(x))),
    'ndtr': sp_elem(lambda x: P.fn('ndtr', lf(x))),
    'ndtri': sp_elem(lambda x: P.fn('ndtri', lf(x))),
    'exp2': sp_elem(SCALAR['exp2']),
}


def sl_cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    """scipy reads the chosen triangle only; the factor is kept as lower"""
    a = obj(a)
    check_square(a)
    if nosym_nan(a):
        raise ValueError('array must not contain infs or NaNs')
    m = lists(a)
    n = len(m)
    for i in range(n):
        for j in range(i):
            if lower:
                m[j][i] = m[i][j]
            else:
                m[i][j] = m[j][i]
    # decide positive definiteness through the leading minors
    for k in range(1, n + 1):
        d = c_(det_l([r[:k] for r in m[:k]]))
        if not (P.syn_sign(d) == 'pos' or P.decide_pos(d)):
            raise LinAlgError('%d-th leading minor not positive definite' % k)
    return (ChoFactor(m), lower)


class ChoFactor(object):
    """opaque factor: carries the matrix itself (contract of cho_solve)"""

    def __init__(self, m):
        self.m = m
        self._inv = None
        self.shape = (len(m), len(m))

    def inv(self):
        if self._inv is None:
            self._inv = inv_l(self.m)
        return self._inv


def sl_cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    b = obj(b)
    if not isinstance(c, ChoFactor):
        L = lists(c)
        n = len(L)
        for i in range(n):
            for j in range(n):
                if (j > i and lower) or (j < i and not lower):
                    L[i][j] = P.ZERO
        Lt = [list(r) for r in zip(*L)]
        c = ChoFactor(mm2(L, Lt) if lower else mm2(Lt, L))
    if b.shape[0] != len(c.m):
        raise ValueError('incompatible dimensions.')
    r = matmul(from_lists(c.inv()), b)
    return mk([c_(x) for x in elems(r)], b.shape)


def sl_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    L = l_cholesky(a)
    return L if lower else L.T


def sl_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    m = lists(a)
    n = len(m)
    for i in range(n):
        for j in range(n):
            if (j > i and lower) or (j < i and not lower):
                m[i][j] = P.ZERO
            if i == j and unit_diagonal:
                m[i][j] = P.ONE
    if trans in (1, 'T', 2, 'C'):
        m = [list(r) for r in zip(*m)]
    return l_solve(from_lists(m), b)


def sl_solve(a, b, *args, **k):
    return l_solve(a, b)


def sl_inv(a, *args, **k):
    return l_inv(a)


def sl_det(a, *args, **k):
    return l_det(a)


def sl_eigh(a, *args, **k):
    if k.get('eigvals_only'):
        return l_eigvalsh(a)
    return l_eigh(a)


def sl_block_diag(*arrs):
    return sp_block_diag([as_sym(a) if np.ndim(obj(a)) == 2 else as_sym(a).reshape(1, -1)
                          for a in arrs]).toarray()


def sl_sqrtm(a, *args, **k):
    w, v = l_eigh(a)
    return matmul(matmul(v, c_diag(call_ufunc('sqrt', w))), v.T)


SLINALG = {
    'cho_factor': sl_cho_factor, 'cho_solve': sl_cho_solve, 'cholesky': sl_cholesky,
    'solve_triangular': sl_solve_triangular, 'solve': sl_solve, 'inv': sl_inv,
    'det': sl_det, 'eigh': sl_eigh, 'block_diag': sl_block_diag, 'sqrtm': sl_sqrtm,
    'norm': l_norm, 'pinv': l_pinv, 'eigvalsh': lambda a, *x, **k: l_eigvalsh(a),
    'svd': l_unsup('svd'), 'null_space': l_unsup('null_space'), 'qr': l_unsup('qr'),
    'orth': l_unsup('orth'), 'lu_factor': None, 'lu_solve': None,
}


def sl_lu_factor(a, *x, **k):
    return (ChoFactor(lists(a)), 'lu')


def sl_lu_solve(lu, b, trans=0, *x, **k):
    c = lu[0]
    r = matmul(from_lists(c.inv()) if not trans else from_lists(c.inv()).T, b)
    return mk([c_(v) for v in elems(r)], np.shape(obj(b)))


SLINALG['lu_factor'] = sl_lu_factor
SLINALG['lu_solve'] = sl_lu_solve


# --------------------------------------------------------------------------
# math module


def _product(xs, start):
    for x in xs:
        start = start * x
    return start


def s_isclose_math(a, b, rel_tol=1e-09, abs_tol=0.0):
    a, b = lf(a), lf(b)
    m = s_max(s_abs(a), s_abs(b))
    return bool(s_abs(a - b) <= s_max(m * Fraction(rel_tol), P.lift(Fraction(abs_tol))))


def m_wrap_sym(orig, f):
    """a math function that is symbolic only when it is given something symbolic"""
    def one(x):
        if isinstance(x, nd) and x.dtype == _object and x.size == 1:
            return elems(x)[0]
        return x

    def symbolic(x):
        return isinstance(x, Sym) or isinstance(x, nd) and x.dtype == _object or \
            isinstance(x, (list, tuple)) and any(symbolic(t) for t in x)

    def wrapper(*a, **k):
        if ACTIVE[0]:
            a = tuple(list(t) if hasattr(t, '__next__') else t for t in a)
            if any(symbolic(t) for t in a):
                return f(*[one(t) for t in a], **k)
        return orig(*a, **k)
    wrapper.__name__ = orig.__name__
    return wrapper


def m_wrap(name, orig, f):
    def wrapper(x, *a):
        if not ACTIVE[0] or a or hasattr(x, '_node'):
            return orig(x, *a)
        if isinstance(x, nd):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = elems(x)[0]
        if isinstance(x, (Sym, float, int)):
            v = P.lift(x)
            if type(v) is float:
                return orig(x)
            if name in ('sqrt', 'log') and v.is_const() and v.constval() <= 0 and \
                    not (name == 'sqrt' and v.constval() == 0):
                return orig(float(v.constval()))
            r = f(x)
            if type(r) is Sym and r.is_const():
                k = r.constval()
                if not isinstance(x, Sym):
                    return float(k)
            return r
        return orig(x)
    wrapper.__name__ = name
    return wrapper


# --------------------------------------------------------------------------

_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    import numpy.linalg
    import scipy
    import scipy.special
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.optimize
    import scipy.stats
    import scipy.misc
    import scipy.integrate
    from . import special
    for n in ('gammaln', 'digamma', 'polygamma', 'gamma', 'erf', 'ndtr', 'ndtri', 'erfc'):
        special._real[n] = getattr(scipy.special, n)

    special_skip = {'ndarray', 'dtype', 'seterr', 'geterr', 'errstate', 'get_printoptions',
                    'set_printoptions', 'test', 'array_function_dispatch', 'vectorize',
                    'ndindex', 'ndenumerate', 'load', 'save', 'broadcast', 'deprecate',
                    'issubdtype', 'can_cast', 'promote_types', 'iterable', 'ndim', 'shape', 'size'}
    for name, o in list(np.__dict__.items()):
        if name.startswith('_') or isinstance(o, type) or not callable(o) or name in special_skip:
            continue
        if isinstance(o, types.ModuleType):
            continue
        O[name] = o
    for name, o in list(O.items()):
        if name in CREATE:
            w = create_wrap(name, o, CREATE[name])
        else:
            w = wrap_fn(name, o, OVERRIDES.get(name))
        setattr(np, name, w)
    for name, o in O.items():
        if not isinstance(o, np.ufunc):
            FUNC_BY_ORIG.setdefault(o, getattr(np, name))
    for name, f in LINALG.items():
        o = getattr(np.linalg, name, None)
        if o is not None:
            w = lin_wrap(name, o, f)
            setattr(np.linalg, name, w)
            FUNC_BY_ORIG[o] = w
    for name, f in SPECIAL.items():
        o = getattr(scipy.special, name, None)
        if o is not None:
            setattr(scipy.special, name, lin_wrap2(name, o, f))
        else:
            pass
    if hasattr(scipy.misc, 'logsumexp'):
        scipy.misc.logsumexp = lin_wrap2('logsumexp', scipy.misc.logsumexp, f_logsumexp)
    for name, f in SLINALG.items():
        o = getattr(scipy.linalg, name, None)
        if o is not None:
            setattr(scipy.linalg, name, lin_wrap(name, o, f))
    sp = scipy.sparse
    for name, c in (('coo_matrix', coo_matrix), ('csr_matrix', csr_matrix),
                    ('csc_matrix', csc_matrix), ('lil_matrix', lil_matrix),
                    ('dok_matrix', dok_matrix), ('dia_matrix', dia_matrix),
                    ('spmatrix', SymSparse), ('block_diag', sp_block_diag),
                    ('bmat', sp_bmat), ('vstack', sp_vstack), ('hstack', sp_hstack),
                    ('eye', sp_eye), ('identity', lambda n, dtype='d', format=None: sp_eye(n, format=format)),
                    ('diags', sp_diags), ('kron', sp_kron), ('issparse', sp_issparse),
                    ('isspmatrix', sp_issparse),
                    ('isspmatrix_csr', lambda x: isinstance(x, csr_matrix)),
                    ('isspmatrix_csc', lambda x: isinstance(x, csc_matrix)),
                    ('isspmatrix_coo', lambda x: isinstance(x, coo_matrix)),
                    ('isspmatrix_lil', lambda x: isinstance(x, lil_matrix)),
                    ('find', lambda A: (lambda e: (_array([t[0] for t in e]), _array([t[1] for t in e]),
                                                   mk([t[2] for t in e], (len(e),), True)))(A._sum())),
                    ):
        setattr(sp, name, c)
    for name, f in (('log', SCALAR['log']), ('exp', SCALAR['exp']), ('sqrt', SCALAR['sqrt']),
                    ('log1p', SCALAR['log1p']), ('expm1', SCALAR['expm1']),
                    ('fabs', SCALAR['absolute']), ('tanh', SCALAR['tanh']),
                    ('log2', SCALAR['log2']), ('log10', SCALAR['log10']),
                    ('sinh', SCALAR['sinh']), ('cosh', SCALAR['cosh']),
                    ('sin', SCALAR['sin']), ('cos', SCALAR['cos']),
                    ('lgamma', s_gammaln)):
        setattr(real_math, name, m_wrap(name, getattr(math, name), f))
    for name, f in (('isinf', s_isinf), ('isnan', s_isnan), ('isfinite', s_isfinite),
                    ('pow', s_pow), ('hypot', SCALAR['hypot']),
                    ('fsum', lambda xs: sum(list(xs), P.ZERO)), ('prod', lambda xs, start=1: _product(xs, start)),
                    ('copysign', lambda a, b: s_abs(a) if bool(lf(b) >= 0) else -s_abs(a)),
                    ('isclose', s_isclose_math)):
        setattr(real_math, name, m_wrap_sym(getattr(math, name), f))
    # autograd on top
    import autograd
    import autograd.numpy as anp
    import autograd.numpy.numpy_boxes as nb
    import autograd.numpy.numpy_vspaces as nv
    import autograd.scipy.special
    import autograd.scipy.misc
    nb.ArrayBox.register(SymArray)
    nb.ArrayBox.register(Sym)
    import autograd.numpy.numpy_vjps as nvj
    from autograd.extend import defvjp
    for nm in ('max', 'amax', 'min', 'amin'):
        defvjp(getattr(anp, nm), max_chooser(nvj.grad_chooser, 1 if 'max' in nm else -1))
    from autograd.extend import VSpace
    VSpace.register(SymArray, lambda x: SymVSpace(x))
    VSpace.register(Sym, lambda x: SymVSpace(x))


def lin_wrap2(name, orig, f):
    w = lin_wrap(name, orig, f)
    if isinstance(orig, np.ufunc):
        for at in ('nin', 'nout', 'nargs'):
            setattr(w, at, getattr(orig, at))
    return w


_VCLS = []


def SymVSpace(x):
    if not _VCLS:
        from autograd.numpy.numpy_vspaces import ArrayVSpace

        class _V(ArrayVSpace):
            def __init__(self, value):
                self.shape = getattr(value, 'shape', ())
                self.dtype = _object

            def zeros(self):
                return c_full(self.shape, P.ZERO)

            def ones(self):
                return c_full(self.shape, P.ONE)

            def standard_basis(self):
                if self.shape == ():
                    yield P.ONE
                    return
                for idxs in _ndindex(*self.shape):
                    v = c_full(self.shape, P.ZERO)
                    v[idxs] = P.ONE
                    yield v
        _VCLS.append(_V)
    return _VCLS[0](x)
