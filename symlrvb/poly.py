"""Exact symbolic reals.

A Sym is a Laurent polynomial over *atoms* with rational coefficients; an atom
is an input variable, exp(monomial), log(polynomial), a polynomial used as a
denominator or under a root, an application of an uninterpreted special
function, or a constant such as pi.  Everything the code under check computes
from symbolic inputs becomes a Sym; nothing is rounded.  Deciding anything
about a Sym (sign, zero, an assertion) is the business of the solver
(engine.py), reached through the global `ENG`.
"""
from . import omath as math
import numbers
from fractions import Fraction

ENG = None          # current engine.Engine, set by engine.run_path


class Unsupported(Exception):
    pass


class TooBig(Unsupported):
    pass


MAXTERMS = 60000

# --------------------------------------------------------------------------
# numbers


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


_RECOG = {}


def _recog_build():
    # constants a refactoring may precompute as a float
    if _RECOG:
        return
    base = []
    for q in range(1, 13):
        for p in range(1, 65):
            if math.gcd(p, q) == 1:
                base.append(Fraction(p, q))
    for r in base:
        f = float(r)
        for s in (1, -1):
            def put(v, tag):
                _RECOG.setdefault(s * v, (s, tag))
            put(math.sqrt(f), ('sqrt', r, 0))
            put(math.sqrt(f * math.pi), ('sqrt', r, 1))
            put(1 / math.sqrt(f), ('sqrt', 1 / r, 0))
            put(1 / math.sqrt(f * math.pi), ('isqrtpi', 1 / r))
            put(f / math.sqrt(math.pi), ('isqrtpi', r * r))
            put(f * math.pi, ('pi', r))
            put(f * math.e, ('e', r, 0))
            put(f * math.pi * math.e, ('e', r, 1))
            put(math.log(f * math.pi) + 1, ('log1', r))
            put(0.5 * (math.log(f * math.pi) + 1), ('hlog1', r))
            put(f / math.pi, ('ipi', r))
            if f != 1:
                put(math.log(f), ('log', r, 0))
                put(0.5 * math.log(f), ('hlog', r, 0))
            put(math.log(f * math.pi), ('log', r, 1))
            put(0.5 * math.log(f * math.pi), ('hlog', r, 1))


_float_cache = {}
_RSORT = []


def _recog(x):
    import bisect
    if not _RSORT:
        _RSORT.extend(sorted(_RECOG))
    i = bisect.bisect_left(_RSORT, x)
    for j in (i, i - 1, i + 1):
        if 0 <= j < len(_RSORT) and abs(_RSORT[j] - x) <= 4.5e-16 * abs(x):
            return _RECOG[_RSORT[j]]
    return None


def lift_float(x):
    """float -> int/Fraction/Sym (exact reading of what the literal meant)"""
    r = _float_cache.get(x)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 1e15:
        r = int(x)
    else:
        fr = Fraction(x).limit_denominator(20000)
        fr1 = Fraction(x).limit_denominator(500)
        if float(fr) == x:
            r = norm(fr)
        elif abs(float(fr1) - x) <= 4e-16 * abs(x):
            r = norm(fr1)
        else:
            _recog_build()
            hit = _recog(x)
            if hit is None:
                fr = Fraction(repr(x))
                r = norm(fr)
            else:
                s, t = hit
                if t[0] == 'sqrt':
                    v = powconst(t[1], Fraction(1, 2))
                    if t[2]:
                        v = v * pi_pow(Fraction(1, 2))
                elif t[0] == 'isqrtpi':
                    v = powconst(t[1], Fraction(1, 2)) * pi_pow(Fraction(-1, 2))
                elif t[0] == 'pi':
                    v = pi_pow(1) * t[1]
                elif t[0] == 'ipi':
                    v = pi_pow(-1) * t[1]
                elif t[0] == 'e':
                    v = exp(ONE) * t[1]
                    if t[2]:
                        v = v * pi_pow(1)
                elif t[0] in ('log1', 'hlog1'):
                    v = logconst(t[1]) + LOGPI() + 1
                    if t[0] == 'hlog1':
                        v = v * Fraction(1, 2)
                else:
                    v = logconst(t[1])
                    if t[2]:
                        v = v + LOGPI()
                    if t[0] == 'hlog':
                        v = v * Fraction(1, 2)
                return v * s      # Sym constants are path-local: not cached
    _float_cache[x] = r
    return r


# --------------------------------------------------------------------------
# atoms


class Atom(object):
    __slots__ = ('id', 'kind', 'key', 'positive', 'data', 'name', 'deps', 'dcache')

    def __init__(self, id, kind, key, positive, data, name):
        self.id = id
        self.kind = kind
        self.key = key
        self.positive = positive
        self.data = data
        self.name = name
        self.dcache = {}

    def __repr__(self):
        return self.name


class Table(object):
    """atoms of one case run (ids are deterministic in creation order)"""

    def __init__(self):
        self.atoms = []
        self.bykey = {}

    def get(self, kind, key, positive=False, data=None, name=None):
        k = (kind, key)
        a = self.bykey.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, key, positive, data,
                     name or '%s%d' % (kind, len(self.atoms)))
            self.atoms.append(a)
            self.bykey[k] = a
        elif positive and not a.positive:
            a.positive = True
        return a


TAB = Table()


def new_table():
    global TAB
    TAB = Table()
    for k in [k for k, v in _float_cache.items() if isinstance(v, Sym)]:
        del _float_cache[k]


# --------------------------------------------------------------------------


def mono_mul(m1, m2):
    """multiply two monomials (sorted tuples of (atom id, exponent))"""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1 = len(m1)
    n2 = len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            s = norm(e + f)
            if s:
                out.append((a, s))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    if i < n1:
        out.extend(m1[i:])
    elif j < n2:
        out.extend(m2[j:])
    return tuple(out)


def mono_pow(m, k):
    return tuple((a, norm(e * k)) for a, e in m)


def _needs_expand(m):
    atoms = TAB.atoms
    for a, e in m:
        if e >= 1:
            k = atoms[a].kind
            if k == 'fac' or k == 'prime':
                return True
        elif e < 0 and atoms[a].kind == 'prime':
            return True
    return False


def _expand_mono(m, c):
    """c*m with factor/prime atoms of exponent >= 1 multiplied out -> dict"""
    rest = []
    res = None
    for a, e in m:
        at = TAB.atoms[a]
        if at.kind == 'fac' and e >= 1:
            k = int(math.floor(e))
            r = norm(e - k)
            if r:
                rest.append((a, r))
            p = at.data
            for _ in range(k):
                res = p.t if res is None else _mul_dicts(res, p.t)
        elif at.kind == 'prime' and (e >= 1 or e < 0):
            k = int(math.floor(e))
            r = norm(e - k)
            if r:
                rest.append((a, r))
            c = norm(c * Fraction(at.data) ** k)
        else:
            rest.append((a, e))
    base = {tuple(rest): c}
    if res is None:
        return base
    return _mul_dicts(res, base)


def _mul_dicts(t1, t2):
    if len(t1) * len(t2) > MAXTERMS * 60:
        raise TooBig('polynomial product too large (%d x %d terms)' % (len(t1), len(t2)))
    out = {}
    if len(t1) > len(t2):
        t1, t2 = t2, t1
    it2 = list(t2.items())
    for m1, c1 in t1.items():
        for m2, c2 in it2:
            m = mono_mul(m1, m2)
            c = c1 * c2
            if m and _needs_expand(m):
                for mm, cc in _expand_mono(m, c).items():
                    s = out.get(mm)
                    out[mm] = cc if s is None else s + cc
            else:
                s = out.get(m)
                out[m] = c if s is None else s + c
    bad = [m for m, c in out.items() if not c]
    for m in bad:
        del out[m]
    if len(out) > MAXTERMS:
        raise TooBig('polynomial too large (%d terms)' % len(out))
    return out


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (
        isinstance(x, numbers.Number) and not isinstance(x, (Sym, complex)))


def lift(x):
    """-> Sym, or float for nan/inf; raises TypeError if not a number"""
    if type(x) is Sym:
        return x
    if type(x) is float:
        if x != x or x in (INF, -INF):
            return x
        r = lift_float(x)
        return r if type(r) is Sym else const(r)
    if type(x) is int or type(x) is Fraction:
        return const(norm(x))
    if type(x) is bool:
        return const(int(x))
    if isinstance(x, SymBool):
        return const(1 if bool(x) else 0)
    if isinstance(x, Sym):
        return x
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    if isinstance(x, Fraction):
        return const(norm(x))
    if isinstance(x, numbers.Integral):
        return const(int(x))
    if isinstance(x, numbers.Real):
        return lift(float(x))
    raise TypeError('cannot lift %r' % (type(x),))


INF = float('inf')
NAN = float('nan')


class SymBool(object):
    """a formula: ('lt'|'le'|'eq', Sym vs 0) | ('not', f) | ('and', fs) | ('or', fs)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENG.decide(self.f)

    __nonzero__ = __bool__

    def __and__(self, o):
        return sb_and([self, o])

    def __or__(self, o):
        return sb_or([self, o])

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)

    def __xor__(self, o):
        return sb_or([sb_and([self, sb_not(o)]), sb_and([sb_not(self), o])])

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __mul__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sb_and([self, o])
        return (1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __neg__(self):
        return -int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def logical_not(self):
        return sb_not(self)

    # numpy scalar look
    shape = ()
    ndim = 0
    size = 1

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return 'SymBool(%s)' % (self.f,)


def _sbf(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, Sym):
        return (x != 0).f if isinstance(x != 0, SymBool) else bool(x != 0)
    return bool(x)


def sb_and(xs):
    fs = []
    for x in xs:
        f = _sbf(x)
        if f is False:
            return False
        if f is True:
            continue
        fs.append(f)
    if not fs:
        return True
    if len(fs) == 1:
        return SymBool(fs[0])
    return SymBool(('and', tuple(fs)))


def sb_or(xs):
    fs = []
    for x in xs:
        f = _sbf(x)
        if f is True:
            return True
        if f is False:
            continue
        fs.append(f)
    if not fs:
        return False
    if len(fs) == 1:
        return SymBool(fs[0])
    return SymBool(('or', tuple(fs)))


def sb_not(x):
    f = _sbf(x)
    if f is True:
        return False
    if f is False:
        return True
    return SymBool(('not', f))


class _FakeDtype(object):
    pass


class Sym(object):
    __slots__ = ('t', '_h', '_k', '_s')
    __array_priority__ = 50.0

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None
        self._s = None

    # ---- structure
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def key_s(self):
        return str(self.key())

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def constval(self):
        t = self.t
        if not t:
            return 0
        return t[()]

    def is_numeric(self):
        """no input variable occurs (constants such as pi may)"""
        seen = set()
        return all(_atom_numeric(a, seen) for m in self.t for a, e in m)

    # ---- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1
    T = property(lambda self: self)
    real = property(lambda self: self)
    imag = property(lambda self: 0)

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('O')

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def astype(self, dtype, *a, **k):
        import numpy
        if numpy.dtype(dtype).kind in 'fcO':
            return self
        return self.__int__()

    def tolist(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def flatten(self, *a):
        from . import npsym
        return npsym.as_sym(self).reshape(-1)

    ravel = flatten

    def reshape(self, *shape, **k):
        from . import npsym
        return npsym.as_sym(self).reshape(*shape)

    def sum(self, *a, **k):
        return self

    def all(self, *a, **k):
        return bool(self)

    any = all

    def squeeze(self, *a):
        return self

    def transpose(self, *a):
        return self

    def dot(self, o):
        return self * o

    def min(self, *a, **k):
        return self

    max = min
    mean = min
    prod = min

    def __getitem__(self, idx):
        if idx is Ellipsis or idx == ():
            return self
        from . import npsym
        return npsym.as_sym(self)[idx]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is not Sym:
            o0, o = o, _coerce(o)
            if o is NotImplemented:
                return _arr('add', self, o0)
            if type(o) is float:
                return o
        a, b = self.t, o.t
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        out = dict(a)
        for m, c in b.items():
            s = out.get(m)
            if s is None:
                out[m] = c
            else:
                s = norm(s + c)
                if s:
                    out[m] = s
                else:
                    del out[m]
        if len(out) > MAXTERMS:
            raise TooBig('polynomial too large')
        if 2 <= len(out) <= 8:
            for m in out:
                for a_, e in m:
                    if e <= -1 and TAB.atoms[a_].kind == 'fac':
                        r = reduce_den(Sym(out), 24)
                        return r if len(r.t) < len(out) else Sym(out)
        return Sym(out)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Sym:
            o0, o = o, _coerce(o)
            if o is NotImplemented:
                return _arr('subtract', self, o0)
            if type(o) is float:
                return -o
        return self + (-o)

    def __rsub__(self, o):
        o0, o = o, _coerce(o)
        if o is NotImplemented:
            return _arr('subtract', o0, self)
        if type(o) is float:
            return o
        return o + (-self)

    def __mul__(self, o):
        if type(o) is not Sym:
            if type(o) is int:
                if o == 1:
                    return self
                if o == 0:
                    return ZERO
                return Sym({m: c * o for m, c in self.t.items()})
            o0, o = o, _coerce(o)
            if o is NotImplemented:
                return _arr('multiply', self, o0)
            if type(o) is float:
                return _mulinf(self, o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            k = b[()]
            if k == 1:
                return self
            return Sym({m: norm(c * k) for m, c in a.items()})
        if len(a) == 1 and () in a:
            k = a[()]
            if k == 1:
                return o
            return Sym({m: norm(c * k) for m, c in b.items()})
        if len(a) > 16 or len(b) > 16:
            if len(a) > 16:
                a = simp(self).t
            if len(b) > 16:
                b = simp(o).t
            if not a or not b:
                return ZERO
        out = _mul_dicts(a, b)
        for m, c in out.items():
            if type(c) is Fraction and c.denominator == 1:
                out[m] = c.numerator
        return Sym(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = _coerce(o)
        if o2 is NotImplemented:
            return _arr('divide', self, o)
        return div(self, o2)

    def __rtruediv__(self, o):
        o2 = _coerce(o)
        if o2 is NotImplemented:
            return _arr('divide', o, self)
        return div(o2, self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __pow__(self, o):
        o2 = _coerce(o)
        if o2 is NotImplemented:
            return _arr('power', self, o)
        return power(self, o2)

    def __rpow__(self, o):
        o2 = _coerce(o)
        if o2 is NotImplemented:
            return _arr('power', o, self)
        return power(o2, self)

    def __matmul__(self, o):
        return NotImplemented

    def __floordiv__(self, o):
        raise Unsupported('floor division of a symbolic real')

    __rfloordiv__ = __floordiv__

    def __mod__(self, o):
        raise Unsupported('mod of a symbolic real')

    __rmod__ = __mod__

    def __abs__(self):
        s = syn_sign(self)
        if s in ('pos', 'nonneg', 'zero'):
            return self
        if s in ('neg', 'nonpos') or bool(self < 0):
            return -self
        return self

    # ---- comparisons
    def __lt__(self, o):
        return _cmp(self, o, 'lt')

    def __le__(self, o):
        return _cmp(self, o, 'le')

    def __gt__(self, o):
        return _cmp(self, o, 'gt')

    def __ge__(self, o):
        return _cmp(self, o, 'ge')

    def __eq__(self, o):
        return _cmp(self, o, 'eq')

    def __ne__(self, o):
        r = _cmp(self, o, 'eq')
        if r is NotImplemented:
            return True
        if hasattr(r, 'ravel'):
            from . import npsym
            return npsym.call_ufunc('logical_not', r)
        return sb_not(r)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    __nonzero__ = __bool__

    def __float__(self):
        if self.is_numeric():
            return float(evalf(self, {}))
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.constval())
        if self.is_numeric():
            return int(evalf(self, {}))
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const() and isinstance(self.constval(), int):
            return self.constval()
        raise TypeError('symbolic value used as an index')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, n=None):
        if self.is_const():
            return round(Fraction(self.constval()), n) if n is not None else round(Fraction(self.constval()))
        if self.is_numeric():
            return round(evalf(self, {}), n) if n is not None else round(evalf(self, {}))
        raise Unsupported('round of a symbolic value')

    def __floor__(self):
        if self.is_numeric():
            return math.floor(Fraction(self.constval()) if self.is_const() else evalf(self, {}))
        raise Unsupported('floor of a symbolic value')

    def __ceil__(self):
        if self.is_numeric():
            return math.ceil(Fraction(self.constval()) if self.is_const() else evalf(self, {}))
        raise Unsupported('ceil of a symbolic value')

    def __trunc__(self):
        return int(self)

    def __repr__(self):
        return show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)

    # numpy falls back to these methods for object arrays
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return sqrt(self)
    def square(self): return self * self
    def log1p(self): return log(self + 1)
    def expm1(self): return exp(self) - 1
    def tanh(self): return tanh(self)
    def absolute(self): return abs(self)
    def sign(self): return sign(self)
    def isfinite(self): return True
    def isnan(self): return False
    def isinf(self): return False
    def sin(self): return fn('sin', self)
    def cos(self): return fn('cos', self)


numbers.Number.register(Sym)


def const(c):
    return Sym({(): c}) if c else ZERO


ZERO = Sym({})
ONE = Sym({(): 1})


def _coerce(o):
    if type(o) is Sym:
        return o
    if type(o) in (int, float, Fraction, bool):
        return lift(o)
    if getattr(o, 'ndim', 0) != 0 or getattr(o, 'shape', ()) != ():
        return NotImplemented
    if hasattr(o, '_node'):           # autograd Box
        return NotImplemented
    try:
        return lift(o)
    except TypeError:
        return NotImplemented


def _mulinf(s, o):
    if o != o:
        return o
    sg = sign_decide(s)
    if sg == 0:
        return NAN
    return o if sg > 0 else -o


def _arr(name, a, b):
    """symbol (op) array"""
    for x in (a, b):
        if type(x) is not Sym and (hasattr(x, '_node') or not hasattr(x, 'dtype') or
                                   not hasattr(x, 'ravel')):
            return NotImplemented
    from . import npsym
    return npsym.call_ufunc(name, a, b)


_CMPNAME = {'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal'}


def _cmp(a, o, op):
    o0, o = o, _coerce(o)
    if o is NotImplemented:
        return _arr(_CMPNAME[op], a, o0)
    if type(o) is float:
        if o != o:
            return False
        if op == 'eq':
            return False
        if op in ('lt', 'le'):
            return o > 0
        return o < 0
    if op in ('gt', 'ge'):
        d = o - a
        op = 'lt' if op == 'gt' else 'le'
    else:
        d = a - o
    return atomic(op, d)


def atomic(op, d):
    """d op 0 -> bool or SymBool, deciding the trivial cases"""
    if d.is_const():
        v = d.constval()
        return v < 0 if op == 'lt' else (v <= 0 if op == 'le' else v == 0)
    if d.is_numeric():
        n, den = together(d)
        if not n.t:
            return op != 'lt'
        v = evalf(d, {})
        if abs(v) > 1e-9:
            return v < 0 if op == 'lt' else (v <= 0 if op == 'le' else False)
    if op == 'eq':
        n, den = together(d)
        if not n.t:
            return True
        s = syn_sign(n)
        if s in ('pos', 'neg'):
            return False
    else:
        if has_den(d):
            n, den = together(d)
            if not n.t:
                return op == 'le'
            sd = syn_sign(den)
            if sd == 'pos':
                d = n
            elif sd == 'neg':
                d = -n
        s = syn_sign(d)
        if s == 'pos':
            return False
        if s == 'neg':
            return True
        if s == 'nonneg' and op == 'lt':
            return False
        if s == 'nonpos' and op == 'le':
            return True
    return SymBool((op, d))


# --------------------------------------------------------------------------
# sign


def atom_positive(a):
    at = TAB.atoms[a]
    return at.positive


def mono_sign(m):
    """'pos', 'nonneg' or None"""
    res = 'pos'
    for a, e in m:
        if atom_positive(a):
            continue
        if e % 2 == 0:
            if e > 0 and not (TAB.atoms[a].kind == 'fac'):
                res = 'nonneg'
            continue
        return None
    return res


def syn_sign(p):
    """cheap sufficient sign test: 'pos','neg','nonneg','nonpos' or None"""
    t = p.t
    if not t:
        return 'zero'
    strict = False
    sg = 0
    for m, c in t.items():
        s = mono_sign(m)
        if s is None:
            return None
        k = 1 if c > 0 else -1
        if sg == 0:
            sg = k
        elif sg != k:
            return None
        if s == 'pos':
            strict = True
    if sg > 0:
        return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'


def decide_pos(p):
    """is p > 0 on this path (may fork)"""
    r = atomic('lt', -p)
    return r if isinstance(r, bool) else ENG.decide(r.f)


def decide_zero(p):
    r = atomic('eq', p)
    return r if isinstance(r, bool) else ENG.decide(r.f)


def sign_decide(p):
    s = syn_sign(p)
    if s == 'pos':
        return 1
    if s == 'neg':
        return -1
    if s == 'zero':
        return 0
    if s == 'nonneg':
        return 1      # callers only need the >= 0 side (abs, scaling)
    if s == 'nonpos':
        return -1
    if decide_pos(p):
        return 1
    if decide_zero(p):
        return 0
    return -1


def sign(x):
    if type(x) is not Sym:
        return (x > 0) - (x < 0)
    if x.is_const():
        v = x.constval()
        return (v > 0) - (v < 0)
    if decide_pos(x):
        return 1
    return 0 if decide_zero(x) else -1


# --------------------------------------------------------------------------
# denominators


def has_den(p):
    for m in p.t:
        for a, e in m:
            if e < 0:
                return True
    return False


def together(p, factors=None):
    """p == N / D with N free of negative exponents; D a monomial-and-factor
    product returned as a Sym with positive exponents multiplied out."""
    t = p.t
    need = {}
    for m in t:
        for a, e in m:
            if e < 0:
                k = -e
                if TAB.atoms[a].kind == 'fac':
                    k = int(math.ceil(k))
                if k > need.get(a, 0):
                    need[a] = k
    if not need:
        return p, ONE
    D = tuple(sorted(need.items()))
    out = {}
    for m, c in t.items():
        mm = mono_mul(m, D)
        if _needs_expand(mm):
            for m2, c2 in _expand_mono(mm, c).items():
                s = out.get(m2)
                out[m2] = c2 if s is None else s + c2
        else:
            s = out.get(mm)
            out[mm] = c if s is None else s + c
    N = Sym({m: norm(c) for m, c in out.items() if c})
    if has_den(N):      # a half-integer power of a factor can leave one round
        N2, D2 = together(N)
        return N2, Sym(_expand_mono(D, 1)) * D2
    return N, Sym(_expand_mono(D, 1))


def content(p):
    """p = c * mono * prim, with prim having min exponents zero and leading
    coefficient normalised; returns (c, mono, prim)"""
    t = p.t
    items = list(t.items())
    mn = dict(items[0][0])
    for m, c in items[1:]:
        md = dict(m)
        for a in list(mn):
            if a in md:
                if md[a] < mn[a]:
                    mn[a] = md[a]
            elif mn[a] > 0:
                del mn[a]
        for a, e in md.items():
            if e < 0 and a not in mn:
                mn[a] = e
    # a missing atom counts as exponent zero
    for m, c in items:
        md = dict(m)
        for a in list(mn):
            if a not in md and mn[a] > 0:
                del mn[a]
    mono = tuple(sorted((a, e) for a, e in mn.items() if e))
    # numeric content
    g = 0
    l = 1
    for m, c in items:
        c = Fraction(c)
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    cont = Fraction(g, l)
    lead = min(items, key=lambda mc: (len(mc[0]), [(a, str(e)) for a, e in mc[0]]))
    neg = all(c < 0 for m, c in items)
    if neg:
        cont = -cont
    elif lead[1] < 0 and not neg:
        # choose the sign making more coefficients positive; ties by lead
        npos = sum(1 for m, c in items if c > 0)
        nneg = len(items) - npos
        if nneg > npos or (nneg == npos):
            cont = -cont
    else:
        npos = sum(1 for m, c in items if c > 0)
        nneg = len(items) - npos
        if nneg > npos:
            cont = -cont
    inv = mono_pow(mono, -1)
    prim = {}
    for m, c in items:
        prim[mono_mul(m, inv)] = norm(Fraction(c) / cont)
    return norm(cont), mono, Sym(prim)


def fac_atom(prim):
    return TAB.get('fac', prim.key(), False, prim)


def exact_div(num, den):
    """multivariate exact division on the dicts, or None"""
    n = len(den.t)
    if n == 1:
        return None
    if len(num.t) < 2 or len(num.t) * n > 400000:
        return None
    atoms_d = set(a for m in den.t for a, e in m)
    atoms_n = set(a for m in num.t for a, e in m)
    if not atoms_d <= atoms_n:
        return None
    for m in den.t:
        for a, e in m:
            if type(e) is not int or e < 0:
                return None
    for m in num.t:
        for a, e in m:
            if a in atoms_d and (type(e) is not int or e < 0):
                return None
    order = sorted(atoms_d)

    def k(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in order), tuple((a, e) for a, e in m if a not in atoms_d)

    ld = max(den.t, key=lambda m: k(m)[0])
    lc = den.t[ld]
    ldk = k(ld)[0]
    rem = dict(num.t)
    q = {}
    steps = 0
    den_items = list(den.t.items())
    import heapq
    heap = [tuple(-x for x in k(m)[0]) + (m,) for m in rem]

    class _K(object):
        pass
    # order by degree tuple only, ties arbitrary but deterministic
    hp = []
    cnt = 0
    for m in sorted(rem, key=lambda m: str(m)):
        hp.append((tuple(-x for x in k(m)[0]), cnt, m))
        cnt += 1
    heapq.heapify(hp)
    while hp:
        kk, _, m = heapq.heappop(hp)
        c = rem.get(m)
        if c is None or not c:
            continue
        steps += 1
        if steps > 4000:
            return None
        mk = tuple(-x for x in kk)
        for x, y in zip(mk, ldk):
            if x < y:
                return None
        qm = mono_mul(m, mono_pow(ld, -1))
        qc = norm(Fraction(c) / Fraction(lc))
        q[qm] = qc
        for dm, dc in den_items:
            nm = mono_mul(qm, dm)
            s = rem.get(nm)
            if s is None:
                rem[nm] = -qc * dc
                hp_item = (tuple(-x for x in k(nm)[0]), cnt, nm)
                cnt += 1
                heapq.heappush(hp, hp_item)
            else:
                s = norm(s - qc * dc)
                if s:
                    rem[nm] = s
                else:
                    del rem[nm]
    return Sym({m: norm(c) for m, c in q.items()})


def canon(p):
    """cancel denominators that divide out; returns an equal Sym"""
    if not has_den(p):
        return p
    facs = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and TAB.atoms[a].kind == 'fac':
                facs[a] = min(e, facs.get(a, 0))
    if not facs:
        return p
    N, D = together(p)
    if not N.t:
        return ZERO
    # try dividing N by each factor
    Dm = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                k = -e
                if TAB.atoms[a].kind == 'fac':
                    k = int(math.ceil(k))
                Dm[a] = max(Dm.get(a, 0), k)
    changed = False
    for a in list(Dm):
        at = TAB.atoms[a]
        if at.kind != 'fac':
            continue
        while Dm[a] >= 1:
            q = exact_div(N, at.data)
            if q is None:
                break
            N = q
            Dm[a] -= 1
            changed = True
    inv = tuple(sorted((a, -e) for a, e in Dm.items() if e))
    r = Sym(_mul_dicts(N.t, {inv: 1}))
    return r


def _lead(at):
    """leading monomial of a factor (graded, then by atom ids), its
    coefficient and the other terms; None where the factor has odd exponents"""
    r = at.dcache.get('lead')
    if r is None:
        r = 0
        t = at.data.t
        if all(type(e) is int and e > 0 for m in t for a, e in m):
            lm = max(t, key=lambda m: (sum(e for a, e in m), m))
            if lm:
                r = (lm, t[lm], [(m, c) for m, c in t.items() if m != lm])
        at.dcache['lead'] = r
    return r


def reduce_den(p, limit=400):
    """divide numerators by the denominators under them, with remainder:
    lead(F) * q * F^-k  ->  (q * F^-(k-1) - rest(F) * q * F^-k) / lc"""
    atoms = TAB.atoms
    todo = p.t
    facs = set()
    for m in todo:
        for a, e in m:
            if e <= -1 and atoms[a].kind == 'fac':
                facs.add(a)
    if not facs:
        return p
    leads = [(a, _lead(atoms[a])) for a in sorted(facs)]
    leads = [x for x in leads if x[1]]
    if not leads:
        return p
    out = {}
    work = [(m, c) for m, c in todo.items()]
    steps = 0
    while work:
        m, c = work.pop()
        hit = None
        md = dict(m)
        for a, (lm, lc, rest) in leads:
            if md.get(a, 0) <= -1 and all(md.get(b, 0) >= e for b, e in lm):
                hit = a, lm, lc, rest
                break
        if hit is None:
            s = norm(out.get(m, 0) + c)
            if s:
                out[m] = s
            else:
                out.pop(m, None)
            continue
        steps += 1
        if steps > limit:
            return p
        a, lm, lc, rest = hit
        q = mono_mul(m, mono_pow(lm, -1))
        c = norm(Fraction(c) / Fraction(lc))
        work.append((mono_mul(q, ((a, 1),)), c))
        for rm, rc in rest:
            nm = mono_mul(q, rm)
            # merge with a pending equal term: keeps the work list short
            work.append((nm, norm(-c * rc)))
    r = Sym(out)
    for m in out:
        if m and _needs_expand(m):
            return Sym(_mul_dicts(out, {(): 1}))
    return r


def simp(p):
    """the shorter of p and its form over a common denominator, reduced"""
    r = p._s
    if r is None:
        r = p
        t = p.t
        atoms = TAB.atoms
        if len(t) > 3 and any(e <= -1 and atoms[a].kind == 'fac' for m in t for a, e in m):
            try:
                q = reduce_den(canon(p), 4000)
                if len(q.t) < len(t):
                    r = q
            except TooBig:
                pass
        p._s = r
        r._s = r
    return r


def inv(p):
    """1/p (numpy semantics at zero)"""
    t = p.t
    if not t:
        return INF
    if len(t) == 1:
        (m, c), = t.items()
        for a, e in m:
            if not atom_positive(a):
                if decide_zero(atom_sym(a)):
                    return INF
        m2 = mono_pow(m, -1)
        c2 = norm(Fraction(1) / c)
        if _needs_expand(m2):
            return Sym({m_: norm(c_) for m_, c_ in _expand_mono(m2, c2).items()})
        return Sym({m2: c2})
    if has_den(p):
        N, D = together(p)
        if not N.t:
            return INF
        return D * inv(N)
    if p.is_numeric() and abs(evalf(p, {})) < 1e-12:
        return INF
    c, mono, prim = content(p)
    res = inv(Sym({mono: c}))
    if type(res) is float:
        return res
    if len(prim.t) == 1:
        return res * inv(prim)
    s = syn_sign(prim)
    if s not in ('pos', 'neg'):
        if decide_zero(prim):
            return INF
    a = TAB.bykey.get(('fac', prim.key()))
    if a is None:
        # a power or multiple of denominators met before
        r = perfect_square(prim)
        if r is not None:
            f = inv(r)
            return res * f * f if type(f) is not float else f
        for f in [x for x in TAB.atoms if x.kind == 'fac'][-30:]:
            if len(f.data.t) >= len(prim.t):
                continue
            q = exact_div(prim, f.data)
            if q is not None:
                qi = inv(q)
                if type(qi) is float:
                    return qi
                return res * qi * Sym({((f.id, -1),): 1})
        a = fac_atom(prim)
    if s == 'pos':
        a.positive = True
    f = Sym({((a.id, -1),): 1})
    return res * f


def div(a, b):
    if type(b) is float:
        if b != b or type(a) is float:
            return NAN
        return ZERO
    if type(a) is float:
        if a != a:
            return a
        s = sign_decide(b)
        return a if s >= 0 else -a
    if b.is_const():
        k = b.constval()
        if k == 0:
            if a.is_const():
                v = a.constval()
                return NAN if v == 0 else (INF if v > 0 else -INF)
            s = sign(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        return a * Fraction(1, 1) * norm(Fraction(1) / Fraction(k))
    if not a.t:
        if decide_zero(b):
            return NAN
        return ZERO
    if len(a.t) > 1 and len(b.t) > 1 and not has_den(a) and not has_den(b):
        q = exact_div(a, b)
        if q is not None:
            if syn_sign(b) not in ('pos', 'neg') and decide_zero(b):
                return NAN
            return q
    r = inv(b)
    if type(r) is float:
        s = sign(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    return canon(a * r)


# --------------------------------------------------------------------------
# elementary functions


def atom_sym(aid):
    return Sym({((aid, 1),): 1})


def pi_pow(k):
    a = TAB.get('const', 'pi', True, None, 'pi')
    return Sym({((a.id, norm(Fraction(k))),): 1})


def LOGPI():
    a = TAB.get('log', ('pi',), False, pi_pow(1), 'logpi')
    return atom_sym(a.id)


_factor_cache = {}


def factorint(n):
    """trial division; the leftover counts as one 'prime'"""
    r = _factor_cache.get(n)
    if r is None:
        r = {}
        m = n
        d = 2
        while d * d <= m and d < 2000:
            while m % d == 0:
                r[d] = r.get(d, 0) + 1
                m //= d
            d += 1 if d == 2 else 2
        if m > 1:
            r[m] = r.get(m, 0) + 1
        _factor_cache[n] = r
    return r


def powconst(c, e):
    """positive rational ** rational -> Sym"""
    c = Fraction(c)
    e = Fraction(e)
    if e.denominator == 1:
        return const(norm(c ** int(e)))
    m = {}
    k = Fraction(1)
    for p, a in list(factorint(c.numerator).items()) + \
            [(p, -a) for p, a in factorint(c.denominator).items()]:
        x = e * a
        f = math.floor(x)
        k *= Fraction(p) ** f
        r = x - f
        if r:
            at = TAB.get('prime', p, True, p, 'c%d' % p if p < 10**6 else None)
            m[at.id] = norm(r)
    return Sym({tuple(sorted(m.items())): norm(k)})


def logconst(c):
    c = Fraction(c)
    if c == 1:
        return ZERO
    out = ZERO
    for p, a in list(factorint(c.numerator).items()) + \
            [(p, -a) for p, a in factorint(c.denominator).items()]:
        at = TAB.get('log', ('n', p), True, const(p), 'log%d' % p if p < 10**6 else None)
        out = out + Sym({((at.id, 1),): a})
    return out


def log(x):
    if type(x) is not Sym:
        x = lift(x)
        if type(x) is float:
            if x != x or x < 0:
                return NAN
            return x
    if x.is_const():
        c = x.constval()
        if c == 0:
            return -INF
        if c < 0:
            return NAN
        return logconst(c)
    if has_den(x):
        x = canon(x)
        if has_den(x) and len(x.t) > 1:
            N, D = together(x)
            sd = syn_sign(D)
            if sd == 'pos' or (sd is None and decide_pos(D)):
                return log(N) - _log_pos(D)
            return log(-N) - _log_pos(-D)
    s = syn_sign(x)
    if s in ('neg', 'nonpos', 'zero'):
        if s == 'neg':
            return NAN
        return -INF if decide_zero(x) else NAN
    if s != 'pos':
        if not decide_pos(x):
            return -INF if decide_zero(x) else NAN
    return _log_pos(x)


def _log_pos(x):
    """log of a Sym known positive on this path"""
    if x.is_const():
        return logconst(x.constval())
    c, mono, prim = content(x)
    if len(prim.t) == 1:
        (m, k), = prim.t.items()
        mono = mono_mul(mono, m)
        c = c * k
        prim = None
    out = ZERO
    neg = c < 0
    odd = []
    for a, e in mono:
        at = TAB.atoms[a]
        if at.positive:
            out = out + _log_atom(at) * e
        else:
            odd.append((a, e))
    # non-positive-known atoms: log|a|^e ; group odd ones with prim
    if not odd and not neg:
        if c != 1:
            out = out + logconst(c)
        if prim is not None:
            out = out + _log_prim(prim)
        return out
    signs = []
    for a, e in odd:
        sg = 1 if decide_pos(atom_sym(a)) else -1
        at = TAB.atoms[a]
        base = at.data if at.kind == 'fac' else atom_sym(a)
        if sg < 0:
            base = -base
        out = out + (_log_pos(base) if at.kind == 'fac' else _log_prim(base)) * e
    if abs(c) != 1:
        out = out + logconst(abs(c))
    if prim is not None:
        if syn_sign(prim) == 'pos' or decide_pos(prim):
            out = out + _log_prim(prim)
        else:
            out = out + _log_prim(-prim)
    return out


def _log_atom(at):
    """log of a positive atom"""
    if at.kind == 'exp':
        return Sym({at.data: 1})
    if at.kind == 'fac':
        return _log_pos(at.data)
    if at.kind == 'const':
        return LOGPI()
    if at.kind == 'prime':
        return logconst(at.data)
    return _log_prim(atom_sym(at.id))


def _log_prim(prim):
    if len(prim.t) > 1:
        r = perfect_square(prim)
        if r is not None:
            s = r if (syn_sign(r) == 'pos' or decide_pos(r)) else -r
            return 2 * _log_pos(s)
    at = TAB.get('log', prim.key(), False, prim)
    return atom_sym(at.id)


def perfect_square(p):
    """p == r*r with r a polynomial of at most 4 terms, else None"""
    n = len(p.t)
    if n < 3 or n > 10:
        return None
    sq = []
    for m, c in p.t.items():
        if c > 0 and all(type(e) is int and e % 2 == 0 or
                         (type(e) is Fraction and e.denominator == 1 and e % 2 == 0)
                         for a, e in m):
            k = Fraction(c)
            rn = math.isqrt(k.numerator)
            rd = math.isqrt(k.denominator)
            if rn * rn == k.numerator and rd * rd == k.denominator:
                sq.append((tuple((a, norm(Fraction(e) / 2)) for a, e in m),
                           norm(Fraction(rn, rd))))
    if len(sq) < 2 or len(sq) > 4:
        return None
    import itertools
    for sg in itertools.product((1, -1), repeat=len(sq) - 1):
        r = {sq[0][0]: sq[0][1]}
        for (m, c), s in zip(sq[1:], sg):
            r[m] = c * s
        r = Sym(r)
        if (r * r).t == p.t:
            return r
    return None


def exp(x):
    if type(x) is not Sym:
        x = lift(x)
        if type(x) is float:
            if x != x:
                return x
            return x if x > 0 else ZERO
    if not x.t:
        return ONE
    x = reduce_den(canon(x)) if has_den(x) else x
    out = ONE
    rest = []
    for m, c in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and TAB.atoms[m[0][0]].kind == 'log':
            at = TAB.atoms[m[0][0]]
            p = at.data
            out = out * power(p, const(c), known_pos=True)
            continue
        rest.append((m, c))
    mono = {}
    for m, c in rest:
        # E_m ** c, with m normalised to coefficient one
        at = TAB.get('exp', m, True, m)
        mono[at.id] = norm(mono.get(at.id, 0) + c)
    if mono:
        out = out * Sym({tuple(sorted((a, e) for a, e in mono.items() if e)): 1})
    return out


def sqrt(x):
    return power(lift(x), const(Fraction(1, 2)))


def tanh(x):
    e = exp(2 * lift(x))
    return div(e - 1, e + 1)


def power(b, e, known_pos=False):
    """b ** e with numpy semantics for real b"""
    if type(e) is float:
        raise Unsupported('infinite exponent')
    if type(b) is float:
        if b != b:
            return b
        if e.is_const():
            return float(b) ** float(e.constval())
        raise Unsupported('power of infinity')
    if not e.is_const():
        # b ** symbolic
        if b.is_const() and b.constval() == 1:
            return ONE
        l = log(b)
        if type(l) is float:
            raise Unsupported('symbolic power of a non-positive base')
        return exp(e * l)
    k = e.constval()
    if k == 0:
        return ONE
    if isinstance(k, int) or (isinstance(k, Fraction) and k.denominator == 1):
        k = int(k)
        if k > 0:
            out = None
            base = b
            n = k
            while n:
                if n & 1:
                    out = base if out is None else out * base
                n >>= 1
                if n:
                    base = base * base
            return out
        r = inv(b)
        if type(r) is float:
            return r
        return power(r, const(-k))
    # fractional exponent
    if b.is_const():
        c = b.constval()
        if c == 0:
            return ZERO if k > 0 else INF
        if c < 0:
            return NAN
        return powconst(c, k)
    if has_den(b):
        b = canon(b)
        if has_den(b) and len(b.t) > 1:
            N, D = together(b)
            sd = syn_sign(D)
            if sd == 'pos' or decide_pos(D):
                pass
            else:
                N, D = -N, -D
            pn = power(N, e, known_pos)
            if type(pn) is float:
                return pn
            return pn * power(D, const(-k), True)
    if not known_pos:
        s = syn_sign(b)
        if s == 'neg':
            return NAN
        if s != 'pos':
            if not decide_pos(b):
                if decide_zero(b):
                    return ZERO if k > 0 else INF
                return NAN
    c, mono, prim = content(b)
    out = ONE
    if len(prim.t) == 1:
        (m, c1), = prim.t.items()
        mono = mono_mul(mono, m)
        c = c * c1
        prim = None
    m_out = []
    neg = c < 0
    for a, ee in mono:
        at = TAB.atoms[a]
        x = norm(Fraction(ee) * k)
        if at.positive:
            m_out.append((a, x))
            continue
        sg = 1 if decide_pos(atom_sym(a)) else -1
        if sg < 0 and ee % 2:
            neg = not neg
        base = atom_sym(a) if sg > 0 else -atom_sym(a)
        if isinstance(x, int):
            out = out * power(base, const(x))
        else:
            fa = fac_atom(base)
            fa.positive = True
            m_out.append((fa.id, x))
    if m_out:
        m_out = tuple(sorted(m_out))
        if _needs_expand(m_out):
            out = out * Sym(_expand_mono(m_out, 1))
        else:
            out = out * Sym({m_out: 1})
    if prim is not None:
        if syn_sign(prim) != 'pos' and not decide_pos(prim):
            prim = -prim
            neg = not neg
        r = perfect_square(prim)
        if r is not None:
            rs = r if (syn_sign(r) == 'pos' or decide_pos(r)) else -r
            out = out * power(rs, const(norm(2 * Fraction(k))), True)
        else:
            fa = fac_atom(prim)
            fa.positive = True
            m1 = ((fa.id, k),)
            if _needs_expand(m1):
                out = out * Sym(_expand_mono(m1, 1))
            else:
                out = out * Sym({m1: 1})
    if neg and c > 0 or (not neg and c < 0):
        return NAN
    return out * powconst(abs(Fraction(c)), k)


# --------------------------------------------------------------------------
# special functions: uninterpreted, congruent on equal (canonical) arguments


def fn(name, *args):
    args = [lift(a) for a in args]
    if any(type(a) is float for a in args):
        return NAN
    args = [canon(a) for a in args]
    pos = name in ('gamma', 'trigamma_pos')
    at = TAB.get('fn', (name,) + tuple(a.key() for a in args), False, (name, args))
    return atom_sym(at.id)


def max_atom(xs):
    """the largest of xs, opaque; the solver knows max >= x and max in xs"""
    xs = sorted({a.key(): a for a in (canon(x) for x in xs)}.values(), key=lambda a: a.key_s())
    if len(xs) == 1:
        return xs[0]
    at = TAB.get('fn', ('max',) + tuple(a.key() for a in xs),
                 any(syn_sign(a) == 'pos' for a in xs), ('max', xs))
    return atom_sym(at.id)


def max_weight(xs, i):
    """one over the number of maximal entries if xs[i] is one, else zero"""
    xs = [canon(x) for x in xs]
    me = xs[i]
    order = sorted(xs, key=lambda a: a.key_s())
    j = [k for k, a in enumerate(order) if a.t == me.t][0]
    args = [const(j)] + order
    at = TAB.get('fn', ('maxw',) + tuple(a.key() for a in args), False, ('maxw', args))
    return atom_sym(at.id)


def fn_side(at):
    """facts about an application the solver is told whenever it occurs"""
    name, args = at.data
    me = atom_sym(at.id)
    if name == 'max':
        return [('le', x - me) for x in args] + [('or', tuple(('eq', x - me) for x in args))]
    if name == 'maxw':
        j = args[0].constval()
        xs = args[1:]
        ws = [max_weight(xs, i) for i in range(len(xs))]
        tot = ZERO
        for w in ws:
            tot = tot + w
        out = [('eq', tot - 1), ('le', -me)]
        for i, x in enumerate(xs):
            if i != j:
                # below another entry: no weight; equal entries: equal weights
                out.append(('or', (('le', x - xs[j]), ('eq', me))))
                out.append(('or', (('not', ('eq', x - xs[j])), ('eq', ws[i] - me))))
        return out
    return []


def polygamma(n, x):
    n = int(n)
    return fn('polygamma', const(n), x)


# --------------------------------------------------------------------------
# evaluation


_num_memo = {}


def _atom_numeric(a, seen=None):
    at = TAB.atoms[a]
    if at.kind == 'var':
        return False
    if at.kind in ('const', 'prime'):
        return True
    if at.kind == 'exp':
        return all(_atom_numeric(b) for b, e in at.data)
    if at.kind in ('log', 'fac'):
        return at.data.is_numeric()
    if at.kind == 'fn':
        return all(x.is_numeric() for x in at.data[1])
    return False


def evalf(p, env, cache=None):
    """float value of p; env: var name -> float"""
    if type(p) is not Sym:
        return float(p)
    if cache is None:
        cache = {}
    tot = 0.0
    terms = []
    for m, c in p.t.items():
        v = c.numerator / c.denominator if type(c) is Fraction else float(c)
        for a, e in m:
            x = eval_atom(a, env, cache)
            if x < 0 and type(e) is Fraction:
                return NAN
            try:
                v *= x ** (float(e) if type(e) is Fraction else e)
            except ZeroDivisionError:
                return NAN
            except OverflowError:
                return INF
        terms.append(v)
    try:
        return math.fsum(terms)
    except (OverflowError, ValueError):
        return NAN


def eval_atom(a, env, cache):
    v = cache.get(a)
    if v is None:
        v = _eval_atom(TAB.atoms[a], env, cache)
        cache[a] = v
    return v


def _eval_atom(at, env, cache):
    k = at.kind
    if k == 'var':
        return float(env[at.name])
    if k == 'const':
        return math.pi
    if k == 'prime':
        return float(at.data)
    if k == 'exp':
        try:
            return math.exp(evalf(Sym({at.data: 1}), env, cache))
        except OverflowError:
            return INF
    if k == 'log':
        v = evalf(at.data, env, cache)
        if v > 0:
            return math.log(v) if v != INF else INF
        return -INF if v == 0 else NAN
    if k == 'fac':
        return evalf(at.data, env, cache)
    if k == 'fn':
        name, args = at.data
        from . import special
        return special.evalfn(name, [evalf(x, env, cache) for x in args])
    raise Unsupported(k)


# --------------------------------------------------------------------------
# exact differentiation (the oracle for derivative properties)


def diff(p, var):
    """d p / d var, var an atom id"""
    if type(p) is not Sym:
        return ZERO
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, var)
            if not da.t:
                continue
            rest = mono_mul(m, ((a, -1),))
            if _needs_expand(rest):
                base = Sym(_expand_mono(rest, norm(c * e)))
            else:
                base = Sym({rest: norm(c * e)})
            out = out + base * da
    return out


def diff_atom(a, var):
    at = TAB.atoms[a]
    r = at.dcache.get(var)
    if r is not None:
        return r
    k = at.kind
    if k == 'var':
        r = ONE if a == var else ZERO
    elif k in ('const', 'prime'):
        r = ZERO
    elif k == 'exp':
        d = diff(Sym({at.data: 1}), var)
        r = d * atom_sym(a) if d.t else ZERO
    elif k == 'log':
        d = diff(at.data, var)
        r = div(d, at.data) if d.t else ZERO
    elif k == 'fac':
        r = diff(at.data, var)
    elif k == 'fn' and at.data[0] == 'maxw':
        r = ZERO
    elif k == 'fn' and at.data[0] == 'max':
        xs = at.data[1]
        r = ZERO
        for i, x in enumerate(xs):
            d = diff(x, var)
            if d.t:
                r = r + d * max_weight(xs, i)
    elif k == 'fn':
        name, args = at.data
        d = diff(args[-1], var)
        if not d.t:
            r = ZERO
        else:
            from . import special
            r = special.dfn(name, args) * d
    else:
        raise Unsupported(k)
    at.dcache[var] = r
    return r


# --------------------------------------------------------------------------


def show(p, limit=12):
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items(), key=lambda mc: str(mc[0]))[:limit]:
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            f.append(show_atom(TAB.atoms[a]) + ('' if e == 1 else '^(%s)' % e))
        parts.append('*'.join(f))
    s = ' + '.join(parts)
    if len(p.t) > limit:
        s += ' + ... (%d terms)' % len(p.t)
    return s


def show_atom(at):
    k = at.kind
    if k in ('var', 'const'):
        return at.name
    if k == 'prime':
        return str(at.data)
    if k == 'exp':
        return 'exp(%s)' % show(Sym({at.data: 1}), 4)
    if k == 'log':
        return 'log(%s)' % show(at.data, 4)
    if k == 'fac':
        return '(%s)' % show(at.data, 4)
    return '%s(%s)' % (at.data[0], ', '.join(show(x, 4) for x in at.data[1]))
