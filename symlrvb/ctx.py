"""What a harness sees.  The same harness function runs symbolically (SymCtx)
and, on concrete numbers and the unpatched package, in the replay server
(ConcCtx)."""
import contextlib
from . import omath as math
import random
import zlib


class AssumeFail(Exception):
    """concrete inputs outside the harness's assumptions"""


class BaseCtx(object):
    symbolic = False

    def __init__(self):
        self._undo = []

    @property
    def vb(self):
        import LinearResponseVariationalBayes as vb
        return vb

    def mod(self, name):
        import importlib
        return importlib.import_module('LinearResponseVariationalBayes.' + name)

    def stub(self, owner, attr, value):
        """replace an environment function for the duration of the case"""
        old = getattr(owner, attr)
        self._undo.append((owner, attr, old))
        setattr(owner, attr, value)
        return old

    def cleanup(self):
        while self._undo:
            o, a, v = self._undo.pop()
            setattr(o, a, v)

    # ---- derived inputs shared by both modes
    def vec(self, name, n, **k):
        return self.reals(name, (n,), **k)

    def mat(self, name, n, m, **k):
        return self.reals(name, (n, m), **k)

    def chol(self, name, n):
        """lower triangular with positive diagonal"""
        import numpy as np
        L = np.zeros((n, n))
        for i in range(n):
            for j in range(i):
                L[i, j] = self.reals('%s_%d%d' % (name, i, j))
            L[i, i] = self.reals('%s_%d%d' % (name, i, i), positive=True)
        return L

    def posdef(self, name, n):
        """an arbitrary symmetric positive definite matrix (as L L^T)"""
        import numpy as np
        L = self.chol(name, n)
        return np.dot(L, L.T)

    def symmetric(self, name, n, **k):
        import numpy as np
        S = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                S[i, j] = self.reals('%s_%d%d' % (name, i, j), **k)
                S[j, i] = S[i, j]
        return S

    def simplex_row(self, name, k):
        """arbitrary positive numbers summing to one"""
        import numpy as np
        w = [self.reals('%s_%d' % (name, i), positive=True) for i in range(k - 1)]
        s = 1.0
        for x in w:
            s = s + x
        return np.array([x / s for x in w] + [1.0 / s])

    def rotation(self, name, n):
        """an orthogonal matrix: all plane rotations but the half turn (n=2),
        all rotations given by a quaternion with nonzero real part (n=3),
        products of n-1 plane rotations (n>3)"""
        import numpy as np
        if n == 1:
            return np.ones((1, 1))
        if n == 2:
            t = self.reals(name)
            d = 1 + t * t
            c, s = (1 - t * t) / d, 2 * t / d
            R = np.array([[c, -s], [s, c]])
        elif n == 3:
            a, b, c = (self.reals('%s%s' % (name, q)) for q in 'abc')
            d = 1 + a * a + b * b + c * c
            R = np.array([
                [(1 + a * a - b * b - c * c) / d, 2 * (a * b - c) / d, 2 * (a * c + b) / d],
                [2 * (a * b + c) / d, (1 - a * a + b * b - c * c) / d, 2 * (b * c - a) / d],
                [2 * (a * c - b) / d, 2 * (b * c + a) / d, (1 - a * a - b * b + c * c) / d]])
        else:
            # products of plane rotations: (0 1), (2 3), .. then (1 2), (3 4), ..
            rows = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
            for start in (0, 1):
                for i in range(start, n - 1, 2):
                    t = self.reals('%s%d' % (name, i))
                    d = 1 + t * t
                    c, s = (1 - t * t) / d, 2 * t / d
                    for r in rows:
                        r[i], r[i + 1] = c * r[i] + s * r[i + 1], c * r[i + 1] - s * r[i]
            R = np.array(rows)
        self.register_frame(R)
        return R

    def register_frame(self, R):
        pass

    def root(self, n):
        """the square root of a positive integer"""
        return math.sqrt(n)

    def same(self, label, got, want, tol=1e-9):
        return self.eq(label, got, want, tol)


# --------------------------------------------------------------------------


class ConcCtx(BaseCtx):
    def __init__(self, env, seed=1):
        BaseCtx.__init__(self)
        self.env = dict(env)
        self.seed = seed
        self.used = {}
        self.recs = []        # (label, kind, ok, got list, detail)
        self.assumptions = 0
        self.fd_err = 0.0     # estimated error of the finite differences taken so far

    def _val(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            r = random.Random(zlib.crc32(('%s/%d' % (name, self.seed)).encode()))
            v = r.uniform(lo, hi)
            self.env[name] = v
        self.used[name] = v
        return float(v)

    def reals(self, name, shape=None, positive=False, lo=None, hi=None):
        import numpy as np
        if lo is None:
            lo = 0.3 if positive else -1.5
        if hi is None:
            hi = 2.5 if positive else 1.5
        if shape is None:
            v = self._val(name, lo, hi)
            if positive and v <= 0:
                raise AssumeFail(name)
            return v
        n = 1
        for s in shape:
            n *= s
        a = np.array([self._val('%s.%d' % (name, i), lo, hi) for i in range(n)], dtype=float)
        if positive and not (a > 0).all():
            raise AssumeFail(name)
        return a.reshape(shape)

    def assume(self, cond):
        import numpy as np
        if not bool(np.all(cond)):
            raise AssumeFail()

    @staticmethod
    def _flat(x):
        import numpy as np
        import scipy.sparse
        if scipy.sparse.issparse(x):
            x = x.toarray()
        if hasattr(x, '_node'):
            return ('traced',), None
        try:
            a = np.asarray(x)
        except Exception:
            return ('odd',), None
        if a.dtype == object:
            l = a.ravel().tolist()
            if any(hasattr(v, '_node') for v in l):
                return ('traced',), None
            try:
                a = a.astype(float)
            except Exception:
                return ('odd',), None
        return a.shape, [float(v) for v in a.ravel().tolist()]

    def eq(self, label, got, want, tol=1e-7):
        gs, g = self._flat(got)
        ws, w = self._flat(want)
        if g is None or w is None or gs != ws:
            self.recs.append((label, 'eq', False, g, 'shape %s, expected %s' % (gs, ws), tol, None))
            return
        bad = at = None
        for i, (a, b) in enumerate(zip(g, w)):
            if not close(a, b, tol) and not abs(a - b) <= 10 * self.fd_err:
                bad = 'element %d: got %r, expected %r' % (i, a, b)
                at = (i, float(a), float(b))
                break
        self.recs.append((label, 'eq', bad is None, g, bad, tol, at))

    def true(self, label, cond, info=None):
        import numpy as np
        ok = bool(np.all(cond))
        self.recs.append((label, 'true', ok, [float(ok)], None if ok else 'false' + (' (%s)' % (info,) if info else '')))

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.recs.append((label, 'raises', True, [1.0], None))
        except Exception as e:
            self.recs.append((label, 'raises', False, [0.0], 'raised %s: %s' % (type(e).__name__, e)))
        else:
            self.recs.append((label, 'raises', False, [0.0], 'no exception'))

    def is_plain(self, x):
        import numpy as np
        return plain_numeric(x)

    # ---- finite-difference oracles (6th order central)
    def diff1(self, f, x, h=3e-4):
        import numpy as np
        x = np.asarray(x, dtype=float)
        x0 = x.ravel()
        cols = []
        for j in range(x0.size):
            def g(t):
                y = x0.copy()
                y[j] += t
                return np.asarray(f(y.reshape(x.shape)), dtype=float)
            hh = h * max(1.0, abs(x0[j]))
            c1, c2, c3 = (g(hh) - g(-hh)) / hh, (g(2 * hh) - g(-2 * hh)) / hh, (g(3 * hh) - g(-3 * hh)) / hh
            d = (45 * c1 - 9 * c2 + c3) / 60
            cols.append(d)
            # the formulas of order 2, 4 and 6 converge geometrically
            d4 = (8 * c1 - c2) / 12
            e2, e4 = np.abs(c1 / 2 - d4), np.abs(d4 - d)
            with np.errstate(all='ignore'):
                e6 = np.where(e2 > e4, e4 * e4 / np.where(e2 > 0, e2, 1.0), e4)
            e6 = e6[np.isfinite(e6)] if e6.shape else np.array([e6] if np.isfinite(e6) else [])
            if e6.size:
                self.fd_err = max(self.fd_err, float(np.max(e6)))
        out = np.array(cols)
        if out.size == 0:
            return np.zeros(np.shape(np.asarray(f(x))) + (x0.size,))
        return np.moveaxis(out, 0, -1)

    def diff2(self, f, x, h=1.5e-3):
        return self.diff1(lambda y: self.diff1(f, y, h), x, h)

    def diffmix(self, f, x, y, h=1.5e-3):
        """d2 f / dx dy for scalar f(x, y)"""
        return self.diff1(lambda xx: self.diff1(lambda yy: f(xx, yy), y, h), x, h).T

    def func(self, name):
        raise NotImplementedError


def plain_numeric(x):
    import numpy as np
    if hasattr(x, '_node'):
        return False
    if isinstance(x, (list, tuple)):
        return all(plain_numeric(y) for y in x)
    a = np.asarray(x)
    return a.dtype.kind in 'fiub'


def close(a, b, tol):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))
