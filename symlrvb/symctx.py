"""Symbolic side of the harness interface."""
import random
import zlib

from . import poly as P
from . import npsym
from .ctx import BaseCtx
from .engine import PathEnd, Inconclusive
from .poly import Sym, SymBool, Unsupported


class Ob(object):
    __slots__ = ('label', 'kind', 'pairs', 'formula', 'detail', 'tol')

    def __init__(self, label, kind, pairs=None, formula=None, detail=None, tol=1e-7):
        self.label = label
        self.kind = kind            # 'eq' | 'true' | 'fail'
        self.pairs = pairs          # list of (L, R) for eq
        self.formula = formula      # negated assertion for true/fail
        self.detail = detail
        self.tol = tol


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        BaseCtx.__init__(self)
        self.eng = eng
        self.ranges = {}
        self.recs = []        # (label, kind, flat got list)
        self.obs = []
        del npsym.FRAMES[:]

    # ---- inputs
    def _atom(self, name, positive, lo, hi):
        new = ('var', name) not in P.TAB.bykey
        a = P.TAB.get('var', name, positive, None, name)
        if new:
            self.eng.inputs.append((name, a.id))
            if lo is None:
                lo = 0.3 if positive else -1.5
            if hi is None:
                hi = 2.5 if positive else 1.5
            self.ranges[name] = (lo, hi)
        return P.atom_sym(a.id)

    def reals(self, name, shape=None, positive=False, lo=None, hi=None):
        if shape is None:
            return self._atom(name, positive, lo, hi)
        n = 1
        for s in shape:
            n *= s
        return npsym.mk([self._atom('%s.%d' % (name, i), positive, lo, hi) for i in range(n)],
                        tuple(shape), keep=True)

    def root(self, n):
        return P.sqrt(P.lift(n))

    def register_frame(self, R):
        m = npsym.lists(R)
        npsym.FRAMES.append([list(c) for c in zip(*m)])

    def assume(self, cond):
        if isinstance(cond, npsym.nd):
            cond = P.sb_and(npsym.elems(cond))
        self.eng.assume(cond)

    # ---- assertions
    @staticmethod
    def _flat(x):
        if isinstance(x, npsym.SymSparse):
            x = x.toarray()
        if hasattr(x, '_node'):
            return ('traced',), None
        a = npsym.obj(x)
        l = a.ravel().tolist()
        out = []
        for v in l:
            if hasattr(v, '_node'):
                return ('traced',), None
            if isinstance(v, SymBool):
                v = bool(v)
            try:
                out.append(P.lift(v))
            except TypeError:
                return ('odd',), None
        return a.shape, out

    def eq(self, label, got, want, tol=1e-7):
        gs, g = self._flat(got)
        ws, w = self._flat(want)
        self.recs.append((label, 'eq', g))
        if g is None or w is None or gs != ws:
            self.obs.append(Ob(label, 'fail', formula=('const', True),
                               detail='shape %s, expected %s' % (gs, ws)))
            return
        pairs = []
        for a, b in zip(g, w):
            if type(a) is float or type(b) is float:
                same = type(a) is float and type(b) is float and (a == b or (a != a and b != b))
                if not same:
                    self.obs.append(Ob(label, 'fail', formula=('const', True),
                                       detail='got %s, expected %s' % (a, b)))
                    return
                continue
            pairs.append((a, b))
        self.obs.append(Ob(label, 'eq', pairs=pairs, tol=tol))

    def true(self, label, cond, info=None):
        if isinstance(cond, npsym.nd):
            cond = P.sb_and(npsym.elems(cond))
        elif isinstance(cond, (list, tuple)):
            cond = P.sb_and(list(cond))
        self.recs.append((label, 'true', [P.ONE]))
        if isinstance(cond, SymBool):
            self.obs.append(Ob(label, 'true', formula=('not', cond.f)))
        elif bool(cond):
            self.obs.append(Ob(label, 'true', formula=('const', False)))
        else:
            self.obs.append(Ob(label, 'fail', formula=('const', True), detail='false (%s)' % (info,)))

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            if isinstance(e, (Unsupported, PathEnd, Inconclusive)):
                raise
            self.true(label, True)
            return
        except (Unsupported, PathEnd, Inconclusive):
            raise
        except Exception as e:
            d = 'raised %s: %s' % (type(e).__name__, e)
        else:
            d = 'no exception'
        self.recs.append((label, 'raises', [P.ONE]))
        self.obs.append(Ob(label, 'fail', formula=('const', True), detail=d))

    def is_plain(self, x):
        if hasattr(x, '_node'):
            return False
        if isinstance(x, (list, tuple)):
            return all(self.is_plain(y) for y in x)
        return self._flat(x)[1] is not None

    # ---- derivative oracles: exact differentiation of the computed values
    def _var_ids(self, x):
        ids = []
        for v in npsym.elems(x):
            v = P.lift(v)
            (m, c), = v.t.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1:
                raise Unsupported('differentiation variable is not an input')
            ids.append(m[0][0])
        return ids

    def diff1(self, f, x, h=None):
        ids = self._var_ids(x)
        y = f(x)
        return self.dval(y, ids)

    def dval(self, y, ids):
        if isinstance(y, npsym.SymSparse):
            y = y.toarray()
        a = npsym.obj(y)
        out = []
        for v in a.ravel().tolist():
            v = P.lift(v)
            for i in ids:
                out.append(P.canon(P.diff(v, i)))
        return npsym.mk(out, a.shape + (len(ids),), keep=True)

    def diff2(self, f, x, h=None):
        ids = self._var_ids(x)
        return self.dval(self.dval(f(x), ids), ids)

    def diffmix(self, f, x, y, h=None):
        ix, iy = self._var_ids(x), self._var_ids(y)
        v = f(x, y)
        return self.dval(self.dval(v, ix), iy)
