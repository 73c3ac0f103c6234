"""Path exploration, SMT encoding and the solver processes."""
from . import omath as math
import os
import re
import select
import subprocess
import time
from fractions import Fraction

from . import poly as P
from .poly import Sym, SymBool, Unsupported

Z3 = '/usr/local/bin/z3-new'
Z3OLD = '/usr/bin/z3'
CVC5 = '/usr/bin/cvc5'


class PathEnd(Exception):
    """this path is infeasible or was cut by an assumption"""


class Abort(Exception):
    pass


class Inconclusive(Exception):
    pass


# --------------------------------------------------------------------------
# solver process


class Solver(object):
    def __init__(self, cmd=None):
        self.cmd = cmd or [Z3, '-in', '-smt2']
        self.p = None
        self.buf = b''

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)
        self.buf = b''

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None

    def ask(self, text, timeout):
        """send text + an end marker; return the lines before the marker"""
        if self.p is None or self.p.poll() is not None:
            self.kill()
            self.start()
        data = (text + '\n(echo "@@END")\n').encode()
        try:
            # write in the background of reading: big queries can fill the pipe
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.kill()
            return None
        fd = self.p.stdout.fileno()
        end = time.time() + timeout
        while b'@@END' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                self.kill()
                return None
            b = os.read(fd, 1 << 16)
            if not b:
                self.kill()
                return None
            self.buf += b
        out, _, rest = self.buf.partition(b'@@END')
        self.buf = rest.lstrip(b'"\n')
        return [l for l in out.decode().replace('"', '').split('\n') if l.strip()]


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.crosschecked = 0
        self.disagree = 0
        self.traces = 0
        self.maxterms = 0
        self.ill = 0

    def asdict(self):
        return dict(self.__dict__)


# --------------------------------------------------------------------------
# encoding


def num(c):
    c = Fraction(c)
    if c.denominator == 1:
        s = str(abs(c.numerator)) + '.0'
    else:
        s = '(/ %d.0 %d.0)' % (abs(c.numerator), c.denominator)
    return '(- %s)' % s if c < 0 else s


def clear_lists(ds, parity):
    """multiply the Syms ds (numerators of one atom formula) by a common
    nonzero (parity: positive) product of atoms so that no negative exponents
    remain"""
    need = {}
    for d in ds:
        for m in d.t:
            for a, e in m:
                if e < 0:
                    k = -e
                    if P.TAB.atoms[a].kind == 'fac':
                        k = int(math.ceil(k))
                    if k > need.get(a, 0):
                        need[a] = k
    if not need:
        return ds
    if parity:
        for a in list(need):
            if not P.atom_positive(a):
                k = int(math.ceil(need[a]))
                need[a] = k + (k & 1)
    D = tuple(sorted(need.items()))
    out = []
    for d in ds:
        o = {}
        for m, c in d.t.items():
            mm = P.mono_mul(m, D)
            if P._needs_expand(mm):
                for m2, c2 in P._expand_mono(mm, c).items():
                    o[m2] = o.get(m2, 0) + c2
            else:
                o[mm] = o.get(mm, 0) + c
        out.append(Sym({m: P.norm(c) for m, c in o.items() if c}))
    if any(P.has_den(d) for d in out):
        return clear_lists(out, parity)
    return out


class Encoder(object):
    """one SMT-LIB query"""

    def __init__(self):
        self.lcd = {}
        self.formulas = []
        self.done = set()
        self.pending = []
        self.extra = []

    def scan(self, p):
        for m in p.t:
            for a, e in m:
                d = e.denominator if type(e) is Fraction else 1
                old = self.lcd.get(a)
                if old is None:
                    self.lcd[a] = d
                    self.pending.append(a)
                else:
                    self.lcd[a] = old * d // math.gcd(old, d)

    def prep(self, f):
        """replace Syms in formula f by cleared ones, registering atoms"""
        k = f[0]
        if k in ('lt', 'le', 'eq'):
            d = f[1]
            (n,) = clear_lists([d], k != 'eq')
            self.scan(n)
            return (k, n)
        if k == 'neq2':
            l, r = clear_lists([f[1], f[2]], False)
            self.scan(l)
            self.scan(r)
            return ('neq2', l, r)
        if k == 'not':
            return ('not', self.prep(f[1]))
        if k in ('and', 'or'):
            return (k, tuple(self.prep(g) for g in f[1]))
        if k == 'const':
            return f
        raise ValueError(k)

    def add(self, f):
        self.formulas.append(self.prep(f))

    def close(self):
        """side constraints of the atoms used (recursively)"""
        while self.pending:
            a = self.pending.pop()
            if a in self.done:
                continue
            self.done.add(a)
            at = P.TAB.atoms[a]
            if at.kind == 'fac':
                self.scan_cleared(at.data)
            elif at.kind == 'fn' and at.data[0] in ('max', 'maxw'):
                for f in P.fn_side(at):
                    self.formulas.append(self.prep(f))
        return

    def scan_cleared(self, p):
        (n,) = clear_lists([p], False)
        self.scan(n)

    def term(self, p):
        if not p.t:
            return '0.0'
        parts = []
        for m, c in p.t.items():
            fs = []
            if c != 1 or not m:
                fs.append(num(c))
            for a, e in m:
                k = e * self.lcd[a]
                k = int(k)
                fs.extend(['v%d' % a] * k)
            parts.append(fs[0] if len(fs) == 1 else '(* ' + ' '.join(fs) + ')')
        return parts[0] if len(parts) == 1 else '(+ ' + ' '.join(parts) + ')'

    def form(self, f):
        k = f[0]
        if k == 'lt':
            return '(< %s 0.0)' % self.term(f[1])
        if k == 'le':
            return '(<= %s 0.0)' % self.term(f[1])
        if k == 'eq':
            return '(= %s 0.0)' % self.term(f[1])
        if k == 'neq2':
            return '(not (= %s %s))' % (self.term(f[1]), self.term(f[2]))
        if k == 'not':
            return '(not %s)' % self.form(f[1])
        if k == 'const':
            return 'true' if f[1] else 'false'
        return '(%s %s)' % (k, ' '.join(self.form(g) for g in f[1]))

    def text(self, box=None):
        self.close()
        out = []
        side = []
        for a in sorted(self.lcd):
            at = P.TAB.atoms[a]
            v = 'v%d' % a
            d = self.lcd[a]
            out.append('(declare-const %s Real)' % v)
            if at.positive or d > 1:
                side.append('(> %s 0.0)' % v)
            pw = v if d == 1 else '(* ' + ' '.join([v] * d) + ')'
            if at.kind == 'fac':
                (n,) = clear_lists([at.data], False)
                if P.has_den(at.data):
                    raise Unsupported('factor with denominators')
                side.append('(= %s %s)' % (pw, self.term(n)))
                if not at.positive:
                    side.append('(not (= %s 0.0))' % v)
            elif at.kind == 'prime':
                side.append('(= %s %s)' % (pw, num(at.data)))
            elif P._atom_numeric(a):
                x = P.eval_atom(a, {}, {})
                x = x ** (1.0 / d)
                lo = Fraction(x) - Fraction(1, 10 ** 9) * (1 + abs(Fraction(x)))
                hi = Fraction(x) + Fraction(1, 10 ** 9) * (1 + abs(Fraction(x)))
                lo = Fraction(math.floor(lo * 10 ** 11), 10 ** 11)
                hi = Fraction(math.ceil(hi * 10 ** 11), 10 ** 11)
                side.append('(< %s %s %s)' % (num(lo), v, num(hi)))
            elif at.kind == 'var' and box:
                if at.positive:
                    side.append('(< %s %s %s)' % (num(box[0] ** d if d > 1 else box[0]), pw, num(box[1])))
                else:
                    side.append('(< %s %s %s)' % (num(-box[1]), pw, num(box[1])))
        body = ['(assert %s)' % s for s in side]
        body += ['(assert %s)' % self.form(f) for f in self.formulas]
        return '\n'.join(out + body)


# --------------------------------------------------------------------------


class Engine(object):
    """one path of one case"""

    def __init__(self, solver, stats, prefix, opts):
        self.solver = solver
        self.stats = stats
        self.prefix = prefix          # decisions to follow
        self.taken = []               # decisions made: (value, other side feasible)
        self.pc = []                  # formulas
        self.memo = {}
        self.opts = opts
        self.inputs = []              # (name, atom id)
        self.obls = []
        self.refl = []

    # ---- queries
    def query(self, formulas, timeout, model=False, box=None, solver=None, raw=()):
        enc = Encoder()
        for f in formulas:
            enc.add(f)
        for p in raw:
            enc.add(p)
        if model:
            for n, a in self.inputs:
                if a not in enc.lcd:
                    enc.lcd[a] = 1
                    enc.pending.append(a)
        body = enc.text(box)
        self.last_body = body
        txt = '(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n' \
              '(set-option :timeout %d)\n(set-logic QF_NRA)\n%s\n(check-sat)' % (
                  int(timeout * 1000), body)
        vs = sorted(enc.lcd)
        t0 = time.time()
        s = solver or self.solver
        lines = s.ask(txt, timeout + 5)
        self.stats.queries += 1
        res = 'unknown'
        vals = None
        if lines:
            if any(l.startswith('(error') for l in lines):
                raise Unsupported('solver error: ' + [l for l in lines if l.startswith('(error')][0][:300])
            res = lines[0].strip()
        if res == 'sat' and model and vs:
            lines = s.ask('(get-value (%s))' % ' '.join('v%d' % a for a in vs), 10)
            vals = {}
            if lines:
                t = ' '.join(lines)
                for a, v in parse_values(t):
                    if v is not None:
                        vals[a] = v ** enc.lcd[a]
        self.stats.solver_s += time.time() - t0
        if res not in ('sat', 'unsat'):
            res = 'unknown'
            self.stats.unknown += 1
        return (res, vals) if model else res

    # ---- branching
    def decide(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'not':
            return not self.decide(f[1])
        k = fkey(f)
        r = self.memo.get(k)
        if r is not None:
            return r
        i = len(self.taken)
        if i >= self.opts.get('max_decisions', 400):
            raise Unsupported('too many decisions on one path')
        if i < len(self.prefix):
            v, other = self.prefix[i]
        else:
            self.stats.decisions += 1
            to = self.opts.get('feas_timeout', 4)
            pos = self.query(self.pc + [f], to)
            if pos == 'unsat':
                v, other = False, False
            else:
                neg = self.query(self.pc + [('not', f)], to)
                if neg == 'unsat':
                    v, other = True, False
                else:
                    v, other = True, True
        self.taken.append((v, other))
        self.memo[k] = v
        g = f if v else ('not', f)
        self.pc.append(g)
        self.mark(f, v)
        return v

    def mark(self, f, v):
        """note atoms that became known-positive"""
        if f[0] in ('lt', 'le') and (f[0] == 'lt') == v:
            d = f[1] if v else -f[1]
            # v: d < 0, i.e. -d > 0 ; not v: f[1] > 0
            p = -f[1] if v else f[1]
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if c > 0 and len(m) == 1 and m[0][1] == 1:
                    P.TAB.atoms[m[0][0]].positive = True
        if f[0] == 'and' and v:
            for g in f[1]:
                self.mark(g, True)
        if f[0] == 'or' and not v:
            for g in f[1]:
                self.mark(g, False)
        if f[0] == 'not':
            self.mark(f[1], not v)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.pc.append(c.f)
            self.memo[fkey(c.f)] = True
            self.mark(c.f, True)
            i = len(self.taken)
            if i >= len(self.prefix):
                if self.query(self.pc, self.opts.get('feas_timeout', 4)) == 'unsat':
                    raise PathEnd()
        elif not c:
            raise PathEnd()


def fkey(f):
    k = f[0]
    if k in ('lt', 'le', 'eq'):
        return (k, f[1].key())
    if k == 'not':
        return (k, fkey(f[1]))
    if k in ('and', 'or'):
        return (k,) + tuple(fkey(g) for g in f[1])
    return f


_tok = re.compile(r'\(|\)|[^\s()]+')


def parse_values(t):
    toks = _tok.findall(t)
    pos = [0]

    def expr():
        x = toks[pos[0]]
        pos[0] += 1
        if x != '(':
            return x
        r = []
        while toks[pos[0]] != ')':
            r.append(expr())
        pos[0] += 1
        return r

    def val(e):
        if isinstance(e, str):
            try:
                return float(e.rstrip('?'))
            except ValueError:
                return None
        if e[0] == '-' and len(e) == 2:
            v = val(e[1])
            return None if v is None else -v
        if e[0] == '/':
            a, b = val(e[1]), val(e[2])
            return None if a is None or b is None else a / b
        return None
    try:
        top = expr()
    except IndexError:
        return
    for e in top:
        if isinstance(e, list) and len(e) == 2 and isinstance(e[0], str) and e[0].startswith('v'):
            yield int(e[0][1:]), val(e[1])
