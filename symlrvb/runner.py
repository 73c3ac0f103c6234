"""Explore the paths of one case, decide its obligations, replay models."""
import json
from . import omath as math
import os
import random
import subprocess
import sys
import time
import traceback
import zlib
from fractions import Fraction

from . import poly as P
from . import npsym
from . import engine as E
from .engine import PathEnd, Inconclusive
from .poly import Sym, SymBool, Unsupported
from .symctx import SymCtx, Ob
from .ctx import close

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


class Server(object):
    """unpatched interpreter running the real package on concrete numbers"""

    def __init__(self, prop, tier, seed):
        self.args = [PY, '-W', 'ignore', os.path.join(HERE, 'conc_server.py'), prop, tier, str(seed)]
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.pop('NUMPY_EXPERIMENTAL_ARRAY_FUNCTION', None)
        env['OPENBLAS_NUM_THREADS'] = '1'
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def run(self, case, env, profile=False, timeout=120):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write((json.dumps({'case': case, 'env': env, 'profile': profile}) + '\n').encode())
        self.p.stdin.flush()
        buf = b''
        fd = self.p.stdout.fileno()
        end = time.time() + timeout
        while not buf.endswith(b'\n'):
            left = end - time.time()
            r, _, _ = select.select([fd], [], [], max(0.0, left))
            if not r:
                self.kill()
                return {'status': 'timeout', 'recs': []}
            b = os.read(fd, 1 << 16)
            if not b:
                self.kill()
                return {'status': 'died', 'recs': []}
            buf += b
        return json.loads(buf.decode())

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None


# --------------------------------------------------------------------------
# numeric evaluation of formulas


def feval(f, env, cache):
    """truth of formula at env, None if undefined"""
    k = f[0]
    if k in ('lt', 'le', 'eq'):
        v = P.evalf(f[1], env, cache)
        if v != v:
            return None
        if k == 'eq':
            return abs(v) <= 1e-9
        return v < 0 if k == 'lt' else v <= 0
    if k == 'not':
        if f[1][0] == 'eq':
            v = P.evalf(f[1][1], env, cache)
            return None if v != v else abs(v) > 1e-9
        r = feval(f[1], env, cache)
        return None if r is None else not r
    if k == 'const':
        return f[1]
    rs = [feval(g, env, cache) for g in f[1]]
    if None in rs:
        return None
    return all(rs) if k == 'and' else any(rs)


def atoms_of(formulas):
    seen = set()

    def sy(p):
        for m in p.t:
            for a, e in m:
                if a not in seen:
                    seen.add(a)
                    at = P.TAB.atoms[a]
                    if at.kind in ('log', 'fac'):
                        sy(at.data)
                    elif at.kind == 'exp':
                        sy(Sym({at.data: 1}))
                    elif at.kind == 'fn':
                        for x in at.data[1]:
                            sy(x)

    def fo(f):
        if f[0] in ('lt', 'le', 'eq'):
            sy(f[1])
        elif f[0] == 'neq2':
            sy(f[1])
            sy(f[2])
        elif f[0] == 'not':
            fo(f[1])
        elif f[0] in ('and', 'or'):
            for g in f[1]:
                fo(g)
    for f in formulas:
        fo(f)
    return seen


def iff(a, b):
    return ('or', (('and', (a, b)), ('and', (('not', a), ('not', b)))))


def lemmas(atoms, maxpairs=60):
    """valid facts about exp / log / uninterpreted atoms"""
    out = []
    S = P.atom_sym
    exps = [a for a in sorted(atoms) if P.TAB.atoms[a].kind == 'exp']
    logs = [a for a in sorted(atoms) if P.TAB.atoms[a].kind == 'log' and
            not P._atom_numeric(a)]
    fns = [a for a in sorted(atoms) if P.TAB.atoms[a].kind == 'fn']
    for a in exps:
        m = Sym({P.TAB.atoms[a].data: 1})
        e = S(a)
        out.append(iff(('lt', -m), ('lt', 1 - e)))       # m > 0 <=> E > 1
        out.append(iff(('lt', m), ('lt', e - 1)))
        out.append(('le', 1 + m - e))                     # 1 + m <= E
    n = 0
    for i, a in enumerate(exps):
        for b in exps[:i]:
            n += 1
            if n > maxpairs:
                break
            d = Sym({P.TAB.atoms[a].data: 1}) - Sym({P.TAB.atoms[b].data: 1})
            e = S(a) - S(b)
            out.append(iff(('lt', d), ('lt', e)))
            out.append(iff(('eq', d), ('eq', e)))
    for a in logs:
        p = P.TAB.atoms[a].data
        l = S(a)
        out.append(iff(('lt', 1 - p), ('lt', -l)))
        out.append(iff(('lt', p - 1), ('lt', l)))
        out.append(('le', l - p + 1))
    n = 0
    for i, a in enumerate(logs):
        for b in logs[:i]:
            n += 1
            if n > maxpairs:
                break
            d = P.TAB.atoms[a].data - P.TAB.atoms[b].data
            e = S(a) - S(b)
            out.append(iff(('lt', d), ('lt', e)))
            out.append(iff(('eq', d), ('eq', e)))
    for i, a in enumerate(fns):
        na, xa = P.TAB.atoms[a].data
        for b in fns[:i]:
            nb, xb = P.TAB.atoms[b].data
            if na != nb or len(xa) != len(xb):
                continue
            n += 1
            if n > 2 * maxpairs:
                break
            out.append(('or', tuple([('not', ('eq', x - y)) for x, y in zip(xa, xb)] +
                                    [('eq', S(a) - S(b))])))
    return out


# --------------------------------------------------------------------------


class CaseRunner(object):
    def __init__(self, prop, name, fn, params, solver, server, opts, rng_seed):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.solver = solver
        self.server = server
        self.opts = opts
        self.stats = E.Stats()
        self.rng = random.Random(rng_seed)
        self.problems = []         # inconclusive reasons
        self.violation = None
        self.samples = []
        self.functions = set()
        self.validated = 0
        self.checked_paths = 0
        self.infeasible = 0
        self.unwitnessed = 0
        self.deadline = time.time() + opts.get('case_time', 400)
        self.cvc5 = E.Solver([E.CVC5, '--incremental', '--produce-models', '--tlimit-per=4000', '-q']) \
            if opts.get('crosscheck') else None

    # ---- exploration
    def run(self):
        stack = [[]]
        try:
            while stack and self.violation is None:
                if self.stats.paths >= self.opts.get('max_paths', 4000):
                    self.problems.append('path limit reached')
                    break
                if time.time() > self.deadline:
                    self.problems.append('time limit reached with %d prefixes left' % len(stack))
                    break
                if len(self.problems) >= 4:
                    break
                prefix = stack.pop()
                eng = self.one_path(prefix)
                for i in range(len(eng.taken) - 1, len(prefix) - 1, -1):
                    v, other = eng.taken[i]
                    if other:
                        stack.append(eng.taken[:i] + [(not v, False)])
        finally:
            if self.cvc5:
                self.cvc5.kill()
        if self.violation is None and not self.problems:
            if self.checked_paths == 0:
                self.problems.append('no feasible path: vacuous case')
            elif self.validated == 0:
                self.problems.append('no path of this case could be replayed concretely')
        return self

    def one_path(self, prefix):
        P.new_table()
        eng = E.Engine(self.solver, self.stats, prefix, self.opts)
        P.ENG = eng
        ctx = SymCtx(eng)
        self.ctx = ctx
        self.eng = eng
        crash = None
        unsup = None
        ended = False
        npsym.ACTIVE[0] = True
        try:
            self.fn(ctx, **self.params)
        except PathEnd:
            ended = True
        except Unsupported as e:
            unsup = e
            self.tb = traceback.format_exc()
        except Inconclusive as e:
            unsup = e
            self.tb = traceback.format_exc()
        except RecursionError as e:
            unsup = e
            self.tb = 'recursion'
        except Exception as e:
            # numpy swallows errors raised inside object loops: look for ours
            unsup2 = find_unsupported(e)
            if unsup2 is not None:
                unsup = unsup2
            else:
                crash = e
            self.tb = traceback.format_exc()
        finally:
            npsym.ACTIVE[0] = False
            ctx.cleanup()
        self.stats.paths += 1
        if ended:
            return eng
        if unsup is not None:
            self.on_unsupported(unsup)
            return eng
        if crash is not None:
            ctx.obs.append(Ob('unexpected exception', 'fail', formula=('const', True),
                              detail='%s: %s' % (type(crash).__name__, str(crash)[:300])))
        try:
            self.decide_path(crash)
        except Unsupported as e:
            self.tb = traceback.format_exc()
            self.on_unsupported(e)
        return eng

    # ---- concrete candidates
    def sample_env(self):
        env = {}
        for n, a in self.eng.inputs:
            lo, hi = self.ctx.ranges[n]
            env[n] = self.rng.uniform(lo, hi)
        return env

    def model_env(self, vals):
        env = {}
        fromexp = {}
        for a, v in vals.items():
            at = P.TAB.atoms[a]
            if at.kind == 'exp' and len(at.data) == 1 and v > 0:
                (b, e), = at.data
                if P.TAB.atoms[b].kind == 'var':
                    try:
                        fromexp[P.TAB.atoms[b].name] = math.log(v) ** (1.0 / float(e)) \
                            if math.log(v) > 0 or float(e) == 1 else math.log(v)
                    except Exception:
                        pass
            elif at.kind == 'log' and len(at.data.t) == 1:
                (m, c), = at.data.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and P.TAB.atoms[m[0][0]].kind == 'var':
                    if abs(v) < 50:
                        fromexp[P.TAB.atoms[m[0][0]].name] = math.exp(v)
        for n, a in self.eng.inputs:
            env[n] = vals.get(a)
            if env[n] is None:
                lo, hi = self.ctx.ranges[n]
                env[n] = self.rng.uniform(lo, hi)
        env2 = dict(env)
        env2.update({k: v for k, v in fromexp.items() if k in env})
        return env, env2

    def satisfies(self, env, formulas):
        cache = {}
        try:
            for f in formulas:
                if feval(f, env, cache) is not True:
                    return None
        except (OverflowError, ZeroDivisionError, Unsupported, ValueError):
            return None
        return cache

    def positive_ok(self, env):
        for n, a in self.eng.inputs:
            if P.TAB.atoms[a].positive and env[n] <= 0:
                return False
        return True

    def candidates(self, formulas, target=None, nrand=60, nmodel=True):
        """envs satisfying the path condition; target(env, cache) filters"""
        pc = self.eng.pc
        tried = 0

        def ok(env):
            if not self.positive_ok(env):
                return False
            c = self.satisfies(env, pc)
            if c is None:
                return False
            return target is None or target(env, c)
        for _ in range(nrand):
            env = self.sample_env()
            if ok(env):
                yield env
        if not nmodel:
            return
        boxes = [(Fraction(1, 20), 3), None]
        for box in boxes:
            for lem in (False, True):
                fs = pc + list(formulas)
                if lem:
                    fs = fs + lemmas(atoms_of(fs), 20)
                try:
                    r, vals = self.eng.query(fs, 6, model=True, box=box)
                except Unsupported:
                    continue
                if r != 'sat' or not vals:
                    continue
                e1, e2 = self.model_env(vals)
                for env in (e2, e1):
                    if ok(env):
                        yield env
                    for k in range(30):
                        sc = 10.0 ** self.rng.uniform(-4, 0)
                        env3 = {n: v + (self.rng.uniform(-1, 1) * sc if self.rng.random() < 0.5 else 0)
                                for n, v in env.items()}
                        if ok(env3):
                            yield env3

    def moderate(self, env):
        return all(abs(v) < 25 for v in env.values())

    # ---- deciding a path
    def decide_path(self, crash):
        eng, ctx = self.eng, self.ctx
        st = self.stats
        if os.environ.get('LR_DEBUG'):
            sys.stderr.write('path %d: %d obs, %d decisions, %d pc\n' % (st.paths, len(ctx.obs), len(eng.taken), len(eng.pc)))
        # witness of the path
        wit = None
        for env in self.candidates([], nrand=80):
            wit = env
            break
        if wit is None:
            fs = eng.pc
            r = eng.query(fs + lemmas(atoms_of(fs)), 20)
            if r == 'unsat':
                self.infeasible += 1
                return
        self.checked_paths += 1
        fails = []
        pend = []
        for ob in ctx.obs:
            if ob.kind == 'eq':
                for k, (l, r) in enumerate(ob.pairs):
                    pend.append((ob, k, l, r))
            elif ob.kind == 'true':
                st.obligations += 1
                if ob.formula == ('const', False):
                    st.trivial += 1
                    st.discharged += 1
                else:
                    self.decide_formula(ob, fails)
            else:
                st.obligations += 1
                fails.append((ob, ob.formula, None))
        st.obligations += len(pend)
        if pend:
            self.decide_eqs(pend, fails)
        bad_before = len(self.problems)
        for ob, f, pair in fails:
            self.refute(ob, f, pair)
            if self.violation or len(self.problems) >= 4:
                return
        if wit is not None:
            self.validate(wit)
        else:
            self.unwitnessed += 1

    def decide_formula(self, ob, fails):
        eng, st = self.eng, self.stats
        f = ob.formula
        r = eng.query(eng.pc + [f], self.opts.get('ob_timeout', 20))
        if r != 'unsat':
            fs = eng.pc + [f]
            r = eng.query(fs + lemmas(atoms_of(fs)), self.opts.get('ob_timeout', 20))
        if r == 'unsat':
            st.discharged += 1
            self.cross(eng.last_body)
            return
        fails.append((ob, f, None))

    def cross(self, body):
        if self.cvc5 is None or len(body) > 20000:
            return
        lines = self.cvc5.ask('(reset)\n(set-logic QF_NRA)\n%s\n(check-sat)' % body, 8)
        if not lines:
            return
        if lines[0].strip() == 'unsat':
            self.stats.crosschecked += 1
        elif lines[0].strip() == 'sat':
            self.stats.disagree += 1
            self.problems.append('cvc5 disagrees with z3 on an obligation')

    def decide_eqs(self, pend, fails):
        eng, st = self.eng, self.stats
        tm = self.opts.get('ob_timeout', 20)
        # normal-form differences first: most are identically zero
        todo = []
        batch = []
        size = 0
        for item in pend:
            ob, k, l, r = item
            st.maxterms = max(st.maxterms, len(l.t), len(r.t))
            d = l - r
            if not d.t:
                # equal normal forms: hand the two sides to the solver only
                # while that is cheap, otherwise the identity of the normal
                # forms is itself the verdict
                st.trivial += 1
                if len(l.t) <= 200:
                    batch.append((item, ('neq2', l, r)))
                else:
                    st.discharged += 1
                continue
            n, den = P.together(d)
            if not n.t:
                st.trivial += 1
                if len(l.t) + len(r.t) <= 60:
                    batch.append((item, ('not', ('eq', n))))
                else:
                    st.discharged += 1
                continue
            batch.append((item, ('not', ('eq', d))))
        chunk = []
        chunks = []
        w = 0
        for it in batch:
            n = len(it[0][2].t) + len(it[0][3].t)
            if chunk and (w + n > 400 or len(chunk) >= 60):
                chunks.append(chunk)
                chunk, w = [], 0
            chunk.append(it)
            w += n
        if chunk:
            chunks.append(chunk)
        for ch in chunks:
            f = ('or', tuple(x[1] for x in ch)) if len(ch) > 1 else ch[0][1]
            quick = 3 if len(ch) > 1 else 2
            # an obviously violated member makes the batch query pointless
            r = 'sat' if self.numerically_false(ch) else eng.query([f], quick)
            if r == 'unsat':
                st.discharged += len(ch)
                self.cross(eng.last_body)
                continue
            for (ob, k, l, rr), g in ch:
                if any(x[0] is ob for x in fails):
                    continue
                res = eng.query([g], 3)
                if res != 'unsat':
                    res = eng.query(eng.pc + [g], tm)
                if res != 'unsat' and not self.numerically_false([((ob, k, l, rr), g)]):
                    fs = eng.pc + [g]
                    res = eng.query(fs + lemmas(atoms_of(fs)), tm)
                if res == 'unsat':
                    st.discharged += 1
                    self.cross(eng.last_body)
                else:
                    fails.append((ob, g, (k, l, rr)))

    def numerically_false(self, ch):
        env = getattr(self, '_nenv', None)
        if env is None or self._nenv_for is not self.eng:
            env = None
            for e in self.candidates([], nrand=40, nmodel=False):
                env = e
                break
            self._nenv = env
            self._nenv_for = self.eng
            self._ncache = {}
        if env is None:
            return False
        for (ob, k, l, r), g in ch:
            a = P.evalf(l, env, self._ncache)
            b = P.evalf(r, env, self._ncache)
            if a == a and b == b and not close(a, b, 1e-5):
                return True
        return False

    # ---- refutation: find a reproducing input
    def refute(self, ob, f, pair):
        eng = self.eng
        # tolerance 0: nothing is computed, so nothing is rounded
        tol = max(ob.tol * 10, 1e-6) if ob.tol else 0

        def target(env, cache):
            if pair is not None:
                a = P.evalf(pair[1], env, cache)
                b = P.evalf(pair[2], env, cache)
                return a == a and b == b and not close(a, b, tol)
            r = feval(f, env, cache)
            return r is True
        n = 0
        for env in self.candidates([f], target, nrand=200):
            res = self.server.run(self.name, env)
            n += 1
            if res['status'] == 'assume':
                continue
            if self.is_violation(res) and (pair is None or not ob.tol or self.same_failure(ob, env, res)):
                self.report(ob, env, res)
                return
            if n >= 6:
                break
        if n == 0 and pair is not None and ob.tol:
            # not refutable numerically: equal up to rounding inside the box?
            k, l, r = pair
            d = l - r
            t = P.const(Fraction(1, 10 ** 7))
            g = ('or', (('lt', t - d), ('lt', t + d)))
            fs = eng.pc + [g]
            if eng.query(fs + lemmas(atoms_of(fs)), self.opts.get('ob_timeout', 20),
                         box=(Fraction(1, 20), 4)) == 'unsat':
                self.stats.discharged += 1
                return
        self.problems.append('%s: %s: %s; %d replays did not reproduce it (%s)' % (
            self.name, ob.label, 'not proved' if n == 0 else 'counterexample not reproduced',
            n, ob.detail or (('%s != %s' % (P.show(pair[1], 6), P.show(pair[2], 6))) if pair else P_show(f))))

    @staticmethod
    def is_violation(res):
        if res['status'] == 'exception':
            return True
        return res['status'] == 'ok' and any(not r[2] for r in res['recs'])

    @staticmethod
    def serious(res):
        """fails by more than rounding could explain"""
        if res['status'] == 'exception':
            return True
        for r in res['recs']:
            if r[2]:
                continue
            if r[1] != 'eq' or r[6] is None:
                return True
            i, a, b = r[6]
            if abs(a - b) > 1e-3 * (1 + max(abs(a), abs(b))) and abs(a - b) < 1e300:
                return True
        return False

    def same_failure(self, ob, env, res):
        """the replay fails where, and by what, the symbolic results say"""
        if self.serious(res):
            return True
        cache = {}
        for r in res['recs']:
            if not r[2] and r[0] == ob.label:
                i, a, b = r[6]
                if i < len(ob.pairs):
                    d = P.evalf(ob.pairs[i][0], env, cache) - P.evalf(ob.pairs[i][1], env, cache)
                    if abs(d - (a - b)) <= 0.5 * abs(a - b):
                        return True
        return False

    def confirmed(self, env, res):
        """a replay fails although nothing was refuted: a difference between
        the encoding and the real stack shows at other inputs of the path as
        well, rounding at ill-conditioned inputs does not"""
        ran = bad = 0
        for e in self.candidates([], nrand=60):
            if e == env or not self.moderate(e):
                continue
            r = self.server.run(self.name, e)
            if r['status'] == 'assume':
                continue
            ran += 1
            if self.is_violation(r):
                bad += 1
            else:
                self.good = e, r
            if ran >= 6:
                break
        if ran:
            return 2 * bad > ran or bad > 0 and self.serious(res)
        return self.serious(res)

    def report(self, ob, env, res):
        bad = [r for r in res['recs'] if not r[2]]
        what = ('%s: %s' % (bad[0][0], bad[0][4])) if bad else res.get('error', 'exception')
        self.violation = {'property': self.prop, 'case': self.name, 'params': repr(self.params),
                          'obligation': ob.label if ob is not None else 'witness replay',
                          'inputs': env, 'observed': what,
                          'all_failures': [[r[0], r[4]] for r in bad][:10]}

    # ---- witness validation
    def validate(self, env):
        prof = not self.functions
        res = self.server.run(self.name, env, profile=prof)
        for f in res.get('functions', ()):
            self.functions.add(f)
        if res['status'] == 'assume':
            self.unwitnessed += 1
            return
        if self.is_violation(res):
            self.good = None
            if self.moderate(env) and self.confirmed(env, res):
                self.report(None, env, res)
                return
            if self.good is None:
                self.problems.append('%s: witness replay failed at ill-conditioned inputs: %s' % (self.name, env))
                return
            env, res = self.good
            self.stats.ill += 1
        if res['status'] != 'ok':
            self.problems.append('%s: replay: %s' % (self.name, res['status']))
            return
        cache = {}
        recs = self.ctx.recs
        if len(recs) != len(res['recs']):
            self.problems.append('%s: replay made %d assertions, the symbolic path %d' %
                                 (self.name, len(res['recs']), len(recs)))
            return
        for (label, kind, got), r in zip(recs, res['recs']):
            if label != r[0]:
                self.problems.append('%s: replay took another path (%s / %s)' % (self.name, label, r[0]))
                return
            if kind != 'eq' or got is None:
                continue
            for i, (s, c) in enumerate(zip(got, r[3] or [])):
                v = s if type(s) is float else P.evalf(s, env, cache)
                if not close(v, c, max(r[5] * 10, 1e-8) if len(r) > 5 else 1e-6):
                    self.problems.append('%s: %s[%d]: the encoding says %r, the package %r at %s' %
                                         (self.name, label, i, v, c, env))
                    return
        self.validated += 1
        self.stats.traces += 1
        if len(self.samples) < 2:
            self.samples.append({'case': self.name, 'path_condition': [P_show(f) for f in self.eng.pc][:8],
                                 'witness': {k: round(v, 6) for k, v in sorted(env.items())[:12]},
                                 'assertions': [r[0] for r in recs][:12],
                                 'example_term': next((P.show(g[2][0], 6) for g in recs
                                                       if g[1] == 'eq' and g[2] and type(g[2][0]) is Sym
                                                       and not g[2][0].is_const()), None)})

    def on_unsupported(self, e):
        """the encoding cannot follow the code here: the path's inputs are
        still replayed, but the outcome without a violation is inconclusive"""
        n = 0
        if os.environ.get('LR_DEBUG'):
            sys.stderr.write(self.tb + '\n')
        try:
            for env in self.candidates([], nrand=30):
                res = self.server.run(self.name, env)
                if res['status'] == 'assume':
                    continue
                if self.is_violation(res) and self.moderate(env) and (self.serious(res) or self.confirmed(env, res)):
                    self.report(None, env, res)
                    return
                n += 1
                if n >= 4:
                    break
        except Unsupported:
            pass
        self.problems.append('%s: not encodable: %s: %s' % (self.name, type(e).__name__, str(e)[:300]))


def P_show(f):
    k = f[0]
    if k in ('lt', 'le', 'eq'):
        return '%s %s 0' % (P.show(f[1], 5), {'lt': '<', 'le': '<=', 'eq': '='}[k])
    if k == 'not':
        return 'not(%s)' % P_show(f[1])
    if k == 'const':
        return str(f[1])
    if k == 'neq2':
        return '%s != %s' % (P.show(f[1], 5), P.show(f[2], 5))
    return '(%s)' % (' %s ' % k).join(P_show(g) for g in f[1])


def find_unsupported(e, depth=0):
    while e is not None and depth < 10:
        if isinstance(e, (Unsupported, PathEnd, Inconclusive)):
            return e
        nxt = e.__cause__ or e.__context__
        e = nxt
        depth += 1
    return None
