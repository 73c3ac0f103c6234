"""C31 evaluations modify neither their arguments nor earlier results"""
import copy
from .convs import *
from .sens import setup, assume_posdef, coords_of
from .c14 import make_two, methods, setp, point, pairs
from . import c27

BOUNDS = dict(SIZES, calls='every evaluation method and stand-alone function of the package that takes or returns arrays, each called '
              'at two arbitrary points (arrays of 1..3 coordinates per axis)',
              histories='arguments compared after every call, results after every later call on the same object')
ASSUMPTIONS = ['optimizers, conjugate-gradient and Cholesky solvers are replaced by stubs that do not write into what they are given']


class Watch(object):
    """arrays that must keep their contents"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def __call__(self, name, a):
        if isinstance(a, (tuple, list)):
            for i, v in enumerate(a):
                self('%s[%d]' % (name, i), v)
        elif isinstance(a, dict):
            for k, v in a.items():
                self('%s[%s]' % (name, k), v)
        elif hasattr(a, 'toarray') or (a is not None and not isinstance(a, (str, bool)) and np.ndim(a) > 0):
            self.items.append((name, a, self.copy(a)))
        return a

    @staticmethod
    def copy(a):
        a = np.array(dense(a))
        return a.astype(float) if a.dtype == bool else a

    def check(self, label):
        for name, a, c in self.items:
            b = self.copy(a)
            if np.shape(b) != np.shape(c):
                self.ctx.eq('%s: shape of %s' % (label, name), np.shape(b), np.shape(c), 0)
            else:
                self.ctx.eq('%s: %s unchanged' % (label, name), b - c, np.zeros(np.shape(c)), 0)


def parameter(ctx, spec):
    w = Watch(ctx)
    p = spec.make(ctx)
    v = spec.legal(ctx, 'v')
    leaf = not isinstance(spec, Dict)
    if leaf:
        p.set(w('value set', np.array(v)))
        w('value read', p.get())
    else:
        spec.set_legal(ctx, p, 'v')
    w.check('set')
    w('flat vector read', p.get_vector())
    w('unconstrained vector read', p.get_free())
    x, y = w('unconstrained vector', ctx.vec('x', spec.nfree, lo=-1.0, hi=1.0)), w('unconstrained vector 2', ctx.vec('y', spec.nfree, lo=-1.0, hi=1.0))
    q = spec.make(ctx)
    q.set_free(y)
    z = w('flat vector', np.array(q.get_vector()))
    g, H = w('gradient', ctx.vec('g', spec.nvec)), w('Hessian', ctx.symmetric('H', spec.nvec))

    def step(label, f):
        r = f()
        w.check(label)
        if r is not None:
            w(label, r)
        if leaf:
            w('value after ' + label, p.get())
    step('set_vector first', lambda: p.set_vector(z))
    if leaf:
        step('set after set_vector', lambda: p.set(w('value set 2', np.array(spec.legal(ctx, 't')))))
    step('set_free', lambda: p.set_free(x))
    step('free_to_vector', lambda: p.free_to_vector(y))
    step('free_to_vector_jac', lambda: p.free_to_vector_jac(x))
    step('free_to_vector_hess', lambda: p.free_to_vector_hess(x))
    step('set_vector', lambda: p.set_vector(z))
    step('set_vector again', lambda: p.set_vector(np.array(z)))
    step('get_vector', lambda: p.get_vector())
    step('get_free', lambda: p.get_free())
    step('free_to_vector_jac again', lambda: p.free_to_vector_jac(y))
    step('free_to_vector_hess again', lambda: p.free_to_vector_hess(y))
    step('set_free again', lambda: p.set_free(y))
    conv = ctx.mod('Parameters').convert_vector_to_free_hessian
    if spec.nvec < 7:
        step('convert_vector_to_free_hessian', lambda: conv(p, x, g, H))
        import scipy.sparse as sp
        Hs = w('sparse Hessian', sp.csr_matrix(ctx.symmetric('Hs', spec.nvec, positive=True)))
        step('convert_vector_to_free_hessian sparse', lambda: conv(p, y, g, Hs))
    if leaf:
        step('set again', lambda: p.set(spec.legal(ctx, 'u')))


def objective(ctx, spec, coords):
    w = Watch(ctx)
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    free = coords == 'free'
    x, y = w('point', point(ctx, spec, 'x', free)), w('point 2', point(ctx, spec, 'z', free))
    n = len(x)
    v, e = w('vector', ctx.vec('w', n)), w('extra', ctx.vec('extra', n))
    obj = ctx.mod('SparseObjectives').Objective(p, lambda s=1.0, t=0.0: smooth(spec, p) * anp.sum(s ** 2) + anp.sum(t))
    for rnd, z in (('', x), (' again', y)):
        for k in ('', '_grad', '_hessian', '_jacobian'):
            w(k + rnd, getattr(obj, 'fun_%s%s' % (coords, k))(z))
            w.check((k or 'value') + rnd)
            if not rnd:
                w(k + ' with arguments', getattr(obj, 'fun_%s%s' % (coords, k))(z, e, t=v))
                w.check((k or 'value') + ' with arguments')
        w('hvp' + rnd, getattr(obj, 'fun_%s_hvp' % coords)(z, v))
        w.check('hvp' + rnd)
    if free:
        obj.fun_free(x, verbose=True)
        w('logged', [obj.logger.x, obj.logger.last_x, obj.logger.x_array[0]])
        obj.fun_free(y, verbose=True)
        w.check('verbose')


def conditioned(ctx, spec, how):
    import scipy.sparse as sp
    w = Watch(ctx)
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'held')
    n = spec.nfree
    A = ctx.mat('A', n, n)
    ctx.assume(det_small(A) != 0)
    x, y, v = w('point', ctx.vec('x', n, lo=-0.8, hi=0.8)), w('point 2', ctx.vec('y', n, lo=-0.8, hi=0.8)), w('vector', ctx.vec('w', n))
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: smooth(spec, p))
    obj.preconditioner = w('preconditioner', np.array(A) if how == 'dense' else sp.csr_matrix(A))
    for rnd, z in (('', x), (' again', y)):
        for k in ('', '_grad', '_hessian'):
            w(k + rnd, getattr(obj, 'fun_free%s_cond' % k)(z))
            w.check((k or 'value') + rnd)
        w('hvp' + rnd, obj.fun_free_hvp_cond(z, v))
        w.check('hvp' + rnd)
        w('point of' + rnd, obj.get_conditioned_x(z))
        w.check('get_conditioned_x' + rnd)
        if n < 3:
            w('uncondition' + rnd, obj.uncondition_x(z))
            w.check('uncondition_x' + rnd)


def two(ctx, s1, s2, f1, f2):
    w = Watch(ctx)
    p1, p2 = make_two(ctx, s1, s2)
    s1.set_legal(ctx, p1, 'h1')
    s2.set_legal(ctx, p2, 'h2')
    pts = [(w('first', point(ctx, s1, 'x', f1)), w('second', point(ctx, s2, 'y', f2))),
           (w('first 2', point(ctx, s1, 'xx', f1)), w('second 2', point(ctx, s2, 'yy', f2)))]
    obj = ctx.mod('SparseObjectives').TwoParameterObjective(p1, p2, lambda: smooth(s1, p1) * smooth(s2, p2))
    h12, h21 = methods(obj, f1, f2)
    ms = [('value', lambda a, b: obj.eval_fun(a, b, f1, f2)), ('first gradient', lambda a, b: obj.fun_grad1(a, b, f1, f2)),
          ('second gradient', lambda a, b: obj.fun_grad2(a, b, f1, f2)), ('mixed', h12)]
    if h21 is not None:
        ms.append(('transposed', h21))
    for rnd, (a, b) in zip(('', ' again'), pts):
        for label, m in ms:
            w(label + rnd, m(a, b))
            w.check(label + rnd)


def convert(ctx, conv, fin, fout):
    name, si, so, f = conv
    w = Watch(ctx)
    pi, po = si.make(ctx, name='in'), so.make(ctx, name='out')
    si.set_legal(ctx, pi, 'hi')
    so.set_legal(ctx, po, 'ho')
    PC = ctx.mod('SparseObjectives').ParameterConverter(pi, po, lambda: f(ctx, pi, po))
    a, b = 'free' if fin else 'vec', 'free' if fout else 'vec'
    for rnd, nm in (('', 'x'), (' again', 'x2')):
        if fin:
            x = ctx.vec(nm, si.nfree, lo=-1.0, hi=1.0)
        else:
            q = si.make(ctx)
            si.set_legal(ctx, q, nm)
            x = np.array(q.get_vector())
        w('point' + rnd, x)
        w('value' + rnd, getattr(PC, 'converter_%s_to_%s' % (a, b))(x))
        w.check('value' + rnd)
        w('Jacobian' + rnd, getattr(PC, '%s_to_%s_jacobian' % (a, b))(x))
        w.check('Jacobian' + rnd)


def sens_setup(ctx, si, sh, fin, fh):
    pi, ph, x, h, a, b, at = setup(ctx, si, sh, fin, fh, 'quadratic', 'free' if fin else 'vector')
    nat = 'free' if fin else 'vector'
    full = lambda: a(coords_of(pi, nat)) + b(coords_of(pi, nat), ph.get_vector())
    n, k = len(x), len(h)
    ffull = at(lambda v, e: a(v) + b(v, e))
    return pi, ph, x, h, full, ffull, n, k


def linear(ctx, si, sh, fin, fh, given):
    w = Watch(ctx)
    pi, ph, x, h, full, ffull, n, k = sens_setup(ctx, si, sh, fin, fh)
    w('input', x), w('hyper', h)
    kw = dict(input_is_free=fin, hyper_is_free=fh)
    if given:
        kw['hess0'] = w('Hessian', ctx.posdef('Hg', n))
    else:
        assume_posdef(ctx, np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (n, n)))
    s = ctx.mod('ModelSensitivity').ParametricSensitivityLinearApproximation(full, pi, ph, x, h, **kw)
    w.check('construction')
    w('derivative', s.get_dinput_dhyper())
    h1, h2 = w('new hyper', ctx.vec('h1', k)), w('new hyper 2', ctx.vec('h2', k))
    w('prediction', s.predict_input_par_from_hyperparameters(h1))
    w.check('prediction')
    w('prediction 2', s.predict_input_par_from_hyperparameters(h2))
    w.check('second prediction')
    x2, g2 = w('new base', point(ctx, si, 'x2', fin)), w('new base hyper', point(ctx, sh, 'e2', fh))
    s.set_base_values(x2, g2, hess0=w('Hessian 2', ctx.posdef('Hn', n)))
    w.check('new base values')
    s.set_par_to_base_values()
    w.check('parameters set')
    w('prediction 3', s.predict_input_par_from_hyperparameters(h1))
    w.check('third prediction')


def taylor(ctx, si, sh, fin, fh, given, order):
    w = Watch(ctx)
    pi, ph, x, h, full, ffull, n, k = sens_setup(ctx, si, sh, fin, fh)
    w('input', x), w('hyper', h)
    H = np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (n, n))
    assume_posdef(ctx, H)
    kw = {}
    if given:
        kw['hess0'] = w('Hessian', np.array(H))
    t = ctx.mod('ModelSensitivity').ParametricSensitivityTaylorExpansion(full, pi, ph, x, h, order, input_is_free=fin, hyper_is_free=fh, **kw)
    w.check('construction')
    d1, d2 = w('direction', ctx.vec('d1', k)), w('direction 2', ctx.vec('d2', k))
    for rnd, d in (('', d1), (' again', d2)):
        for o in range(1, order + 1):
            w('derivative %d%s' % (o, rnd), t.evaluate_dkinput_dhyperk(d, o))
            w.check('derivative %d%s' % (o, rnd))
        w('series' + rnd, t.evaluate_taylor_series(d))
        w('series offset' + rnd, t.evaluate_taylor_series(d, add_offset=False, max_order=1))
        w.check('series' + rnd)
    t.set_par_to_base_values()
    w.check('parameters set')


def older(ctx, given):
    w = Watch(ctx)
    si, sh, so = Box('vector', (2,), 'lower'), Box('vector', (2,), 'none'), Box('vector', (2,), 'none')
    pi, ph, x, h, full, ffull, n, k = sens_setup(ctx, si, sh, True, False)
    po = so.make(ctx, name='out')
    ph.set_vector(h)
    w('input', x), w('hyper', h)

    def conv():
        v = pi.get_vector()
        po.set_vector(anp.array([v[0] * v[1], anp.sum(v ** 2)]))
    kw = {}
    if given:
        kw['objective_hessian'] = w('Hessian', ctx.posdef('Hg', n))
    else:
        assume_posdef(ctx, np.reshape(ctx.diff2(lambda u: ffull(u, h), x), (n, n)))
    s = ctx.mod('SparseObjectives').ParametricSensitivity(full, pi, po, ph, conv, optimal_input_par=x, **kw)
    w.check('construction')
    w('derivatives', [s.get_dinput_dhyper(), s.get_doutput_dhyper()])
    h1, h2 = w('new hyper', ctx.vec('h1', k)), w('new hyper 2', ctx.vec('h2', k))
    for rnd, g in (('', h1), (' again', h2)):
        w('input prediction' + rnd, s.predict_input_par_from_hyperparameters(g))
        w.check('input prediction' + rnd)
        w('linear prediction' + rnd, s.predict_output_par_from_hyperparameters(g, True))
        w.check('linear prediction' + rnd)
        w('nonlinear prediction' + rnd, s.predict_output_par_from_hyperparameters(g, False))
        w.check('nonlinear prediction' + rnd)
    x2 = w('new optimum', ctx.vec('x2', n, lo=-1.0, hi=1.0))
    s.set_optimal_input_par(x2, objective_hessian=w('Hessian 2', ctx.posdef('Hn', n)))
    w.check('new optimum')


# ---------------------------------------------------------------- optimization

def roots(ctx, n, limited, skew=False):
    from .c24 import frame
    w = Watch(ctx)
    opt = ctx.mod('OptimizationUtils')
    U = frame(ctx, 'rot', n)
    kw = dict(ev_min=ctx.reals('lo', positive=True)) if limited else {}
    out = []
    p = ctx.vb.VectorParam('p', n)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: anp.sum(p.get() ** 2))
    for nm in ('d', 'e'):
        d = ctx.vec(nm, n, positive=True)
        H = np.dot(U, np.dot(np.diag(d), U.T))
        if n == 2 and skew:
            k = ctx.reals('skew' + nm)
            H = H + np.array([[0.0, k], [-k, 0.0]])
        H = w('Hessian ' + nm, H)
        w('result ' + nm, opt.get_sym_matrix_inv_sqrt(H, **kw))
        w.check('inverse square root ' + nm)
        w('installed ' + nm, opt.set_objective_preconditioner(obj, hessian=H, **kw))
        w('preconditioner ' + nm, obj.preconditioner)
        w.check('preconditioner ' + nm)
    x = w('point', ctx.vec('x', n))
    obj.fun_free_cond(x), obj.fun_free_grad_cond(x), obj.fun_free_hessian_cond(x), obj.fun_free_hvp_cond(x, x)
    w.check('rescaled objective')


class Result(object):
    pass


def wrappers(ctx, which, n, precondition):
    import scipy.optimize
    w = Watch(ctx)
    opt = ctx.mod('OptimizationUtils')
    p = ctx.vb.VectorParam('p', n, lb=0.0)
    obj = ctx.mod('SparseObjectives').Objective(p, lambda: anp.sum(p.get() ** 2))
    best = [ctx.vec('best%d' % i, n, lo=-1.0, hi=1.0) for i in range(2)]
    z, v = w('trial point', ctx.vec('z', n, lo=-1.0, hi=1.0)), w('direction', ctx.vec('v', n))

    def minimize(fun, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, **k):
        w('start given to the optimizer', x0)
        for y in (x0, z):
            fun(y), jac(y)
            if hess is not None:
                hess(y)
            if hessp is not None:
                hessp(y, v)
            w.check('evaluations in the optimizer')
        r = Result()
        r.x = best.pop()
        w('optimum', r.x)
        r.success = True
        return r
    ctx.stub(scipy.optimize, 'minimize', minimize)
    if hasattr(opt, 'minimize'):
        ctx.stub(opt, 'minimize', minimize)
    if precondition:
        P = ctx.mat('P', n, n)
        ctx.assume(det_small(P) != 0)
        obj.preconditioner = w('preconditioner', np.array(P))
    f = opt.minimize_objective_trust_ncg if which == 'trust' else opt.minimize_objective_bfgs
    for i in range(2):
        x0 = w('start %d' % i, ctx.vec('x%d' % i, n, lo=-1.0, hi=1.0))
        x, res = f(obj, x0, precondition=precondition, disp=False)
        w('returned point %d' % i, x)
        w('returned optimum %d' % i, res.x)
        w.check('run %d' % i)


def repeated(ctx, n, keep, initial):
    from .c26 import Table
    w = Watch(ctx)
    opt = ctx.mod('OptimizationUtils')
    runs = 2
    pts = [ctx.vec('x%d' % i, n) for i in range(runs + 1 + (1 if initial else 0))]
    if n > 1:
        for i in range(1, len(pts)):
            for j in range(n):
                ctx.assume(pts[i][j] > pts[i - 1][j] + 1)
    tab = Table(ctx, pts, n)
    k = [0]

    def step(x):
        w.check('before run %d' % k[0])
        w('point given to run %d' % k[0], x)
        k[0] += 1
        tab.seen = max(tab.seen, k[0])
        return w('point of run %d' % k[0], np.array(pts[k[0]])), ('result', k[0])
    x0 = w('start', np.array(pts[0]))
    kw = dict(initial_optimization_fun=step) if initial else {}
    if keep:
        kw['keep_intermediate_optimizations'] = True
    out = opt.repeatedly_optimize(tab, step, x0, max_iter=runs, **kw)
    w.check('afterwards')


def cg(ctx, n, via):
    CG = ctx.mod('ConjugateGradient')
    w = Watch(ctx)
    ans = []

    def answer(a):
        for j in range(2):
            a['mv'](w('operand', ctx.vec('operand%d' % j, n)))
        w.check('operator')
        ans.append(w('solution', ctx.vec('ans%d' % len(ans), n)))
        return ans[-1]
    c27.stubs(ctx, CG, answer)
    f, x, H = c27.product(ctx, n, via)
    s = CG.ConjugateGradientSolver(f, w('base point', x))
    b, b2, st = w('right-hand side', ctx.vec('b', n)), w('right-hand side 2', ctx.vec('b2', n)), w('start', ctx.vec('start', n))
    s.preconditioner = w('preconditioner', ctx.mat('M', n, n))
    w('answer', s.get_hinv_vec(b)[0])
    w.check('get_hinv_vec')
    w('answer 2', s.get_hinv_vec(b2, x0=st)[0])
    w.check('get_hinv_vec with a start')
    masks = CG.get_masks(n, 1) if n > 1 else [np.ones(1, dtype=bool)]
    w('masks', list(masks))
    s.get_hinv_vec_subsets(b, masks)
    w.check('get_hinv_vec_subsets')
    w('recorded vectors', list(s.vecs))
    w('recorded solutions', list(s.hinv_vecs))
    s.get_hinv_vec_subsets(b2, masks)
    w.check('get_hinv_vec_subsets again')
    for mask in masks:
        s.get_hinv_vec_subsets(b, [mask])
        w.check('get_hinv_vec_subsets, one mask')
    s.get_hinv_vec_subsets(b, [])
    w.check('get_hinv_vec_subsets, no mask')


# ------------------------------------------------------- stand-alone functions

def functions():
    """(name, module, call on the module with arrays made by ctx)"""
    P = dict(positive=True)
    out = []

    def add(name, mod, mk):
        out.append((name, mod, mk))
    EF, MD, MP, SX, RG, SO, PR = ('ExponentialFamilies', 'Modeling', 'MatrixParameters', 'SimplexParams', 'regression_utils',
                                  'SparseObjectives', 'Parameters')
    pos = lambda c, t, *s: c.reals(t, s, positive=True)
    any_ = lambda c, t, *s: c.reals(t, s)
    simplex = lambda c, t, *s: np.array([c.simplex_row('%s%d' % (t, i), s[-1]) for i in range(s[0])])
    add('multinoulli_entropy', EF, lambda c: [simplex(c, 'p', 2, 2)])
    add('univariate_normal_entropy', EF, lambda c: [pos(c, 'i', 2)])
    add('multivariate_normal_entropy', EF, lambda c: [c.posdef('i', 2)])
    add('gamma_entropy', EF, lambda c: [pos(c, 's', 2), pos(c, 'r', 2)])
    add('dirichlet_entropy', EF, lambda c: [pos(c, 'a', 3)])
    add('dirichlet_entropy', EF, lambda c: [pos(c, 'a', 3, 2)])
    add('beta_entropy', EF, lambda c: [pos(c, 't', 2, 2)])
    add('wishart_entropy', EF, lambda c: [2 + pos(c, 'df', 1)[0], c.posdef('v', 2)])
    add('e_log_det_wishart', EF, lambda c: [2 + pos(c, 'df', 1)[0], c.posdef('v', 2)])
    add('e_log_inv_wishart_diag', EF, lambda c: [3 + pos(c, 'df', 1)[0], c.posdef('v', 2)])
    add('expected_ljk_prior', EF, lambda c: [pos(c, 'l', 1)[0], 3 + pos(c, 'df', 1)[0], c.posdef('v', 2)])
    add('get_e_lognormal', EF, lambda c: [any_(c, 'm', 2), pos(c, 's', 2)])
    add('get_var_lognormal', EF, lambda c: [any_(c, 'm', 2), pos(c, 's', 2)])
    add('get_e_log_gamma', EF, lambda c: [pos(c, 's', 2), pos(c, 'r', 2)])
    add('get_e_dirichlet', EF, lambda c: [pos(c, 'a', 3)])
    add('get_e_dirichlet', EF, lambda c: [pos(c, 'a', 2, 2)])
    add('get_e_log_dirichlet', EF, lambda c: [pos(c, 'a', 3)])
    add('get_e_log_dirichlet', EF, lambda c: [pos(c, 'a', 2, 2)])
    add('get_e_fun_normal', EF, lambda c: [any_(c, 'm', 2), pos(c, 'i', 2), any_(c, 'gx', 2), any_(c, 'gw', 2), lambda z: z ** 2])
    add('get_e_logitnormal', EF, lambda c: [any_(c, 'm', 2), pos(c, 'i', 2), any_(c, 'gx', 2), any_(c, 'gw', 2)])
    add('get_uvn_from_natural_parameters', EF, lambda c: [any_(c, 'e', 2), -pos(c, 'e2', 2)])
    add('mvn_prior', EF, lambda c: [any_(c, 'm', 2), c.posdef('i', 2), any_(c, 'e', 2), c.posdef('v', 2)])
    add('uvn_prior', EF, lambda c: [any_(c, 'm', 2), pos(c, 'i', 2), any_(c, 'e', 2), pos(c, 'v', 2)])
    add('gamma_prior', EF, lambda c: [pos(c, 's', 2), pos(c, 'r', 2), pos(c, 'e', 2), any_(c, 'l', 2)])
    add('exponential_prior', EF, lambda c: [pos(c, 'l', 2), pos(c, 'e', 2)])
    add('dirichlet_prior', EF, lambda c: [pos(c, 'a', 3), any_(c, 'l', 3)])
    add('get_e_logistic_term', MD, lambda c: [any_(c, 'y', 2), any_(c, 'm', 2), pos(c, 's', 2), any_(c, 'd', 2)])
    add('get_e_logistic_term_guass_hermite', MD, lambda c: [any_(c, 'm', 2), pos(c, 's', 2), any_(c, 'gx', 2), any_(c, 'gw', 2)])
    add('get_e_logistic_term_guass_hermite', MD, lambda c: [any_(c, 'm', 2, 1), pos(c, 's', 2, 1), any_(c, 'gx', 2), any_(c, 'gw', 2), False])
    add('univariate_normal_log_prob', MD, lambda c: [any_(c, 'u', 2), any_(c, 'm', 2), pos(c, 'i', 2)])
    add('vectorize_ld_matrix', MP, lambda c: [any_(c, 'm', 3, 3)])
    add('unvectorize_ld_matrix', MP, lambda c: [any_(c, 'v', 6)])
    add('exp_matrix_diagonal', MP, lambda c: [any_(c, 'm', 2, 2)])
    add('log_matrix_diagonal', MP, lambda c: [pos(c, 'm', 2, 2)])
    add('pack_posdef_matrix', MP, lambda c: [c.posdef('m', 2)])
    add('unpack_posdef_matrix', MP, lambda c: [any_(c, 'v', 3)])
    add('unvectorize_symmetric_matrix', MP, lambda c: [any_(c, 'v', 6)])
    add('pos_def_matrix_free_to_vector', MP, lambda c: [any_(c, 'v', 3)])
    add('pos_def_matrix_free_to_vector_jac', MP, lambda c: [any_(c, 'v', 3)])
    add('pos_def_matrix_free_to_vector_hess', MP, lambda c: [any_(c, 'v', 3)])
    add('constrain_simplex_matrix', SX, lambda c: [any_(c, 'm', 2, 2)])
    add('unconstrain_simplex_matrix', SX, lambda c: [simplex(c, 'm', 2, 3)])
    add('constrain_simplex_vector', SX, lambda c: [any_(c, 'm', 2)])
    add('constrain_grad_from_moment', SX, lambda c: [simplex(c, 'm', 1, 3)[0]])
    add('constrain_hess_from_moment', SX, lambda c: [simplex(c, 'm', 1, 3)[0]])
    add('mat_mul_last2dims', RG, lambda c: [any_(c, 'a', 2, 2, 3), any_(c, 'b', 2, 2, 1)])
    add('matvec_mul_last2dims', RG, lambda c: [any_(c, 'a', 2, 2, 3), any_(c, 'b', 2, 1, 2)])
    add('get_nat_params_from_likelihood', RG, lambda c: [any_(c, 'y', 3, 2), any_(c, 'x', 2, 2), pos(c, 'i', 1)[0]])
    add('get_nat_params_from_likelihood', RG, lambda c: [any_(c, 'y', 2), any_(c, 'x', 2, 2), c.posdef('i', 2)])
    add('get_nat_params_from_prior', RG, lambda c: [any_(c, 'm', 2), c.posdef('i', 2)])
    add('get_mvn_from_nat_params', RG, lambda c: [any_(c, 'm', 2), -c.posdef('i', 2)])
    add('get_regression_coefficients', RG, lambda c: [any_(c, 'y', 2), c.chol('x', 2), pos(c, 'i', 1)[0]])
    add('get_posterior_regression_coefficients', RG, lambda c: [any_(c, 'y', 2), c.chol('x', 2), pos(c, 'i', 1)[0], any_(c, 'm', 2), c.posdef('j', 2)])
    add('get_sparse_sub_matrix', SO, lambda c: [pos(c, 'm', 2, 2), np.array([2, 0]), np.array([0, 1]), 3, 3])
    add('get_sparse_sub_hessian', SO, lambda c: [pos(c, 'm', 2, 2), np.array([2, 0]), 3])
    add('pack_csr_matrix', SO, lambda c: [csr(pos(c, 'm', 2, 2))])
    add('safe_matmul', SO, lambda c: [pos(c, 'm', 2, 2), pos(c, 'n', 2, 2)])
    add('safe_matmul', SO, lambda c: [csr(pos(c, 'm', 2, 2)), pos(c, 'n', 2)])
    add('compress', SO, lambda c: [pos(c, 'm', 3, 1)])
    add('offset_sparse_matrix', PR, lambda c: [coo(pos(c, 'm', 2, 2)), (1, 0), (3, 4)])
    add('unconstrain_array', PR, lambda c: [pos(c, 'v', 3), 0.0, INF])
    add('unconstrain_array', PR, lambda c: [pos(c, 'v', 3), -1.0, INF])
    add('unconstrain_array', PR, lambda c: [any_(c, 'v', 3), -INF, INF])
    add('constrain', PR, lambda c: [any_(c, 'v', 3), -1.0, 2.0])
    add('constrain', PR, lambda c: [any_(c, 'v', 3), 1.0, INF])
    add('constrain', PR, lambda c: [any_(c, 'v', 3), -INF, 2.0])
    return out


def csr(m):
    import scipy.sparse as sp
    return sp.csr_matrix(m)


def coo(m):
    import scipy.sparse as sp
    return sp.coo_matrix(m)


class Tagged(object):
    """second set of inputs under other names"""

    def __init__(self, ctx, tag):
        self.ctx, self.tag = ctx, tag

    def __getattr__(self, k):
        f = getattr(self.ctx, k)
        return lambda name, *a, **kw: f(self.tag + name, *a, **kw)


def function(ctx, i):
    name, mod, mk = functions()[i]
    f = getattr(ctx.mod(mod), name)
    w = Watch(ctx)
    for tag in ('', 'second '):
        args = mk(Tagged(ctx, tag))
        for j, a in enumerate(args):
            if not callable(a):
                w('%sargument %d' % (tag, j), a)
        w(tag + 'result', f(*args))
        w.check(tag + 'call')


def families(ctx, i):
    spec = family_specs('quick')[i]
    w = Watch(ctx)
    p = spec.make(ctx)
    spec.set_legal(ctx, p, 'v')
    w('held', [s.held(p[n]) for n, s in spec.members])
    w('stored', [p[n].get() for n, s in spec.members])
    # the Wishart inverse needs two degrees more
    if 'Wishart' in spec.name:
        p['df'].set(p['df'].get() + 3)
        w.items = []
        w('stored', [p[n].get() for n, s in spec.members])
    names = [m for m in dir(type(p)) if m.startswith('e') or m in ('var', 'cov', 'info', 'mean')]
    got = 0
    lk = ctx.reals('lkj', positive=True)
    for rnd in ('', ' again'):
        for m in names:
            f = getattr(p, m)
            if callable(f):
                w(m + rnd, f(lk) if 'lkj' in m else f())
                w.check(m + rnd)
                got += 1
    ctx.true('methods found', got > 0)


def logger(ctx):
    SO = ctx.mod('SparseObjectives')
    w = Watch(ctx)
    lg = SO.Logger()
    lg.callback = lambda l: None
    for i in range(3):
        x = w('point %d' % i, ctx.vec('x%d' % i, 2))
        if i:
            for j in range(2):
                ctx.assume(x[j] > w.items[-2][1][j])
        lg.log(ctx.reals('v%d' % i), x)
        w.check('evaluation %d' % i)


def cases(tier):
    out = []
    for s in base_specs('quick') + subspace_specs('quick') + [plain_dict(), nested_dict()] + (family_specs(tier) if tier != 'quick' else []):
        if s.nvec > 12:
            continue
        out.append(('parameter %s' % s, parameter, dict(spec=s)))
    for s in obj_specs(tier):
        if s.nvec > 8 and tier == 'quick':
            continue
        for coords in ('free', 'vector'):
            out.append(('objective %s %s' % (s, coords), objective, dict(spec=s, coords=coords)))
    for s in (Box('scalar', (1,), 'lower'), Box('vector', (2,), 'both'), Simplex((1, 3)), PosDef(2, True)):
        for how in ('dense', 'sparse'):
            out.append(('conditioned %s %s' % (s, how), conditioned, dict(spec=s, how=how)))
    for s1, s2 in pairs('quick'):
        for f1 in (True, False):
            for f2 in (True, False):
                out.append(('two %s x %s %s %s' % (s1, s2, f1, f2), two, dict(s1=s1, s2=s2, f1=f1, f2=f2)))
    for c in conversions(tier):
        for fin in (True, False):
            for fout in (True, False):
                out.append(('convert %s %s %s' % (c[0], fin, fout), convert, dict(conv=c, fin=fin, fout=fout)))
    for si in (Box('scalar', (1,), 'lower'), Box('vector', (2,), 'lower'), Box('vector', (2,), 'none'), Simplex((1, 3))):
        for sh in (Box('scalar', (1,), 'none'), Box('vector', (2,), 'upper')):
            for fin, fh in ((True, False), (True, True), (False, False), (False, True)):
                if isinstance(si, Simplex) and not fin:
                    continue
                for given in (True, False):
                    out.append(('linear %s %s %s %s %s' % (si, sh, fin, fh, given), linear, dict(si=si, sh=sh, fin=fin, fh=fh, given=given)))
                    if si.nvec + sh.nvec < 4:
                        out.append(('taylor %s %s %s %s %s' % (si, sh, fin, fh, given), taylor,
                                    dict(si=si, sh=sh, fin=fin, fh=fh, given=given, order=3 if tier != 'quick' else 2)))
    for given in (True, False):
        out.append(('older %s' % given, older, dict(given=given)))
    for n in (1, 2):
        for lim in (False, True):
            out.append(('roots %d %s' % (n, lim), roots, dict(n=n, limited=lim)))
            if n == 2:
                out.append(('roots %d %s not symmetric' % (n, lim), roots, dict(n=n, limited=lim, skew=True)))
        for which in ('trust', 'bfgs'):
            for pre in (False, True):
                out.append(('wrapper %s %d %s' % (which, n, pre), wrappers, dict(which=which, n=n, precondition=pre)))
        for keep in (False, True):
            for ini in (False, True):
                out.append(('repeated %d %s %s' % (n, keep, ini), repeated, dict(n=n, keep=keep, initial=ini)))
    for n in (1, 2, 3):
        for via in ('function', 'objective'):
            out.append(('cg %d %s' % (n, via), cg, dict(n=n, via=via)))
    for i, f in enumerate(functions()):
        out.append(('function %s %d' % (f[0], i), function, dict(i=i)))
    for i, s in enumerate(family_specs('quick')):
        out.append(('family %s' % s, families, dict(i=i)))
    out.append(('logger', logger, {}))
    return out
