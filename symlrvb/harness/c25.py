"""C25 optimizer wrappers"""
import autograd.numpy as anp
from .common import *
from .objfun import quad_coef, quad

BOUNDS = {'sizes': '1..2 coordinates (also 3), vectors, positive-definite matrices and bounded vectors as parameters',
          'values': 'all start points, all non-singular (also non-symmetric) preconditioners, all points returned by the optimizer, all '
                    'tolerances and iteration limits, quadratics and quartics with symbolic coefficients'}
ASSUMPTIONS = ['scipy.optimize.minimize is replaced by a stub that evaluates what it is given at arbitrary points and returns an '
               'arbitrary point']


class Result(object):
    def __init__(self, x):
        self.x = x
        self.success = True


def method_of(which):
    return {'trust': 'trust-ncg', 'bfgs': 'BFGS'}[which]


def start_specs(tier):
    out = [('vector', 1), ('vector', 2), ('bounded', 2), ('posdef', 1)]
    if tier != 'quick':
        out += [('vector', 3), ('posdef', 2)]
    return out


def make(ctx, kind, n):
    vb = ctx.vb
    if kind == 'vector':
        p = vb.VectorParam('p', n)
        return p, n
    if kind == 'bounded':
        p = vb.VectorParam('p', n, lb=0.0)
        return p, n
    p = vb.PosDefMatrixParam('p', n)
    return p, n * (n + 1) // 2


def wrapper(ctx, which, kind, n, precondition, fkind):
    opt, SO = ctx.mod('OptimizationUtils'), ctx.mod('SparseObjectives')
    import scipy.optimize
    p, m = make(ctx, kind, n)
    coef = quad_coef(ctx, 'q', m)
    s = ctx.reals('s')

    def fun():
        v = p.get_vector()
        out = quad(coef, v)
        if fkind == 'quartic':
            out = out + s * anp.sum(v ** 3) * v[0]
        return out
    obj = SO.Objective(p, fun)
    if precondition:
        P = ctx.mat('P', m, m)
        ctx.assume(det_small(P) != 0)
        obj.preconditioner = np.array(P)
    else:
        P = np.eye(m)
        # a preconditioner that is not asked for is not used
        obj.preconditioner = ctx.mat('unused', m, m)
    plain = SO.Objective(p, fun)
    f = lambda x: plain.fun_free(np.dot(P, x))
    x0 = ctx.vec('x', m, lo=-1.0, hi=1.0)
    z = [ctx.vec('z%d' % i, m, lo=-1.0, hi=1.0) for i in range(2)]
    dirn = ctx.vec('v', m)
    best = ctx.vec('best', m, lo=-1.0, hi=1.0)
    grads = [np.reshape(ctx.diff1(f, y), (m,)) for y in z]
    hess = [np.reshape(ctx.diff2(f, y), (m, m)) for y in z]
    values = [f(y) for y in z]
    gtol = ctx.reals('gtol', positive=True)
    maxiter = ctx.reals('maxiter', positive=True)
    seen = []
    result = Result(np.array(best))

    def minimize(fun, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        seen.append(dict(fun=fun, x0=x0, args=args, method=method, jac=jac, hess=hess, hessp=hessp, bounds=bounds,
                         constraints=constraints, tol=tol, options=options or {}))
        record(seen[-1])
        return result

    def record(a):
        extra = tuple(a['args'])
        if a['jac'] is True:
            fn = lambda y: a['fun'](y, *extra)[0]
            jc = lambda y: a['fun'](y, *extra)[1]
        else:
            fn = lambda y: a['fun'](y, *extra)
            jc = lambda y: a['jac'](y, *extra)
        a['values'], a['grads'], a['hvps'] = [], [], []
        # interleaved as an optimizer would
        for i in (0, 1):
            a['values'].append(fn(np.array(z[i])))
            a['grads'].append(jc(np.array(z[1 - i])))
            if a['hess'] is not None:
                a['hvps'].append(np.dot(a['hess'](np.array(z[i]), *extra), dirn))
            elif a['hessp'] is not None:
                a['hvps'].append(a['hessp'](np.array(z[i]), np.array(dirn), *extra))
        a['again'] = fn(np.array(z[0]))

    ctx.stub(scipy.optimize, 'minimize', minimize)
    if hasattr(opt, 'minimize'):
        ctx.stub(opt, 'minimize', minimize)
    if which == 'trust':
        got, res = opt.minimize_objective_trust_ncg(obj, np.array(x0), precondition, maxiter=maxiter, gtol=gtol, disp=False)
    elif precondition:
        got, res = opt.minimize_objective_bfgs(obj, np.array(x0), precondition=True, maxiter=maxiter, disp=False)
    else:
        got, res = opt.minimize_objective_bfgs(obj, np.array(x0), maxiter=maxiter, disp=False)
    ctx.eq('one run', len(seen), 1)
    a = seen[0]
    ctx.true('no bounds or constraints', a['bounds'] is None and not a['constraints'])
    ctx.true('method', str(a['method']).lower() == method_of(which).lower())
    ctx.eq('start', np.dot(P, a['x0']), x0)
    ctx.eq('iteration limit', a['options']['maxiter'], maxiter)
    if which == 'trust':
        ctx.eq('tolerance (relative)', a['options'].get('gtol', a['tol']) / gtol, 1.0)
        ctx.eq('Hessian products', len(a['hvps']), 2)
    ctx.eq('values', np.array([np.squeeze(v) for v in a['values'] + [a['again']]]) - np.array([np.squeeze(v) for v in values + values[:1]]), np.zeros(3))
    for i in (0, 1):
        ctx.eq('gradient %d' % i, np.reshape(a['grads'][1 - i], (m,)) - grads[i], np.zeros(m), 1e-5)
    if which == 'trust':
        for i in (0, 1):
            ctx.eq('Hessian product %d' % i, np.reshape(a['hvps'][i], (m,)) - np.dot(hess[i], dirn), np.zeros(m), 1e-4)
    ctx.eq('optimum', got, np.dot(P, best))
    ctx.true('result', res is result)
    ctx.eq('the preconditioner stays', obj.preconditioner, P if precondition else ctx.mat('unused', m, m))


def refused(ctx, which):
    opt, SO = ctx.mod('OptimizationUtils'), ctx.mod('SparseObjectives')
    import scipy.optimize
    p = ctx.vb.VectorParam('p', 2)
    obj = SO.Objective(p, lambda: anp.sum(p.get() ** 2))
    ran = []

    def minimize(*a, **k):
        ran.append(1)
        return Result(np.zeros(2))
    ctx.stub(scipy.optimize, 'minimize', minimize)
    if hasattr(opt, 'minimize'):
        ctx.stub(opt, 'minimize', minimize)
    f = opt.minimize_objective_trust_ncg if which == 'trust' else opt.minimize_objective_bfgs
    ctx.raises('no preconditioner', Exception, f, obj, ctx.vec('x', 2), precondition=True, disp=False)
    ctx.true('the optimizer did not run', not ran)


def logged(ctx, which, precondition, init):
    """the log starts empty unless asked otherwise, and every shown evaluation
    is logged"""
    opt, SO = ctx.mod('OptimizationUtils'), ctx.mod('SparseObjectives')
    import scipy.optimize
    p = ctx.vb.VectorParam('p', 2)
    coef = quad_coef(ctx, 'q', 2)
    obj = SO.Objective(p, lambda: quad(coef, p.get()))
    obj.preconditioner = np.array([[2.0, 1.0], [0.0, 1.0]])
    calls = []
    obj.logger.callback = lambda lg: calls.append(lg.iter)
    x0, z = ctx.vec('x', 2), ctx.vec('z', 2)
    obj.fun_free(np.array(x0), verbose=True)

    def minimize(fun, x0=None, **k):
        fun(np.array(z))
        fun(np.array(z) + 1)
        return Result(np.array(z))
    ctx.stub(scipy.optimize, 'minimize', minimize)
    if hasattr(opt, 'minimize'):
        ctx.stub(opt, 'minimize', minimize)
    kw = {} if init else dict(init_logger=False)
    if which == 'trust':
        got, res = opt.minimize_objective_trust_ncg(obj, np.array(x0), precondition, disp=True, print_every=2, **kw)
    else:
        got, res = opt.minimize_objective_bfgs(obj, np.array(x0), precondition=precondition, disp=True, print_every=2, **kw)
    Q = obj.preconditioner if precondition else np.eye(2)
    pts = ([] if init else [x0]) + [np.dot(Q, z), np.dot(Q, z + 1)]
    ctx.eq('number of evaluations', obj.logger.iter, len(pts))
    ctx.eq('points', np.array([np.array(v) for v in obj.logger.x_array]), np.array(pts))
    ctx.eq('values', np.array([np.squeeze(v) for v in obj.logger.val_array]), np.array([np.squeeze(quad(coef, v)) for v in pts]))


# the sizes of each tier
LEVELS = {'quick': 'thorough', 'thorough': 'deep'}


def cases(tier):
    out = []
    for which in ('trust', 'bfgs'):
        for kind, n in start_specs(tier):
            for pre in (False, True):
                for fk in ('quadratic', 'quartic'):
                    if kind == 'posdef' and n == 2 and fk == 'quartic':
                        continue
                    out.append(('%s %s %d %s %s' % (which, kind, n, 'preconditioned' if pre else 'plain', fk), wrapper,
                                dict(which=which, kind=kind, n=n, precondition=pre, fkind=fk)))
        out.append(('%s refused' % which, refused, dict(which=which)))
        for pre in (False, True):
            for init in (True, False):
                out.append(('%s logged %s %s' % (which, pre, init), logged, dict(which=which, precondition=pre, init=init)))
    return out
