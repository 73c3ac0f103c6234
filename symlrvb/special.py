"""Numeric values and derivatives of the uninterpreted special functions."""
from . import omath as math
from . import poly as P

_real = {}


def real_special(name):
    """original scipy.special function (saved before patching)"""
    return _real[name]


def evalfn(name, args):
    try:
        if name == 'gammaln':
            return float(_real['gammaln'](args[0]))
        if name == 'polygamma':
            n = int(round(args[0]))
            if n == 0:
                return float(_real['digamma'](args[1]))
            return float(_real['polygamma'](n, args[1]))
        if name == 'gamma':
            return float(_real['gamma'](args[0]))
        if name == 'max':
            return max(args)
        if name == 'maxw':
            j = int(round(args[0]))
            m = max(args[1:])
            return 1.0 / sum(1 for x in args[1:] if x == m) if args[1 + j] == m else 0.0
        if name in ('sin', 'cos'):
            return getattr(math, name)(args[0])
        if name in ('erf', 'ndtr', 'ndtri', 'erfc'):
            return float(_real[name](args[0]))
        if name.startswith('user:'):
            return _user[name][0](*args)
    except (OverflowError, ValueError):
        return float('nan')
    raise P.Unsupported('no numeric value for ' + name)


_user = {}


def dfn(name, args):
    x = args[-1]
    if name == 'gammaln':
        return P.polygamma(0, x)
    if name == 'polygamma':
        return P.polygamma(int(args[0].constval()) + 1, x)
    if name == 'gamma':
        return P.fn('gamma', x) * P.polygamma(0, x)
    if name == 'sin':
        return P.fn('cos', x)
    if name == 'cos':
        return -P.fn('sin', x)
    raise P.Unsupported('derivative of ' + name)
