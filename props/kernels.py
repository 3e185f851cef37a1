"""Analysis of the stationary kernels (C04, C05)."""
from .common import *

KBASE = 'runlmc.kern.stationary_kern.StationaryKern'
HALF = num(1) / num(2)


def rbf(d, g):
    return exp(-HALF * g * d * d)


def matern(d, g):
    s = power(num(3), F(1, 2)) * d * g
    return (ONE + s) * exp(-s)


def periodic(d, g, t):
    s = fn('sin', PI * d / t)
    return exp(-HALF * g * s * s)


SPEC = {'RBF': (rbf, ('inv_lengthscale',)),
        'Matern32': (matern, ('inv_lengthscale',)),
        'StdPeriodic': (periodic, ('inv_lengthscale', 'period'))}

GPY = {
    'GPy.kern.RBF': (('input_dim', 'variance', 'lengthscale', 'ARD',
                      'active_dims', 'name'),
                     lambda d, k: k['variance'] * exp(
                         -HALF * d * d / k['lengthscale'] ** 2)),
    'GPy.kern.Matern32': (('input_dim', 'variance', 'lengthscale', 'ARD',
                           'active_dims', 'name'),
                          lambda d, k: k['variance'] * matern(
                              d, ONE / k['lengthscale'])),
    'GPy.kern.StdPeriodic': (('input_dim', 'variance', 'period',
                              'lengthscale', 'ARD1', 'ARD2', 'active_dims',
                              'name'),
                             lambda d, k: k['variance'] * periodic(
                                 d, ONE / k['lengthscale'] ** 2,
                                 k['period'])),
}


def build(I, cls, depth=0):
    """instantiate a kernel with default arguments; kernel-valued arguments
    get a periodic (two-parameter) kernel"""
    names, defaults = init_args(I, cls)
    args = {}
    for n in names:
        if n not in defaults:
            if depth:
                raise Skip('cannot construct %s' % cls.qual)
            inner = I.func('runlmc.kern.std_periodic.StdPeriodic')
            args[n] = build(I, inner, 1)
    k = I.call(cls, (), args)
    if not isinstance(k, ORef):
        raise Skip('%s not constructible: %r' % (cls.qual, k))
    return k


def all_kernels(I):
    cs = subclasses(I, KBASE)
    return [c for c in cs]
