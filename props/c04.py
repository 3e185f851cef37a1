"""C04: kernels evaluate their documented covariance function."""
from .kernels import *

RULE = ('Abstract interpretation of every from_dist/to_gpy over symbolic '
        'parameters and a distance vector of symbolic length; the derived '
        'closed-form term is compared (canonical normal form) with the '
        'documented function of each kernel.')


def run(chk):
    for name, (spec, pnames) in SPEC.items():
        mod = {'RBF': 'rbf', 'Matern32': 'matern32',
               'StdPeriodic': 'std_periodic'}[name]
        q = 'runlmc.kern.%s.%s' % (mod, name)
        for how in ('ctor', 'updated'):
            with chk.section('%s %s' % (name, how), q + '.from_dist'):
                I = chk.interp()
                vals = [sym('theta_' + p, 'pos') for p in pnames]
                c = I.func(q)
                if how == 'ctor':
                    k = I.call(c, (), dict(zip(pnames, vals)))
                else:
                    k = I.call(c, (), {})
                    for p, v in zip(pnames, vals):
                        I.setattr(k, p, v)
                n = sym('n', 'int', 'nn')
                dt = tensor('d', 'nn')
                d = I.new_arr((n,), lambda ix: el(dt, *ix))
                r = I.method(k, 'from_dist', d)
                chk.arr('%s.from_dist is the documented function (%s)' % (
                    name, how), q + '.from_dist', r, (n,),
                    lambda ix: spec(el(dt, *ix), *vals))
                # at distance zero the value is one
                z = I.new_arr((n,), lambda ix: ZERO)
                r = I.method(k, 'from_dist', z)
                chk.arr('%s at distance zero (%s)' % (name, how),
                        q + '.from_dist', r, (n,), lambda ix: ONE)
                m2 = sym('m2', 'int', 'nn')
                d2t = tensor('dd', 'nn')
                d2 = I.new_arr((n, m2), lambda ix: el(d2t, *ix))
                r = I.method(k, 'from_dist', d2)
                chk.arr('%s.from_dist on a matrix of distances (%s)' % (
                    name, how), q + '.from_dist', r, (n, m2),
                    lambda ix: spec(el(d2t, *ix), *vals))
                i0 = len(I.events)
                I.method(k, 'to_gpy')
                ge = [e for e in I.events[i0:] if e['kind'] == 'gpy']
                if len(ge) != 1 or ge[0]['what'] not in GPY:
                    chk.holds('%s export (%s)' % (name, how), q + '.to_gpy',
                              None, 'export call not recognised')
                else:
                    sig, f = GPY[ge[0]['what']]
                    kw = {'variance': ONE, 'lengthscale': ONE, 'period': ONE}
                    kw.update(zip(sig, ge[0]['args']))
                    kw.update(ge[0]['kwargs'])
                    kk = {x: chk.scalar(kw[x]) for x in (
                        'variance', 'lengthscale', 'period')}
                    dd = sym('dist', 'nn')
                    chk.eq('%s export denotes the same function (%s)' % (
                        name, how), q + '.to_gpy', f(dd, kk),
                        spec(dd, *vals), loc=ge[0]['loc'])
                    ad = kw.get('active_dims')
                    I.noevents += 1
                    mine = I.getattr(k, 'active_dims')
                    I.noevents -= 1
                    chk.holds('%s export keeps active dims (%s)' % (
                        name, how), q + '.to_gpy',
                        True if same_val(ad, mine) else None)
    with chk.section('Identity', 'runlmc.kern.identity.Identity.from_dist'):
        I = chk.interp()
        k = I.call(I.func('runlmc.kern.identity.Identity'), (), {})
        n = sym('n', 'int', 'nn')
        dt = tensor('d', 'nn')
        d = I.new_arr((n,), lambda ix: el(dt, *ix))
        r = I.method(k, 'from_dist', d)
        chk.arr('Identity.from_dist is the indicator of zero distance',
                'runlmc.kern.identity.Identity.from_dist', r, (n,),
                lambda ix: ind('eq', el(dt, *ix)))
    # Scaled over each kernel (and nested)
    q = 'runlmc.kern.scaled.Scaled'
    for name, (spec, pnames) in SPEC.items():
        for nest in (1, 2):
            with chk.section('Scaled %s %d' % (name, nest), q):
                I = chk.interp()
                mod = {'RBF': 'rbf', 'Matern32': 'matern32',
                       'StdPeriodic': 'std_periodic'}[name]
                vals = [sym('theta_' + p, 'pos') for p in pnames]
                k = I.call(I.func('runlmc.kern.%s.%s' % (mod, name)), (),
                           dict(zip(pnames, vals)))
                fac = ONE
                for j in range(nest):
                    k = I.call(I.func(q), (k,), {})
                    s = sym('scale%d' % j, 'pos')
                    I.setattr(k, 'scale', s)
                    fac = fac * s
                n = sym('n', 'int', 'nn')
                dt = tensor('d', 'nn')
                d = I.new_arr((n,), lambda ix: el(dt, *ix))
                r = I.method(k, 'from_dist', d)
                chk.arr('Scaled^%d(%s).from_dist is scale times the inner '
                        'kernel' % (nest, name), q + '.from_dist', r, (n,),
                        lambda ix: fac * spec(el(dt, *ix), *vals))
