"""C05: kernel gradients are the exact partial derivatives in order."""
from .kernels import *

RULE = ('For every StationaryKern subclass: from_dist is abstracted to a '
        'closed-form term over symbolic parameters, differentiated '
        'algebraically, and each entry of kernel_gradient is compared with '
        'it (canonical normal form); update_gradient is checked to store '
        'entry j in the j-th linked parameter, the same order.')


def sets_of(I, cls):
    names, defaults = init_args(I, cls)
    if all(n in defaults for n in names):
        return [('', lambda: build(I, cls))]
    out = []
    for m, n in (('rbf', 'RBF'), ('matern32', 'Matern32'),
                 ('std_periodic', 'StdPeriodic'), ('identity', 'Identity'),
                 ('scaled', 'Scaled')):
        def mk(m=m, n=n):
            inner = build(I, I.func('runlmc.kern.%s.%s' % (m, n)))
            free = [x for x in names if x not in defaults]
            k = I.call(cls, (), {free[0]: inner})
            if not isinstance(k, ORef):
                raise Skip('not constructible')
            return k
        out.append(('(%s)' % n, mk))
    return out


def order(I, ps, gt):
    """position of each parameter's component in the distributed gradient:
    read off update_gradient when that is a permutation, else link order"""
    perm = []
    for p in ps:
        gv = gradient_of(I, p)
        e = I.toE(gv) if gv is not None and not isinstance(gv, UnkV) else \
            None
        perm.append(next((i for i in range(len(ps)) if e is not None and
                          e == el(gt, num(i))), None))
    if sorted(x for x in perm if x is not None) == list(range(len(ps))):
        return perm
    return list(range(len(ps)))


def run(chk):
    I0 = chk.interp()
    for cls in all_kernels(I0):
        for label, _ in sets_of(I0, cls):
            q = cls.qual
            with chk.section('%s%s' % (cls.name, label), q):
                I = chk.interp()
                c2 = I.func(q)
                mk = dict(sets_of(I, c2))[label]
                k = mk()
                ps, th = bind_params(I, k, lambda j, p: sym(
                    'theta%d' % j, 'pos'))
                n = sym('n', 'int', 'nn')
                dt = tensor('d', 'nn')
                d = I.new_arr((n,), lambda ix: el(dt, *ix))
                val = I.method(k, 'from_dist', d)
                if isinstance(val, Choice):
                    live = [v for c, v in val.alts
                            if chk.satisfiable(c) is not False]
                    val = live[0] if len(live) == 1 else None
                val = I.as_arr(val)
                if not isinstance(val, Arr):
                    raise Skip('kernel value not understood')
                g = I.method(k, 'kernel_gradient', d)
                gs = items(I, g)
                nm = cls.name + label
                if gs is None:
                    raise Skip('gradient list not understood %r' % (g,))
                chk.holds('%s: one gradient per trainable parameter' % nm,
                          q + '.kernel_gradient', len(gs) == len(ps),
                          '%d gradients for %d parameters' % (len(gs),
                                                              len(ps)))
                gt = tensor('grad')
                ga = I.new_arr((num(len(ps)),), lambda ix: el(gt, *ix))
                I.method(k, 'update_gradient', ga)
                perm = order(I, ps, gt)
                for j, p in enumerate(ps):
                    gv = gradient_of(I, p)
                    if gv is None:
                        chk.holds('%s: update_gradient sets parameter %d' % (
                            nm, j), q + '.update_gradient', False,
                            'gradient of %s never set' % (
                                I.heap[p.id].attrs.get('name'),))
                        continue
                    chk.eq('%s: update_gradient gives parameter %d its own '
                           'component' % (nm, j), q + '.update_gradient',
                           gv, el(gt, num(perm[j])))
                for j, t in enumerate(th):
                    if perm[j] >= len(gs):
                        continue
                    gj = gs[perm[j]]

                    def want(ix, t=t):
                        # differentiate at a free index, then instantiate
                        return diff(I.at1(val, ix), t)
                    try:
                        chk.arr('%s: gradient %d is the partial derivative '
                                '(%s)' % (nm, j, I.heap[ps[j].id].attrs.get(
                                    'name')), q + '.kernel_gradient', gj,
                                (n,), want)
                    except NotDifferentiable as e:
                        chk.holds('%s: gradient %d' % (nm, j), q, None,
                                  'not differentiable: %s' % e)
