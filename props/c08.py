"""C08: priors are normalised log densities with exact derivatives."""
from .common import *

RULE = ('Abstract interpretation of every prior with symbolic parameters and '
        'argument; the derived log density is compared in normal form with '
        'the normalised density, its gradient with the algebraic derivative, '
        'and moment-based constructors with the moment equations.')
Q = 'runlmc.parameterization.priors.'
H = num(1) / num(2)


def lg(a):
    return fn('gammaln', a)


SPEC = {
    'Gaussian': (('mu', 'var'), (('real',), ('pos',)), 'any',
                 lambda x, m, v: -H * log(num(2) * PI * v) - H * (x - m) *
                 (x - m) / v),
    'Gamma': (('a', 'b'), (('pos',), ('pos',)), 'pos',
              lambda x, a, b: a * log(b) - lg(a) + (a - 1) * log(x) - b * x),
    'InverseGamma': (('a', 'b'), (('pos',), ('pos',)), 'pos',
                     lambda x, a, b: a * log(b) - lg(a) -
                     (a + 1) * log(x) - b / x),
    'HalfLaplace': (('b',), (('pos',),), 'pos',
                    lambda x, b: -log(b) - x / b),
}


def run(chk):
    for name, (pn, attrs, dom, f) in SPEC.items():
        q = Q + name
        with chk.section(name, q):
            I = chk.interp()
            ps = [sym('p_' + p, *a) for p, a in zip(pn, attrs)]
            o = I.call(I.func(q), tuple(ps), {})
            xa = ('pos',) if dom == 'pos' else ()
            x = sym('x', *xa)
            chk.eq('%s.lnpdf is the normalised log density' % name,
                   q + '.lnpdf', I.method(o, 'lnpdf', x), f(x, *ps))
            chk.eq('%s.lnpdf_grad is its derivative' % name,
                   q + '.lnpdf_grad', I.method(o, 'lnpdf_grad', x),
                   diff(f(x, *ps), x))
            xt = tensor('xs', *xa)
            n = sym('n', 'int', 'ge1')
            xv = I.new_arr((n,), lambda ix: el(xt, *ix))
            v = I.method(o, 'lnpdf', xv)
            chk.arr('%s.lnpdf is elementwise over a vector' % name,
                    q + '.lnpdf', v, (n,),
                    lambda ix: f(el(xt, *ix), *ps))
            g = I.method(o, 'lnpdf_grad', xv)
            d = diff(f(x, *ps), x)
            xatom = next(iter(x.t))[0][0]
            if isinstance(g, E):
                chk.eq('%s.lnpdf_grad over a vector' % name,
                       q + '.lnpdf_grad', g, d)
            else:
                chk.arr('%s.lnpdf_grad over a vector' % name,
                        q + '.lnpdf_grad', g, (n,),
                        lambda ix: subst(d, {xatom: el(xt, *ix)}))
            # repeatability: asking again gives the same density
            chk.eq('%s.lnpdf asked again' % name, q + '.lnpdf',
                   I.method(o, 'lnpdf', x), f(x, *ps))
    with chk.section('Gamma.from_EV', Q + 'Gamma.from_EV'):
        I = chk.interp()
        e, v = sym('mean', 'pos'), sym('variance', 'pos')
        o = I.call(I.func(Q + 'Gamma.from_EV'), (e, v), {})
        x = sym('x', 'pos')
        f = SPEC['Gamma'][3]
        chk.eq('Gamma.from_EV has the given mean and variance',
               Q + 'Gamma.from_EV', I.method(o, 'lnpdf', x),
               f(x, e * e / v, e / v))
    # any further prior: gradient is the derivative of its own density
    I = chk.interp()
    for c in subclasses(I, Q + 'Prior'):
        if c.name in SPEC:
            continue
        with chk.section(c.name, c.qual):
            I = chk.interp()
            names, de = init_args(I, c)
            o = I.call(I.func(c.qual), tuple(
                sym('p_' + n, 'pos') for n in names), {})
            x = sym('x', 'pos')
            l = I.method(o, 'lnpdf', x)
            chk.eq('%s.lnpdf_grad is the derivative of lnpdf' % c.name,
                   c.qual, I.method(o, 'lnpdf_grad', x),
                   diff(chk.scalar(l), x))
