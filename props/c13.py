"""C13: predictions are the Gaussian-process posterior, in every mode."""
from .llgp import *
from engine import models_np as NP

RULE = ('Abstract interpretation of a whole model (construction, parameter '
        'update, prediction) for an enumerated family of kernel structures, '
        'point counts and prediction modes with arbitrary parameters, '
        'inputs, outputs, grids, interpolation weights and kernel functions; '
        'every predicted mean and variance compared in normal form with the '
        'posterior formula, and every output\'s place and length compared.')
BUDGET = 800
FKQ = 'runlmc.lmc.functional_kernel.FunctionalKernel'
CASES = [
    (Cfg(1, lmc=[1]), [2], [2], [2]),
    (Cfg(2, slfm=1), [2], [2, 2], [1, 1]),
    (Cfg(2, lmc=[1]), [2], [2, 2], [0, 2]),
    (Cfg(2, lmc=[1], indep=[1]), [2], [2, 2], [1, 0]),
    (Cfg(2, indep=[1, 0]), [2], [2, 2], [1, 2]),
    (Cfg(3, slfm=1), [2], [2, 2, 2], [1, 0, 1]),
    (Cfg(2, lmc=[1, 1], P=2, active=[[1], [0]]), [2, 3], [2, 2], [1, 1]),
    (Cfg(1, lmc=[1], P=2), [3, 2], [2], [2]),
]


def run(chk):
    chk.strict = True
    for mode in ('on-the-fly', 'exact', 'precompute'):
        for c in CASES:
            if mode == 'precompute' and len(c[0].keys()) > 1:
                with chk.section('split kernels %s, precompute' % c[0], M):
                    split(chk, *c)
                continue
            with chk.section('prediction %s %s tests=%s' % (
                    mode, c[0], c[3]), M + '.predict', limit=150):
                one(chk, mode, *c)


def one(chk, mode, cfg, sizes, lens, tlens):
    m = Model(chk, cfg, sizes, lens, mode, {'trace_iterations': ONE},
              {FKQ + '.update_gradient': lambda I, a, k: None})
    I, o = m.I, m.o
    tag = '(%s, %s, tests=%s)' % (mode, cfg, tlens)
    m.update()
    Xn = m.da.Xs(I, 'Z', tlens)
    r = items(I, I.method(o, 'predict', Xn))
    raw = [x for x in I.raises if x.exc != 'ValueError']
    ok = [x for x in I.raises if 'multigp' not in x.loc]
    if ok or raw:
        chk.quiet('prediction succeeds ' + tag, M + '.predict', 0)
    if r is None or len(r) != 2:
        raise Skip('predict result %r' % (r,))
    mu, var = items(I, r[0]), items(I, r[1])
    if mu is None or var is None:
        raise Skip('predict result %r' % (r,))
    chk.eq('one mean per output ' + tag, M + '._raw_predict', num(len(mu)),
           num(cfg.D))
    chk.eq('one variance per output ' + tag, M + '._raw_predict',
           num(len(var)), num(cfg.D))
    if len(mu) != cfg.D or len(var) != cfg.D:
        return
    inv = m.inv()
    if inv is None:
        raise Skip('covariance %r' % (I.getattr(o, 'kernel'),))
    ps = points(lens)
    n = len(ps)
    al = [sum((el(inv, num(i), num(j)) * el('Y', num(ps[j][0]), num(
        ps[j][1])) for j in range(n)), ZERO) for i in range(n)]

    def mean(d, i):
        return sum((m.cross((d, i), 'Z', ps[j], 'X') * al[j]
                    for j in range(n)), ZERO)

    def quad(k, iv):
        return sum((k[i] * iv(i, j) * k[j] for i in range(n)
                    for j in range(n)), ZERO)
    if mode == 'exact':
        K = I.as_arr(I.method(o, 'K'))
        if not isinstance(K, Arr):
            raise Skip('K %r' % (K,))
        f = NP.inverse_el(I, NP.np_copy(I, K), True)
        if f is None:
            raise Skip('inverse')

        def iv(i, j):
            return f(num(i), num(j))
    else:
        def iv(i, j):
            return el(inv, num(i), num(j))

    def explained(d, i):
        if mode == 'precompute':
            key = cfg.keys()[0]
            g = m.da.m(key)
            t = ZERO
            for u in range(g):
                kx = []
                for b in ps:
                    s = ZERO
                    for q in range(cfg.Q):
                        for v in range(g):
                            s = s + cfg.B(q, d, b[0]) * m.grid(
                                q, u, v) * m.w(key, 'X', b[0], b[1], v)
                    kx.append(s)
                t = t + m.w(key, 'Z', d, i, u) * quad(kx, iv)
            return t
        return quad([m.exact((d, i), 'Z', b, 'X') for b in ps], iv)

    def clipped(v):
        return ite(ind('lt', v), ZERO, v)
    for d in range(cfg.D):
        chk.arr('mean of output %d %s' % (d, tag), M + '._raw_predict',
                mu[d], (num(tlens[d]),), lambda ix: mean(
                    d, int(ix[0].const() or 0)))
        chk.arr('variance of output %d %s' % (d, tag), M + '._raw_predict',
                var[d], (num(tlens[d]),), lambda ix: clipped(
                    m.prior(d) - explained(d, int(ix[0].const() or 0))))


def split(chk, cfg, sizes, lens, tlens):
    m = Model(chk, cfg, sizes, lens, 'precompute', {'trace_iterations': ONE},
              {FKQ + '.update_gradient': lambda I, a, k: None})
    m.update()
    n0 = len(m.I.raises)
    m.I.method(m.o, 'predict', m.da.Xs(m.I, 'Z', tlens))
    refused(chk, 'precompute refuses split kernels', M + '._precomputed_nu',
            n0, ONE)
