"""C24: the reported likelihood matches the model's Gaussian likelihood."""
from .llgp import *
from engine import models_np as NP

RULE = ('Abstract interpretation of a whole model (construction, update, '
        'log_det_K, normal_quadratic, log_likelihood) for enumerated kernel '
        'structures with arbitrary values: each reported quantity compared '
        'in normal form with its formula over the Cholesky diagonal of the '
        'exact covariance and the solved weights; the log event guarded by '
        'the sign of the determinant.')
FKQ = 'runlmc.lmc.functional_kernel.FunctionalKernel'
CASES = [
    (Cfg(1, lmc=[1]), [2], [3], False),
    (Cfg(1, lmc=[1]), [2], [2], True),
    (Cfg(2, slfm=1), [2], [2, 2], False),
    (Cfg(2, lmc=[1], indep=[1]), [2], [2, 3], False),
    (Cfg(2, lmc=[1, 1], P=2, active=[[1], [0]]), [2, 2], [2, 2], False),
]


class Factor(NP.Cho):
    """a Cholesky factor whose diagonal entries have the given signs"""
    bad = None

    def getitem(self, I, ix):
        c = ix.const() if isinstance(ix, E) else None
        if c not in (0, -2):
            return NP.Cho.getitem(self, I, ix)

        def f(q):
            d = el(tensor('chold', 'pos'), q[0])
            if self.bad is not None:
                at, val = self.bad
                d = ite(ind('eq', q[0] - at), val, d)
            e = ind('eq', q[0] - q[1])
            return e * d + (ONE - e) * el('chol', *q)
        return I.new_arr(self.K.shape, f)


def cho(factors, bad=None):
    def stub(I, args, kw):
        r = NP.la_cho_factor(I, *args, **kw)
        if not isinstance(r, NP.Cho):
            return r
        f = Factor(r.K, r.lower)
        f.bad = bad
        factors.append(f)
        return f
    return {'scipy.linalg.cho_factor': stub}


def run(chk):
    chk.strict = True
    for c in CASES:
        with chk.section('likelihood %s%s' % (c[0], ', normalised' if c[3]
                                              else ''), M, limit=120):
            one(chk, *c)
    for bad in ((0, ZERO), (1, ZERO), (0, -sym('neg', 'pos')),
                (2, -sym('neg', 'pos'))):
        with chk.section('degenerate determinant, entry %s' % (bad,), M +
                         '.log_det_K'):
            degenerate(chk, bad)


def model(chk, cfg, sizes, lens, norm=False, bad=None):
    fs = []
    st = {FKQ + '.update_gradient': lambda I, a, k: None}
    st.update(cho(fs, bad))
    m = Model(chk, cfg, sizes, lens, 'on-the-fly', {'trace_iterations': ONE},
              st, normalize=norm)
    m.update()
    return m, fs


def one(chk, cfg, sizes, lens, norm):
    m, fs = model(chk, cfg, sizes, lens, norm)
    I, o = m.I, m.o
    tag = '(%s%s)' % (cfg, ', normalised' if norm else '')
    e0 = len(I.events)
    n0 = len(I.raises)
    got = I.toE(I.method(o, 'log_det_K'))
    ps = points(lens)
    n = len(ps)
    want = sum((num(2) * T.log(el(tensor('chold', 'pos'), num(i)))
                for i in range(n)), ZERO)
    chk.eq('log determinant ' + tag, M + '.log_det_K', got, want)
    logs = [e for e in I.events[e0:] if e['kind'] == 'log' and
            e['level'] in ('critical', 'error', 'fatal')]
    chk.holds('nothing critical is logged ' + tag, M + '.log_det_K',
              not any(chk.satisfiable(e['pc']) for e in logs))
    if not fs:
        chk.holds('factorised covariance is the exact one ' + tag, M, None,
                  'no factorisation seen')
    else:
        K = fs[-1].K

        def cov(ix):
            i, j = [int(x.const() or 0) for x in ix]
            t = m.exact(ps[i], 'X', ps[j], 'X')
            return t + el('noise', num(ps[i][0])) if i == j else t
        chk.arr('factorised covariance is the exact one ' + tag, M +
                '._dense', K, (num(n), num(n)), cov)
    Ys = items(I, I.getattr(o, 'Ys'))
    ys = []
    for d, y in enumerate(Ys or ()):
        a = I.as_arr(y)
        ys += [I.toE(I.at1(a, (num(i),))) for i in range(lens[d])]
    inv = m.inv()
    if len(ys) != n or inv is None:
        raise Skip('outputs %r' % (Ys,))
    quad = sum((ys[i] * el(inv, num(i), num(j)) * ys[j] for i in range(n)
                for j in range(n)), ZERO)
    chk.eq('quadratic form ' + tag, M + '.normal_quadratic', I.toE(
        I.method(o, 'normal_quadratic')), quad)
    chk.eq('log likelihood ' + tag, M + '.log_likelihood', I.toE(I.method(
        o, 'log_likelihood')), -(want + quad + num(n) * T.log(
            num(2) * T.PI)) / num(2))
    accepted(chk, 'the likelihood is available ' + tag, M, n0)


def degenerate(chk, bad):
    m, fs = model(chk, Cfg(1, lmc=[1]), [2], [3], bad=bad)
    I, o = m.I, m.o
    e0 = len(I.events)
    got = I.toE(I.method(o, 'log_det_K'))
    tag = '(diagonal entry %d is %s)' % (bad[0], 'zero' if not bad[1].t else
                                         'negative')
    chk.eq('non-positive determinant is minus infinity ' + tag, M +
           '.log_det_K', got, -sym('inf', 'pos'))
    logs = [e for e in I.events[e0:] if e['kind'] == 'log' and
            e['level'] in ('critical', 'fatal')]
    c = ZERO
    for e in logs:
        c = c + e['pc'] - c * e['pc']
    chk.eq('non-positive determinant is logged as critical ' + tag, M +
           '.log_det_K', c, ONE)
