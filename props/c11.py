"""C11: likelihood gradients are those of the modelled covariance."""
from .lmcmodel import *
from engine import models_np as NP

RULE = ('Abstract interpretation of the gradient assembly for an enumerated '
        'family of kernel structures with arbitrary parameter values, kernel '
        'derivatives, distances, weights and outputs; each reported gradient '
        'compared in normal form with one half of (quadratic form minus '
        'trace) of that parameter\'s own covariance derivative.  The solver '
        'is an arbitrary function of matrix and right-hand side, the probe '
        'vectors arbitrary.')
BUDGET = 700
LK = 'runlmc.lmc.likelihood.'
DS = 'runlmc.lmc.stochastic_deriv.StochasticDerivService'
CFGS = [
    (Cfg(1, lmc=[1]), [2], [2]),
    (Cfg(2, lmc=[2]), [2], [1, 1]),
    (Cfg(2, slfm=1, indep=[1]), [2], [1, 1]),
    (Cfg(2, lmc=[1], slfm=1, indep=[0, 1], nparams=[2, 0, 1, 2]), [2],
     [1, 1]),
    (Cfg(3, lmc=[2], slfm=1, nparams=[1, 2]), [2], [1, 0, 1]),
    (Cfg(2, indep=[1, 0]), [2], [1, 2]),
    (Cfg(2, lmc=[1, 2], P=2, active=[[1], [0]]), [2, 3], [1, 1]),
    (Cfg(2, lmc=[1], slfm=1, P=2), [2, 3], [1, 1]),
]
HALF = ONE / num(2)


def run(chk):
    chk.strict = True
    for c in CFGS:
        with chk.section('matrix-free gradients %s' % c[0], LK +
                         'ApproxLMCLikelihood', limit=150):
            approx(chk, *c)
    for c in CFGS:
        with chk.section('exact gradients %s' % c[0], LK +
                         'ExactLMCLikelihood', limit=150):
            exact(chk, *c)


class Solver:
    """Iterative.solve as an arbitrary function of (matrix, right side)"""

    def __init__(self):
        self.calls = []

    def __call__(self, I, args, kw):
        K = args[0] if args else kw['K']
        y = I.as_arr(args[1] if len(args) > 1 else kw['y'])
        if not isinstance(y, Arr) or y.ndim != 1 or \
                y.shape[0].const() is None:
            return I.unk('solve for %r' % (y,))
        ys = [I.toE(I.at1(y, (num(i),)))
              for i in range(int(y.shape[0].const()))]
        key = K.key() if isinstance(K, Abs) else repr(K)
        n = len(ys)

        def f(ix):
            # linear in the right-hand side
            return sum((el('inv', ix[0], num(j)) * ys[j]
                        for j in range(n)), ZERO) if key == self.want else \
                I.unkE('solve with another matrix')
        self.calls.append((key, ys))
        r = I.new_arr((num(n),), f)
        vb = args[2] if len(args) > 2 else kw.get('verbose', False)
        if vb is False or isinstance(vb, E) and vb.const() == 0:
            return r
        return I.unk('verbose solve')


def approx(chk, cfg, sizes, lens, nit=2):
    sv = Solver()
    I = chk.interp(dict(LINALG, **dict(kern_stubs(), **{
        'runlmc.approx.iterative.Iterative.solve': sv})))
    fk = cfg.build(I)
    cfg.assign(I, fk)
    da = Data(cfg, sizes, lens)
    n = da.n
    K = AMat('Kgrid', (num(n), num(n)))
    sv.want = K.key()
    pool = I.call(I.func('runlmc.util.inline_pool.InlinePool'), (None,), {})
    ds = I.call(I.func(DS), (None, pool, num(nit), sym('tol', 'pos')), {})
    # probe vectors
    rng0 = len(I.events)
    o = I.call(I.func(LK + 'ApproxLMCLikelihood'), (
        fk, K, da.grid_dists(I), da.interpolants(I), da.Ys(I), ds), {})
    accepted(chk, 'matrix-free likelihood is built (%s)' % cfg, LK, 0)
    ys = [el('Y', num(d), num(i)) for d, i in points(lens)]
    probes = [c[1] for c in sv.calls if c[1] != ys]
    if len(sv.calls) != nit + 1 or len(probes) != nit or any(
            c[0] != sv.want for c in sv.calls):
        chk.holds('one solve for the outputs and one per probe (%s)' % cfg,
                  DS + '.generate', None, '%d solves' % len(sv.calls))
        return
    for p in probes:
        for e in p:
            # each entry is +1 or -1 in every draw
            chk.eq('probe entries are signs (%s)' % cfg, DS + '.generate',
                   e * e, ONE)

    def inv(v):
        return [sum((el('inv', num(i), num(j)) * v[j] for j in range(n)),
                    ZERO) for i in range(n)]
    al = inv(ys)
    rin = [inv(p) for p in probes]

    def deriv(dK):
        m = [[dK(i, j) for j in range(n)] for i in range(n)]
        quad = tr = ZERO
        for i in range(n):
            for j in range(n):
                quad = quad + al[i] * m[i][j] * al[j]
                for p, r in zip(probes, rin):
                    tr = tr + r[i] * m[i][j] * p[j]
        return HALF * (quad - tr / num(nit))
    check(chk, I, cfg, o, 'matrix-free', LK + 'ApproxLMCLikelihood', deriv,
          lambda q, coef, k: lambda i, j: da.ski(q, i, j, coef, k),
          lambda d: lambda i, j: ONE if i == j and da.out[i] == d else ZERO)
    a = I.as_arr(I.method(o, 'alpha'))
    if isinstance(a, Arr):
        chk.arr('weights solve for the outputs (%s)' % cfg, LK +
                'ApproxLMCLikelihood.alpha', a, (num(n),), lambda ix: al[
                    int(ix[0].const() or 0)])


def exact(chk, cfg, sizes, lens):
    I = chk.interp(dict(LINALG, **kern_stubs()))
    fk = cfg.build(I)
    cfg.assign(I, fk)
    da = Data(cfg, None, lens)
    o = I.call(I.func(LK + 'ExactLMCLikelihood'), (fk, da.Xs(I), da.Ys(I)),
               {})
    accepted(chk, 'exact likelihood is built (%s)' % cfg, LK, 0)
    K = I.as_arr(I.getattr(o, 'K'))
    if not isinstance(K, Arr):
        raise Skip('K %r' % (K,))
    invf = NP.inverse_el(I, NP.np_copy(I, K), True)
    if invf is None:
        raise Skip('inverse')
    n = da.n
    ps = points(lens)
    ys = [el('Y', num(d), num(i)) for d, i in ps]
    iv = [[invf(num(i), num(j)) for j in range(n)] for i in range(n)]
    al = [sum((iv[i][j] * ys[j] for j in range(n)), ZERO) for i in range(n)]

    def deriv(dK):
        s = ZERO
        for i in range(n):
            for j in range(n):
                d = dK(i, j)
                s = s + al[i] * d * al[j] - iv[i][j] * d
        return HALF * s

    def cov(q, coef, k):
        return lambda i, j: coef(ps[i][0], ps[j][0]) * k(da.xdist(
            cfg.key(q), ps[i], ps[j]))
    check(chk, I, cfg, o, 'exact', LK + 'ExactLMCLikelihood', deriv, cov,
          lambda d: lambda i, j: ONE if i == j and ps[i][0] == d else ZERO)


def check(chk, I, cfg, o, tag, anc, deriv, cov, noise):
    gs = items(I, I.method(o, 'coreg_vec_gradients'))
    anc2 = anc + '.coreg_vec_gradients'
    D = cfg.D
    if gs is None or len(gs) != cfg.Q:
        chk.holds('%s vector gradients (%s)' % (tag, cfg), anc2, None,
                  repr(gs))
    else:
        for q in range(cfg.Q):
            if cfg.kind(q) == 'indep':
                continue

            def want(ix, q=q):
                r, d = int(ix[0].const() or 0), int(ix[1].const() or 0)
                return deriv(cov(q, lambda u, v: (
                    cfg.a(q, r, v) if u == d else ZERO) + (
                        cfg.a(q, r, u) if v == d else ZERO),
                    lambda x: uf('k%d' % q, x)))
            chk.arr('%s vector gradient of kernel %d (%s)' % (tag, q, cfg),
                    anc2, gs[q], (num(cfg.rank(q)), num(D)), want)
    gs = items(I, I.method(o, 'coreg_diags_gradients'))
    anc2 = anc + '.coreg_diags_gradients'
    if gs is None or len(gs) != cfg.Q:
        chk.holds('%s diagonal gradients (%s)' % (tag, cfg), anc2, None,
                  repr(gs))
    else:
        for q in range(cfg.Q):
            if cfg.kind(q) != 'lmc':
                continue

            def want(ix, q=q):
                d = int(ix[0].const() or 0)
                return deriv(cov(q, lambda u, v: ONE if u == v == d else
                                 ZERO, lambda x: uf('k%d' % q, x)))
            chk.arr('%s diagonal gradient of kernel %d (%s)' % (tag, q, cfg),
                    anc2, gs[q], (num(D),), want)
    gs = items(I, I.method(o, 'kernel_gradients'))
    anc2 = anc + '.kernel_gradients'
    if gs is None or len(gs) != cfg.Q:
        chk.holds('%s kernel gradients (%s)' % (tag, cfg), anc2, None,
                  repr(gs))
    else:
        for q in range(cfg.Q):
            g = items(I, gs[q])
            if g is None:
                chk.holds('%s kernel gradient of kernel %d (%s)' % (
                    tag, q, cfg), anc2, None, repr(gs[q]))
                continue
            chk.eq('%s number of gradients of kernel %d (%s)' % (
                tag, q, cfg), anc2, num(len(g)), num(cfg.nparams[q]))
            for p in range(min(len(g), cfg.nparams[q])):
                chk.eq('%s gradient of parameter %d of kernel %d (%s)' % (
                    tag, p, q, cfg), anc2, I.toE(g[p]), deriv(cov(
                        q, lambda u, v: cfg.B(q, u, v),
                        lambda x: uf('dk%d_%d' % (q, p), x))))
    g = I.method(o, 'noise_gradient')
    chk.arr('%s noise gradient (%s)' % (tag, cfg), anc + '.noise_gradient',
            g, (num(D),), lambda ix: deriv(noise(int(ix[0].const() or 0))))
