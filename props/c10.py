"""C10: every covariance representation denotes the same coregionalised
covariance."""
from .lmcmodel import *

RULE = ('Abstract interpretation of the covariance construction for an '
        'enumerated family of kernel structures (numbers of outputs, kernels, '
        'ranks and points), with arbitrary parameter values, kernel '
        'functions, grid distances and interpolation weights; each entry of '
        'the assembled covariance compared in normal form with the '
        'coregionalisation formula.  Structured matrices enter by the '
        'contract established in C12.')
BUDGET = 700
G = 'runlmc.lmc.grid_kernel.gen_grid_kernel'
EX = 'runlmc.lmc.likelihood.ExactLMCLikelihood'
CFGS = [
    (Cfg(1, lmc=[1]), [2], [2]),
    (Cfg(2, lmc=[1]), [2], [2, 1]),
    (Cfg(2, lmc=[2]), [3], [1, 1]),
    (Cfg(2, slfm=1), [2], [1, 2]),
    (Cfg(2, indep=[1]), [2], [1, 1]),
    (Cfg(2, slfm=2), [2], [1, 1]),
    (Cfg(2, indep=[0, 1], default_index=True), [2], [1, 1]),
    (Cfg(2, indep=[1, 0]), [2], [1, 1]),
    (Cfg(2, lmc=[1], slfm=1), [2], [1, 1]),
    (Cfg(2, lmc=[2, 1], slfm=1, indep=[1, 0]), [2], [1, 1]),
    (Cfg(3, lmc=[1], slfm=1, indep=[2]), [2], [1, 1, 1]),
    (Cfg(3, slfm=2), [2], [1, 0, 1]),
    (Cfg(3, lmc=[2], indep=[0]), [2], [1, 1, 1]),
    (Cfg(3, lmc=[2, 1]), [2], [1, 1, 0]),
    (Cfg(3, lmc=[1, 2], slfm=1), [2], [0, 1, 1]),
    (Cfg(3, slfm=1, indep=[0, 2]), [2], [1, 1, 1]),
    (Cfg(3, indep=[2, 0, 1]), [2], [1, 1, 1]),
    (Cfg(4, lmc=[1], slfm=2), [2], [1, 0, 1, 0]),
    (Cfg(2, lmc=[1, 1], P=2), [2, 2], [1, 1]),
    (Cfg(2, lmc=[2], P=2), [2, 3], [1, 1]),
    (Cfg(2, lmc=[2, 2], P=2), [3, 2], [1, 1]),
    (Cfg(3, lmc=[1], slfm=1, P=2), [2, 3], [1, 0, 1]),
    (Cfg(3, slfm=1, indep=[0, 2], P=2), [3, 2], [1, 0, 1]),
    (Cfg(2, lmc=[1], slfm=1, P=2, active=[[0], [1]]), [2, 3], [1, 1]),
    (Cfg(2, lmc=[1], slfm=1, indep=[1], P=2, active=[[1], [0], [1]]),
     [2, 2], [1, 1]),
    (Cfg(3, lmc=[1], slfm=1, indep=[1], P=2, active=[[1, 0], None, [1]]),
     [2, 1], [1, 1, 1]),
]


def run(chk):
    chk.strict = True
    for cfg, sizes, lens in CFGS:
        with chk.section('grid covariance %s' % cfg, G, limit=120):
            grid(chk, cfg, sizes, lens)
    for cfg, sizes, lens in CFGS:
        with chk.section('exact covariance %s' % cfg, EX, limit=120):
            exact(chk, cfg, lens)


def grid(chk, cfg, sizes, lens):
    I = chk.interp(dict(LINALG, **kern_stubs()))
    fk = cfg.build(I)
    cfg.assign(I, fk)
    da = Data(cfg, sizes, lens)
    r = I.call(I.func(G), (fk, da.grid_dists(I), da.interpolants(I),
                           I.new_list(tuple(Item(num(n)) for n in lens))),
               {})
    accepted(chk, 'covariance is built (%s)' % cfg, G, 0)
    r = items(I, r)
    if not r or len(r) != 2:
        raise Skip('result %r' % (r,))
    K = r[0]
    x = vector(I, 'x', num(da.n))
    y = I.as_arr(I.method(K, 'matvec', x))
    if not isinstance(y, Arr):
        raise Skip('product %r' % (y,))
    chk.eq('covariance size (%s)' % cfg, G, y.shape[0], num(da.n))
    for i in range(da.n):
        want = sum((da.cov(i, j) * el('x', num(j)) for j in range(da.n)),
                   ZERO)
        chk.eq('row %d of the covariance (%s)' % (i, cfg), G,
               I.toE(I.at1(y, (num(i),))), want)
    accepted(chk, 'covariance is usable (%s)' % cfg, G, 0)


def exact(chk, cfg, lens):
    I = chk.interp(dict(LINALG, **kern_stubs()))
    fk = cfg.build(I)
    cfg.assign(I, fk)
    da = Data(cfg, None, lens)

    def cov(p, q, na, nb):
        s = ZERO
        for k in range(cfg.Q):
            s = s + cfg.B(k, p[0], q[0]) * uf('k%d' % k, da.xdist(
                cfg.key(k), p, q, na, nb))
        return s
    f = I.getattr(I.func(EX), 'kernel_from_indices')
    lz = [1 + (d + 1) % 2 for d in range(cfg.D)]
    K = I.as_arr(I.call(f, (da.Xs(I), da.Xs(I, 'Z', lz), fk), {}))
    ps, qs = points(lens), points(lz)
    if not isinstance(K, Arr):
        chk.holds('exact cross covariance (%s)' % cfg, EX, None, repr(K))
    else:
        for i, p in enumerate(ps):
            for j, q in enumerate(qs):
                chk.eq('exact cross covariance %d,%d (%s)' % (i, j, cfg),
                       EX + '.kernel_from_indices', I.toE(I.at1(K, (
                           num(i), num(j)))), cov(p, q, 'X', 'Z'))
    o = I.call(I.func(EX), (fk, da.Xs(I), da.Ys(I)), {})
    accepted(chk, 'exact covariance is built (%s)' % cfg, EX, 0)
    K = I.as_arr(I.getattr(o, 'K'))
    if not isinstance(K, Arr):
        chk.holds('exact covariance (%s)' % cfg, EX, None, repr(K))
        return
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            w = cov(p, q, 'X', 'X')
            if i == j:
                w = w + el('noise', num(p[0]))
            chk.eq('exact covariance %d,%d (%s)' % (i, j, cfg), EX,
                   I.toE(I.at1(K, (num(i), num(j)))), w)
