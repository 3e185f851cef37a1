"""Building coregionalised kernels of a given structure with symbolic values
(counts of outputs, kernels, ranks and points are fixed per configuration;
every value - parameter, kernel function, distance, weight - is arbitrary)."""
from .common import *
from .mats import AMat

KB = 'runlmc.kern.stationary_kern.StationaryKern'
L = 'runlmc.linalg.'


# --------------------------------------------------- matrices by contract
def ent(I, M, i, j):
    """entry of a matrix-like value"""
    if isinstance(M, AMat):
        return M.entry(i, j)
    if isinstance(M, MX.Csr):
        return M.at(i, j)
    if isinstance(M, ORef):
        n, m = items(I, I.getattr(M, 'shape'))
        e = I.new_arr((m,), lambda ix: ind('eq', ix[0] - j))
        r = I.as_arr(I.method(M, 'matvec', e))
        if isinstance(r, Arr):
            return I.toE(I.at1(r, (i,)))
    return I.unkE('entry of %r' % (M,))


def shp(I, M):
    s = items(I, I.getattr(M, 'shape'))
    return tuple(I.toE(x) for x in s) if s and len(s) == 2 else None


def _seq(I, v):
    r = items(I, v)
    if r is None:
        raise Skip('sequence of matrices %r' % (v,))
    return r


_n = [0]


def _mat(I, shape, f):
    _n[0] += 1
    return AMat('derived%d' % _n[0], shape, (), lambda pre, i, j: f(i, j))


def _vec(I, a):
    x = I.as_arr(a)
    return x if isinstance(x, Arr) else None


def st_bttb(I, args, kw):
    top = _vec(I, kw.get('top', args[0] if args else None))
    sz = kw.get('sizes', args[1] if len(args) > 1 else None)
    sizes = items(I, sz)
    if top is None or top.ndim != 1 or sizes is None:
        return I.unk('BTTB of %r %r' % (args, sz))
    sizes = [I.toE(s) for s in sizes]
    n = ONE
    for s in sizes:
        n = n * s
    if not T.prove_zero(T.deep_refresh(n - top.shape[0])):
        return I.models.mismatch(I, (top.shape, (n,)), 'amat')

    def f(i, j):
        ix = []
        for s in reversed(sizes[1:]):
            ix.append(T.absE(T.mod(i, s) - T.mod(j, s)))
            i, j = T.floordiv(i, s), T.floordiv(j, s)
        ix.append(T.absE(i - j))
        k = ZERO
        for s, x in zip(sizes, reversed(ix)):
            k = k * s + x
        return I.toE(I.at1(top, (k,)))
    return _mat(I, (n, n), f)


def st_toeplitz(I, args, kw):
    top = _vec(I, kw.get('top', args[0] if args else None))
    if top is None or top.ndim != 1:
        return I.unk('Toeplitz of %r' % (args,))
    return _mat(I, (top.shape[0],) * 2, lambda i, j: I.toE(
        I.at1(top, (T.absE(i - j),))))


def st_numpy(I, args, kw):
    a = _vec(I, args[0] if args else list(kw.values())[0])
    if a is None or a.ndim != 2:
        return I.unk('NumpyMatrix of %r' % (args,))
    c = I.new_arr(a.shape, lambda ix: I.at(a, ix)) if False else a
    return _mat(I, a.shape, lambda i, j: I.toE(I.at1(c, (i, j))))


def st_diag(I, args, kw):
    v = _vec(I, args[0] if args else list(kw.values())[0])
    if v is None or v.ndim != 1:
        return I.unk('Diag of %r' % (args,))
    return _mat(I, (v.shape[0],) * 2, lambda i, j: ind(
        'eq', i - j) * I.toE(I.at1(v, (i,))))


def st_identity(I, args, kw):
    n = I.toE(args[0] if args else list(kw.values())[0])
    return _mat(I, (n, n), lambda i, j: ind('eq', i - j))


def st_kron(I, args, kw):
    a, b = args[0] if args else kw['A'], args[1] if len(args) > 1 else kw['B']
    sa, sb = shp(I, a), shp(I, b)
    if sa is None or sb is None:
        return I.unk('Kronecker of %r %r' % (a, b))
    return _mat(I, (sa[0] * sb[0], sa[1] * sb[1]), lambda i, j: ent(
        I, a, T.floordiv(i, sb[0]), T.floordiv(j, sb[1])) * ent(
            I, b, T.mod(i, sb[0]), T.mod(j, sb[1])))


def _within(i, lo, n):
    return (ONE - ind('lt', i - lo)) * ind('lt', i - lo - n)


def st_blockdiag(I, args, kw):
    bs = _seq(I, args[0] if args else list(kw.values())[0])
    ss = [shp(I, b) for b in bs]
    if None in ss:
        return I.unk('BlockDiag of %r' % (bs,))

    def f(i, j):
        r = c = t = ZERO
        for b, (n, m) in zip(bs, ss):
            w = I.simp(_within(i, r, n) * _within(j, c, m))
            if w.t:
                t = t + w * ent(I, b, i - r, j - c)
            r, c = r + n, c + m
        return t
    return _mat(I, (sum((s[0] for s in ss), ZERO),
                    sum((s[1] for s in ss), ZERO)), f)


def st_symm(I, args, kw):
    v = args[0] if args else list(kw.values())[0]
    rows = [_seq(I, r) for r in _seq(I, v)]
    D = len(rows)
    if any(len(r) != D for r in rows):
        I.do_raise('ValueError', None, I.cur)
        return I.unk('uneven blocks')
    s = shp(I, rows[0][0])
    if s is None:
        return I.unk('SymmSquareBlockMatrix of %r' % (rows,))
    n = s[0]

    def f(i, j):
        t = ZERO
        for a in range(D):
            for b in range(D):
                w = I.simp(_within(i, n * a, n) * _within(j, n * b, n))
                if w.t:
                    t = t + w * ent(I, rows[a][b], i - n * a, j - n * b)
        return t
    return _mat(I, (n * D, n * D), f)


def st_sum(I, args, kw):
    ks = _seq(I, args[0] if args else list(kw.values())[0])
    if not ks:
        I.do_raise('ValueError', None, I.cur)
        return I.unk('empty sum')
    s = shp(I, ks[0])
    for k in ks[1:]:
        s2 = shp(I, k)
        if s is None or s2 is None:
            return I.unk('SumMatrix of %r' % (ks,))
        if not all(T.prove_zero(T.deep_refresh(a - b))
                   for a, b in zip(s, s2)):
            return I.models.mismatch(I, (s, s2), 'sparse sum')
    r = _mat(I, s, lambda i, j: sum((ent(I, k, i, j) for k in ks), ZERO))
    r.extra = {'Ks': I.new_list(tuple(Item(k) for k in ks))}
    return r


def _chain(I, ms):
    ss = [shp(I, m) for m in ms]
    if None in ss:
        return I.unk('Composition of %r' % (ms,))
    for a, b in zip(ss, ss[1:]):
        if not T.prove_zero(T.deep_refresh(a[1] - b[0])):
            return I.models.mismatch(I, (a, b), 'matmul')

    def f(i, j, q=0):
        if q == len(ms) - 1:
            return ent(I, ms[q], i, j)
        v = fresh_var('d', ss[q][1])
        if ss[q][1].const() is not None and ss[q][1].const() <= 64:
            t = ZERO
            for k in range(int(ss[q][1].const())):
                e = ent(I, ms[q], i, num(k))
                if e.t:
                    t = t + e * f(num(k), j, q + 1)
            return t
        return mk_sum(v, ss[q][1], ent(I, ms[q], i, A(v)) * f(
            A(v), j, q + 1))
    return _mat(I, (ss[0][0], ss[-1][1]), f)


def st_comp(I, args, kw):
    return _chain(I, _seq(I, args[0] if args else list(kw.values())[0]))


def st_ski(I, args, kw):
    K, W, WT = [args[p] if p < len(args) else kw[k]
                for p, k in enumerate(('K', 'W', 'WT'))]
    r = _chain(I, [W, K, WT])
    if isinstance(r, AMat):
        r.extra = {'K': K, 'W': W, 'WT': WT}
    return r


LINALG = {L + 'bttb.BTTB': st_bttb, L + 'toeplitz.Toeplitz': st_toeplitz,
          L + 'numpy_matrix.NumpyMatrix': st_numpy, L + 'diag.Diag': st_diag,
          L + 'identity.Identity': st_identity,
          L + 'kronecker.Kronecker': st_kron,
          L + 'block_diag.BlockDiag': st_blockdiag,
          L + 'block_matrix.SymmSquareBlockMatrix': st_symm,
          L + 'sum_matrix.SumMatrix': st_sum,
          L + 'composition.Composition': st_comp,
          'runlmc.approx.ski.SKI': st_ski}


# generation of the parameter values: new ones get new names
GEN = ['']


# ------------------------------------------------------- abstract kernels
def kern_stubs(nparams=None):
    """stationary kernels known only as functions k_q(distance) with
    gradients dk_q,p(distance)"""
    def idx(I, o):
        return I.heap[o.id].attrs['verif_index']

    def gen(I, o):
        return I.heap[o.id].attrs.get('verif_gen', '')

    def from_dist(I, args, kw):
        o = args[0]
        d = args[1] if len(args) > 1 else kw['dists']
        q = idx(I, o)
        return I.models.elementwise(I, lambda e: uf('k%d%s' % (q, gen(I, o)), e), [d])

    def gradient(I, args, kw):
        o = args[0]
        d = args[1] if len(args) > 1 else kw['dists']
        q = idx(I, o)
        k = I.heap[o.id].attrs['verif_np']
        return I.new_list(tuple(Item(I.models.elementwise(
            I, lambda e, p=p: uf('dk%d_%d%s' % (q, p, gen(I, o)), e), [d]))
            for p in range(k)))

    def update(I, args, kw):
        o = args[0]
        g = args[1] if len(args) > 1 else kw['grad']
        I.event('kernel_gradient', index=idx(I, o), grad=items(I, g))
        return None
    return {KB + '.from_dist': from_dist, KB + '.kernel_gradient': gradient,
            KB + '.update_gradient': update}


class Cfg:
    """structure: D outputs, ranks of the full kernels, number of rank-one
    kernels, output index of each independent kernel, input dimensions P and
    the active dimensions of each kernel (None: all)"""

    def __init__(self, D, lmc=(), slfm=0, indep=(), P=1, active=None,
                 nparams=None, default_index=False):
        self.D, self.lmc, self.slfm, self.indep = D, tuple(lmc), slfm, indep
        self.P = P
        self.Q = len(lmc) + slfm + len(indep)
        self.active = active or [None] * self.Q
        self.nparams = nparams or [1 + q % 2 for q in range(self.Q)]
        self.default_index = default_index

    def __str__(self):
        s = 'D=%d full=%s rank-one=%d independent=%s' % (
            self.D, list(self.lmc), self.slfm, list(self.indep))
        if self.P > 1:
            s += ' P=%d active=%s' % (self.P, self.active)
        return s

    def key(self, q):
        a = self.active[q]
        return tuple(range(self.P)) if a is None else tuple(sorted(a))

    def keys(self):
        out = []
        for q in range(self.Q):
            if self.key(q) not in out:
                out.append(self.key(q))
        return out

    def rank(self, q):
        return self.lmc[q] if q < len(self.lmc) else 1

    def kind(self, q):
        return 'lmc' if q < len(self.lmc) else 'slfm' if q < len(
            self.lmc) + self.slfm else 'indep'

    def kernel(self, I, q):
        a = self.active[q]
        k = I.call(I.func(KB), ('k%d' % q,), {} if a is None else {
            'active_dims': I.new_list(tuple(Item(num(v)) for v in a))})
        if not isinstance(k, ORef):
            raise Skip('kernel %r' % (k,))
        rec = I.heap[k.id].copy()
        rec.attrs['verif_index'] = q
        rec.attrs['verif_np'] = self.nparams[q]
        I.heap[k.id] = rec
        return k

    def build(self, I):
        """the FunctionalKernel with symbolic parameter values"""
        ks = [self.kernel(I, q) for q in range(self.Q)]

        def lst(xs):
            return I.new_list(tuple(Item(x) for x in xs))
        nl = len(self.lmc)
        kw = {'D': num(self.D)}
        if nl:
            kw['lmc_kernels'] = lst(ks[:nl])
            kw['lmc_ranks'] = lst([num(r) for r in self.lmc])
        if self.slfm:
            kw['slfm_kernels'] = lst(ks[nl:nl + self.slfm])
        if self.indep:
            kw['indep_gp'] = lst(ks[nl + self.slfm:])
            if not self.default_index:
                kw['indep_gp_index'] = lst([num(d) for d in self.indep])
        fk = I.call(I.func('runlmc.lmc.functional_kernel.FunctionalKernel'),
                    (), kw)
        if not isinstance(fk, ORef):
            raise Skip('FunctionalKernel %r' % (fk,))
        self.kernels = ks
        I.method(fk, 'set_input_dim', num(self.P))
        return fk

    def assign(self, I, fk):
        """arbitrary values for the trainable parameters"""
        for k in self.kernels:
            rec = I.heap[k.id].copy()
            rec.attrs['verif_gen'] = GEN[0]
            I.heap[k.id] = rec

        def bind(prop, name, count, free):
            vs = items(I, I.getattr(fk, prop))
            if vs is None or len(vs) != count:
                raise Skip('%s not enumerable: %r' % (prop, vs))
            new = []
            for q, v in enumerate(vs):
                a = I.as_arr(v)
                if not isinstance(a, Arr):
                    raise Skip('%s[%d] %r' % (prop, q, v))
                if free(q):
                    t = tensor('%s%d%s' % (name, q, GEN[0]))
                    new.append(I.new_arr(a.shape, lambda ix, t=t: el(
                        t, *ix)))
                else:
                    new.append(a)
            I.setattr(fk, prop, I.new_list(tuple(Item(x) for x in new)))
        bind('coreg_vecs', 'a', self.Q, lambda q: self.kind(q) != 'indep')
        bind('coreg_diags', 'kappa', self.Q,
             lambda q: self.kind(q) == 'lmc')
        nt = tensor('noise' + GEN[0])
        I.setattr(fk, 'noise', I.new_arr((num(self.D),), lambda ix: el(
            nt, *ix)))

    # ------------------------------------------------------- what it means
    def a(self, q, r, d):
        return ZERO if self.kind(q) == 'indep' else el('a%d' % q, num(r),
                                                       num(d))

    def kappa(self, q, d):
        k = self.kind(q)
        if k == 'lmc':
            return el('kappa%d' % q, num(d))
        if k == 'slfm':
            return ZERO
        return ONE if self.indep[q - len(self.lmc) - self.slfm] == d else \
            ZERO

    def B(self, q, d, e):
        s = ZERO
        for r in range(self.rank(q)):
            s = s + self.a(q, r, d) * self.a(q, r, e)
        if d == e:
            s = s + self.kappa(q, d)
        return s


def grid_name(key):
    return 'gd' + '_'.join(map(str, key))


def w_name(key):
    return 'W' + '_'.join(map(str, key))


class Data:
    """grid sizes per active-dimension key, points per output"""

    def __init__(self, cfg, sizes, lens):
        self.cfg, self.sizes, self.lens = cfg, sizes, lens
        self.out = [d for d, n in enumerate(lens) for _ in range(n)]
        self.n = len(self.out)

    def size(self, key):
        return [self.sizes[p] for p in key]

    def m(self, key):
        r = 1
        for s in self.size(key):
            r *= s
        return r

    def grid_dists(self, I):
        return mkdict(I, [(k, array(I, grid_name(k), [
            num(s) for s in self.size(k)])) for k in self.cfg.keys()])

    def W(self, I, key):
        t = tensor(w_name(key))
        return MX.from_dense(I, I.new_arr(
            (num(self.n), num(self.cfg.D * self.m(key))),
            lambda ix: el(t, *ix)))

    def interpolants(self, I):
        out = []
        for k in self.cfg.keys():
            W = self.W(I, k)
            out.append((k, (W, I.getattr(W, 'T'))))
        return mkdict(I, out)

    def dist(self, key, u, v):
        """grid distance between flat grid points u, v"""
        ix = []
        for s in reversed(self.size(key)):
            ix.append(abs(u % s - v % s))
            u, v = u // s, v // s
        return el(grid_name(key), *[num(x) for x in reversed(ix)])

    def ski(self, q, i, j, coef, k):
        """W (coef kron k_q) W^T at i, j; coef(d, e), k(distance)"""
        key = self.cfg.key(q)
        m = self.m(key)
        w = w_name(key)
        s = ZERO
        for d in range(self.cfg.D):
            for e in range(self.cfg.D):
                c = coef(d, e)
                if not c.t:
                    continue
                for u in range(m):
                    for v in range(m):
                        s = s + c * k(self.dist(key, u, v)) * el(
                            w, num(i), num(d * m + u)) * el(
                                w, num(j), num(e * m + v))
        return s

    def cov(self, i, j):
        s = ZERO
        for q in range(self.cfg.Q):
            s = s + self.ski(q, i, j, lambda d, e: self.cfg.B(q, d, e),
                             lambda x: uf('k%d' % q, x))
        if i == j:
            s = s + el('noise', num(self.out[i]))
        return s

    # exact counterpart
    def Xs(self, I, name='X', lens=None):
        t = tensor(name)
        return I.new_list(tuple(Item(I.new_arr(
            (num(n), num(self.cfg.P)), lambda ix, d=d: el(t, num(d), *ix)))
            for d, n in enumerate(lens or self.lens)))

    def Ys(self, I):
        t = tensor('Y')
        return I.new_list(tuple(Item(I.new_arr(
            (num(n),), lambda ix, d=d: el(t, num(d), *ix)))
            for d, n in enumerate(self.lens)))

    def xdist(self, key, a, b, na='X', nb='X'):
        s = ZERO
        for p in key:
            d = el(na, num(a[0]), num(a[1]), num(p)) - el(
                nb, num(b[0]), num(b[1]), num(p))
            s = s + d * d
        return T.sqrt(s)


def points(lens):
    return [(d, i) for d, n in enumerate(lens) for i in range(n)]


def mkdict(I, kvs):
    d = I.call(Ext('builtins.dict'), (), {})
    for k, v in kvs:
        I.models.setitem(I, d, tuple(num(x) for x in k), v)
    return d
