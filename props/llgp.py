"""Whole interpolated models of a given structure: construction, update and
prediction interpreted from the source, with the grid, the interpolation
weights, the kernels and the solver known only by contract."""
from .lmcmodel import *

M = 'runlmc.models.interpolated_llgp.InterpolatedLLGP'
AP = 'runlmc.approx.'


def ax(p, i):
    """i-th position of the grid axis along input dimension p"""
    return el(tensor('axis'), num(p), num(i))


class Solve:
    """Iterative.solve: linear in the right-hand side, the inverse named
    after the entries of the matrix it is given"""

    def __init__(self):
        self.calls, self.names = [], {}

    def name(self, I, K):
        s = shp(I, K)
        if s is None or s[0].const() is None:
            return None
        n = int(s[0].const())
        es = [ent(I, K, num(i), num(j)) for i in range(n) for j in range(n)]
        if any(e.unk for e in es):
            return None
        key = tuple(e.key for e in es)
        return self.names.setdefault(key, 'inv%d' % len(self.names))

    def __call__(self, I, args, kw):
        K = args[0] if args else kw['K']
        y = I.as_arr(args[1] if len(args) > 1 else kw['y'])
        if not isinstance(y, Arr) or y.ndim != 1 or \
                y.shape[0].const() is None:
            return I.unk('solve for %r' % (y,))
        n = int(y.shape[0].const())
        ys = [I.toE(I.at1(y, (num(i),))) for i in range(n)]
        nm = self.name(I, K)
        if nm is None:
            return I.unk('solve with %r' % (K,))
        self.calls.append((nm, ys, dict(kw)))
        r = I.new_arr((num(n),), lambda ix: sum(
            (el(nm, ix[0], num(j)) * ys[j] for j in range(n)), ZERO))
        vb = args[2] if len(args) > 2 else kw.get('verbose', False)
        if vb is False or isinstance(vb, E) and vb.const() == 0:
            return r
        if vb is True or isinstance(vb, E) and vb.const() == 1:
            c = len(self.calls)
            return (r, sym('iters%d' % c, 'int', 'nn'),
                    sym('resid%d' % c, 'nn'))
        return I.unk('verbose solve')


def weight(j, x, axes):
    """weight of grid point j for the point x on a grid"""
    return uf('w', num(j), *(list(x) + list(axes)))


class Model:
    data = Data

    def __init__(self, chk, cfg, sizes, lens, prediction='on-the-fly',
                 extra=None, stubs=None, normalize=False, roots=(), I=None,
                 solve=None, level=None):
        self.cfg, self.sizes, self.lens = cfg, sizes, lens
        self.solve = solve or Solve()
        self.grids = []

        def autogrid(I, args, kw):
            xs = items(I, args[0] if args else kw['Xs'])
            self.grids.append((args, kw))
            dims = None
            for x in xs or ():
                a = I.as_arr(x)
                if isinstance(a, Arr) and a.ndim == 2 and \
                        a.shape[0].const():
                    dims = [self.column(I.toE(I.at1(a, (ZERO, num(c)))))
                            for c in range(int(a.shape[1].const()))]
                    break
            if dims is None or None in dims:
                return I.unk('grid of %r' % (xs,))
            return I.new_list(tuple(Item(I.new_arr(
                (num(self.sizes[p]),), lambda ix, p=p: el(
                    'axis', num(p), *ix))) for p in dims))

        def multi(I, args, kw):
            xs = items(I, args[0] if args else kw.get('Xs'))
            axes = [I.as_arr(a) for a in args[1:]]
            if xs is None or not axes or not all(
                    isinstance(a, Arr) and a.ndim == 1 and
                    a.shape[0].const() for a in axes):
                return I.unk('interpolant of %r' % (args,))
            av = [I.toE(I.at1(a, (num(i),))) for a in axes
                  for i in range(int(a.shape[0].const()))]
            m = 1
            for a in axes:
                m *= int(a.shape[0].const())
            rows = []
            for d, x in enumerate(xs):
                a = I.as_arr(x)
                if not isinstance(a, Arr) or a.ndim != 2 or \
                        a.shape[0].const() is None:
                    return I.unk('interpolant of %r' % (x,))
                if a.shape[1].const() != len(axes):
                    return I.models.mismatch(I, (a.shape, (num(len(
                        axes)),)), 'interpolant')
                for i in range(int(a.shape[0].const())):
                    rows.append((d, [I.toE(I.at1(a, (num(i), num(c))))
                                     for c in range(len(axes))]))

            def f(ix):
                t = ZERO
                for r, (d, x) in enumerate(rows):
                    for j in range(m):
                        g = I.simp(ind('eq', ix[0] - r) * ind(
                            'eq', ix[1] - (d * m + j)))
                        if g.t:
                            t = t + g * weight(j, x, av)
                return t
            return MX.from_dense(I, I.new_arr(
                (num(len(rows)), num(len(xs) * m)), f))
        st = dict(LINALG, **kern_stubs())
        st.update({AP + 'interpolation.autogrid': autogrid,
                   AP + 'interpolation.multi_interpolant': multi,
                   AP + 'iterative.Iterative.solve': self.solve})
        st.update(stubs or {})
        self.chk = chk
        self.I = I = I or chk.interp(st)
        if level is not None:
            I.log_level = level
        self.fk = cfg.build(I)
        cfg.assign(I, self.fk)
        self.da = self.data(cfg, sizes, lens)
        self.roots = roots
        kw = dict({'normalize': normalize, 'functional_kernel': self.fk,
                   'prediction': prediction}, **(extra or {}))
        self.Xs, self.Ys = self.da.Xs(I), self.da.Ys(I)
        self.o = I.call(I.func(M), (self.Xs, self.Ys), kw)
        if not isinstance(self.o, ORef):
            raise Skip('model %r' % (self.o,))

    def column(self, e):
        """input dimension a training value comes from"""
        for p in range(self.cfg.P):
            for d, n in enumerate(self.lens):
                for i in range(n):
                    if e == el('X', num(d), num(i), num(p)):
                        return p
        return None

    def varied(self):
        """assumptions: no output is constant"""
        return [ONE - ind('eq', el('Y', num(d), ZERO) - el(
            'Y', num(d), ONE)) for d, n in enumerate(self.lens) if n > 1]

    def update(self):
        self.I.method(self.o, 'parameters_changed')

    # --------------------------------------------------- what it should be
    def axes(self, key):
        return [ax(p, i) for p in key for i in range(self.sizes[p])]

    def w(self, key, name, d, i, j):
        x = [el(name, num(d), num(i), num(p)) for p in key]
        return weight(j, x, self.axes(key))

    def gdist(self, key, u, v):
        s = ZERO
        for p in reversed(key):
            n = self.sizes[p]
            k = abs(u % n - v % n)
            u, v = u // n, v // n
            e = ax(p, k) - ax(p, 0)
            s = s + e * e
        return T.sqrt(s)

    def grid(self, q, u, v):
        return uf('k%d' % q, self.gdist(self.cfg.key(q), u, v))

    def cross(self, a, na, b, nb):
        """interpolated covariance (no noise) of points a of na, b of nb"""
        t = ZERO
        for q in range(self.cfg.Q):
            key = self.cfg.key(q)
            m = self.da.m(key)
            B = self.cfg.B(q, a[0], b[0])
            if not B.t:
                continue
            for u in range(m):
                for v in range(m):
                    t = t + B * self.w(key, na, a[0], a[1], u) * self.grid(
                        q, u, v) * self.w(key, nb, b[0], b[1], v)
        return t

    def exact(self, a, na, b, nb):
        t = ZERO
        for q in range(self.cfg.Q):
            t = t + self.cfg.B(q, a[0], b[0]) * uf('k%d' % q, self.da.xdist(
                self.cfg.key(q), a, b, na, nb))
        return t

    def prior(self, d):
        t = el('noise', num(d))
        for q in range(self.cfg.Q):
            t = t + self.cfg.B(q, d, d) * uf('k%d' % q, ZERO)
        return t

    def inv(self):
        """name of the inverse of the model's covariance"""
        return self.solve.name(self.I, self.I.getattr(self.I.getattr(
            self.o, 'kernel'), 'K'))
