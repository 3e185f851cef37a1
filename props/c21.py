"""C21: fitting stays matrix-free."""
from .components import *

RULE = ('Allocation and effect analysis: whole models are interpreted through '
        'construction, update with gradients and prediction, every array the '
        'code allocates is recorded with its symbolic shape, and no array '
        'with two axes of data or grid size, no dense view of such a matrix '
        'and no factorisation, inverse or dense solve may occur; products '
        'with structured matrices are examined in the same way.')
BUDGET = 600
FACTOR = tuple('%s.%s' % (m, f) for m in ('scipy.linalg', 'numpy.linalg')
               for f in ('cho_factor', 'cholesky', 'inv', 'solve', 'pinv',
                         'pinvh', 'lu_factor', 'lu', 'qr', 'svd', 'eigh',
                         'eig', 'eigvalsh', 'eigvals', 'slogdet', 'det',
                         'lstsq', 'solve_triangular', 'sqrtm', 'expm'))
FACTOR += ('scipy.sparse.linalg.splu', 'scipy.sparse.linalg.spsolve',
           'scipy.sparse.linalg.inv', 'scipy.sparse.linalg.factorized')


class Watch:
    """what is allocated and factorised while watching"""

    def __init__(self, big):
        self.big, self.on = big, 0
        self.dense, self.factored, self.seen = [], [], 0
        self.names = 0

    def attach(self, I):
        new = I.new

        def hook(rec):
            if self.on and not I.noevents and isinstance(rec, StoreRec):
                self.seen += 1
                if self.big(I, rec.shape):
                    self.dense.append((tuple(T.show(s) for s in rec.shape),
                                       I.loc(), tuple(I.where())[-2:]))
            return new(rec)
        I.new = hook
        arr = I.new_arr

        def shapes(shape, f, dtype='float', *a, **k):
            if self.on and dtype == 'float':
                # only shapes matter: forget the numbers
                self.names += 1
                nm = 'any%d' % self.names
                return arr(shape, lambda ix: el(nm, *ix), dtype, *a, **k)
            return arr(shape, f, dtype, *a, **k)
        I.new_arr = shapes

    def stubs(self):
        def mk(q):
            def f(I, args, kw):
                if self.on:
                    a = I.as_arr(args[0]) if args else None
                    if isinstance(a, Arr) and self.big(I, a.shape):
                        self.factored.append((q, I.loc()))
                return NotImplemented
            return f
        return {q: mk(q) for q in FACTOR}

    def report(self, chk, tag, anchor):
        chk.holds(tag + ': no dense matrix is built', anchor, not self.dense,
                  '; '.join('%s at %s' % (s, l) for s, l, _ in
                            self.dense[:3]) or '%d arrays' % self.seen,
                  self.dense[0][1] if self.dense else '')
        chk.holds(tag + ': nothing is factorised', anchor,
                  not self.factored, '; '.join('%s at %s' % x for x in
                                               self.factored[:3]),
                  self.factored[0][1] if self.factored else '')


def square(*groups):
    """two axes with sizes of one group"""
    def f(I, shape):
        c = [s.const() for s in shape]
        return any(sum(1 for x in c if x in g) >= 2 for g in groups)
    return f


def quick_solve(I, args, kw):
    """some vector of the right size"""
    y = I.as_arr(args[1] if len(args) > 1 else kw['y'])
    if not isinstance(y, Arr):
        return I.unk('solve')
    NP._rng[0] += 1
    nm = 'sol%d' % NP._rng[0]
    return I.new_arr(y.shape, lambda ix: el(nm, *ix))


CASES = [
    (Cfg(1, lmc=[1]), [6], [7], 'on-the-fly'),
    (Cfg(1, lmc=[1]), [6], [7], 'precompute'),
    (Cfg(2, lmc=[1]), [6], [5, 8], 'on-the-fly'),
    (Cfg(2, slfm=1, indep=[0]), [6], [5, 8], 'on-the-fly'),
    (Cfg(2, slfm=1), [6], [5, 8], 'precompute'),
    (Cfg(2, lmc=[1, 1]), [6], [5, 8], 'on-the-fly'),
    (Cfg(2, indep=[0, 1]), [6], [5, 8], 'on-the-fly'),
    (Cfg(3, lmc=[2], indep=[1]), [7], [5, 8, 11], 'on-the-fly'),
    (Cfg(3, lmc=[1], slfm=2), [7], [5, 8, 11], 'precompute'),
    (Cfg(3, lmc=[3, 2]), [7], [5, 8, 11], 'on-the-fly'),
    (Cfg(1, lmc=[1]), [6], [21], 'on-the-fly'),
    (Cfg(1, lmc=[1]), [40], [7], 'on-the-fly'),
    (Cfg(2, lmc=[1], slfm=1, indep=[1], P=2, active=[[1], [0], [1]]),
     [6, 7], [5, 8], 'on-the-fly'),
    (Cfg(2, lmc=[1], slfm=1, P=2, active=[[1, 0], [0]]), [6, 7], [5, 8],
     'on-the-fly'),
    (Cfg(1, lmc=[1], P=2), [5, 4], [7], 'on-the-fly'),
]


def models(chk):
    for (cfg, sizes, lens, mode), real in itertools.product(CASES, (
            False, True)):
        tag = '(%s, %s, %s)' % (cfg, mode, 'real structured matrices' if real
                                else 'structured matrices by contract')
        with chk.section('model ' + tag, M, limit=150):
            groups = [{sum(lens), *lens}]
            for key in cfg.keys():
                k = 1
                for p in key:
                    k *= sizes[p]
                groups.append({k, cfg.D * k})
            w = Watch(square(*groups))
            st = w.stubs()
            m = Model(chk, cfg, sizes, lens, mode, {
                'trace_iterations': num(2), 'metrics': False,
                'max_procs': ONE}, st, solve=quick_solve, level=30)
            I = m.I
            I.remember_results()
            reparameterise(m)
            write(m, '')
            if real:
                for q in LINALG:
                    I.stubs.pop(q, None)
            w.attach(I)
            w.on = 1
            try:
                m.update()
                w.report(chk, 'update ' + tag, M + '.parameters_changed')
                I.method(m.o, 'predict', m.da.Xs(I, 'Z', [1] * cfg.D))
            finally:
                w.report(chk, 'prediction ' + tag, M + '.predict')


def shaped(n, m, name='A'):
    return AMat(name, (num(n), num(m)))


def products(chk):
    """products with a structured matrix allocate nothing like it"""
    def cls(I, q, *a):
        return I.call(I.func(q), a, {})

    def lst(I, xs):
        return I.new_list(tuple(Item(x) for x in xs))
    n = 9
    todo = {
        'diag.Diag': lambda I: cls(I, L + 'diag.Diag', vector(
            I, 'v', num(n))),
        'identity.Identity': lambda I: cls(I, L + 'identity.Identity', num(
            n)),
        'toeplitz.Toeplitz': lambda I: cls(I, L + 'toeplitz.Toeplitz',
                                           vector(I, 'v', num(n))),
        'bttb.BTTB': lambda I: cls(I, L + 'bttb.BTTB', vector(I, 'v', num(
            n)), lst(I, [num(3), num(3)])),
        'kronecker.Kronecker': lambda I: cls(
            I, L + 'kronecker.Kronecker', shaped(3, 3), shaped(5, 5, 'B')),
        'block_diag.BlockDiag': lambda I: cls(
            I, L + 'block_diag.BlockDiag', lst(I, [shaped(4, 4), shaped(
                5, 5, 'B')])),
        'block_matrix.SymmSquareBlockMatrix': lambda I: cls(
            I, L + 'block_matrix.SymmSquareBlockMatrix', lst(I, [
                lst(I, [shaped(5, 5, 'A%d%d' % (i, j)) for j in range(2)])
                for i in range(2)])),
        'sum_matrix.SumMatrix': lambda I: cls(
            I, L + 'sum_matrix.SumMatrix', lst(I, [shaped(n, n), shaped(
                n, n, 'B')])),
        'composition.Composition': lambda I: cls(
            I, L + 'composition.Composition', lst(I, [shaped(n, n), shaped(
                n, n, 'B')])),
        'ski': lambda I: cls(I, 'runlmc.approx.ski.SKI', shaped(6, 6), *[
            x for W in [MX.from_dense(I, array(I, 'W', (num(n), num(6))))]
            for x in (W, I.getattr(W, 'T'))])}
    for q, mk in todo.items():
        a = L + q if q != 'ski' else 'runlmc.approx.ski.SKI'
        with chk.section('products with ' + q, a, limit=60):
            w = Watch(None)
            I = chk.interp(w.stubs())
            o = mk(I)
            s = [int(x.const()) for x in shp(I, o)]
            groups = [{s[0], s[1]}]
            if q == 'ski':
                groups.append({6})
            if q[:5] == 'block':
                groups[0] |= {4, 5}

            def big(I, shape):
                c = [x.const() for x in shape]
                if any(x is None for x in c):
                    return False
                t = 1
                for x in c:
                    t *= x
                return t >= max(s) ** 2 or any(sum(
                    x in g for x in c) >= 2 for g in groups)
            w.big = big
            w.attach(I)
            w.on = 1
            I.method(o, 'matvec', vector(I, 'x', num(s[1])))
            w.report(chk, 'matvec of ' + q, a + '.matvec')
            I.method(o, 'matmat', array(I, 'X', (num(s[1]), num(2))))
            w.report(chk, 'matmat of ' + q, a + '.matmat')
            accepted(chk, 'products with ' + q, a, 0)


def run(chk):
    models(chk)
    products(chk)
