"""The library's building blocks as a caller sees them: arguments handed in
(remembered, so that they can be looked at afterwards) and questions asked."""
import itertools

from .answers import *
from .kernels import all_kernels, build as build_kernel

NC = 'runlmc.util.numpy_convenience.'


class Args:
    """arguments the caller owns"""

    def __init__(self, I):
        self.I = I
        self.arrays, self.lists = [], []

    def arr(self, name, shape, *attrs, dtype='float'):
        t = tensor(name, *attrs)
        a = self.I.new_arr(tuple(num(s) for s in shape), lambda ix: el(
            t, *ix), dtype)
        self.arrays.append((name, a, t, shape))
        return a

    def values(self, name, vals, dtype='float'):
        a = self.I.new_arr((num(len(vals)),), lambda ix: sum(
            (ind('eq', ix[0] - i) * v for i, v in enumerate(vals)), ZERO),
            dtype)
        self.arrays.append((name, a, list(vals), (len(vals),)))
        return a

    def lst(self, name, xs):
        l = self.I.new_list(tuple(Item(x) for x in xs))
        self.lists.append((name, l, list(xs)))
        return l

    def intact(self, chk, tag, anchor):
        I = self.I
        for name, a, t, shape in self.arrays:
            bad = und = None
            if len(a.shape) != len(shape) or any(
                    x != num(n) for x, n in zip(a.shape, shape)):
                chk.holds('%s: argument %s keeps its shape' % (tag, name),
                          anchor, False, 'shape is now %s' % (tuple(
                              T.show(x) for x in a.shape),))
                continue
            for ix in itertools.product(*[range(s) for s in shape]):
                e = I.toE(I.at1(a, tuple(num(i) for i in ix)))
                w = t[ix[0]] if isinstance(t, list) else el(
                    t, *[num(i) for i in ix])
                r, info = chk.cmp(e, w)
                d = (e - w).const() if r == 'unk' else None
                if r == 'ne' or d:
                    bad = 'entry %s is now %s' % (list(ix), T.show(e, 200))
                elif r == 'unk':
                    und = info
            loc = next((e['loc'] for e in reversed(I.events) if e['kind'] ==
                        'write' and getattr(e.get('arr'), 'id', None) ==
                        a.id), '')
            chk.holds('%s: argument %s keeps its values' % (tag, name),
                      anchor, False if bad else None if und else True,
                      bad or und or '', loc if bad else '')
        for name, l, xs in self.lists:
            now = items(I, l)
            if now is None:
                chk.holds('%s: argument %s keeps its items' % (tag, name),
                          anchor, None, 'list not enumerable')
                continue
            ok = len(now) == len(xs) and all(
                x is y or x == y for x, y in zip(now, xs))
            chk.holds('%s: argument %s keeps its items' % (tag, name),
                      anchor, bool(ok), '%d items instead of %d' % (
                          len(now), len(xs)) if not ok else '')


class Comp:
    """name, anchor, build(I, args) -> list of (question, function)"""

    def __init__(self, name, anchor, build, stubs=None):
        self.name, self.anchor, self.build = name, anchor, build
        self.stubs = stubs or {}


class Ops(list):
    """questions to one object, with the object and their arguments"""
    o = args = None


def _ops(I, o, ops):
    r = Ops((n, lambda n=n, a=a: I.method(o, n, *a)) for n, a in ops)
    r.o, r.args = o, list(ops)
    return r


def matrices():
    n, m = 3, 2

    def prods(I, A, o, rows, cols, dense=True):
        X = A.arr('x', (cols,))
        XX = A.arr('X', (cols, 2))
        ops = [('matvec', (X,)), ('matmat', (XX,))]
        if dense:
            ops.append(('as_numpy', ()))
        return _ops(I, o, ops)

    def numpy_matrix(I, A):
        return prods(I, A, I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('M', (n, m)),), {}), n, m)

    def diag(I, A):
        return prods(I, A, I.call(I.func(L + 'diag.Diag'), (
            A.arr('v', (n,)),), {}), n, n)

    def identity(I, A):
        return prods(I, A, I.call(I.func(L + 'identity.Identity'), (
            num(n),), {}), n, n)

    def toeplitz(I, A):
        return prods(I, A, I.call(I.func(L + 'toeplitz.Toeplitz'), (
            A.arr('top', (n,)),), {}), n, n)

    def bttb(sizes):
        def f(I, A):
            k = 1
            for s in sizes:
                k *= s
            return prods(I, A, I.call(I.func(L + 'bttb.BTTB'), (
                A.arr('top', (k,)), A.lst('sizes', [num(s) for s in sizes])),
                {}), k, k)
        return f

    def kron(I, A):
        a = I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('A', (2, 2)),), {})
        b = I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('B', (2, 2)),), {})
        return prods(I, A, I.call(I.func(L + 'kronecker.Kronecker'), (
            a, b), {}), 4, 4)

    def blockdiag(I, A):
        bs = [I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('B%d' % k, (2, 2)),), {}) for k in range(2)]
        return prods(I, A, I.call(I.func(L + 'block_diag.BlockDiag'), (
            A.lst('blocks', bs),), {}), 4, 4)

    def symm(I, A):
        rows = [A.lst('row %d' % i, [I.call(I.func(
            L + 'numpy_matrix.NumpyMatrix'), (A.arr('B%d%d' % (i, j), (
                2, 2)),), {}) for j in range(2)]) for i in range(2)]
        return prods(I, A, I.call(I.func(
            L + 'block_matrix.SymmSquareBlockMatrix'), (A.lst(
                'blocks', rows),), {}), 4, 4)

    def summ(I, A):
        bs = [I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('B%d' % k, (2, 3)),), {}) for k in range(2)]
        return prods(I, A, I.call(I.func(L + 'sum_matrix.SumMatrix'), (
            A.lst('terms', bs),), {}), 2, 3)

    def comp(I, A):
        bs = [I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (
            A.arr('B%d' % k, (2, 2)),), {}) for k in range(3)]
        return prods(I, A, I.call(I.func(L + 'composition.Composition'), (
            A.lst('factors', bs),), {}), 2, 2)

    def ski(I, A):
        K = I.call(I.func(L + 'toeplitz.Toeplitz'), (A.arr('top', (2,)),),
                   {})
        W = MX.from_dense(I, A.arr('W', (3, 2)))
        return prods(I, A, I.call(I.func('runlmc.approx.ski.SKI'), (
            K, W, I.getattr(W, 'T')), {}), 3, 3)
    out = [('NumpyMatrix', 'numpy_matrix.NumpyMatrix', numpy_matrix),
           ('Diag', 'diag.Diag', diag),
           ('Identity', 'identity.Identity', identity),
           ('Toeplitz', 'toeplitz.Toeplitz', toeplitz),
           ('BTTB', 'bttb.BTTB', bttb((3,))),
           ('BTTB 2x2', 'bttb.BTTB', bttb((2, 2))),
           ('Kronecker', 'kronecker.Kronecker', kron),
           ('BlockDiag', 'block_diag.BlockDiag', blockdiag),
           ('SymmSquareBlockMatrix', 'block_matrix.SymmSquareBlockMatrix',
            symm),
           ('SumMatrix', 'sum_matrix.SumMatrix', summ),
           ('Composition', 'composition.Composition', comp)]
    return [Comp(a, L + b, c) for a, b, c in out] + [
        Comp('SKI', 'runlmc.approx.ski.SKI', ski)]


def kernels(prog):
    out = []
    for cls in all_kernels(Interp(prog)):
        def f(I, A, q=cls.qual):
            k = build_kernel(I, I.func(q))
            for j, p in enumerate(linked(I, k) or ()):
                if I.is_param(p):
                    t = tensor('theta%d' % j, 'pos')
                    I.noevents += 1
                    I.write_arr(I.param_arr(p), lambda ix, t=t: el(t, *ix))
                    I.noevents -= 1
            d = A.arr('dists', (2,), 'nn')
            d2 = A.arr('dists2', (2, 2), 'nn')
            return _ops(I, k, [('from_dist', (d,)), (
                'kernel_gradient', (d,))]) + [
                    ('from_dist of a matrix', lambda: I.method(
                        k, 'from_dist', d2))]
        out.append(Comp(cls.name, cls.qual, f))
    return out


def priors():
    Q = 'runlmc.parameterization.priors.'
    out = []
    for n, k in (('Gaussian', 2), ('Gamma', 2), ('InverseGamma', 2),
                 ('HalfLaplace', 1)):
        def f(I, A, n=n, k=k):
            o = I.call(I.func(Q + n), tuple(sym('p%d' % j, 'pos')
                                            for j in range(k)), {})
            x = A.arr('x', (3,), 'pos')
            return _ops(I, o, [('lnpdf', (x,)), ('lnpdf_grad', (x,))])
        out.append(Comp(n, Q + n, f))
    return out


def means():
    out = []
    for n in ('constant.Constant', 'zero.Zero'):
        def f(I, A, n=n):
            a = (num(1), num(2))
            if n[0] == 'c':
                a += (A.arr('c0', (2,)),)
            o = I.call(I.func('runlmc.mean.' + n), a, {})
            Xs = A.lst('Xs', [A.arr('X0', (2,)), A.arr('X1', (1,))])
            return _ops(I, o, [('f', (Xs,)), ('mean_gradient', (Xs,))])
        out.append(Comp(n.split('.')[1], 'runlmc.mean.' + n, f))
    return out


def helpers():
    def call(q, mk):
        def f(I, A):
            args = mk(I, A)
            return [(q.split('.')[-1], lambda: I.call(I.func(q), args, {}))]
        return f
    AI = 'runlmc.approx.interpolation.'

    def norm(I, A):
        o = I.call(I.func('runlmc.util.normalizer.Norm'), (), {})
        I.method(o, 'scale_by', A.arr('Y', (3,)))
        z = A.arr('Z', (2,))
        return _ops(I, o, [('normalize', (z,)), ('inverse_mean', (z,)),
                           ('inverse_variance', (z,))])
    half = F(1, 2)
    grid = [num(i + 1) for i in range(6)]
    return [
        Comp('Norm', 'runlmc.util.normalizer.Norm', norm),
        Comp('cubic_kernel', AI + 'cubic_kernel', call(
            AI + 'cubic_kernel', lambda I, A: (A.values('x', [
                num(0), num(-half), num(F(3, 2)), num(1), num(2),
                num(F(-3, 2))]),))),
        Comp('interp_cubic', AI + 'interp_cubic', call(
            AI + 'interp_cubic', lambda I, A: (A.values('grid', grid),
                                               A.values('samples', [
                                                   num(F(7, 2)), num(3),
                                                   num(F(13, 4))])))),
        Comp('multi_interpolant', AI + 'multi_interpolant', call(
            AI + 'multi_interpolant', lambda I, A: (A.lst('Xs', [
                _col(I, A, 'X0', [num(F(7, 2)), num(3)]),
                _col(I, A, 'X1', [num(F(13, 4))])]),
                A.values('grid', grid)))),
        Comp('autogrid', AI + 'autogrid', call(
            AI + 'autogrid', lambda I, A: (A.lst('Xs', [
                _col(I, A, 'X0', [num(1), num(4)]),
                _col(I, A, 'X1', [num(2)])]), A.values('lo', [num(0)]),
                A.values('hi', [num(7)]), A.values(
                    'm', [num(5)], 'int')))),
        Comp('autogrid, defaults', AI + 'autogrid', call(
            AI + 'autogrid', lambda I, A: (A.lst('Xs', [
                _col(I, A, 'X0', [num(1), num(4)]),
                _col(I, A, 'X1', [num(2)])]), None, None, None))),
        Comp('cartesian_product', NC + 'cartesian_product', call(
            NC + 'cartesian_product', lambda I, A: (A.arr('u', (2,)), A.arr(
                'v', (3,))))),
        Comp('tesselate', NC + 'tesselate', call(
            NC + 'tesselate', lambda I, A: (A.arr('x', (3,)), A.lst(
                'lens', [num(1), num(2)])))),
        Comp('begin_end_indices', NC + 'begin_end_indices', call(
            NC + 'begin_end_indices', lambda I, A: (A.lst(
                'lens', [num(1), num(2)]),))),
        Comp('begin_end_indices of an array', NC + 'begin_end_indices', call(
            NC + 'begin_end_indices', lambda I, A: (A.values(
                'lens', [num(1), num(2)], 'int'),))),
        Comp('map_entries', NC + 'map_entries', call(
            NC + 'map_entries', lambda I, A: (Native(
                lambda I2, a, k: uf('f', I2.toE(a[0])), 'f'), A.arr(
                    'x', (3,))))),
        Comp('search_descending', NC + 'search_descending', call(
            NC + 'search_descending', lambda I, A: (num(2), A.values(
                'xs', [num(5), num(3), num(1)]), True))),
        Comp('smallest_eig', NC + 'smallest_eig', call(
            NC + 'smallest_eig', lambda I, A: (A.arr('top', (3,)),))),
    ]


def _col(I, A, name, vals):
    a = I.new_arr((num(len(vals)), ONE), lambda ix: sum(
        (ind('eq', ix[0] - i) * v for i, v in enumerate(vals)), ZERO))
    A.arrays.append((name, a, list(vals), (len(vals), 1)))
    return a


def functional():
    out = []
    for cfg in (Cfg(2, lmc=[1], slfm=1, indep=[1]),
                Cfg(2, lmc=[2], slfm=1, indep=[0], P=2, active=[
                    [1], [0], [1]])):
        def f(I, A, cfg=cfg):
            ks = [cfg.kernel(I, q) for q in range(cfg.Q)]
            fk = I.call(I.func(FKQ), (), {
                'D': num(2), 'lmc_kernels': A.lst('lmc_kernels', ks[:1]),
                'lmc_ranks': A.lst('lmc_ranks', [num(cfg.lmc[0])]),
                'slfm_kernels': A.lst('slfm_kernels', ks[1:2]),
                'indep_gp': A.lst('indep_gp', ks[2:]),
                'indep_gp_index': A.lst('indep_gp_index', [
                    num(cfg.indep[0])])})
            if not isinstance(fk, ORef):
                raise Skip('kernel %r' % (fk,))
            I.method(fk, 'set_input_dim', num(cfg.P))
            cfg.kernels = ks
            cfg.assign(I, fk)
            keys = cfg.keys()
            ds = {k: A.arr('dists%s' % (k,), (2,), 'nn') for k in keys}
            dd = mkdict(I, list(ds.items()))
            ops = _ops(I, fk, [('eval_kernels', (dd,)), (
                'eval_kernel_gradients', (dd,)), ('coreg_mats', ())])
            for k in keys:
                kk = tuple(num(x) for x in k)
                ops += [('eval_kernels_fixed_dim %s' % (k,), lambda k=k,
                         kk=kk: I.method(fk, 'eval_kernels_fixed_dim', ds[k],
                                         kk)),
                        ('coreg_mats %s' % (k,), lambda kk=kk: I.method(
                            fk, 'coreg_mats', kk)),
                        ('total_rank %s' % (k,), lambda kk=kk: I.method(
                            fk, 'total_rank', kk))]
            for p in ('coreg_vecs', 'coreg_diags', 'noise'):
                ops.append((p, lambda p=p: I.getattr(fk, p)))
            idx = A.lst('idxs', [ZERO, ONE, num(2)])
            ops.append(('filter_non_indep_idxs', lambda: I.method(
                fk, 'filter_non_indep_idxs', idx)))
            return ops
        out.append(Comp('FunctionalKernel %s' % cfg, FKQ, f, kern_stubs()))
    return out


LKQ = 'runlmc.lmc.likelihood.'


def likelihoods():
    cfg = Cfg(2, lmc=[1], indep=[1])

    def exact(I, A):
        w = World()
        fk = cfg.build(I)
        cfg.assign(I, fk)
        Xs = A.lst('Xs', [A.arr('X0', (2, 1)), A.arr('X1', (1, 1))])
        Ys = A.lst('Ys', [A.arr('Y0', (2,)), A.arr('Y1', (1,))])
        Zs = A.lst('Zs', [A.arr('Z0', (1, 1)), A.arr('Z1', (1, 1))])
        o = I.call(I.func(LKQ + 'ExactLMCLikelihood'), (fk, Xs, Ys), {})
        f = I.getattr(I.func(LKQ + 'ExactLMCLikelihood'),
                      'kernel_from_indices')
        return [(n, lambda n=n: I.method(o, n)) for n in GRADS] + [
            ('K', lambda: I.getattr(o, 'K')),
            ('alpha', lambda: I.method(o, 'alpha')),
            ('kernel_from_indices', lambda: I.call(f, (Zs, Xs, fk), {}))]
    return [Comp('ExactLMCLikelihood', LKQ + 'ExactLMCLikelihood', exact,
                 dict(kern_stubs(), **{'scipy.linalg.cho_factor':
                                       chol_stub()}))]


GRADS = ('coreg_vec_gradients', 'coreg_diags_gradients', 'kernel_gradients',
         'noise_gradient')


def every(prog):
    return matrices() + kernels(prog) + priors() + means() + helpers() + \
        functional() + likelihoods()
