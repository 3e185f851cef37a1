"""C20: malformed requests are refused with a ValueError."""
from .lmcmodel import *
from .llgp import M, Model, Solve

RULE = ('Abstract interpretation of every public constructor and of the '
        'prediction entry points on an enumerated family of malformed and '
        'well-formed requests with arbitrary contents and (where possible) '
        'arbitrary sizes: in every state of a malformed request a ValueError '
        'must be raised, in no state of a well-formed one may anything be '
        'raised.')
BUDGET = 600
MG = 'runlmc.models.multigp.MultiGP'
FK = 'runlmc.lmc.functional_kernel.FunctionalKernel'
LA = 'runlmc.linalg.'
IP = 'runlmc.approx.interpolation.'


class Sc:
    """one scenario: an interpreter and helpers to make arguments"""

    def __init__(self, chk, stubs=None):
        self.chk = chk
        self.I = chk.interp(stubs)

    def a(self, name, *shape, **kw):
        return array(self.I, name, tuple(num(s) if isinstance(s, int) else s
                                         for s in shape), **kw)

    def l(self, *xs):
        return self.I.new_list(tuple(Item(x) for x in xs))

    def call(self, qual, *args, **kw):
        return self.I.call(self.I.func(qual), args, kw)

    def kern(self, **kw):
        return self.call('runlmc.kern.rbf.RBF', **kw)


def neq(a, b):
    return ONE - ind('eq', a - b)


# work that malformed requests never reach: its results do not matter
WORK = {IP + f: (lambda I, a, k: I.unk('work'))
        for f in ('autogrid', 'multi_interpolant', 'cubic_kernel')}


def bad(chk, name, anchor, f, cond=ONE):
    with chk.section('refused: ' + name, anchor, limit=30):
        s = Sc(chk, WORK)
        r = f(s)
        c = r if isinstance(r, E) else cond
        refused(chk, 'refused: ' + name, anchor, 0, c)


def good(chk, name, anchor, f, assume=()):
    with chk.section('accepted: ' + name, anchor, limit=30):
        s = Sc(chk)
        r = f(s)
        accepted(chk, 'accepted: ' + name, anchor, 0,
                 r if isinstance(r, list) else assume)


def varied(*ys):
    """each of the outputs takes two values"""
    return [neq(el(y, ZERO), el(y, ONE)) for y in ys]


n, m, p, q = (sym(x, 'int', 'pos') for x in 'nmpq')


def gp_requests(chk, qual, norm, extra):
    tag = '%s normalize=%s' % (qual.split('.')[-1], norm)
    an = qual

    def go(s, Xs, Ys):
        kw = dict(extra(s), normalize=norm)
        return s.call(qual, s.l(*Xs), s.l(*Ys), **kw)

    def B(name, f):
        bad(chk, '%s: %s' % (tag, name), an, f)

    B('no outputs', lambda s: go(s, [], []))
    B('no inputs for an output', lambda s: go(s, [], [s.a('Y0', 3)]))
    B('an input without output', lambda s: go(
        s, [s.a('X0', 3), s.a('X1', 2)], [s.a('Y0', 3)]))
    B('an output without input', lambda s: go(
        s, [s.a('X0', 3)], [s.a('Y0', 3), s.a('Y1', 2)]))
    for i in range(3):
        def lens(s, i=i):
            k = [num(2)] * 3
            k[i] = n
            return go(s, [s.a('X%d' % d, k[d]) for d in range(3)],
                      [s.a('Y%d' % d, 2) for d in range(3)]) and neq(
                          n, num(2))

        def lens2(s, i=i):
            go(s, [s.a('X%d' % d, 2 if d == i else 3, 1) for d in range(3)],
               [s.a('Y%d' % d, 3) for d in range(3)])

        def lens3(s, i=i):
            go(s, [s.a('X%d' % d, 4 if d == i else 3) for d in range(3)],
               [s.a('Y%d' % d, 3) for d in range(3)])

        def x3(s, i=i):
            go(s, [s.a('X%d' % d, *((2, 1, 1) if d == i else (2,)))
                   for d in range(3)], [s.a('Y%d' % d, 2) for d in range(3)])

        def y2(s, i=i):
            go(s, [s.a('X%d' % d, 2) for d in range(3)],
               [s.a('Y%d' % d, *((2, 1) if d == i else (2,)))
                for d in range(3)])

        def dims(s, i=i):
            go(s, [s.a('X%d' % d, 2, 3 if d == i else 2) for d in range(3)],
               [s.a('Y%d' % d, 2) for d in range(3)])

        def mix(s, i=i):
            go(s, [s.a('X%d' % d, *((2,) if d == i else (2, 2)))
                   for d in range(3)], [s.a('Y%d' % d, 2) for d in range(3)])

        def const(s, i=i):
            go(s, [s.a('X%d' % d, 3) for d in range(3)],
               [s.I.new_arr((num(3),), lambda ix: sym('y')) if d == i else
                s.a('Y%d' % d, 3) for d in range(3)])

        def single(s, i=i):
            go(s, [s.a('X%d' % d, 1 if d == i else 3) for d in range(3)],
               [s.a('Y%d' % d, 1 if d == i else 3) for d in range(3)])
        B('fewer inputs than observations in output %d' % i, lens2)
        B('more inputs than observations in output %d' % i, lens3)
        B('three-dimensional input %d' % i, x3)
        B('two-dimensional output %d' % i, y2)
        B('input %d of another dimension' % i, dims)
        B('one-dimensional input %d among two-dimensional ones' % i, mix)
        B('constant output %d' % i, const)
        B('output %d with a single observation' % i, single)

    def uneven(s):
        go(s, [s.a('X0', n)], [s.a('Y0', m)])
        return neq(n, m)
    B('arbitrary different lengths', uneven)


def gp_accepted(chk, qual, norm, extra):
    tag = '%s normalize=%s' % (qual.split('.')[-1], norm)

    def go(s, Xs, Ys):
        kw = dict(extra(s), normalize=norm)
        return s.call(qual, s.l(*Xs), s.l(*Ys), **kw)

    def G(name, f):
        good(chk, '%s: %s' % (tag, name), qual, f)

    def one(s):
        go(s, [s.a('X0', 2)], [s.a('Y0', 2)])
        return varied('Y0')

    def mixed(s):
        go(s, [s.a('X0', 2), s.a('X1', 3, 1)], [s.a('Y0', 2), s.a('Y1', 3)])
        return varied('Y0', 'Y1')

    def planar(s):
        go(s, [s.a('X0', 2, 2), s.a('X1', 3, 2), s.a('X2', 2, 2)],
           [s.a('Y0', 2), s.a('Y1', 3), s.a('Y2', 2)])
        return varied('Y0', 'Y1', 'Y2')
    G('one output', one)
    G('flat and column inputs', mixed)
    if qual == MG:
        G('three planar outputs', planar)


def predictions(chk):
    raw = {MG + '._raw_predict': lambda I, a, k: (
        I.new_list((Item(I.new_arr((num(2),), lambda ix: el('mu', *ix))),)),
        I.new_list((Item(I.new_arr((num(2),), lambda ix: el(
            tensor('va', 'pos'), *ix))),)))}

    def gp(chk, cols):
        s = Sc(chk)
        s.I = chk.interp(raw)
        o = s.call(MG, s.l(s.a('X0', 3) if cols == 0 else s.a(
            'X0', 3, cols)), s.l(s.a('Y0', 3)), normalize=False)
        if not isinstance(o, ORef):
            raise Skip('model %r' % (o,))
        return s, o, len(s.I.raises)
    for meth in ('predict', 'predict_quantiles'):
        an = MG + '.' + meth
        for cols, shape in ((0, (2, 2)), (1, (2, 2)), (2, (2,)), (2, (2, 1)),
                            (2, (2, 3)), (3, (4, 2))):
            nm = '%s for %s inputs of shape %s' % (meth, cols or 'flat',
                                                   shape)
            with chk.section('refused: ' + nm, an, limit=30):
                s, o, n0 = gp(chk, cols)
                s.I.method(o, meth, s.l(s.a('Z', *shape)))
                refused(chk, 'refused: ' + nm, an, n0, ONE)
        for cols, shape in ((0, (2,)), (1, (2, 1)), (2, (2, 2))):
            nm = '%s for %s inputs of shape %s' % (meth, cols or 'flat',
                                                   shape)
            with chk.section('accepted: ' + nm, an, limit=30):
                s, o, n0 = gp(chk, cols)
                s.I.method(o, meth, s.l(s.a('Z', *shape)))
                accepted(chk, 'accepted: ' + nm, an, n0)


def kernels(chk):
    def B(name, f):
        bad(chk, 'kernel: ' + name, FK, f)

    def G(name, f):
        good(chk, 'kernel: ' + name, FK, f)

    def fk(s, *a, **kw):
        return s.call(FK, *a, **kw)
    B('no number of outputs', lambda s: fk(s, lmc_kernels=s.l(s.kern()),
                                           lmc_ranks=s.l(ONE)) and None)
    B('zero outputs', lambda s: fk(s, D=ZERO, lmc_kernels=s.l(s.kern()),
                                   lmc_ranks=s.l(ONE)) and None)
    B('no kernels', lambda s: fk(s, D=num(2)) and None)
    B('empty kernel lists', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(), lmc_ranks=s.l(), slfm_kernels=s.l(),
        indep_gp=s.l(), indep_gp_index=s.l()) and None)
    B('full kernel without rank', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(s.kern())) and None)
    B('full kernel with no ranks', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(s.kern()), lmc_ranks=s.l()) and None)
    B('two full kernels, one rank', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(s.kern(), s.kern()),
        lmc_ranks=s.l(ONE)) and None)
    B('one full kernel, two ranks', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(s.kern()), lmc_ranks=s.l(ONE, ONE))
        and None)
    B('ranks without full kernels', lambda s: fk(
        s, D=num(2), slfm_kernels=s.l(s.kern()), lmc_ranks=s.l(ONE))
        and None)
    for i in range(3):
        def rank(s, i=i):
            r = sym('r', 'int')
            fk(s, D=num(2), lmc_kernels=s.l(*[s.kern() for _ in range(3)]),
               lmc_ranks=s.l(*[r if j == i else num(j + 1)
                               for j in range(3)]))
            return ind('le', r) if False else ONE - ind('lt', -r)
        B('rank %d of 3 not positive' % i, rank)
    B('independent kernels with too few indices', lambda s: fk(
        s, D=num(3), indep_gp=s.l(s.kern(), s.kern()),
        indep_gp_index=s.l(ONE)) and None)
    B('independent kernels with too many indices', lambda s: fk(
        s, D=num(3), indep_gp=s.l(s.kern()), indep_gp_index=s.l(ZERO, ONE))
        and None)
    B('indices without independent kernels', lambda s: fk(
        s, D=num(3), slfm_kernels=s.l(s.kern()), indep_gp_index=s.l(ZERO))
        and None)

    def dim(s, a, b):
        k = fk(s, D=num(2), slfm_kernels=s.l(s.kern()))
        s.I.method(k, 'set_input_dim', a)
        s.I.method(k, 'set_input_dim', b)
    B('two different input dimensions', lambda s: dim(s, num(2), num(3)))
    G('the same input dimension twice', lambda s: dim(s, num(2), num(2)))
    G('full kernels', lambda s: fk(
        s, D=num(2), lmc_kernels=s.l(s.kern(), s.kern()),
        lmc_ranks=s.l(ONE, num(2))) and None)
    G('rank-one kernels only', lambda s: fk(
        s, D=num(2), slfm_kernels=s.l(s.kern())) and None)
    G('independent kernels only', lambda s: fk(
        s, D=num(2), indep_gp=s.l(s.kern(), s.kern())) and None)
    G('independent kernels with indices', lambda s: fk(
        s, D=num(3), indep_gp=s.l(s.kern(), s.kern()),
        indep_gp_index=s.l(num(2), ZERO)) and None)
    G('all kinds', lambda s: fk(
        s, D=num(3), lmc_kernels=s.l(s.kern()), lmc_ranks=s.l(num(2)),
        slfm_kernels=s.l(s.kern()), indep_gp=s.l(s.kern()),
        indep_gp_index=s.l(ONE)) and None)
    G('one output', lambda s: fk(
        s, D=ONE, lmc_kernels=s.l(s.kern()), lmc_ranks=s.l(ONE)) and None)
    G('restricted inputs', lambda s: s.I.method(fk(
        s, D=num(2), slfm_kernels=s.l(s.kern(active_dims=s.l(ONE)),
                                      s.kern())),
        'set_input_dim', num(2)) and None)


def matrices(chk):
    def B(name, qual, f):
        bad(chk, name, qual, f)

    def G(name, qual, f):
        good(chk, name, qual, f)
    z = sym('z', 'int')
    w = sym('w', 'int')

    def size(s, rows):
        s.call(LA + 'matrix.Matrix', *((z, p) if rows else (p, z)))
        return ind('lt', z - 1)
    B('matrix without rows', LA + 'matrix.Matrix', lambda s: size(s, True))
    B('matrix without columns', LA + 'matrix.Matrix',
      lambda s: size(s, False))
    G('matrix of any positive size', LA + 'matrix.Matrix',
      lambda s: s.call(LA + 'matrix.Matrix', n, m) and None)
    for c, name in (('diag.Diag', 'diagonal'),
                    ('toeplitz.Toeplitz', 'Toeplitz')):
        qn = LA + c
        B('%s matrix of a table' % name, qn,
          lambda s: s.call(qn, s.a('v', n, m)) and None)
        B('%s matrix of a column' % name, qn,
          lambda s: s.call(qn, s.a('v', n, 1)) and None)
        B('%s matrix of nothing' % name, qn,
          lambda s: s.call(qn, s.a('v', 0)) and None)
        G('%s matrix of any vector' % name, qn,
          lambda s: s.call(qn, s.a('v', 4)) and None)
        G('%s matrix of one number' % name, qn,
          lambda s: s.call(qn, s.a('v', 1)) and None)
    qn = LA + 'bttb.BTTB'
    B('block Toeplitz matrix of a table', qn, lambda s: s.call(
        qn, s.a('v', 2, 2), s.l(num(2), num(2))) and None)
    B('block Toeplitz matrix of nothing', qn, lambda s: s.call(
        qn, s.a('v', 0), s.l(ZERO)) and None)
    B('block Toeplitz matrix with a table of sizes', qn, lambda s: s.call(
        qn, s.a('v', 4), s.I.new_arr((num(2), num(2)), lambda ix: ONE,
                                     'int')) and None)

    def btt(s, *sz):
        s.call(qn, s.a('v', n), s.l(*sz))
        t = ONE
        for x in sz:
            t = t * x
        return neq(t, n)
    B('block Toeplitz matrix of the wrong size', qn,
      lambda s: btt(s, p))
    B('block Toeplitz matrix of the wrong sizes', qn,
      lambda s: btt(s, p, q))
    G('block Toeplitz matrix', qn, lambda s: s.call(
        qn, s.a('v', 6), s.l(num(2), num(3))) and None)
    G('block Toeplitz matrix with sizes as a tuple', qn, lambda s: s.call(
        qn, s.a('v', 8), (num(2), num(2), num(2))) and None)
    qn2 = LA + 'numpy_matrix.NumpyMatrix'
    for sh in ((3,), (2, 2, 2), ()):
        B('dense matrix of an array of shape %s' % (sh,), qn2,
          lambda s: s.call(qn2, s.a('A', *sh)) and None)
    G('dense matrix', qn2, lambda s: s.call(qn2, s.a('A', n, m)) and None)
    qn3 = LA + 'sum_matrix.SumMatrix'
    B('sum of no matrices', qn3, lambda s: s.call(qn3, s.l()) and None)
    for i in range(3):
        for t in range(2):
            def sums(s, i=i, t=t):
                ks = [s.call(LA + 'numpy_matrix.NumpyMatrix', s.a(
                    'A%d' % j, *((n, m) if j != i else (
                        (p, m) if t else (n, p))))) for j in range(3)]
                s.call(qn3, s.l(*ks))
                return neq(p, n if t else m)
            B('sum with %s of matrix %d differing' % (
                ('columns', 'rows')[t], i), qn3, sums)
    G('sum of matrices', qn3, lambda s: s.call(qn3, s.l(*[s.call(
        qn2, s.a('A%d' % j, n, m)) for j in range(3)])) and None)
    qn4 = LA + 'block_matrix.SymmSquareBlockMatrix'

    def blocks(s, lens):
        s.call(qn4, s.l(*[s.l(*[s.call(qn2, s.a('A', 2, 2))
                                for _ in range(k)]) for k in lens]))
    for lens in ((1, 2), (2, 1), (1, 1), (3, 3), (3, 3, 2), (2,)):
        B('block matrix with rows of %s blocks' % (lens,), qn4,
          lambda s: blocks(s, lens))
    for lens in ((2, 2), (1,)):
        G('block matrix with rows of %s blocks' % (lens,), qn4,
          lambda s: blocks(s, lens))
    for c in ('identity.Identity',):
        def ident(s):
            s.call(LA + c, z)
            return ind('lt', z - 1)
        B('identity of no size', LA + c, ident)
        G('identity', LA + c, lambda s: s.call(LA + c, n) and None)


def means(chk):
    qc = 'runlmc.mean.constant.Constant'

    def c0(s):
        s.call(qc, ONE, n, s.a('c', m))
        return neq(n, m)
    bad(chk, 'constant mean with a start of another length', qc, c0)
    bad(chk, 'constant mean with a table as start', qc,
        lambda s: s.call(qc, ONE, num(2), s.a('c', 2, 1)) and None)
    good(chk, 'constant mean with start', qc,
         lambda s: s.call(qc, ONE, n, s.a('c', n)) and None)
    good(chk, 'constant mean', qc,
         lambda s: s.call(qc, ONE, num(2)) and None)
    for c in (qc, 'runlmc.mean.zero.Zero'):
        nm = c.split('.')[-1]
        for lens, nd in (((2,), 1), ((2, 2, 2), 1), ((), 1), ((2, 2), 2)):
            bad(chk, '%s mean of %d outputs for %d inputs (%d-D)' % (
                nm, 2, len(lens), nd), c, lambda s: s.I.method(
                    s.call(c, ONE, num(2)), 'f', s.l(*[s.a('X%d' % i, *(
                        [k] + [1] * (nd - 1))) for i, k in enumerate(lens)]))
                and None)
        good(chk, '%s mean of 2 outputs' % nm, c, lambda s: s.I.method(
            s.call(c, ONE, num(2)), 'f', s.l(s.a('X0', 2), s.a('X1', 3)))
            and None)


def grids(chk):
    qc = IP + 'interp_cubic'
    bad(chk, 'cubic interpolation on a table', qc, lambda s: s.call(
        qc, s.a('g', 5, 2), s.a('x', n)) and None)
    bad(chk, 'cubic interpolation of a table', qc, lambda s: s.call(
        qc, s.a('g', 5), s.a('x', n, 2)) and None)
    for k in (1, 2, 3):
        bad(chk, 'cubic interpolation on %d points' % k, qc,
            lambda s: s.call(qc, s.a('g', k), s.a('x', n)) and None)

    def ascending(s, k, x):
        g = s.I.new_arr((num(k),), lambda ix: sym('g0') + ix[0] * sym(
            'step', 'pos'))
        s.call(qc, g, x)
    for k in (4, 5):
        good(chk, 'cubic interpolation on %d points' % k, qc,
             lambda s: ascending(s, k, s.a('x', 2)))
    good(chk, 'cubic interpolation of no samples', qc,
         lambda s: ascending(s, 4, s.a('x', 0)))
    qb = IP + 'interp_bicubic'
    for i in range(2):
        for k in ((3,), (5, 2)):
            def two(s, i=i, k=k):
                g = [s.a('g', 5), s.a('h', 5)]
                g[i] = s.a('b', *k)
                s.call(qb, g[0], g[1], s.a('x', n, 2))
            bad(chk, 'bicubic interpolation with grid %d of shape %s' % (
                i, k), qb, two)
    for sh in ((n,), (n, 1), (n, 3), (n, 2, 1)):
        bad(chk, 'bicubic interpolation of samples of shape %s' % (sh,), qb,
            lambda s: s.call(qb, s.a('g', 5), s.a('h', 5), s.a('x', *sh))
            and None)
    qt = 'runlmc.util.numpy_convenience.tesselate'
    bad(chk, 'split into no parts', qt, lambda s: s.call(
        qt, s.a('v', 3), s.l()) and None)

    def tess(s):
        s.call(qt, s.a('v', n), s.l(p, q))
        return neq(n, p + q)
    bad(chk, 'split into parts that do not add up', qt, tess)
    good(chk, 'split into parts', qt, lambda s: s.call(
        qt, s.a('v', 5), s.l(num(2), num(3))) and None)
    qs = 'runlmc.util.numpy_convenience.search_descending'

    def desc(s):
        s.call(qs, sym('x'), s.a('v', 3), True)
        v = [el('v', num(i)) for i in range(3)]
        a, b = ind('lt', v[0] - v[1]), ind('lt', v[1] - v[2])
        return a + b - a * b
    bad(chk, 'search in something not decreasing', qs, desc)


def kernel_arg(s):
    return {'functional_kernel': s.call(FK, D=num(3), slfm_kernels=s.l(
        s.kern()))}


def models(chk):
    def B(name, f):
        bad(chk, 'interpolated model: ' + name, M, f)

    def go(s, **kw):
        s.call(M, s.l(s.a('X0', 3)), s.l(s.a('Y0', 3)), **kw)

    def k1(s):
        return s.call(FK, D=ONE, slfm_kernels=s.l(s.kern()))
    B('no kernel', lambda s: go(s))
    B('no kernel and a prediction mode', lambda s: go(
        s, prediction='exact'))
    for mode in ('sample', 'matrix-free', 'Exact', '', 'on the fly', None):
        B('prediction mode %r' % (mode,), lambda s: go(
            s, functional_kernel=k1(s), prediction=mode))
    for mode in ('on-the-fly', 'precompute', 'exact'):
        for norm in (True, False):
            nm = 'accepted: interpolated model: prediction mode %s, ' \
                'normalize=%s' % (mode, norm)
            with chk.section(nm, M, limit=60):
                mo = Model(chk, Cfg(1, slfm=1), [4], [3], prediction=mode,
                           normalize=norm)
                accepted(chk, nm, M, 0, mo.varied())
    with chk.section('accepted: interpolated model: defaults', M, limit=60):
        mo = Model(chk, Cfg(2, (1,)), [4], [3, 2])
        accepted(chk, 'accepted: interpolated model: defaults', M, 0,
                 mo.varied())


def run(chk):
    none = lambda s: {}                                    # noqa: E731
    for norm in (True, False):
        gp_requests(chk, MG, norm, none)
        gp_accepted(chk, MG, norm, none)
    gp_requests(chk, M, True, kernel_arg)
    predictions(chk)
    kernels(chk)
    models(chk)
    matrices(chk)
    means(chk)
    grids(chk)
