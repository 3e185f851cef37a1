"""C12: structured matrices behave as the dense matrix they stand for."""
from .common import *
from .mats import AMat, products

RULE = ('Abstract interpretation of every structured-matrix class on '
        'matrices of symbolic size built from arbitrary constituents (known '
        'only by the product contract): product with symbolic vectors and '
        'matrices of integer and float type and the dense view compared '
        'entry by entry in normal form with the defining matrix.')
Q = 'runlmc.linalg.'
BUDGET = 700


def dim(name):
    return sym(name, 'int', 'ge1', 'pos')


def run(chk):
    chk.strict = True
    T.SHIFT[0] = True
    n, m = dim('n'), dim('m')
    a = Q + 'numpy_matrix.NumpyMatrix'
    for dt in ('float', 'int'):
        with chk.section('NumpyMatrix %s' % dt, a):
            I = chk.interp()
            at = ('int',) if dt == 'int' else ()
            t = tensor('M', *at)
            o = I.call(I.func(a), (array(I, 'M', (n, m), *at, dtype=dt),), {})
            products(chk, I, o, 'NumpyMatrix of %ss' % dt, a, n, m,
                     lambda i, j: el(t, i, j))
    a = Q + 'diag.Diag'
    for dt in ('float', 'int'):
        with chk.section('Diag', a):
            I = chk.interp()
            at = ('int',) if dt == 'int' else ()
            t = tensor('v', *at)
            o = I.call(I.func(a), (vector(I, 'v', n, *at, dtype=dt),), {})
            products(chk, I, o, 'Diag of %ss' % dt, a, n, n,
                     lambda i, j: el(t, i) * ind('eq', i - j))
    a = Q + 'identity.Identity'
    with chk.section('Identity', a):
        I = chk.interp()
        o = I.call(I.func(a), (n,), {})
        products(chk, I, o, 'Identity', a, n, n, lambda i, j: ind(
            'eq', i - j))
    a = Q + 'kronecker.Kronecker'
    with chk.section('Kronecker', a):
        I = chk.interp()
        r1, c1, r2, c2 = dim('r1'), dim('c1'), dim('r2'), dim('c2')
        o = I.call(I.func(a), (AMat('A', (r1, c1)), AMat('B', (r2, c2))), {})
        products(chk, I, o, 'Kronecker', a, r1 * r2, c1 * c2,
                 lambda i, j: el('A', T.floordiv(i, r2), T.floordiv(j, c2)) *
                 el('B', T.mod(i, r2), T.mod(j, c2)))
    a = Q + 'toeplitz.Toeplitz'
    for dt in ('float', 'int'):
        with chk.section('Toeplitz', a):
            I = chk.interp()
            at = ('int',) if dt == 'int' else ()
            t = tensor('top', *at)
            o = I.call(I.func(a), (vector(I, 'top', n, *at, dtype=dt),), {})
            products(chk, I, o, 'Toeplitz of %ss' % dt, a, n, n,
                     lambda i, j: el(t, T.absE(i - j)))
    a = Q + 'bttb.BTTB'
    with chk.section('BTTB', a, limit=120):
        bttb(chk, a, [dim('n0')])
    # two and more axes: small grids, every entry symbolic
    for ns in ((2, 3), (3, 2), (1, 3), (3, 1), (2, 1, 3), (1, 1),
               (1, 2, 2)):
        with chk.section('BTTB %s' % 'x'.join(map(str, ns)), a, limit=60):
            bttb(chk, a, [num(v) for v in ns])
    a = Q + 'block_diag.BlockDiag'
    for D in (1, 2, 3):
        with chk.section('BlockDiag of %d' % D, a, limit=60):
            I = chk.interp()
            rs = [dim('r%d' % k) for k in range(D)]
            cs = [dim('c%d' % k) for k in range(D)]
            o = I.call(I.func(a), (I.new_list(tuple(Item(AMat(
                'B%d' % k, (rs[k], cs[k]))) for k in range(D))),), {})
            blocked(chk, I, o, 'BlockDiag of %d' % D, a, rs, cs,
                    lambda k, l, i, j: el('B%d' % k, i, j) if k == l
                    else ZERO)
    a = Q + 'block_matrix.SymmSquareBlockMatrix'
    for D in (1, 2, 3):
        with chk.section('SymmSquareBlockMatrix of %d' % D, a, limit=60):
            I = chk.interp()
            bl = I.new_list(tuple(Item(I.new_list(tuple(Item(AMat(
                'B%d%d' % (i, j), (n, n))) for j in range(D))))
                for i in range(D)))
            o = I.call(I.func(a), (bl,), {})
            blocked(chk, I, o, 'SymmSquareBlockMatrix of %d' % D, a, [n] * D,
                    [n] * D, lambda k, l, i, j: el('B%d%d' % (k, l), i, j))
    a = Q + 'sum_matrix.SumMatrix'
    with chk.section('SumMatrix', a):
        I = chk.interp()
        D = dim('D')
        k = fresh_var('k', D)
        o = I.call(I.func(a), (I.new_list((Fam(((k, D),), AMat(
            'B', (n, m), (A(k),))),)),), {})

        def entry(i, j):
            k = fresh_var('k', D)
            return mk_sum(k, D, el('B', A(k), i, j))
        products(chk, I, o, 'SumMatrix', a, n, m, entry)
    a = Q + 'composition.Composition'
    for L in (1, 2, 3):
        with chk.section('Composition of %d' % L, a):
            I = chk.interp()
            ds = [dim('d%d' % q) for q in range(L + 1)]
            o = I.call(I.func(a), (I.new_list(tuple(Item(AMat(
                'B%d' % q, (ds[q], ds[q + 1]))) for q in range(L))),), {})

            def entry(i, j, q=0):
                if q == L - 1:
                    return el('B%d' % q, i, j)
                v = fresh_var('d', ds[q + 1])
                return mk_sum(v, ds[q + 1], el('B%d' % q, i, A(v)) *
                              entry(A(v), j, q + 1))
            products(chk, I, o, 'Composition of %d' % L, a, ds[0], ds[L],
                     entry)
    a = 'runlmc.approx.ski.SKI'
    with chk.section('SKI', a):
        I = chk.interp()
        g = dim('g')
        W = MX.from_dense(I, array(I, 'W', (n, g)))
        WT = I.getattr(W, 'T')
        o = I.call(I.func(a), (AMat('K', (g, g)), W, WT), {})

        def entry(i, j):
            u, v = fresh_var('u', g), fresh_var('v', g)
            return mk_sum(u, g, mk_sum(v, g, el('W', i, A(u)) * el(
                'K', A(u), A(v)) * el('W', j, A(v))))
        products(chk, I, o, 'SKI', a, n, n, entry)
    a = Q + 'matrix.Matrix'
    with chk.section('Matrix.wrap', a):
        I = chk.interp()
        B = AMat('B', (n, m))
        o = I.call(I.getattr(I.func(a), 'wrap'), (
            (n, m), B.getattr(I, 'matvec')), {})
        products(chk, I, o, 'wrapped function', a, n, m,
                 lambda i, j: el('B', i, j))
        op = I.method(o, 'as_linear_operator')
        x = vector(I, 'x', m)

        def want(ix):
            v = fresh_var('m', m)
            return mk_sum(v, m, el('B', ix[0], A(v)) * el('x', A(v)))
        chk.arr('linear operator product', a + '.as_linear_operator',
                I.method(op, 'dot', x), (n,), want)
        chk.arr('linear operator matvec', a + '.as_linear_operator',
                I.method(op, 'matvec', x), (n,), want)


def blocked(chk, I, o, tag, a, rs, cs, entry):
    """products and dense view of a matrix of blocks, block row by block
    row; block sizes are symbolic"""
    R, C = sum(rs, ZERO), sum(cs, ZERO)
    for dt in ('float', 'int'):
        at = ('int',) if dt == 'int' else ()
        for c in (None, dim('c')):
            rest = () if c is None else (c,)
            nm = ('x' if c is None else 'X') + dt
            x = array(I, nm, (C,) + rest, *at, dtype=dt)
            xt = tensor(nm, *at)
            op = 'matvec' if c is None else 'matmat'
            n0 = len(I.raises)
            r = I.as_arr(I.method(o, op, x))
            if not isinstance(r, Arr):
                chk.holds('%s %s, %s' % (tag, op, dt), a, None, repr(r))
                continue
            if len(I.raises) > n0:
                accepted(chk, '%s %s accepts' % (tag, op), a, n0)
            chk.eq('%s %s length, %s' % (tag, op, dt), a + '.' + op,
                   r.shape[0], R)
            q = tuple(A(fresh_var('q', v)) for v in rest)
            off = ZERO
            for k, rk in enumerate(rs):
                i = A(fresh_var('i', rk))
                want, coff = ZERO, ZERO
                for l, cl in enumerate(cs):
                    v = fresh_var('m', cl)
                    want = want + mk_sum(v, cl, entry(k, l, i, A(v)) * el(
                        xt, coff + A(v), *q))
                    coff = coff + cl
                got = I.toE(I.at1(r, (off + i,) + q))
                chk.eq('%s %s, block row %d, %s' % (tag, op, k, dt),
                       a + '.' + op, got, want)
                off = off + rk
    r = I.as_arr(I.method(o, 'as_numpy'))
    if not isinstance(r, Arr):
        return chk.holds('%s dense view' % tag, a, None, repr(r))
    off = ZERO
    for k, rk in enumerate(rs):
        coff = ZERO
        for l, cl in enumerate(cs):
            i, j = A(fresh_var('i', rk)), A(fresh_var('j', cl))
            chk.eq('%s dense view, block %d,%d' % (tag, k, l),
                   a + '.as_numpy', I.toE(I.at1(r, (off + i, coff + j))),
                   entry(k, l, i, j))
            coff = coff + cl
        off = off + rk
    chk.eq('%s dense rows' % tag, a + '.as_numpy', r.shape[0], R)
    chk.eq('%s dense columns' % tag, a + '.as_numpy', r.shape[1], C)


def bttb(chk, a, ns):
    P = len(ns)
    N = ONE
    for x in ns:
        N = N * x

    def flat(ix):
        f = ZERO
        for i, n in zip(ix, ns):
            f = f * n + i
        return f
    for dt in ('float', 'int'):
        I = chk.interp()
        at = ('int',) if dt == 'int' else ()
        t = tensor('top', *at)
        o = I.call(I.func(a), (vector(I, 'top', N, *at, dtype=dt),
                               I.new_list(tuple(Item(x) for x in ns))), {})
        tag = 'BTTB %s of %ss' % ('x'.join(map(repr, ns)), dt)
        dts = (dt,) if P > 1 else ('float', 'int')
        for xd in dts:
            xa = ('int',) if xd == 'int' else ()
            xt = tensor('x' + xd, *xa)
            for c in (None, dim('c')):
                rest = () if c is None else (c,)
                r = I.method(o, 'matvec' if c is None else 'matmat', array(
                    I, 'x' + xd, (N,) + rest, *xa, dtype=xd))
                r = I.as_arr(r)
                if not isinstance(r, Arr):
                    chk.holds(tag + ' product', a, None, repr(r))
                    continue
                r = I.method(r, 'reshape', *(tuple(ns) + rest))

                def want(ix):
                    vs = [fresh_var('m', n) for n in ns]
                    b = el(t, flat([T.absE(i - A(v)) for i, v in zip(
                        ix, vs)])) * el(xt, flat([A(v) for v in vs]),
                                        *ix[P:])
                    for v, n in reversed(list(zip(vs, ns))):
                        b = mk_sum(v, n, b)
                    return b
                chk.arr('%s %s, %s' % (tag, 'matvec' if c is None else
                                       'matmat', xd), a + '.matvec', r,
                        tuple(ns) + rest, want)
        r = I.as_arr(I.method(o, 'as_numpy'))
        if isinstance(r, Arr):
            r = I.method(r, 'reshape', *(tuple(ns) * 2))
            chk.arr(tag + ' dense view', a + '.as_numpy', r, tuple(ns) * 2,
                    lambda ix: el(t, flat([T.absE(i - j) for i, j in zip(
                        ix[:P], ix[P:])])))
        else:
            chk.holds(tag + ' dense view', a + '.as_numpy', None, repr(r))
