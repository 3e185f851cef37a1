"""C15: interpolation weights are the cubic-convolution weights."""
from .common import *

RULE = ('Abstract interpretation of the interpolation routines on a symbolic '
        'equispaced grid and symbolically many samples: every matrix entry '
        'compared in normal form with the cubic-convolution weight of that '
        'grid point; the multi-output interpolant compared block by block '
        'with arbitrary per-output interpolants.')
Q = 'runlmc.approx.interpolation.'
BUDGET = 700


def u(x):
    """Keys' kernel with a = -1/2 at |x| <= 2"""
    x = T.absE(x)
    near = x ** 3 * 3 / 2 - x ** 2 * 5 / 2 + 1
    far = -x ** 3 / 2 + x ** 2 * 5 / 2 - x * 4 + 2
    c = ind('lt', ONE - x)          # 1 < |x|
    return c * far + (ONE - c) * near


def grid(I, name, m):
    """equispaced increasing grid: lo + i * step"""
    lo, st = sym(name + '_lo'), sym(name + '_step', 'pos')
    return I.new_arr((m,), lambda ix: lo + ix[0] * st), lo, st


def clamp(e, m):
    lo = ind('lt', e)
    hi = ONE - ind('lt', e - m)
    return (ONE - lo) * (ONE - hi) * e + hi * (m - 1)


def weights(s, lo, st, m):
    """list of (column, weight) of the four neighbours of a sample, columns
    clamped to the grid"""
    f = (s - lo) / st
    fl = T.fn('floor', f)
    return [(clamp(fl + o, m), uf('cubic', T.absE(f - fl - o)))
            for o in (-1, 0, 1, 2)]


def run(chk):
    a = Q + 'cubic_kernel'
    with chk.section('cubic_kernel', a):
        I = chk.interp()
        n = sym('n', 'int', 'nn')
        x = vector(I, 'x', n)
        r = I.call(I.func(a), (x,), {})
        ok = lambda ix: ONE
        chk.arr('cubic_kernel is the cubic-convolution kernel', a, r, (n,),
                lambda ix: u(el('x', *ix)))
        refused(chk, 'cubic_kernel refuses arguments beyond two', a, 0,
                anyof(lambda k: ind('lt', num(2) - T.absE(el('x', k))), n))
    a = Q + 'interp_cubic'
    with chk.section('interp_cubic', a):
        I = chk.interp({Q + 'cubic_kernel': ck})
        m = sym('m', 'int', 'ge1', 'pos') + 3
        n = sym('n', 'int', 'ge1', 'pos')
        g, lo, st = grid(I, 'g', m)
        s = vector(I, 's', n)
        r = I.call(I.func(a), (g, s), {})

        def want(ix):
            return T.esum([ind('eq', c - ix[1]) * w for c, w in weights(
                el('s', ix[0]), lo, st, m)])
        chk.arr('interp_cubic row holds the weights of the neighbouring grid '
                'points', a, dense(I, r), (n, m), want)
        colrange(chk, I, 'interp_cubic uses only existing grid points', a)
        chk.quiet('interp_cubic accepts every sample set on a grid of four '
                  'or more points', a)
    with chk.section('interp_cubic refusals', a):
        I = chk.interp({Q + 'cubic_kernel': ck})
        m = sym('m', 'int', 'nn')
        n = sym('n', 'int', 'ge1', 'pos')
        g, lo, st = grid(I, 'g', m)
        I.call(I.func(a), (g, vector(I, 's', n)), {})
        refused(chk, 'interp_cubic refuses fewer than four grid points', a,
                0, ind('lt', m - 4))
    with chk.section('interp_cubic without samples', a):
        I = chk.interp()
        m = sym('m', 'int', 'ge1', 'pos') + 3
        g, lo, st = grid(I, 'g', m)
        r = I.call(I.func(a), (g, vector(I, 's', ZERO)), {})
        chk.arr('interp_cubic of no samples is an empty matrix', a,
                dense(I, r), (ZERO, m), lambda ix: ZERO)
    a = Q + 'interp_bicubic'
    with chk.section('interp_bicubic', a, limit=300):
        I = chk.interp({Q + 'cubic_kernel': ck})
        mx = sym('mx', 'int', 'ge1', 'pos') + 3
        my = sym('my', 'int', 'ge1', 'pos') + 3
        n = sym('n', 'int', 'ge1', 'pos')
        gx, lox, stx = grid(I, 'gx', mx)
        gy, loy, sty = grid(I, 'gy', my)
        s = array(I, 's', (n, num(2)))
        r = I.call(I.func(a), (gx, gy, s), {})

        def want(ix):
            out = []
            for cx, wx in weights(el('s', ix[0], ZERO), lox, stx, mx):
                for cy, wy in weights(el('s', ix[0], ONE), loy, sty, my):
                    out.append(ind('eq', cx * my + cy - ix[1]) * wx * wy)
            return T.esum(out)
        chk.arr('interp_bicubic row holds the product weights of the '
                'neighbouring grid points, second axis fastest', a,
                dense(I, r), (n, mx * my), want)
        colrange(chk, I, 'interp_bicubic uses only existing grid points', a)
    with chk.section('interp_bicubic without samples', a):
        I = chk.interp()
        mx = sym('mx', 'int', 'ge1', 'pos') + 3
        my = sym('my', 'int', 'ge1', 'pos') + 3
        gx, gy = grid(I, 'gx', mx)[0], grid(I, 'gy', my)[0]
        r = I.call(I.func(a), (gx, gy, array(I, 's', (ZERO, num(2)))), {})
        chk.arr('interp_bicubic of no samples is an empty matrix', a,
                dense(I, r), (ZERO, mx * my), lambda ix: ZERO)
    a = Q + 'multi_interpolant'
    for P in (1, 2):
        with chk.section('multi_interpolant %dd' % P, a, limit=200):
            multi(chk, P, a)
        for lens in ((2,), (1, 2), (2, 0, 1) if P == 1 else (1, 0, 1), (0, 1)):
            with chk.section('multi_interpolant %dd %s' % (P, lens), a,
                             limit=100):
                multi_small(chk, P, a, lens)


def multi_small(chk, P, a, lens):
    """block placement for concrete numbers of samples per output and of
    stored entries per row; stored weights, columns and samples arbitrary"""
    m = [sym('m%d' % p, 'int', 'ge1', 'pos') for p in range(P)]
    M = m[0] * m[1] if P == 2 else m[0]
    rc = {}
    for k, l in enumerate(lens):
        for i in range(l):
            rc[k, i] = 1 + (k + i) % 2
    dt, ct = tensor('dat'), tensor('col', 'int', 'nn')

    def ptr(k, i):
        return sum(rc[k, j] for j in range(i))

    def stub(I, args, kw):
        x = I.as_arr(args[-1])
        n = x.shape[0].const()
        g = [I.as_arr(v) for v in args[:-1]]
        if n is None or len(g) != P or any(
                v is None or v.shape[0] != m[p] for p, v in enumerate(g)):
            return I.unk('interpolant of something else')
        n = int(n)
        k = None
        if n:
            e = I.toE(I.at1(x, tuple(ZERO for _ in x.shape)))
            for at in e.atoms():
                if at.kind == 'el' and at.args[0] == 'X':
                    k = int(at.args[1].const())
        else:
            k = lens.index(0)
        if k is None or lens[k] != n:
            return I.unk('interpolant of something else')
        w = ptr(k, n)
        data = I.new_arr((num(w),), lambda ix: el(dt, num(k), *ix))
        cols = I.new_arr((num(w),), lambda ix: el(ct, num(k), *ix), 'int')
        ip = [ptr(k, i) for i in range(n + 1)]
        iptr = I.call(Ext('numpy.array'), (I.new_list(tuple(
            Item(num(v)) for v in ip)),), {})
        return MX.sp_csr(I, (data, cols, iptr), (num(n), M))

    I = chk.interp({Q + ('interp_cubic' if P == 1 else 'interp_bicubic'):
                    stub})
    for k, l in enumerate(lens):
        for q in range(ptr(k, l)):
            T.push_fact(M - 1 - el(ct, num(k), num(q)))
    xt = tensor('X')

    def mk(k):
        return I.new_arr((num(lens[k]), num(P)),
                         lambda ix: el(xt, num(k), *ix))
    Xs = I.new_list(tuple(Item(mk(k)) for k in range(len(lens))))
    gs = [grid(I, 'g%d' % p, m[p])[0] for p in range(P)]
    r = I.call(I.func(a), (Xs,) + tuple(gs), {})
    if not isinstance(r, MX.Csr):
        raise Skip('result %r' % (r,))
    tag = '(%dd, %s samples)' % (P, '+'.join(map(str, lens)))
    chk.eq('multi_interpolant row count ' + tag, a, r.shape[0],
           num(sum(lens)))
    chk.eq('multi_interpolant column count ' + tag, a, r.shape[1],
           M * len(lens))
    row = 0
    for k, l in enumerate(lens):
        for i in range(l):
            for k2 in range(len(lens)):
                g = fresh_var('g', M)
                got = r.at(num(row), M * k2 + A(g))
                want = ZERO
                if k2 == k:
                    for t in range(rc[k, i]):
                        q = num(ptr(k, i) + t)
                        want = want + el(dt, num(k), q) * ind(
                            'eq', el(ct, num(k), q) - A(g))
                chk.eq('multi_interpolant entry of output %d sample %d in '
                       'block %d %s' % (k, i, k2, tag), a, got, want)
            row += 1


def ck(I, args, kw):
    """contract of cubic_kernel, established above"""
    x = I.as_arr(args[0])
    return I.new_arr(x.shape, lambda ix: uf('cubic', T.absE(
        I.toE(I.at1(x, ix)))))


def dense(I, r):
    if isinstance(r, MX.Csr):
        return r.dense(I)
    return r


def anyof(f, n):
    v = fresh_var('a', n)
    return T.red('any', v, n, f(A(v)))


def colrange(chk, I, name, a):
    evs = [e for e in I.events if e['kind'] == 'csr']
    if not evs:
        return chk.holds(name, a, None, 'no sparse construction seen')
    worst, det, loc = True, '', ''
    for e in evs:
        cols = e['cols']
        v = fresh_var('q', cols.shape[0])
        c = I.toE(I.at1(cols, (A(v),)))
        for bad in (ind('lt', c), ONE - ind('lt', c - e['shape'][1])):
            d = T.deep_refresh(bad)
            if T.prove_zero(d):
                continue
            s = chk.satisfiable(d)
            if s:
                return chk.holds(name, a, False, 'column outside the grid '
                                 'when %s' % T.show(d, 300), e.get('loc', ''))
            worst, det = None, T.show(d, 300)
    chk.holds(name, a, worst, det)


def multi(chk, P, a):
    """each output's interpolant is arbitrary (abstract storage)"""
    D = sym('D', 'int', 'ge1', 'pos')
    lt = tensor('len', 'int', 'nn')
    m = [sym('m%d' % p, 'int', 'ge1', 'pos') for p in range(P)]
    M = m[0] * m[1] if P == 2 else m[0]
    rc = tensor('rowcount', 'int', 'nn')

    def ptr(k, i):
        b = fresh_var('b', i)
        return mk_sum(b, i, el(rc, k, A(b)))
    dt, ct = tensor('dat'), tensor('col', 'int', 'nn')
    who = {}

    def stub(I, args, kw):
        # identify the output from the samples passed in
        x = I.as_arr(args[-1])
        k = None
        e = I.toE(I.at1(x, tuple(ZERO for _ in x.shape)))
        for at in e.atoms():
            if at.kind == 'el' and at.args[0] == 'X':
                k = at.args[1]
        if k is None or not gridok(I, args[:-1]):
            return I.unk('interpolant of something else')
        n = x.shape[0]
        data = I.new_arr((ptr(k, n),), lambda ix: el(dt, k, *ix))
        cols = I.new_arr((ptr(k, n),), lambda ix: el(ct, k, *ix), 'int')

        iptr = I.new_arr((n + 1,), lambda ix: ptr(k, ix[0]), 'int')
        return MX.sp_csr(I, (data, cols, iptr), (n, M))

    def gridok(I, gs):
        for p, g in enumerate(gs):
            ga = I.as_arr(g)
            if ga is None or ga.shape[0] != m[p]:
                return False
            e = I.toE(I.at1(ga, (ONE,)))
            if 'g%d_lo' % p not in repr(e):
                return False
        return len(gs) == P

    st = {Q + ('interp_cubic' if P == 1 else 'interp_bicubic'): stub}
    I = chk.interp(st)
    k = fresh_var('k', D)
    Xs = I.new_list((Fam(((k, D),), I.new_arr(
        (el(lt, A(k)), num(P)), lambda ix: el(tensor('X'), A(k), *ix))),))
    gs = [grid(I, 'g%d' % p, m[p])[0] for p in range(P)]
    r = I.call(I.func(a), (Xs,) + tuple(gs), {})
    if not isinstance(r, MX.Csr):
        raise Skip('result %r' % (r,))
    j = fresh_var('j', D)
    N = mk_sum(j, D, el(lt, A(j)))
    chk.eq('multi_interpolant has one row per sample (%dd)' % P, a,
           r.shape[0], N)
    chk.eq('multi_interpolant has one column block per output (%dd)' % P, a,
           r.shape[1], D * M)
    # element at row (k, i), column (k2, g)
    k1, k2 = fresh_var('k', D), fresh_var('k', D)
    i = fresh_var('i', el(lt, A(k1)))
    g = fresh_var('g', M)
    b = fresh_var('b', A(k1))
    row = mk_sum(b, A(k1), el(lt, A(b))) + A(i)
    T.push_fact(el(lt, A(k1)) - 1)
    got = r.at(row, A(k2) * M + A(g))

    t = fresh_var('t', el(rc, A(k1), A(i)))
    want = ind('eq', A(k1) - A(k2)) * mk_sum(
        t, t.args[1], el(dt, A(k1), ptr(A(k1), A(i)) + A(t)) *
        ind('eq', el(ct, A(k1), ptr(A(k1), A(i)) + A(t)) - A(g)))
    d = T.deep_refresh(got - want)
    if T.prove_zero(d):
        chk.holds('multi_interpolant is block diagonal with each output\'s '
                  'own interpolant (%dd)' % P, a, True)
    else:
        chk.eq('multi_interpolant is block diagonal with each output\'s own '
               'interpolant (%dd)' % P, a, got, want)
