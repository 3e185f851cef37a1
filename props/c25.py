"""C25: array helpers keep their contracts for every input."""
from .common import *
from .c23 import famcheck

RULE = ('Abstract interpretation of the array helpers on arrays of symbolic '
        'length (loops summarised in closed form) against their contracts, '
        'compared in normal form.')
Q = 'runlmc.util.numpy_convenience.'


class F1(Abs):
    """an arbitrary scalar function of its arguments"""

    def __init__(self, name):
        self.name = name

    def call(self, I, args, kw):
        return uf(self.name, *[I.toE(a) for a in args])


def fun(name):
    return Native(lambda I, a, k: uf(name, *[I.toE(x) for x in a]), name)


def lens_list(I, D, kind):
    lt = tensor('len', 'int', 'nn')
    if kind == 'array':
        return I.new_arr((D,), lambda ix: el(lt, *ix), 'int'), lt
    k = fresh_var('k', D)
    return I.new_list((Fam(((k, D),), el(lt, A(k))),)), lt


def prefix(lt, i):
    j = fresh_var('j', i)
    return mk_sum(j, i, el(lt, A(j)))


def run(chk):
    D = sym('D', 'int', 'ge1', 'pos')
    for kind in ('array', 'list'):
        with chk.section('begin_end_indices ' + kind, Q + 'begin_end_indices'):
            I = chk.interp()
            ls, lt = lens_list(I, D, kind)
            r = I.call(I.func(Q + 'begin_end_indices'), (ls,), {})
            rr = items(I, r)
            if rr is None or len(rr) != 2:
                raise Skip('result %r' % (r,))
            chk.arr('begin_end_indices begins are consecutive from zero (%s)'
                    % kind, Q + 'begin_end_indices', rr[0], (D,),
                    lambda ix: prefix(lt, ix[0]))
            chk.arr('begin_end_indices ends are the running totals (%s)'
                    % kind, Q + 'begin_end_indices', rr[1], (D,),
                    lambda ix: prefix(lt, ix[0] + 1))
    for nd in (1, 2):
        for kind in ('array', 'list'):
            with chk.section('tesselate %dd %s' % (nd, kind), Q + 'tesselate'):
                I = chk.interp()
                ls, lt = lens_list(I, D, kind)
                N = prefix(lt, D)
                w = () if nd == 1 else (sym('w', 'int', 'ge1', 'pos'),)
                xt = tensor('x')
                x = I.new_arr((N,) + w, lambda ix: el(xt, *ix))
                r = I.call(I.func(Q + 'tesselate'), (x, ls), {})
                famcheck(chk, 'tesselate splits in order without loss (%dd '
                         '%s)' % (nd, kind), Q + 'tesselate', r, D,
                         lambda k: (el(lt, k),) + w,
                         lambda k, ix: el(xt, prefix(lt, k) + ix[0],
                                          *ix[1:]))
    with chk.section('tesselate refusal', Q + 'tesselate'):
        I = chk.interp()
        ls, lt = lens_list(I, D, 'list')
        N = sym('N', 'int', 'nn')
        x = array(I, 'x', (N,))
        n0 = len(I.raises)
        I.call(I.func(Q + 'tesselate'), (x, ls), {})
        refused(chk, 'tesselate refuses lengths that do not add up',
                Q + 'tesselate', n0, ONE - ind('eq', N - prefix(lt, D)))
    with chk.section('tesselate empty', Q + 'tesselate'):
        I = chk.interp()
        n0 = len(I.raises)
        I.call(I.func(Q + 'tesselate'), (array(I, 'x', (ZERO,)),
                                         I.new_list(())), {})
        refused(chk, 'tesselate refuses an empty list of lengths',
                Q + 'tesselate', n0, ONE)
    with chk.section('chunks', Q + 'chunks'):
        I = chk.interp()
        n = sym('n', 'int', 'ge1', 'pos')
        L = sym('L', 'int', 'nn')
        xt = tensor('x')
        x = I.new_arr((L,), lambda ix: el(xt, *ix))
        r = I.call(I.func(Q + 'chunks'), (x, n), {})
        cnt = floordiv(L + n - 1, n)
        segs = I.iterate(r)
        c, info = chk.cmp(I.length(r), cnt)
        chk.holds('chunks count', Q + 'chunks',
                  {'eq': True, 'ne': False, 'unk': None}[c], info)
        k = fresh_var('c', cnt)
        v = I.models.seq_at(I, segs, A(k))
        chk.arr('chunk c holds elements c*n ... in order', Q + 'chunks', v,
                (minE(n, L - A(k) * n),),
                lambda ix: el(xt, A(k) * n + ix[0]))
    for narr, dts in ((1, 'f'), (2, 'ff'), (2, 'if'), (2, 'ii'), (3, 'fff'),
                      (3, 'iif')):
        with chk.section('cartesian_product %s' % dts,
                         Q + 'cartesian_product'):
            I = chk.interp()
            ns = [sym('n%d' % i, 'int', 'ge1', 'pos') for i in range(narr)]
            ts = [tensor('a%d%s' % (i, dts[i]),
                         *(('int',) if dts[i] == 'i' else ()))
                  for i in range(narr)]
            arrs = [I.new_arr((ns[i],), lambda ix, i=i: el(ts[i], *ix),
                              'int' if dts[i] == 'i' else 'float')
                    for i in range(narr)]
            r = I.call(I.func(Q + 'cartesian_product'), tuple(arrs), {})
            tot = ONE
            for n in ns:
                tot = tot * n

            def want(ix):
                e = ZERO
                row = ix[0]
                for i in range(narr):
                    inner = ONE
                    for n in ns[i + 1:]:
                        inner = inner * n
                    v = row if inner == ONE else floordiv(row, inner)
                    if i:
                        v = mod(v, ns[i])
                    x = el(ts[i], v)
                    e = e + (x if narr == 1 else
                             x * ind('eq', ix[1] - i))
                return e
            chk.arr('cartesian_product of %s lists every combination, last '
                    'axis fastest' % dts, Q + 'cartesian_product', r,
                    (tot, num(narr)), want)
    with chk.section('symm_2d_list_map', Q + 'symm_2d_list_map'):
        I = chk.interp()
        at = tensor('M')
        a = I.new_arr((D, D), lambda ix: el(at, *ix))
        x = sym('x')
        r = I.call(I.func(Q + 'symm_2d_list_map'), (a, ) and
                   (fun('f'), a, D, x), {})

        def want(ix):
            i, j = ix
            lo = ind('lt', j - i)
            return ite(lo, uf('f', el(at, j, i), x),
                       uf('f', el(at, i, j), x))
        chk.arr('symm_2d_list_map maps the upper half onto both halves',
                Q + 'symm_2d_list_map', r, (D, D), want)
    for inc in (True, False):
        with chk.section('search_descending %s' % inc,
                         Q + 'search_descending'):
            I = chk.interp()
            n = sym('n', 'int', 'nn')
            xt = tensor('xs')
            xs = I.new_arr((n,), lambda ix: el(xt, *ix))
            x = sym('x')
            n0 = len(I.raises)
            r = I.call(I.func(Q + 'search_descending'), (x, xs, inc), {})
            k = fresh_var('k', n)
            if inc:
                body = ONE - ind('lt', el(xt, A(k)) - x)
            else:
                body = ind('lt', x - el(xt, A(k)))
            chk.eq('search_descending counts the leading values %s the '
                   'threshold' % ('>=' if inc else '>'),
                   Q + 'search_descending', r, mk_sum(k, n, body))
            k2 = fresh_var('k', n - 1)
            bad = T.red('any', k2, n - 1, ind('lt', el(xt, A(k2)) -
                                              el(xt, A(k2) + 1)))
            refused(chk, 'search_descending refuses increasing data (%s)' %
                    inc, Q + 'search_descending', n0, bad)
    for nd in (1, 2):
        with chk.section('map_entries %d' % nd, Q + 'map_entries'):
            I = chk.interp()
            shp = tuple(sym('n%d' % i, 'int', 'nn') for i in range(nd))
            t = tensor('x')
            a = I.new_arr(shp, lambda ix: el(t, *ix))
            r = I.call(I.func(Q + 'map_entries'), (fun('f'), a), {})
            chk.arr('map_entries maps every entry in place (%dd)' % nd,
                    Q + 'map_entries', r, shp,
                    lambda ix: uf('f', el(t, *ix)))
