"""C16: automatically chosen grids cover the data with margin."""
from .common import *
from .c14 import fdata

RULE = ('Abstract interpretation of autogrid for a symbolic number of data '
        'sets of symbolic sizes and every combination of supplied and '
        'omitted bounds and sizes: the length and every point of each '
        'generated axis compared in normal form with the equispaced grid '
        'that extends two requested steps beyond the widened bounds.')
a = 'runlmc.approx.interpolation.autogrid'


def run(chk):
    for P in (1, 2, 3):
        for mode in range(8):
            lo, hi, m = mode & 1, mode & 2, mode & 4
            tag = '%dd%s%s%s' % (P, ', lo' if lo else '', ', hi' if hi else
                                 '', ', m' if m else '')
            with chk.section('autogrid ' + tag, a):
                one(chk, P, lo, hi, m, tag)
    for mode in (0, 3, 7):
        for how in ('list', 'array'):
            lo, hi, m = mode & 1, mode & 2, mode & 4
            tag = '2d integers in %ss%s%s%s' % (
                how, ', lo' if lo else '', ', hi' if hi else '',
                ', m' if m else '')
            with chk.section('autogrid ' + tag, a):
                one(chk, 2, lo, hi, m, tag, ('int',), how, 'int')


def given(I, name, P, how, *attrs, dtype='float'):
    t = tensor(name, *attrs)
    if how == 'array':
        return I.new_arr((num(P),), lambda ix: el(t, *ix), dtype)
    return I.new_list(tuple(Item(el(t, num(p))) for p in range(P)))


def one(chk, P, lo, hi, m, tag, at=(), how='list', dtype='float'):
    I = chk.interp()
    D = sym('D', 'int', 'ge1', 'pos')
    Xs, _, lt, xt, _ = fdata(I, D, P, attrs=at, dtype=dtype)
    L = given(I, 'lo', P, how, *at, dtype=dtype) if lo else None
    H = given(I, 'hi', P, how, *at, dtype=dtype) if hi else None
    lot, hit = tensor('lo', *at), tensor('hi', *at)
    mt = tensor('m', 'int', 'ge1', 'pos')
    M = given(I, 'm', P, how, 'int', 'ge1', 'pos', dtype='int') if m else None
    r = I.call(I.func(a), (Xs, L, H, M), {})
    out = items(I, r)
    if out is None:
        raise Skip('grids %r' % (r,))
    chk.eq('one axis per dimension (%s)' % tag, a, num(len(out)), num(P))
    if len(out) != P:
        return
    for p in range(P):
        def ext(kind):
            k = fresh_var('k', D)
            n = el(lt, A(k))
            i = fresh_var('i', n)
            return T.red(kind, k, D, T.red(kind, i, n, el(
                xt, A(k), A(i), num(p))))
        lower, upper = ext('min'), ext('max')
        if lo:
            lower = T.minE(el(lot, num(p)), lower)
        if hi:
            upper = T.maxE(el(hit, num(p)), upper)
        if m:
            n = el(mt, num(p))
        else:
            j = fresh_var('j', D)
            n = T.floordiv(mk_sum(j, D, el(lt, A(j))), D)
        step = (upper - lower) / n
        lower, upper = lower - step * 2, upper + step * 2

        def want(ix):
            return lower + ix[0] * (upper - lower) / (n + 3)
        chk.arr('axis %d is the equispaced grid from two steps below to two '
                'steps above (%s)' % (p, tag), a, out[p], (n + 4,), want)
    chk.quiet('autogrid accepts (%s)' % tag, a)
