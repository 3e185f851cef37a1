"""C23: mean functions and their gradients."""
from .common import *

RULE = ('Abstract interpretation of the mean functions for a symbolic number '
        'of outputs with symbolically many inputs each; values, gradients '
        'and refusals compared with the specification in normal form.')
Q = 'runlmc.mean.'


def inputs(I, D):
    """list of D one-dimensional input arrays of lengths len[k]"""
    k = fresh_var('k', D)
    lt = tensor('len', 'int', 'nn')
    xt = tensor('X')
    return I.new_list((Fam(((k, D),), I.new_arr(
        (el(lt, A(k)),), lambda ix: el(xt, A(k), *ix))),)), lt, xt


def famcheck(chk, name, anchor, got, D, shapef, f):
    """got: list with D entries, entry k an array of shape shapef(k) and
    elements f(k, ix)"""
    I = chk._I
    if got is None or isinstance(got, (UnkV, Choice)):
        return chk.holds(name, anchor, None, repr(got))
    L = I.length(got)
    r, info = chk.cmp(L, D)
    if r != 'eq':
        return chk.holds(name + ' (count)', anchor, False if r == 'ne'
                         else None, info)
    k = fresh_var('o', D)
    v = I.models.seq_at(I, I.iterate(got), A(k))
    return chk.arr(name, anchor, v, shapef(A(k)), lambda ix: f(A(k), ix))


def run(chk):
    for zero in (False, True):
        nm = 'Zero' if zero else 'Constant'
        q = Q + ('zero.Zero' if zero else 'constant.Constant')
        with chk.section(nm + ' values', q):
            I = chk.interp()
            D = sym('D', 'int', 'ge1', 'pos')
            Xs, lt, xt = inputs(I, D)
            ct = tensor('c0')
            if zero:
                o = I.call(I.func(q), (num(1), D), {})
            else:
                c0 = I.new_arr((D,), lambda ix: el(ct, *ix))
                o = I.call(I.func(q), (num(1), D, c0), {})
            r = I.method(o, 'f', Xs)
            famcheck(chk, '%s.f gives each output its own offset' % nm,
                     q + '.f', r, D, lambda k: (el(lt, k),),
                     lambda k, ix: ZERO if zero else el(ct, k))
            if not zero:
                g = I.method(o, 'mean_gradient', Xs)
                L = I.length(g)
                chk.eq('Constant.mean_gradient has one entry per offset',
                       q + '.mean_gradient', L, D)
                i = fresh_var('p', D)
                gi = I.models.seq_at(I, I.iterate(g), A(i))
                famcheck(chk, 'Constant.mean_gradient is the derivative in '
                         'each offset', q + '.mean_gradient', gi, D,
                         lambda k: (el(lt, k),),
                         lambda k, ix: ind('eq', A(i) - k))
                gt = tensor('g')
                ga = I.new_arr((D,), lambda ix: el(gt, *ix))
                n0 = len(I.events)
                I.method(o, 'update_gradient', ga)
                c = I.getattr(o, 'c')
                # storing on the node assigns the concatenation of its
                # parameters; storing on the parameter itself is the same
                gv = I.heap[o.id].attrs.get('gradient')
                if gv is None:
                    gv = I.heap[c.id].attrs.get('gradient')
                chk.arr('Constant.update_gradient stores each component with '
                        'its own offset', q + '.update_gradient', gv, (D,),
                        lambda ix: el(gt, *ix))
            else:
                g = I.method(o, 'mean_gradient', Xs)
                chk.eq('Zero has no gradients', q + '.mean_gradient',
                       I.length(g), ZERO)
        if not zero:
            with chk.section('Constant default offsets', q):
                I = chk.interp()
                D = sym('D', 'int', 'ge1', 'pos')
                Xs, lt, xt = inputs(I, D)
                o = I.call(I.func(q), (num(1), D), {})
                r = I.method(o, 'f', Xs)
                famcheck(chk, 'Constant offsets default to zero', q, r, D,
                         lambda k: (el(lt, k),), lambda k, ix: ZERO)
                chk.quiet('well-formed mean inputs are accepted', q)
            with chk.section('Constant after update', q):
                # offsets changed after construction are used
                I = chk.interp()
                D = sym('D', 'int', 'ge1', 'pos')
                Xs, lt, xt = inputs(I, D)
                o = I.call(I.func(q), (num(1), D), {})
                c = I.getattr(o, 'c')
                ct = tensor('cnew')
                I.write_arr(I.param_arr(c), lambda ix: el(ct, *ix))
                r = I.method(o, 'f', Xs)
                famcheck(chk, 'Constant.f follows its parameter', q, r, D,
                         lambda k: (el(lt, k),),
                         lambda k, ix: el(ct, k))
        with chk.section(nm + ' refusals', q):
            I = chk.interp()
            D = sym('D', 'int', 'ge1', 'pos')
            D2 = sym('D2', 'int', 'nn')
            Xs, lt, xt = inputs(I, D2)
            o = I.call(I.func(q), (num(1), D), {})
            n0 = len(I.raises)
            I.method(o, 'f', Xs)
            refused(chk, '%s refuses a wrong number of inputs' % nm,
                    q + '.f', n0, ONE - ind('eq', D - D2))
        with chk.section(nm + ' input rank', q):
            I = chk.interp()
            o = I.call(I.func(q), (num(1), num(2)), {})
            a = array(I, 'a', (sym('n', 'int', 'ge1'),))
            b = array(I, 'b', (sym('n', 'int', 'ge1'),
                               sym('m', 'int', 'ge1')))
            for nm2, xs in (('first', (b, a)), ('second', (a, b))):
                n0 = len(I.raises)
                I.dead = False
                I.method(o, 'f', I.new_list([Item(x) for x in xs]))
                refused(chk, '%s refuses a matrix as %s input' % (nm, nm2),
                        q + '.f', n0, ONE)
                I.dead = False
        if not zero:
            with chk.section('Constant offset shape', q):
                I = chk.interp()
                D = sym('D', 'int', 'ge1', 'pos')
                D2 = sym('D2', 'int', 'nn')
                n0 = len(I.raises)
                I.call(I.func(q), (num(1), D, array(I, 'c', (D2,))), {})
                refused(chk, 'Constant refuses offsets of the wrong length',
                        q, n0, ONE - ind('eq', D - D2))
