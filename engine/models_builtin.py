"""Builtins, containers, itertools, math."""
import ast

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    mk_sum, unk, sym, is_int, nonneg, positive)
from .vals import *
from . import models as M
from .models import ext, meth, raw, star, flat_star, elementwise


def lst(I, segs):
    return I.new_list(segs)


@ext('builtins.len')
def b_len(I, x):
    if isinstance(x, LRef) and I.heap[x.id].kind == 'set':
        return set_len(I, x)
    return I.length(x)


def set_len(I, x):
    """number of distinct elements"""
    segs = I.iterate(x)
    tot = ZERO
    seen = []
    for s in segs:
        if isinstance(s, PhiSeg):
            return I.unkE('len of recurrent set')
        dup = ZERO
        for t in seen:
            if isinstance(t, Item):
                e = M.equal(I, s.v, t.v) * t.cond
            else:
                ren = {k: A(fresh_var('d', n)) for k, n in t.ks}
                v2 = subst_val(t.v, ren)
                e = M.equal(I, s.v, v2) * subst(t.cond, ren)
                for k, n in reversed(t.ks):
                    kk = list(ren[k].atoms())[0]
                    e = T.red('any', kk, n, e) if e.t else e
            dup = dup + e - dup * e
        if isinstance(s, Item):
            tot = tot + s.cond * (ONE - dup)
        else:
            # duplicates within the family
            if len(s.ks) != 1:
                return I.unkE('distinct count of nested family')
            k, n = s.ks[0]
            j = fresh_var('d', A(k))
            e = M.equal(I, s.v, subst_val(s.v, {k: A(j)})) * subst(
                s.cond, {k: A(j)})
            e = T.red('any', j, A(k), e) if e.t else e
            dup = dup + e - dup * e
            tot = tot + mk_sum(k, n, s.cond * (ONE - dup))
        seen.append(s)
    return tot


@ext('builtins.range')
def b_range(I, a, b=None, c=None):
    lo, hi = (ZERO, I.toE(a)) if b is None else (I.toE(a), I.toE(b))
    st = I.toE(c) if c is not None else ONE
    s = st.const()
    if s is None and positive(st) and not (lo.unk or hi.unk or st.unk):
        n = T.floordiv(hi - lo + st - 1, st)
        if not nonneg(hi - lo):
            n = T.maxE(n, ZERO)
        v = fresh_var('r', n)
        return Seq([Fam(((v, n),), lo + A(v) * st)], 'range')
    if s is None or s == 0 or lo.unk or hi.unk:
        return I.unk('range')
    n = hi - lo if s == 1 else (
        lo - hi if s == -1 else (
            T.floordiv(hi - lo + (s - 1), st) if s > 0 else
            T.floordiv(lo - hi + (-s - 1), -st)))
    if not nonneg(n):
        n = T.maxE(n, ZERO)
    k = n.const()
    if k is not None and k <= 8:
        return Seq([Item(lo + i * s) for i in range(int(k))], 'range')
    v = fresh_var('r', n)
    return Seq([Fam(((v, n),), lo + A(v) * s)], 'range')


@ext('builtins.list')
def b_list(I, x=None):
    if x is None:
        return I.new_list()
    if isinstance(x, UnkV):
        return I.unk('list of ' + x.reason, x)
    return I.new_list(I.iterate(x))


@ext('builtins.tuple')
def b_tuple(I, x=None):
    if x is None:
        return ()
    if isinstance(x, (UnkV, tuple)):
        return x
    segs = I.iterate(x)
    if all(isinstance(s, Item) and s.cond == ONE for s in segs):
        return tuple(s.v for s in segs)
    return Seq(segs, 'tuple')


@ext('builtins.set', 'builtins.frozenset')
def b_set(I, x=None):
    if x is None:
        return I.new_list(kind='set')
    if isinstance(x, UnkV):
        return I.unk('set of ' + x.reason)
    return I.new_list(I.iterate(x), kind='set')


@ext('builtins.dict')
def b_dict(I, x=None, **kw):
    d = I.new_dict()
    if isinstance(x, Abs) and hasattr(x, 'snap'):
        x = x.snap(I)
    if isinstance(x, DRef):
        r = I.heap[x.id]
        I.heap[d.id] = DictRec(I.dict_items(x), frozenset(), r.unk)
    elif x is not None:
        for s in I.iterate(x):
            if not isinstance(s, Item):
                return I.unk('dict of family')
            k = M.index(I, s.v, ZERO)
            v = M.index(I, s.v, ONE)
            M.dict_set(I, d, k, v, s.cond)
    for k, v in kw.items():
        M.dict_set(I, d, k, v)
    return d


@ext('collections.defaultdict')
def b_defaultdict(I, f=None, x=None):
    return I.unk('defaultdict')


@ext('collections.Counter')
def b_counter(I, *a):
    return I.unk('Counter')


@ext('collections.OrderedDict')
def b_od(I, x=None, **kw):
    return b_dict(I, x, **kw)


def split_fam(s, n):
    """split a one-variable family into [first n] and [rest]"""
    k, b = s.ks[0]
    k1 = fresh_var('z', n)
    k2 = fresh_var('z', b - n)
    c = n.const()
    if c is not None and c <= 4:
        first = [Item(subst_val(s.v, {k: num(i)})) for i in range(int(c))]
    else:
        first = [Fam(((k1, n),), subst_val(s.v, {k: A(k1)}))]
    rb = (b - n).const()
    if rb is not None and rb <= 4:
        rest = [Item(subst_val(s.v, {k: n + i})) for i in range(int(rb))]
    else:
        rest = [Fam(((k2, b - n),), subst_val(s.v, {k: n + A(k2)}))]
    return first, rest


@ext('builtins.zip')
@star
def b_zip(I, *args, **kw):
    if any(isinstance(a, Seq) and a.kind == 'star' for a in args):
        return zip_star(I, args)
    if find(args):
        return I.unk('zip of unknown')
    ls = [list(I.iterate(a)) for a in args]
    out = []
    while all(ls):
        hs = [l[0] for l in ls]
        if any(isinstance(h, PhiSeg) for h in hs):
            raise M.Unsup('zip over recurrent list')
        if all(isinstance(h, Item) for h in hs):
            if any(h.cond != ONE for h in hs):
                c0 = hs[0].cond
                if not all(h.cond == c0 for h in hs):
                    raise M.Unsup('zip of conditional items')
            out.append(Item(tuple(h.v for h in hs), hs[0].cond))
            for l in ls:
                l.pop(0)
            continue
        if any(isinstance(h, Item) for h in hs):
            # peel one element from families
            for l in ls:
                h = l[0]
                if isinstance(h, Fam):
                    if h.cond != ONE or len(h.ks) != 1:
                        raise M.Unsup('zip of filtered family')
                    if not positive(h.ks[0][1]):
                        raise M.Unsup('zip of possibly empty family')
                    a, b = split_fam(h, ONE)
                    l[0:1] = a + b
                elif h.cond != ONE:
                    raise M.Unsup('zip of conditional items')
            continue
        # all families
        h0 = hs[0]
        same = True
        for h in hs[1:]:
            if len(h.ks) != len(h0.ks):
                same = False
                break
            ren = {}
            for (k1, n1), (k2, n2) in zip(h0.ks, h.ks):
                if not M.same_dim(subst(n2, ren), n1):
                    same = False
                    break
                ren[k2] = A(k1)
            if not same or subst(h.cond, ren) != h0.cond:
                same = False
                break
        if same:
            vals = [h0.v]
            for h in hs[1:]:
                ren = {k2: A(k1) for (k1, _), (k2, _) in zip(h0.ks, h.ks)}
                vals.append(subst_val(h.v, ren))
            out.append(Fam(h0.ks, tuple(vals), h0.cond))
            for l in ls:
                l.pop(0)
            continue
        if any(h.cond != ONE for h in hs):
            raise M.Unsup('zip of filtered families')
        flat = []
        for l, h in zip(ls, hs):
            if len(h.ks) == 1:
                flat.append(h)
            else:
                n = I.seg_count(h)
                k = fresh_var('z', n)
                f = Fam(((k, n),), M.fam_at(I, h, A(k)))
                l[0] = f
                flat.append(f)
        hs = flat
        ns = [h.ks[0][1] for h in hs]
        m = ns[0]
        for n in ns[1:]:
            if nonneg(n - m):
                continue
            if nonneg(m - n):
                m = n
            else:
                m = None
                break
        if m is None:
            # lengths not comparable: zip truncates to the shortest
            if all(len(l) == 1 for l in ls):
                m = ns[0]
                for n in ns[1:]:
                    m = T.minE(m, n)
                k = fresh_var('z', m)
                out.append(Fam(((k, m),), tuple(
                    subst_val(h.v, {h.ks[0][0]: A(k)}) for h in hs)))
                return Seq(out, 'zip')
            raise M.Unsup('zip of unequal families')
        for l, h, n in zip(ls, hs, ns):
            if not M.same_dim(n, m):
                a, b = split_fam(h, m)
                l[0:1] = a + b
    return Seq(out, 'zip')


def zip_star(I, args):
    """zip(*rows): transpose of a list of fixed-length tuples"""
    segs = flat_star(args)
    width = None
    for s in segs:
        v = s.v
        if not isinstance(v, tuple):
            return I.unk('zip(*) of non-tuples')
        if width is None:
            width = len(v)
        elif width != len(v):
            return I.unk('zip(*) ragged')
    if width is None:
        return Seq([], 'zip')
    cols = []
    for j in range(width):
        cols.append(Item(Seq([
            Item(s.v[j], s.cond) if isinstance(s, Item) else
            Fam(s.ks, s.v[j], s.cond) for s in segs], 'tuple')))
    return Seq(cols, 'zip')


def find(vals):
    return any(isinstance(v, UnkV) for v in vals)


@ext('builtins.enumerate')
def b_enum(I, x, start=ZERO):
    if isinstance(x, UnkV):
        return I.unk('enumerate of ' + x.reason, x)
    out = []
    pos = I.toE(start)
    for s in I.iterate(x):
        if isinstance(s, PhiSeg):
            raise M.Unsup('enumerate recurrent list')
        n = I.seg_count(s)
        if isinstance(s, Item):
            out.append(Item((pos, s.v), s.cond))
        elif len(s.ks) == 1 and s.cond == ONE:
            out.append(Fam(s.ks, (pos + A(s.ks[0][0]), s.v)))
        else:
            # rank of (ks) in lexicographic order, counting kept elements
            out.append(Fam(s.ks, (pos + rank(s), s.v), s.cond))
        pos = pos + n
    return Seq(out, 'enumerate')


def rank(s):
    ks = list(s.ks)
    tot = ZERO
    ren = {}
    for p in range(len(ks)):
        # same prefix, smaller at p, anything after
        k, n = ks[p]
        j = fresh_var('e', A(k))
        m = {k: A(j)}
        body = s.cond
        inner = []
        mm = dict(m)
        for k2, n2 in ks[p + 1:]:
            b2 = subst(n2, mm)
            j2 = fresh_var('e', b2)
            mm[k2] = A(j2)
            inner.append((j2, b2))
        body = subst(body, mm)
        for j2, b2 in reversed(inner):
            body = mk_sum(j2, b2, body)
        tot = tot + mk_sum(j, A(k), body)
    return tot


@ext('builtins.reversed')
def b_rev(I, x):
    segs = I.iterate(x)
    out = []
    for s in reversed(segs):
        if isinstance(s, Item):
            out.append(s)
        elif isinstance(s, Fam) and len(s.ks) == 1:
            k, n = s.ks[0]
            k2 = fresh_var('r', n)
            m = {k: n - 1 - A(k2)}
            out.append(Fam(((k2, n),), subst_val(s.v, m), subst(s.cond, m)))
        else:
            raise M.Unsup('reversed')
    return Seq(out, 'rev')


@ext('builtins.iter')
def b_iter(I, x):
    return x if isinstance(x, UnkV) else Seq(I.iterate(x), 'iter')


@ext('builtins.next')
def b_next(I, x, default=NotImplemented):
    segs = I.iterate(x)
    if not segs:
        if default is NotImplemented:
            I.do_raise('StopIteration', None, I.cur)
            return None
        return default
    s = segs[0]
    if isinstance(s, Item) and s.cond == ONE:
        return s.v
    if isinstance(s, Fam) and len(s.ks) == 1 and s.cond == ONE and \
            positive(s.ks[0][1]):
        return subst_val(s.v, {s.ks[0][0]: ZERO})
    return I.unk('next', x)


@ext('builtins.map')
def b_map(I, f, *xs):
    z = b_zip(I, *xs)
    if isinstance(z, UnkV):
        return z
    return map_over(I, z.segs, lambda v: I.call(f, v, {}))


def map_over(I, segs, g):
    """[g(v) for v in segs] through the loop summariser"""
    from .interp import LoopCtx
    out = I.new_list()

    def one(v):
        r = g(v)
        rec = I.heap[out.id]
        I.heap[out.id] = ListRec(rec.segs + (Item(r),), rec.roots, rec.kind)
    for s in segs:
        if isinstance(s, Item):
            if s.cond == ONE:
                one(s.v)
            else:
                I.fork(s.cond, lambda s=s: one(s.v), lambda: None)
        else:
            s = I.fresh_fam(s)
            I.loop_fam(s.ks, s.cond, lambda s=s: one(s.v), None, LoopCtx())
    return out


@ext('builtins.filter')
def b_filter(I, f, xs):
    from .interp import LoopCtx
    out = I.new_list()

    def add(v):
        rec = I.heap[out.id]
        I.heap[out.id] = ListRec(rec.segs + (Item(v),), rec.roots, rec.kind)

    def one(v):
        c = I.truthy(v if f is None else I.call(f, (v,), {}))
        I.fork(c, lambda: add(v), lambda: None)
    for s in I.iterate(xs):
        if isinstance(s, Item):
            I.fork(s.cond, lambda s=s: one(s.v), lambda: None)
        else:
            s = I.fresh_fam(s)
            I.loop_fam(s.ks, s.cond, lambda s=s: one(s.v), None, LoopCtx())
    return out


def fold_sum(I, segs, start=None):
    tot = start if start is not None else ZERO
    for s in segs:
        if isinstance(s, PhiSeg):
            return I.unk('sum of recurrent list')
        if isinstance(s, Item):
            if s.cond == ONE:
                tot = I.binop(ast.Add, tot, s.v)
            else:
                v = I.binop(ast.Mult, s.cond, s.v)
                tot = I.binop(ast.Add, tot, v)
            continue
        v = s.v
        if isinstance(v, (E, bool)):
            b = I.toE(v) * s.cond
            for k, n in reversed(s.ks):
                b = mk_sum(k, n, b)
            tot = I.binop(ast.Add, tot, b)
            continue
        a = I.as_arr(v) if not isinstance(v, Abs) else None
        if isinstance(v, Abs) and hasattr(v, 'famsum'):
            r = v.famsum(I, s.ks, s.cond)
            tot = I.binop(ast.Add, tot, r)
            continue
        if not isinstance(a, Arr):
            # repeated __add__ on objects: a summarised loop
            return fold_loop(I, segs, start)
        if any(k in d.vars for d in a.shape for k, _ in s.ks):
            return I.unk('sum of arrays of varying shape')

        def g(ix):
            b = I.at1(a, ix) * s.cond
            for k, n in reversed(s.ks):
                b = mk_sum(k, n, b)
            return b
        r = I.new_arr(a.shape, g, a.dtype)
        tot = I.binop(ast.Add, tot, r)
    return tot


def fold_loop(I, segs, start):
    return I.unk('sum over objects')


@ext('builtins.sum')
def b_sum(I, x, start=None):
    if isinstance(x, UnkV):
        return I.unk('sum of ' + x.reason)
    return fold_sum(I, I.iterate(x), start)


@ext('math.fsum')
def b_fsum(I, x):
    return b_sum(I, x)


@ext('functools.reduce')
def b_reduce(I, f, xs, init=NotImplemented):
    segs = list(I.iterate(xs))
    if init is NotImplemented:
        if not segs:
            return I.unk('reduce of empty')
        s = segs[0]
        if isinstance(s, Item) and s.cond == ONE:
            acc = s.v
            segs = segs[1:]
        elif isinstance(s, Fam) and s.cond == ONE and len(s.ks) == 1 and \
                positive(s.ks[0][1]):
            a, b = split_fam(s, ONE)
            acc = a[0].v
            segs = b + segs[1:]
        else:
            return I.unk('reduce')
    else:
        acc = init
    from .interp import LoopCtx
    fr = FRef(I.new(FrameRec({'acc': acc}, None, None)))

    def one(v):
        cur = I.heap[fr.id].vars['acc']
        r = I.call(f, (cur, v), {})
        rec = I.heap[fr.id].copy()
        rec.vars['acc'] = r
        I.heap[fr.id] = rec
    for s in segs:
        if isinstance(s, Item):
            one(s.v)
        else:
            s = I.fresh_fam(s)
            I.loop_fam(s.ks, s.cond, lambda s=s: one(s.v), fr, LoopCtx())
    return I.heap[fr.id].vars['acc']


def quant(I, segs, op):
    """any / all"""
    r = ZERO
    for s in segs:
        if isinstance(s, PhiSeg):
            return T.truth('any', I.unkE('any of recurrent list'))
        t = I.truthy(s.v)
        if op == 'all':
            t = ONE - t
        t = t * s.cond
        if isinstance(s, Fam):
            for k, n in reversed(s.ks):
                if not t.t:
                    break
                t = T.red('any', k, n, t)
        r = r + t - r * t
    return r if op == 'any' else ONE - r


@ext('builtins.any')
def b_any(I, x):
    if isinstance(x, UnkV):
        return T.truth('any', unk(x.reason))
    return quant(I, I.iterate(x), 'any')


@ext('builtins.all')
def b_all(I, x):
    if isinstance(x, UnkV):
        return T.truth('all', unk(x.reason))
    return quant(I, I.iterate(x), 'all')


def extremum(I, segs, op, key=None):
    if key is not None:
        return I.unk('%s with key' % op)
    cur = None
    f = T.maxE if op == 'max' else T.minE
    for s in segs:
        if isinstance(s, PhiSeg) or s.cond != ONE:
            return I.unk('%s of filtered' % op)
        v = s.v
        if isinstance(v, UnkV):
            return I.unk('%s of %s' % (op, v.reason))
        if isinstance(v, Choice) or not isinstance(v, (E, bool)):
            v = I.toE(v)
        v = I.toE(v)
        if isinstance(s, Fam):
            for k, n in reversed(s.ks):
                v = T.red(op, k, n, v)
        cur = v if cur is None else f(cur, v)
    if cur is None:
        I.do_raise('ValueError', None, I.cur)
        return I.unk('%s of empty' % op)
    return cur


@ext('builtins.max')
def b_max(I, *a, key=None, default=None):
    return extremum(I, I.iterate(a[0]) if len(a) == 1 else
                    [Item(x) for x in a], 'max', key)


@ext('builtins.min')
def b_min(I, *a, key=None, default=None):
    return extremum(I, I.iterate(a[0]) if len(a) == 1 else
                    [Item(x) for x in a], 'min', key)


@ext('builtins.sorted')
def b_sorted(I, x, key=None, reverse=False):
    if isinstance(x, UnkV):
        return I.unk('sorted')
    segs = I.iterate(x)
    if all(isinstance(s, Item) and s.cond == ONE for s in segs) and \
            key is None:
        vs = [s.v for s in segs]

        def conc(v):
            if isinstance(v, str):
                return v
            if isinstance(v, E) and v.const() is not None:
                return v.const()
            if isinstance(v, tuple):
                t = tuple(conc(y) for y in v)
                return None if None in t else t
            return None
        cs = [conc(v) for v in vs]
        if None not in cs:
            try:
                o = sorted(range(len(vs)), key=lambda i: cs[i])
                if reverse not in (False, None):
                    o.reverse()
                return I.new_list([Item(vs[i]) for i in o])
            except TypeError:
                pass
    if all(isinstance(s, Item) for s in segs) and len(segs) <= 1:
        return I.new_list(segs)
    return I.unk('sorted', x)


@ext('builtins.abs', 'math.fabs', 'operator.abs')
def b_abs(I, x):
    return elementwise(I, T.absE, [x])


@ext('builtins.float', 'numpy.float64', 'numpy.float', 'numpy.float_')
def b_float(I, x=ZERO):
    if isinstance(x, UnkV):
        return I.unk('float of ' + x.reason)
    if isinstance(x, str):
        return I.unkE('float of text')
    e = I.toE(x)
    return e


@ext('builtins.int', 'numpy.int64', 'numpy.int', 'numpy.intp')
def b_int(I, x=ZERO):
    if isinstance(x, UnkV):
        return I.unk('int of ' + x.reason)
    if isinstance(x, str):
        return I.unkE('int of text')
    e = I.toE(x)
    return e if is_int(e) else T.fn('trunc', e)


@ext('builtins.bool', 'numpy.bool_')
def b_bool(I, x=False):
    return I.truthy(x)


@ext('builtins.round')
def b_round(I, x, n=None):
    e = I.toE(x)
    return e if is_int(e) else T.fn('round', e)


@ext('builtins.divmod')
def b_divmod(I, a, b):
    a, b = I.toE(a), I.toE(b)
    return (T.floordiv(a, b), T.mod(a, b))


@ext('builtins.pow')
def b_pow(I, a, b):
    return I.binop(ast.Pow, a, b)


@ext('builtins.id')
def b_id(I, x):
    return I.unkE('id')


@ext('builtins.hash')
def b_hash(I, x):
    return I.unkE('hash')


@ext('builtins.print', 'warnings.warn')
def b_print(I, *a, **k):
    I.event('output')
    return None


@ext('builtins.repr', 'builtins.str', 'builtins.format')
def b_str(I, *a, **k):
    if len(a) == 1 and isinstance(a[0], str):
        return a[0]
    return UnkV('text')


@ext('builtins.callable')
def b_callable(I, x):
    return ONE if isinstance(x, (PyFunc, Bound, PyClass, Ext, ExtBound,
                                 Native)) else T.truth('c', I.unkE('call'))


@ext('builtins.hasattr')
def b_hasattr(I, o, name):
    if isinstance(o, ORef) and isinstance(name, str):
        rec = I.heap[o.id]
        if name in rec.attrs:
            return ONE
        _, m = I.find_member(rec.cls, name)
        if m is not None:
            return ONE
        return ZERO
    if isinstance(o, Abs) and hasattr(o, 'hasattr') and isinstance(name, str):
        return ONE if o.hasattr(I, name) else ZERO
    return T.truth('hasattr', I.unkE('hasattr'))


@ext('builtins.getattr')
def b_getattr(I, o, name, default=NotImplemented):
    if isinstance(name, str):
        if default is not NotImplemented and (
                isinstance(o, ORef) or hasattr(o, 'hasattr')):
            if b_hasattr(I, o, name) == ZERO:
                return default
        return I.getattr(o, name)
    return I.unk('getattr')


@ext('builtins.vars')
def b_vars(I, o):
    return I.getattr(o, '__dict__')


@ext('builtins.setattr')
def b_setattr(I, o, name, v):
    if isinstance(name, str):
        I.setattr(o, name, v)
        return None
    return I.unk('setattr')


def class_names(I, c):
    if isinstance(c, tuple):
        return list(c)
    return [c]


@ext('builtins.isinstance')
def b_isinstance(I, x, c):
    r = ZERO
    for k in class_names(I, c):
        e = isinst(I, x, k)
        r = r + e - r * e
    return r


def isinst(I, x, k):
    nm = k.name if isinstance(k, Ext) else None
    if isinstance(x, ORef):
        cls = I.heap[x.id].cls
        if isinstance(cls, PyClass):
            q = k.qual if isinstance(k, PyClass) else nm
            return ONE if I.subclass(cls, q) else ZERO
        return T.truth('inst', I.unkE('isinstance'))
    if isinstance(x, Abs):
        f = getattr(x, 'isinst', None)
        if f:
            return f(I, k)
        return T.truth('inst', I.unkE('isinstance of abstract'))
    if isinstance(x, UnkV):
        return T.truth('inst', unk(x.reason))
    if isinstance(x, bool):
        return ONE if nm in ('builtins.bool', 'builtins.int',
                             'builtins.object') else ZERO
    if isinstance(x, E):
        if nm in ('builtins.int', 'numbers.Integral'):
            if is_int(x):
                return ONE
            return ZERO
        if nm in ('builtins.float',):
            return ZERO if is_int(x) else ONE
        if nm in ('numbers.Number', 'numbers.Real'):
            return ONE
        return ZERO
    if isinstance(x, str):
        return ONE if nm == 'builtins.str' else ZERO
    if isinstance(x, tuple) or isinstance(x, Seq):
        return ONE if nm == 'builtins.tuple' else ZERO
    if isinstance(x, LRef):
        kd = I.heap[x.id].kind
        return ONE if nm == 'builtins.' + kd else ZERO
    if isinstance(x, DRef):
        return ONE if nm == 'builtins.dict' else ZERO
    if isinstance(x, Arr):
        return ONE if nm == 'numpy.ndarray' else ZERO
    if x is None:
        return ZERO
    return T.truth('inst', I.unkE('isinstance'))


@ext('builtins.issubclass')
def b_issub(I, a, b):
    if isinstance(a, PyClass):
        for k in class_names(I, b):
            q = k.qual if isinstance(k, PyClass) else k.name
            if I.subclass(a, q):
                return ONE
        return ZERO
    return T.truth('sub', I.unkE('issubclass'))


@ext('builtins.type')
def b_type(I, x, *a):
    if isinstance(x, ORef):
        return I.heap[x.id].cls
    return I.unk('type', x)


@ext('builtins.slice')
def b_slice(I, a, b=None, c=None):
    if b is None and c is None:
        return SliceV(None, a, None)
    return SliceV(a, b, c)


@ext('builtins.object')
def b_object(I):
    return I.unk('object()')


for _e in ('ValueError', 'TypeError', 'RuntimeError', 'Exception',
           'NotImplementedError', 'AssertionError', 'KeyError',
           'IndexError', 'ArithmeticError', 'FloatingPointError',
           'StopIteration', 'AttributeError', 'OverflowError'):
    def _mk(n):
        def f(I, *a, **k):
            return ('#exc', n)
        f.raw = True
        return f
    M.REG['builtins.' + _e] = _mk(_e)
M.REG['numpy.linalg.LinAlgError'] = M.REG['scipy.linalg.LinAlgError'] = \
    M.raw(lambda I, *a, **k: ('#exc', 'LinAlgError'))


# ------------------------------------------------------------- itertools
@ext('itertools.product')
@star
def it_product(I, *args, repeat=None):
    if repeat is not None:
        r = I.toE(repeat).const()
        if r is None:
            return I.unk('product repeat')
        args = tuple(args) * int(r)
    segs = flat_star(args)
    if not all(isinstance(s, Item) and s.cond == ONE for s in segs):
        return I.unk('product of star family')
    lists = [I.iterate(s.v) for s in segs]
    if any(isinstance(x, PhiSeg) for l in lists for x in l):
        raise M.Unsup('product over recurrent')
    # product order = nested loops; with several segments per factor the
    # enumeration is kept only when each non-last factor is one family or
    # all are items
    out = [Item(())]
    for l in lists:
        new = []
        for s in out:
            if isinstance(s, Fam) and len(l) > 1 and not all(
                    isinstance(x, Item) for x in l):
                raise M.Unsup('product of mixed lists')
            if isinstance(s, Fam) and len(l) > 1:
                raise M.Unsup('product order')
            for x in l:
                if isinstance(x, Item):
                    v = s.v + (x.v,)
                    new.append(Item(v, s.cond * x.cond) if isinstance(
                        s, Item) else Fam(s.ks, v, s.cond * x.cond))
                else:
                    ren = {}
                    ks = []
                    for k, n in x.ks:
                        k2 = fresh_var('p', subst(n, ren))
                        ks.append((k2, subst(n, ren)))
                        ren[k] = A(k2)
                    xv = subst_val(x.v, ren)
                    xc = subst(x.cond, ren)
                    if isinstance(s, Item):
                        new.append(Fam(ks, s.v + (xv,), s.cond * xc))
                    else:
                        new.append(Fam(tuple(s.ks) + tuple(ks),
                                       s.v + (xv,), s.cond * xc))
        out = new
    return Seq(out, 'product')


@ext('itertools.chain')
@star
def it_chain(I, *args):
    out = []
    for s in flat_star(args):
        out.extend(nest(I, s))
    return Seq(out, 'chain')


@ext('itertools.chain.from_iterable')
def it_chain_fi(I, x):
    out = []
    for s in I.iterate(x):
        out.extend(nest(I, s))
    return Seq(out, 'chain')


def nest(I, s):
    inner = I.iterate(s.v)
    if isinstance(s, Item):
        return [Item(t.v, t.cond * s.cond) if isinstance(t, Item) else
                Fam(t.ks, t.v, t.cond * s.cond) for t in inner]
    if len(inner) != 1:
        raise M.Unsup('chain of mixed families')
    t = inner[0]
    if isinstance(t, Item):
        return [Fam(s.ks, t.v, t.cond * s.cond)]
    ren = {}
    ks = []
    for k, n in t.ks:
        k2 = fresh_var('c', subst(n, ren))
        ks.append((k2, subst(n, ren)))
        ren[k] = A(k2)
    return [Fam(tuple(s.ks) + tuple(ks), subst_val(t.v, ren),
                subst(t.cond, ren) * s.cond)]


@ext('itertools.accumulate')
def it_acc(I, x, func=None, initial=None):
    if func is not None and not (isinstance(func, Ext) and func.name in (
            'operator.add', 'numpy.add')):
        return I.unk('accumulate with function')
    out = []
    tot = ZERO
    if initial is not None:
        tot = I.toE(initial)
        out.append(Item(tot))
    for s in I.iterate(x):
        if isinstance(s, PhiSeg) or s.cond != ONE:
            return I.unk('accumulate')
        if isinstance(s, Item):
            tot = tot + I.toE(s.v)
            out.append(Item(tot))
        elif len(s.ks) == 1:
            k, n = s.ks[0]
            j = fresh_var('j', A(k) + 1)
            e = I.toE(s.v)
            out.append(Fam(s.ks, tot + mk_sum(j, A(k) + 1, subst(
                e, {k: A(j)}))))
            tot = tot + mk_sum(k, n, e)
        else:
            return I.unk('accumulate')
    return Seq(out, 'acc')


@ext('itertools.repeat')
def it_repeat(I, x, n=None):
    if n is None:
        return I.unk('infinite repeat')
    return I.new_list(I.iterate(M.repeat_list(I, (x,), I.toE(n))))


@ext('itertools.islice')
def it_islice(I, x, a, b=None, c=None):
    sl = SliceV(None, a, None) if b is None else SliceV(a, b, c)
    return M.index_seq(I, Seq(I.iterate(x), 'iter'), sl)


@ext('itertools.starmap')
def it_starmap(I, f, xs):
    return map_over(I, I.iterate(xs), lambda v: I.call(f, tuple(
        s.v for s in I.iterate(v)), {}))


@ext('functools.partial')
def f_partial(I, f, *a, **k):
    return Native(lambda I2, b, kk: I2.call(f, tuple(a) + tuple(b),
                                            {**k, **kk}), 'partial')


@ext('functools.lru_cache', 'functools.wraps')
def f_deco(I, *a, **k):
    return Native(lambda I2, b, kk: b[0], 'decorator')


for _n, _op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult),
                ('truediv', ast.Div), ('floordiv', ast.FloorDiv),
                ('mod', ast.Mod), ('pow', ast.Pow), ('matmul',
                                                     ast.MatMult)):
    M.REG['operator.' + _n] = (lambda op: lambda I, a, b: I.binop(
        op, a, b))(_op)


@ext('operator.itemgetter')
def op_itemgetter(I, k):
    return Native(lambda I2, a, kk: M.index(I2, a[0], k), 'itemgetter')


@ext('operator.attrgetter')
def op_attrgetter(I, k):
    return Native(lambda I2, a, kk: I2.getattr(a[0], k), 'attrgetter')


# ----------------------------------------------------------------- math
for _n, _f in (('sqrt', lambda I, x: T.power(x, T.F(1, 2))),
               ('exp', lambda I, x: T.exp(x)),
               ('log', lambda I, x: T.log(x)),
               ('sin', lambda I, x: T.fn('sin', x)),
               ('cos', lambda I, x: T.fn('cos', x)),
               ('floor', lambda I, x: T.fn('floor', x)),
               ('ceil', lambda I, x: T.fn('ceil', x)),
               ('trunc', lambda I, x: T.fn('trunc', x)),
               ('tan', lambda I, x: T.divide(T.fn('sin', x),
                                             T.fn('cos', x))),
               ('log2', lambda I, x: T.divide(T.log(x), T.log(num(2)))),
               ('log10', lambda I, x: T.divide(T.log(x), T.log(num(10)))),
               ('log1p', lambda I, x: T.log(x + 1)),
               ('expm1', lambda I, x: T.exp(x) - 1)):
    M.REG['math.' + _n] = (lambda f: lambda I, x: f(I, I.toE(x)))(_f)
M.ATTR['math.pi'] = T.PI
M.ATTR['math.inf'] = lambda I: sym('inf', 'pos')
M.ATTR['math.e'] = T.exp(ONE)


@ext('math.isclose')
def m_isclose(I, *a, **k):
    return T.truth('isclose', I.unkE('isclose'))


@ext('math.isnan')
def m_isnan(I, x):
    return T.truth('isnan', I.toE(x))


# --------------------------------------------------------------- methods
def lwrite(I, l, op):
    I.event('write', target='list', roots=I.heap[l.id].roots, store=l.id,
            op=op, certain=True)


@meth('list', 'append')
@raw
def l_append(I, l, x):
    rec = I.heap[l.id]
    segs = rec.segs
    if l.sub:
        raise M.Unsup('append to a list of a family')
    I.heap[l.id] = ListRec(segs + (Item(x),), rec.roots, rec.kind)
    lwrite(I, l, 'append')
    return None


@meth('list', 'extend')
def l_extend(I, l, x):
    rec = I.heap[l.id]
    segs = tuple(I.iterate(x))
    I.heap[l.id] = ListRec(rec.segs + segs, rec.roots, rec.kind)
    lwrite(I, l, 'extend')
    return None


@meth('list', 'insert')
def l_insert(I, l, i, x):
    rec = I.heap[l.id]
    e = I.toE(i)
    if e == ZERO:
        segs = (Item(x),) + rec.segs
    else:
        segs = (Fam(((fresh_var('k', I.length(l) + 1), I.length(l) + 1),),
                    I.unk('insert')),)
    I.heap[l.id] = ListRec(segs, rec.roots, rec.kind)
    lwrite(I, l, 'insert')


@meth('list', 'reverse')
def l_reverse(I, l):
    rec = I.heap[l.id]
    I.heap[l.id] = ListRec(b_rev(I, l).segs, rec.roots, rec.kind)
    lwrite(I, l, 'reverse')


@meth('list', 'pop')
def l_pop(I, l, i=None):
    rec = I.heap[l.id]
    segs = list(rec.segs)
    lwrite(I, l, 'pop')
    if i is None or I.toE(i) == -ONE:
        if segs and isinstance(segs[-1], Item) and segs[-1].cond == ONE:
            s = segs.pop()
            I.heap[l.id] = ListRec(segs, rec.roots, rec.kind)
            return s.v
    n = I.length(l) - 1
    I.heap[l.id] = ListRec([Fam(((fresh_var('k', n), n),),
                                I.unk('after pop'))], rec.roots, rec.kind)
    return I.unk('pop', l)


@meth('list', 'index')
@meth('tuple', 'index')
def l_index(I, l, x):
    pos = ZERO
    for s in I.iterate(l):
        if isinstance(s, Item) and s.cond == ONE:
            e = M.equal(I, s.v, x)
            if e == ONE:
                return pos
            if e != ZERO:
                return I.unkE('list.index')
            pos = pos + 1
        else:
            return I.unkE('list.index')
    I.do_raise('ValueError', None, I.cur)
    return I.unkE('list.index')


@meth('list', 'count')
@meth('tuple', 'count')
def l_count(I, l, x):
    tot = ZERO
    for s in I.iterate(l):
        e = M.equal(I, s.v, x) * s.cond
        if isinstance(s, Fam):
            for k, n in reversed(s.ks):
                e = mk_sum(k, n, e)
        tot = tot + e
    return tot


@meth('list', 'copy')
@meth('set', 'copy')
def l_copy(I, l):
    return I.new_list(I.segs(l), kind=I.heap[l.id].kind)


@meth('list', 'sort')
def l_sort(I, l, **k):
    rec = I.heap[l.id]
    r = b_sorted(I, l, **k)
    lwrite(I, l, 'sort')
    n = I.length(l)
    I.heap[l.id] = ListRec(I.segs(r) if isinstance(r, LRef) else [
        Fam(((fresh_var('k', n), n),), I.unk('sorted'))], rec.roots,
        rec.kind)


@meth('list', 'clear')
def l_clear(I, l):
    rec = I.heap[l.id]
    I.heap[l.id] = ListRec((), rec.roots, rec.kind)
    lwrite(I, l, 'clear')


@meth('set', 'add')
def s_add(I, l, x):
    return l_append(I, l, x)


@meth('set', 'update')
def s_update(I, l, x):
    return l_extend(I, l, x)


@meth('set', 'pop')
def s_pop(I, l):
    segs = I.segs(l)
    if segs:
        s = segs[0]
        I.event('set_pop', store=l.id)
        if all(isinstance(t, Item) for t in segs):
            if all(same_val(t.v, s.v) for t in segs):
                return s.v
        elif len(segs) == 1 and len(s.ks) == 1 and s.cond == ONE:
            # any element; exact when all elements are equal
            return subst_val(s.v, {s.ks[0][0]: ZERO})
    return I.unk('set.pop', l)


for _m in ('union', 'intersection', 'difference', 'issubset', 'discard',
           'remove'):
    def _mk2(n):
        def f(I, l, *a):
            if n == 'union' and len(a) == 1:
                return I.new_list(tuple(I.segs(l)) + tuple(I.iterate(a[0])),
                                  kind='set')
            return I.unk('set.' + n, l)
        return f
    M.METH[('set', _m)] = _mk2(_m)


@meth('dict', 'get')
def d_get(I, d, k, default=None):
    return M.dict_get(I, d, k, default)


@meth('dict', 'items')
def d_items(I, d):
    if I.heap[d.id].unk:
        return I.unk('items of unknown dict', d)
    return Seq([Item((k, v), c) for k, v, c in I.dict_items(d)], 'items')


@meth('dict', 'keys')
def d_keys(I, d):
    if I.heap[d.id].unk:
        return I.unk('keys of unknown dict', d)
    return Seq([Item(k, c) for k, v, c in I.dict_items(d)], 'keys')


@meth('dict', 'values')
def d_values(I, d):
    if I.heap[d.id].unk:
        return I.unk('values of unknown dict', d)
    return Seq([Item(v, c) for k, v, c in I.dict_items(d)], 'values')


def dwrite(I, d, op):
    I.event('write', target='dict', roots=I.heap[d.id].roots, store=d.id,
            op=op, certain=True)


@meth('dict', 'update')
def d_update(I, d, x=None, **kw):
    dwrite(I, d, 'update')
    if isinstance(x, Abs) and hasattr(x, 'snap'):
        x = x.snap(I)
    if isinstance(x, DRef):
        for k, v, c in I.dict_items(x):
            M.dict_set(I, d, k, v, c)
    elif x is not None:
        try:
            segs = list(I.iterate(x))
        except Exception:
            segs = [None]
        for s in segs:
            if not isinstance(s, Item):
                rec = I.heap[d.id]
                I.heap[d.id] = DictRec(rec.items, rec.roots, 'update')
                break
            M.dict_set(I, d, M.index(I, s.v, ZERO), M.index(I, s.v, ONE),
                       s.cond)
    for k, v in kw.items():
        M.dict_set(I, d, k, v)


@meth('dict', 'setdefault')
def d_setdefault(I, d, k, v=None):
    c = M.contains(I, d, k)
    if c == ONE:
        return M.dict_get(I, d, k)
    dwrite(I, d, 'setdefault')
    if c == ZERO:
        M.dict_set(I, d, k, v)
        return v
    return I.unk('setdefault', d)


@meth('dict', 'pop')
def d_pop(I, d, k, default=NotImplemented):
    r = M.dict_get(I, d, k, default)
    rec = I.heap[d.id]
    dwrite(I, d, 'pop')
    I.heap[d.id] = DictRec([x for x in rec.items if M.equal(
        I, x[0], k) != ONE], rec.roots, rec.unk)
    return r


@meth('dict', 'copy')
def d_copy(I, d):
    r = I.heap[d.id]
    n = I.new_dict()
    I.heap[n.id] = DictRec(I.dict_items(d), frozenset(), r.unk)
    return n


@meth('dict', 'clear')
def d_clear(I, d):
    r = I.heap[d.id]
    dwrite(I, d, 'clear')
    I.heap[d.id] = DictRec((), r.roots)


for _m in ('format', 'join', 'upper', 'lower', 'strip', 'split', 'replace',
           'startswith', 'endswith', 'ljust', 'rjust', 'title',
           'capitalize', 'encode'):
    def _mk3(n):
        def f(I, s, *a, **k):
            if all(isinstance(x, str) for x in a) and n in (
                    'upper', 'lower', 'strip', 'replace', 'title',
                    'capitalize'):
                return getattr(s, n)(*a)
            if n in ('startswith', 'endswith') and isinstance(a[0], str):
                return ONE if getattr(s, n)(a[0]) else ZERO
            return UnkV('text')
        f.raw = True
        return f
    M.METH[('str', _m)] = _mk3(_m)


@meth('num', 'bit_length')
def n_bitlen(I, x):
    return T.uf('bitlen', I.toE(x))


@meth('num', 'is_integer')
def n_isint(I, x):
    return ONE if is_int(I.toE(x)) else T.truth('isint', I.toE(x))


for _m in ('item', 'copy', 'conjugate', 'mean', 'sum', 'min', 'max', 'prod',
           'squeeze', 'real', 'ravel_', 'tolist', 'view'):
    M.METH[('num', _m)] = lambda I, x, *a, **k: x


@meth('num', 'astype')
def n_astype(I, x, t):
    return x if not (isinstance(t, Ext) and 'int' in t.name) else b_int(
        I, x)


@meth('num', 'any')
@meth('num', 'all')
def n_any(I, x):
    return I.truthy(x)


@meth('num', 'reshape', 'ravel', 'flatten')
def n_reshape(I, x, *a):
    return M.call_method(I, I.as_arr(x), 'reshape', a or (num(-1),), {})


@meth('func', 'cache_clear')
def fn_cc(I, f):
    g = f.func if isinstance(f, Bound) else f
    I.event('cache_clear', func_called=getattr(g, 'qual', '?'))
    I.forget(getattr(g, 'qual', '?'))
    return None


@meth('func', 'cache_info')
def fn_ci(I, f):
    return I.unk('cache_info')


@ext('copy.copy', 'copy.deepcopy')
def c_copy(I, x):
    if isinstance(x, Arr):
        from . import models_np
        return models_np.np_copy(I, x)
    if isinstance(x, LRef):
        return l_copy(I, x)
    if isinstance(x, DRef):
        return d_copy(I, x)
    if isinstance(x, (E, bool, str, tuple)) or x is None:
        return x
    return I.unk('copy', x)
