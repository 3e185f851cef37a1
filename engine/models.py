"""Models of builtins and of indexing / arithmetic on abstract values.

The numpy, scipy and paramz models live in models_np.py and models_ext.py;
all of them describe the documented mathematical meaning of the library
functions, as terms over the argument terms.
"""
import ast
from fractions import Fraction as F

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    mk_sum, unk, sym, is_int, nonneg, positive, lin_coeff)
from .vals import *
from .vals import rd_at, wr_at

REG = {}          # external function models
METH = {}         # (kind, name) -> method model
ATTR = {}         # external constants


def ext(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def meth(kind, *names):
    def deco(f):
        for n in names:
            METH[(kind, n)] = f
        return f
    return deco


def Unsup(msg):
    from .interp import Unsupported
    return Unsupported(msg)


# ------------------------------------------------------------------ dtypes
def dtype_of(I, v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, E):
        if v.const() is not None:
            return 'const'
        if I.is_ind(v) and any(a.kind in ('ind', 'truth')
                               for a in v.atoms()):
            return 'bool'
        return 'int' if is_int(v) else 'float'
    if isinstance(v, Arr):
        return v.dtype
    return 'float'


def join_dtype(I, vals, arith=True):
    ds = [dtype_of(I, v) for v in vals]
    ds = ['float' if d == 'f32' else d for d in ds]
    if 'object' in ds:
        return 'object'
    if 'complex' in ds:
        return 'complex'
    if 'float' in ds:
        return 'float'
    if any(d == 'const' and not is_int(v) for d, v in zip(ds, vals)):
        return 'float'
    if 'int?' in ds:
        return 'int?'
    if 'const' in ds:
        return 'int?' if any(d != 'const' for d in ds) else 'int?'
    return 'int'


def cast_store(I, body, src, dst):
    """value of type src stored into an array of dtype dst"""
    if dst in ('float', 'object', 'complex'):
        return body
    if dst == 'bool':
        return I.truthy(body) if isinstance(body, (E, bool)) else body
    if not isinstance(body, E):
        return body
    if dst == 'f32':
        c = body.const()
        if src == 'f32' or c is not None and float(c) == c and abs(
                c) < 2 ** 20 and (c * 1024).denominator == 1 or all(
                    a.kind in ('ind', 'truth') for m in body.t
                    for a, _ in m) and is_int(body):
            return body
        return T.fn('f32', body)
    if is_int(body) or src in ('int', 'bool'):
        return body
    if dst == 'int':
        return T.fn('trunc', body)
    return I.unkE('integer/float dtype not determined')


# ------------------------------------------------------------ elementwise
class Masked(Abs):
    """a[mask] for a boolean mask of a's shape"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def getattr(self, I, name):
        if name == 'size':
            return I.unkE('size of masked selection')
        return I.unk('masked.' + name)

    def subst(self, s):
        return Masked(subst_val(self.arr, s), subst_val(self.mask, s))

    def key(self):
        return ('masked', repr(self.arr), repr(self.mask))


def scalarish(v):
    return isinstance(v, (E, bool))


def _differ(a, b, one=''):
    c = ONE - ind('eq', a - b)
    if 'a' in one:
        c = c * (ONE - ind('eq', a - 1))
    if 'b' in one:
        c = c * (ONE - ind('eq', b - 1))
    return c


def conflict(shapes, what):
    """0/1 term: the shapes do not fit, so that the library call raises;
    None where this is not spelled out"""
    pairs = []
    x, y = shapes[0], shapes[1] if len(shapes) > 1 else ()
    if what in ('broadcast', 'fancy'):
        for i, x in enumerate(shapes):
            for y in shapes[i + 1:]:
                pairs += [(a, b, 'ab') for a, b in zip(
                    reversed(x), reversed(y))]
    elif what == 'assignment':
        pairs = [(b, a, 'a') for a, b in zip(reversed(x), reversed(y))]
    elif what in ('matmul', 'sparse product'):
        pairs = [(x[-1], y[0], '')]
    elif what == 'solve':
        pairs = [(x[0], y[0], '')]
    elif what == 'cdist':
        pairs = [(x[1], y[1], '')]
    elif what == 'repeat':
        return None
    elif what == 'reshape':
        p = q = ONE
        for n in x:
            p = p * n
        for n in y:
            q = q * n
        pairs = [(p, q, '')]
    elif what in ('spectrum product', 'sparse sum', 'amat') and len(x) == \
            len(y):
        pairs = [(a, b, 'ab' if what[:4] == 'spec' else '')
                 for a, b in zip(x, y)]
    else:
        return None
    c = ZERO
    for a, b, one in pairs:
        d = _differ(a, b, one)
        c = c + d - c * d
    return c


def mismatch(I, shapes, what='broadcast'):
    c = conflict(shapes, what)
    I.event('shape_mismatch', shapes=shapes, what=what,
            cond=None if c is None else I.pc * c)
    return I.unk('shape mismatch %s' % (shapes,))


def same_dim(a, b):
    if a == b:
        return True
    d = a - b
    if d.const() is not None:
        return False
    return not d.unk and T.is_zero(d)


def bshape(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for p in range(n):
        d = ONE
        for s in shapes:
            q = p - (n - len(s))
            if q < 0:
                continue
            x = s[q]
            if x == ONE:
                continue
            if d == ONE:
                d = x
            elif not same_dim(d, x):
                return None
        out.append(d)
    return tuple(out)


def broadcast_reader(I, a, shape):
    k = len(shape) - a.ndim
    ones = [s == ONE for s in a.shape]

    def rd(ix):
        jx = tuple(ZERO if o else i for o, i in zip(ones, ix[k:]))
        return I.at(a, jx)
    return rd


def broadcast_to(I, a, shape):
    if bshape([a.shape, tuple(shape)]) is None:
        return mismatch(I, (a.shape, shape))
    r = broadcast_reader(I, a, shape)
    return I.new_arr(shape, r, a.dtype)


def find_unk(vals):
    for v in vals:
        if isinstance(v, UnkV):
            return v
    return None


def elementwise(I, f, vals, dtype=None):
    vals = list(vals)
    for i, v in enumerate(vals):
        if isinstance(v, Choice):
            return I.distribute(v, lambda x: elementwise(
                I, f, vals[:i] + [x] + vals[i + 1:], dtype))
    u = find_unk(vals)
    if u is not None:
        return I.unk('arithmetic on ' + u.reason)
    if any(isinstance(v, Masked) for v in vals):
        ms = [v for v in vals if isinstance(v, Masked)]
        m0 = ms[0].mask
        if all(same_val(m.mask, m0) for m in ms):
            r = elementwise(I, f, [v.arr if isinstance(v, Masked) else v
                                   for v in vals], dtype)
            if isinstance(r, Arr) and r.shape == m0.shape:
                return Masked(r, m0)
        return I.unk('masked arithmetic')
    if all(scalarish(v) for v in vals):
        return f(*[I.toE(v) for v in vals])
    arrs = []
    for v in vals:
        a = I.as_arr(v) if not isinstance(v, (E, bool)) else I.toE(v)
        if a is None or isinstance(a, UnkV):
            return I.unk('arithmetic on %r' % (v,), v)
        arrs.append(a)
    shp = bshape([a.shape for a in arrs if isinstance(a, Arr)])
    if shp is None:
        return mismatch(I, tuple(a.shape for a in arrs
                                 if isinstance(a, Arr)))
    if dtype is None:
        dtype = join_dtype(I, arrs)
    rds = [broadcast_reader(I, a, shp) if isinstance(a, Arr) else
           (lambda ix, a=a: a) for a in arrs]

    def g(ix):
        xs = [r(ix) for r in rds]
        if all(isinstance(x, (E, bool)) for x in xs):
            return f(*[I.toE(x) for x in xs])
        return I.unkE('object array arithmetic')
    if shp == ():
        return g(())
    return I.new_arr(shp, g, dtype)


# ------------------------------------------------------------------ binop
OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
       ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
       ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}


def scalar_op(I, op):
    if op is ast.Add:
        return lambda a, b: a + b
    if op is ast.Sub:
        return lambda a, b: a - b
    if op is ast.Mult:
        return lambda a, b: a * b
    if op is ast.Div:
        return lambda a, b: T.divide(a, b)
    if op is ast.Pow:
        return lambda a, b: spow(I, a, b)
    if op is ast.FloorDiv:
        return lambda a, b: T.floordiv(a, b)
    if op is ast.Mod:
        return lambda a, b: T.mod(a, b)
    if op is ast.BitAnd:
        return lambda a, b: a * b if I.is_ind(a) and I.is_ind(b) else \
            I.unkE('bitand')
    if op is ast.BitOr:
        return lambda a, b: a + b - a * b if I.is_ind(a) and I.is_ind(b) \
            else I.unkE('bitor')
    if op is ast.BitXor:
        return lambda a, b: a + b - 2 * a * b if I.is_ind(a) and \
            I.is_ind(b) else I.unkE('bitxor')
    if op is ast.LShift:
        return lambda a, b: a * spow(I, num(2), b)
    if op is ast.RShift:
        return lambda a, b: T.floordiv(a, spow(I, num(2), b))
    return lambda a, b: I.unkE('operator %s' % op)


def spow(I, a, b):
    c = b.const()
    if c is not None:
        try:
            return T.power(a, c)
        except Exception:
            return I.unkE('power')
    # 2 ** int(x).bit_length()
    if a == num(2) and len(b.t) == 1:
        (m, co), = b.t.items()
        if co == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'uf' and m[0][0].args[0] == 'bitlen':
            return T.uf('pow2above', m[0][0].args[1])
    c = a.const()
    if c is not None and c > 0:
        return T.exp(T.log(a) * b)
    return T.fn('pow', a, b)


def is_listy(v):
    return isinstance(v, (LRef, tuple)) or isinstance(v, Seq)


def binop(I, op, a, b):
    if isinstance(a, Choice):
        return I.distribute(a, lambda x: binop(I, op, x, b))
    if isinstance(b, Choice):
        return I.distribute(b, lambda x: binop(I, op, a, x))
    if isinstance(a, (E, bool)) and isinstance(b, (E, bool)):
        if op is ast.MatMult:
            return I.unk('matmul of scalars')
        if op in (ast.Mod, ast.FloorDiv) and isinstance(b, E) and \
                b.const() == 0 and not b.unk and isinstance(
                    a, E) and a.const() is not None:
            I.do_raise('ZeroDivisionError', None, I.cur)
            return I.unk('division by zero')
        return scalar_op(I, op)(I.toE(a), I.toE(b))
    # objects with operator methods
    for x, y, pre in ((a, b, '__'), (b, a, '__r')):
        if isinstance(x, ORef) and not I.is_param(x):
            nm = pre + OPN[op] + '__'
            _, mth = I.find_member(I.heap[x.id].cls, nm) if isinstance(
                I.heap[x.id].cls, PyClass) else (None, None)
            if isinstance(mth, PyFunc):
                return I.call(Bound(x, mth), (y,), {})
        if isinstance(x, Abs) and hasattr(x, 'binop'):
            r = x.binop(I, op, y, pre == '__r')
            if r is not NotImplemented:
                return r
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        u = a if isinstance(a, UnkV) else b
        return I.unk('%s on %s' % (OPN[op], u.reason))
    if isinstance(a, str) or isinstance(b, str):
        if op is ast.Add and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op is ast.Mod and isinstance(a, str):
            return I.unk('format')
        return I.unk('string operation')
    if is_listy(a) and is_listy(b) and op is ast.Add:
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        sa, sb = I.iterate(a), I.iterate(b)
        if isinstance(a, LRef):
            return I.new_list(tuple(sa) + tuple(sb))
        return Seq(list(sa) + list(sb), 'tuple')
    if is_listy(a) and isinstance(b, E) or is_listy(b) and isinstance(a, E):
        if op is ast.Mult:
            l, n = (a, b) if is_listy(a) else (b, a)
            return repeat_list(I, l, n)
    if isinstance(a, LRef) and isinstance(b, LRef) and op in (
            ast.BitOr, ast.BitAnd, ast.Sub):
        if op is ast.BitOr:
            return I.new_list(tuple(I.segs(a)) + tuple(I.segs(b)),
                              kind='set')
        return I.unk('set operation', a, b)
    if op is ast.MatMult:
        from . import models_np
        return models_np.matmul(I, a, b)
    if any(isinstance(x, Arr) and x.dtype == 'complex' for x in (a, b)):
        from . import models_ext
        return models_ext.spec_binop(I, op, a, b)
    dt = None
    if op is ast.Div:
        dt = 'float'
    return elementwise(I, scalar_op(I, op), [a, b], dt)


def repeat_list(I, l, n):
    segs = I.iterate(l)
    c = n.const()
    if c is not None and c <= 8:
        out = list(segs) * max(int(c), 0)
    elif len(segs) == 1 and isinstance(segs[0], Item) and \
            segs[0].cond == ONE:
        out = [Fam(((fresh_var('r', n), n),), segs[0].v)]
    elif not segs:
        out = []
    else:
        return I.unk('list repetition')
    if isinstance(l, tuple):
        if all(isinstance(s, Item) and s.cond == ONE for s in out):
            return tuple(s.v for s in out)
        return Seq(out, 'tuple')
    return I.new_list(out)


# ---------------------------------------------------------------- compare
def compare(I, op, a, b):
    if isinstance(a, Choice) and op not in (ast.Is, ast.IsNot):
        return I.distribute(a, lambda x: compare(I, op, x, b))
    if isinstance(b, Choice):
        return I.distribute(b, lambda x: compare(I, op, a, x))
    if op in (ast.Is, ast.IsNot):
        r = identical(I, a, b)
        return r if op is ast.Is else ONE - r
    if op in (ast.In, ast.NotIn):
        r = contains(I, b, a)
        return r if op is ast.In else ONE - r
    if op in (ast.Eq, ast.NotEq):
        arrs = [x for x in (a, b) if isinstance(x, Arr) and x.shape != ()
                or isinstance(x, ORef) and I.is_param(x)]
        if arrs:
            return elementwise(
                I, (lambda x, y: ind('eq', x - y)) if op is ast.Eq else
                (lambda x, y: ONE - ind('eq', x - y)), [a, b], 'bool')
        r = equal(I, a, b)
        return r if op is ast.Eq else ONE - r
    f = {ast.Lt: lambda x, y: ind('lt', x - y),
         ast.Gt: lambda x, y: ind('lt', y - x),
         ast.LtE: lambda x, y: ONE - ind('lt', y - x),
         ast.GtE: lambda x, y: ONE - ind('lt', x - y)}[op]
    if is_listy(a) and is_listy(b):
        return T.truth('cmp', I.unkE('ordering of sequences'))
    r = elementwise(I, f, [a, b], 'bool')
    if isinstance(r, UnkV):
        return r if r.roots is None else r
    return r


def identical(I, a, b):
    if isinstance(a, Choice):
        r = ZERO
        for c, x in a.alts:
            r = r + c * identical(I, x, b)
        return r
    if isinstance(b, Choice):
        return identical(I, b, a)
    if a is None and b is None:
        return ONE
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        u = a if isinstance(a, UnkV) else b
        return T.truth('is', unk(u.reason))
    if a is None or b is None:
        return ZERO
    if isinstance(a, bool) and isinstance(b, bool):
        return ONE if a == b else ZERO
    if isinstance(a, E) and isinstance(b, bool):
        return a if b else ONE - a
    if isinstance(b, E) and isinstance(a, bool):
        return identical(I, b, a)
    if same_val(a, b):
        return ONE
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id != b.id:
            return ZERO
        return T.truth('is', I.unkE('identity of family members'))
    if isinstance(a, (Ext, PyClass)) and isinstance(b, (Ext, PyClass)):
        return ZERO
    if type(a) is not type(b):
        return ZERO
    return T.truth('is', I.unkE('identity'))


def equal(I, a, b):
    if isinstance(a, Choice):
        r = ZERO
        for c, x in a.alts:
            r = r + c * equal(I, x, b)
        return r
    if isinstance(b, Choice):
        return equal(I, b, a)
    if isinstance(a, (E, bool)) and isinstance(b, (E, bool)):
        return ind('eq', I.toE(a) - I.toE(b))
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        u = a if isinstance(a, UnkV) else b
        return T.truth('eq', unk(u.reason))
    if a is None or b is None:
        return ONE if a is b else ZERO
    if isinstance(a, Ext) or isinstance(b, Ext):
        from .models_np import same_dtype
        r = same_dtype(I, a, b)
        if r is not None:
            return r
    if isinstance(a, str) or isinstance(b, str):
        return ONE if a == b else ZERO
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            r = r * equal(I, x, y)
        return r
    if isinstance(a, LRef) and isinstance(b, LRef) and \
            I.heap[a.id].kind == 'set' and I.heap[b.id].kind == 'set':
        return set_equal(I, a, b)
    if is_listy(a) and is_listy(b):
        la, lb = I.iterate(a), I.iterate(b)
        if len(la) == len(lb) and all(map(same_seg, la, lb)):
            return ONE
        if all(isinstance(s, Item) and s.cond == ONE for s in la + lb):
            if len(la) != len(lb):
                return ZERO
            r = ONE
            for x, y in zip(la, lb):
                r = r * equal(I, x.v, y.v)
            return r
        return T.truth('eq', I.unkE('sequence equality'))
    if same_val(a, b):
        return ONE
    if isinstance(a, Arr) and a.shape == () or isinstance(
            b, Arr) and b.shape == ():
        return ind('eq', I.toE(a) - I.toE(b))
    if isinstance(a, ORef) and isinstance(b, ORef) and a.id != b.id:
        return ZERO
    if isinstance(a, (PyClass, Ext)) and isinstance(b, (PyClass, Ext)):
        return ZERO
    if type(a) is not type(b) and not isinstance(a, (Ref, Abs, Seq)) and \
            not isinstance(b, (Ref, Abs, Seq)):
        return ZERO
    return T.truth('eq', I.unkE('equality of %s and %s' % (
        type(a).__name__, type(b).__name__)))


def set_equal(I, a, b):
    """set(A) == set(B): every element of one occurs in the other"""
    def subset(x, y):
        r = ONE
        for s in I.iterate(x):
            c = contains(I, y, s.v)
            if isinstance(s, Item):
                r = r * (ONE - s.cond * (ONE - c))
            else:
                bad = s.cond * (ONE - c)
                for k, n in reversed(s.ks):
                    bad = T.red('any', k, n, bad) if bad.t else bad
                r = r * (ONE - bad)
        return r
    return subset(a, b) * subset(b, a)


def contains(I, cont, x):
    if isinstance(cont, Choice):
        r = ZERO
        for c, y in cont.alts:
            r = r + c * contains(I, y, x)
        return r
    if isinstance(cont, str) and isinstance(x, str):
        return ONE if x in cont else ZERO
    if isinstance(cont, DRef):
        rec = I.heap[cont.id]
        if rec.unk:
            return T.truth('in', unk('in unknown dict'))
        r = ZERO
        for k, _, c in I.dict_items(cont):
            e = equal(I, k, x) * c
            r = r + e - r * e
        return r
    if isinstance(cont, Abs) and hasattr(cont, 'contains'):
        return cont.contains(I, x)
    if isinstance(cont, (UnkV, Abs)):
        return T.truth('in', I.unkE('membership'))
    if isinstance(cont, ORef):
        _, m = I.find_member(I.heap[cont.id].cls, '__contains__')
        if isinstance(m, PyFunc):
            return I.truthy(I.call(Bound(cont, m), (x,), {}))
    try:
        segs = I.iterate(cont)
    except Exception:
        return T.truth('in', I.unkE('membership'))
    r = ZERO
    for s in segs:
        if isinstance(s, Item):
            e = equal(I, s.v, x) * s.cond
        elif isinstance(s, Fam):
            e = equal(I, s.v, x) * s.cond
            for k, n in reversed(s.ks):
                e = T.red('any', k, n, e) if e.t else e
        else:
            return T.truth('in', I.unkE('membership'))
        r = r + e - r * e
    return r


# --------------------------------------------------------------- sequences
def seq_at(I, segs, i, what='list'):
    """element number i of a segment list"""
    segs = list(segs)
    ci = i.const()
    if ci is not None and ci < 0:
        # from the end
        tot = T.esum([I.seg_count(s) for s in segs])
        if segs and isinstance(segs[-1], Item) and segs[-1].cond == ONE \
                and ci == -1:
            return segs[-1].v
        i = tot + i
    elif ci is None and not nonneg(i):
        tot = T.esum([I.seg_count(s) for s in segs])
        if not (tot.t and nonneg(i)):
            neg = ind('lt', i)
            if neg.t:
                i = i + neg * tot
    pos = ZERO
    alts = []
    for q, s in enumerate(segs):
        n = I.seg_count(s)
        if isinstance(s, PhiSeg):
            return I.unk('indexing recurrent list')
        j = i - pos
        last = q == len(segs) - 1
        inside = ind('lt', j - n) if not (last and not _const(j, n)) \
            else ONE
        lo = ONE - ind('lt', j)
        c = inside * lo if pos.t else inside
        if isinstance(s, Item):
            v = s.v
            if s.cond != ONE:
                c = ind('eq', j) * s.cond
            elif not last:
                c = ind('eq', j)
        else:
            if s.cond != ONE:
                v = I.unk('index into filtered family')
                kv = _filtered_last(I, s, j)
                if kv is not None:
                    v = kv
            elif len(s.ks) == 1:
                v = subst_val(s.v, {s.ks[0][0]: j})
            else:
                v = fam_at(I, s, j)
        c = I.simp(c)
        if c.const() == 0:
            pos = pos + n
            continue
        if c.const() == 1:
            alts.append((ONE, v))
            break
        alts.append((c, v))
        pos = pos + n
    if not alts:
        I.event('index_error', what=what, index=i, cond=I.pc)
        return I.unk('index out of range')
    r = alts[-1][1]
    for c, v in reversed(alts[:-1]):
        r = I.merge_val(c, v, r)
    return r


def _const(j, n):
    return (j - n).const() is not None and (j - n).const() >= 0


def _filtered_last(I, s, j):
    return None


def fam_at(I, s, j):
    """j-th element of a nested family (row-major enumeration)"""
    ks = list(s.ks)
    m = {}
    rest = j
    for p, (k, n) in enumerate(ks):
        cnt = ONE
        for k2, n2 in reversed(ks[p + 1:]):
            cnt = mk_sum(k2, n2, cnt)
        cnt = subst(cnt, m)
        n2 = subst(n, m)
        if p == len(ks) - 1:
            m[k] = rest
        else:
            m[k] = T.blk(k, cnt, n2, rest)
            rest = T.off(k, cnt, n2, rest)
    return subst_val(s.v, m)


def take_segs(I, segs, lo, hi):
    """sub-list [lo, hi) or None when segment structure does not fit"""
    out = []
    pos = ZERO
    for s in segs:
        if isinstance(s, PhiSeg):
            return None
        n = I.seg_count(s)
        a, b = lo - pos, hi - pos          # relative
        pos = pos + n
        if nonneg(-b) or nonneg(a - n):
            continue
        if nonneg(-a) and nonneg(b - n):
            out.append(s)
            continue
        if isinstance(s, Item):
            if s.cond != ONE:
                return None
            c = (ONE - ind('lt', -a)) * (ONE - ind('lt', n - 1 - b + n)) \
                if False else (ONE - ind('lt', ZERO - a)) * ind(
                    'lt', ZERO - b)
            return None if c.const() is None else out
        if s.cond != ONE or len(s.ks) != 1:
            return None
        k, kn = s.ks[0]
        if not nonneg(a):
            if nonneg(-a):
                a = ZERO
            else:
                return None
        if nonneg(b - n):
            b = n
        elif not nonneg(n - b):
            return None
        m = b - a
        c = m.const()
        if c is not None and c <= 4:
            for q in range(int(c)):
                out.append(Item(subst_val(s.v, {k: a + q})))
        else:
            k2 = fresh_var('s', m)
            out.append(Fam(((k2, m),), subst_val(s.v, {k: a + A(k2)})))
    return out


def slice_bounds(I, sl, n):
    """(lo, count, step) of a slice over a dimension of size n"""
    step = I.toE(sl.step) if sl.step is not None else ONE
    st = step.const()
    if st is None or st.denominator != 1 or st == 0:
        return None
    st = int(st)

    def norm(v, default, low, high):
        if v is None:
            return default
        e = I.toE(v)
        c = e.const()
        if c is not None and c.denominator != 1:
            return None
        if c is not None and c < 0:
            e = n + e
            if nonneg(e - low):
                return e if nonneg(high - e) else T.minE(e, high)
            return T.maxE(e, low)
        if not nonneg(e):
            if nonneg(-e - 1):
                e = n + e
            elif c is None and not positive(e + 1):
                # possibly negative: python wraps
                w = ind('lt', e)
                e = e + w * n
        if not nonneg(e - low):
            e = T.maxE(e, low) if not (low == ZERO and nonneg(e)) else e
        if not nonneg(high - e):
            e = T.minE(e, high)
        return e
    if st > 0:
        lo = norm(sl.lo, ZERO, ZERO, n)
        hi = norm(sl.hi, n, ZERO, n)
        if lo is None or hi is None:
            return None
        m = hi - lo
        if st != 1:
            m = T.floordiv(m + (st - 1), num(st))
    else:
        lo = norm(sl.lo, n - 1, -ONE, n - 1)
        hi = norm(sl.hi, -ONE, -ONE, n - 1)
        if lo is None or hi is None:
            return None
        m = lo - hi
        if st != -1:
            m = T.floordiv(m + (-st - 1), num(-st))
    if not nonneg(m):
        m = T.maxE(m, ZERO)
    return lo, m, st


def index_seq(I, o, ix):
    segs = I.iterate(o)
    if isinstance(ix, SliceV):
        if ix.lo is None and ix.hi is None and ix.step is None:
            out = segs
        else:
            n = I.length(o)
            b = slice_bounds(I, ix, n)
            if b is None:
                return I.unk('slice', o)
            lo, m, st = b
            out = None
            if st == 1:
                out = take_segs(I, segs, lo, lo + m)
            elif st == -1 and lo == n - 1 and m == n and all(
                    isinstance(s, Item) for s in segs):
                out = list(reversed(segs))
            elif lo.const() is not None and m.const() is not None and all(
                    isinstance(s, Item) and s.cond == ONE for s in segs):
                l0, c = int(lo.const()), int(m.const())
                if c <= 0:
                    out = []
                elif 0 <= l0 < len(segs) and 0 <= l0 + (
                        c - 1) * st < len(segs):
                    out = [segs[l0 + j * st] for j in range(c)]
            if out is None:
                k = fresh_var('s', m)
                try:
                    out = [Fam(((k, m),), seq_at(I, segs, lo + A(k) * st))]
                except Exception:
                    return I.unk('slice', o)
        if isinstance(o, tuple):
            if all(isinstance(s, Item) and s.cond == ONE for s in out):
                return tuple(s.v for s in out)
            return Seq(out, 'tuple')
        if isinstance(o, Seq):
            return Seq(out, o.kind)
        return I.new_list(out)
    e = I.toE(ix)
    if e.unk:
        return I.unk('unknown index', o)
    return seq_at(I, segs, e)


# ----------------------------------------------------------- array indexing
def make_view(I, a, items):
    """items: per result/base dimension descriptors in order:
    ('int', e) | ('slice', lo, n, step) | ('new',)"""
    rec = I.heap[a.id]
    shape = []
    vs = []
    inner = []
    for it in items:
        if it[0] == 'int':
            inner.append(it[1])
        elif it[0] == 'new':
            shape.append(ONE)
            vs.append(fresh_var('v', ONE))
        else:
            _, lo, n, st = it
            v = fresh_var('v', n)
            shape.append(n)
            vs.append(v)
            inner.append(lo + A(v) * st)
    rd = (tuple(vs), rd_at(a, tuple(inner)))
    bvs = tuple(fresh_var('b', n) for n in rec.shape)
    c, ax = wr_at(a, tuple(A(b) for b in bvs))
    out = []
    d = 0
    for it in items:
        if it[0] == 'int':
            c = c * ind('eq', ax[d] - it[1])
            d += 1
        elif it[0] == 'new':
            out.append(ZERO)
        else:
            _, lo, n, st = it
            x = ax[d]
            dim = a.shape[d]
            d += 1
            if not (lo == ZERO and st == 1 and n == dim):
                c = c * in_range(I, x, lo, n, st, dim)
            if st == 1:
                out.append(x - lo)
            elif st == -1:
                out.append(lo - x)
            else:
                out.append(T.floordiv(x - lo, num(st)))
    return Arr(a.id, shape, rd, (bvs, c, tuple(out)), a.dtype, a.sub,
               a.flags)


def prefix_parts(lo, hi):
    """lo = S(K), hi = S(K)+f(K) for a prefix sum S over f"""
    for m, c in lo.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'sum' and len(m[0][0].args[0]) == 1:
            v = m[0][0].args[0][0]
            body = m[0][0].args[1]
            K = v.args[1]
            if lo == A(m[0][0]) and hi - lo == subst(body, {v: K}):
                return v, body, K
    return None


def sum_total(dim, v, body):
    for m, c in dim.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'sum' and len(m[0][0].args[0]) == 1:
            w = m[0][0].args[0][0]
            if subst(m[0][0].args[1], {w: A(v)}) == body and \
                    dim == A(m[0][0]):
                return w.args[1]
    return None


def in_range(I, x, lo, n, st, dim):
    if st == -1:
        lo, st = lo - n + 1, 1
    hi = lo + n
    if st == 1:
        pp = prefix_parts(lo, hi)
        if pp:
            v, body, K = pp
            tot = sum_total(dim, v, body)
            if tot is not None:
                return ind('eq', T.blk(v, body, tot, x) - K)
        # uniform blocks lo = K*m, n = m
        if lo.t and n.t and lo.const() is None:
            q = T.divide(lo, n)
            if is_int(q) and len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and m[0][0].kind == 'var':
                    return ind('eq', T.floordiv(x, n) - q)
        c = ONE
        if lo.t and not nonneg(x - lo):
            c = c * (ONE - ind('lt', x - lo))
        if hi != dim and not positive(hi - x):
            c = c * ind('lt', x - hi)
        return c
    # stepped
    c = (ONE - ind('lt', x - lo)) * ind('eq', T.mod(x - lo, num(abs(st))))
    if st < 0:
        return I.unkE('negative step write')
    if n.t:
        c = c * ind('lt', x - lo - (n - 1) * st - 1)
    return c


def norm_index(I, ix, nd):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    if any(x is Ellipsis for x in ix):
        p = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        used = sum(1 for x in ix if x is not None and x is not Ellipsis)
        ix[p:p + 1] = [SliceV(None, None, None)] * (nd - used)
    used = sum(1 for x in ix if x is not None)
    ix += [SliceV(None, None, None)] * (nd - used)
    return ix


def is_int_index(v):
    return isinstance(v, E) or isinstance(v, bool)


def fancy_item(I, v):
    if isinstance(v, (LRef, Seq)):
        return True
    if isinstance(v, tuple):
        return True
    if isinstance(v, Arr):
        return v.shape != ()
    if isinstance(v, (ORef, Abs, UnkV, Choice)):
        return True
    return False


def is_fancy(I, o, ix):
    if isinstance(o, ORef) and I.is_param(o):
        o = I.param_arr(o)
    if not isinstance(o, Arr):
        return False
    if isinstance(ix, (LRef, Arr, Seq)) and not (
            isinstance(ix, Arr) and ix.shape == ()):
        return True
    if isinstance(ix, tuple):
        return any(fancy_item(I, x) for x in ix)
    return isinstance(ix, (Abs, UnkV))


def norm_int(I, e, n):
    """python index normalisation"""
    c = e.const()
    if c is not None:
        return n + e if c < 0 else e
    if nonneg(e):
        return e
    if nonneg(-e - 1):
        return n + e
    w = ind('lt', e)
    if w.t:
        return e + w * n
    return e


def index(I, o, ix):
    if isinstance(o, Choice):
        return I.distribute(o, lambda x: index(I, x, ix))
    if isinstance(ix, Choice) and not isinstance(o, DRef):
        return I.distribute(ix, lambda x: index(I, o, x))
    if isinstance(o, UnkV):
        return UnkV('item of ' + o.reason, o.roots)
    if isinstance(o, DRef):
        return dict_get(I, o, ix)
    if isinstance(o, str):
        if isinstance(ix, E) and ix.const() is not None:
            try:
                return o[int(ix.const())]
            except IndexError:
                pass
        return I.unk('string index')
    if isinstance(o, (tuple, LRef, Seq)):
        if isinstance(ix, UnkV):
            return I.unk('unknown index', o)
        return index_seq(I, o, ix)
    if isinstance(o, ORef):
        if I.is_param(o):
            return index(I, I.param_arr(o), ix)
        _, m = I.find_member(I.heap[o.id].cls, '__getitem__')
        if isinstance(m, PyFunc):
            return I.call(Bound(o, m), (ix,), {})
        if '_getitem' in I.heap[o.id].attrs:
            return I.call(I.heap[o.id].attrs['_getitem'], (ix,), {})
        return I.unk('subscript of object', o)
    if isinstance(o, Abs):
        if hasattr(o, 'getitem'):
            return o.getitem(I, ix)
        return I.unk('subscript of %s' % type(o).__name__)
    if isinstance(o, Arr):
        return index_arr(I, o, ix)
    return I.unk('subscript of %r' % (o,))


def index_arr(I, o, ix):
    # boolean mask of the same shape
    m = ix
    if isinstance(m, (LRef, Seq)):
        m = I.as_arr(m)
        if m is None:
            return I.unk('index by list', o)
    if isinstance(m, Arr) and m.dtype == 'bool' and m.shape:
        if m.shape == o.shape:
            return Masked(o, m)
        return I.unk('mask of different shape', o)
    if isinstance(m, UnkV):
        return UnkV('item by ' + m.reason, I.roots_of(o))
    if not isinstance(ix, tuple) and isinstance(m, Arr) and m.shape:
        ix = (m,)
    try:
        items = norm_index(I, ix, o.ndim)
    except Exception:
        return I.unk('index', o)
    if sum(1 for x in items if x is not None) != o.ndim:
        I.event('index_error', what='too many indices')
        return I.unk('too many indices', o)
    if any(fancy_item(I, x) for x in items if x is not None):
        return fancy_get(I, o, items)
    desc = []
    d = 0
    for x in items:
        if x is None:
            desc.append(('new',))
            continue
        n = o.shape[d]
        d += 1
        if isinstance(x, SliceV):
            if any(isinstance(y, UnkV) for y in (x.lo, x.hi, x.step)):
                return I.unk('slice with unknown bound', o)
            b = slice_bounds(I, x, n)
            if b is None:
                return I.unk('slice', o)
            desc.append(('slice',) + b)
        else:
            e = I.toE(x)
            if e.unk:
                return I.unk('unknown index', o)
            desc.append(('int', norm_int(I, e, n)))
    if all(t[0] == 'int' for t in desc):
        v = I.at(o, tuple(t[1] for t in desc))
        return v
    return make_view(I, o, desc)


class Ix(Abs):
    """np.ix_ component: index array laid along one axis"""

    def __init__(self, arr, pos, n):
        self.arr, self.pos, self.n = arr, pos, n

    def as_arr(self, I):
        x = I.as_arr(self.arr)
        if not isinstance(x, Arr) or x.ndim != 1:
            return None
        shp = tuple(x.shape[0] if d == self.pos else ONE
                    for d in range(self.n))
        return I.new_arr(shp, lambda ix: I.at(x, (ix[self.pos],)), x.dtype)

    def getattr(self, I, name):
        a = self.as_arr(I)
        return I.getattr(a, name) if a is not None else I.unk('ix_.' + name)


def fancy_get(I, o, items):
    """integer-array indexing (copy)"""
    items = [x for x in items]
    if any(x is None for x in items):
        return I.unk('newaxis with fancy index', o)
    arrs = []
    pos = []
    for p, x in enumerate(items):
        if isinstance(x, SliceV):
            continue
        if isinstance(x, Ix):
            arrs.append(x)
        elif isinstance(x, (E, bool)):
            arrs.append(I.toE(x))
        else:
            a = I.as_arr(x)
            if not isinstance(a, Arr) or a.dtype in ('bool', 'object'):
                return I.unk('fancy index', o)
            arrs.append(a)
        pos.append(p)
    if pos != list(range(pos[0], pos[0] + len(pos))):
        return I.unk('separated fancy indices', o)
    if any(isinstance(a, Ix) for a in arrs):
        if not all(isinstance(a, Ix) for a in arrs):
            return I.unk('mixed ix_', o)
        fshape = tuple(a.arr.shape[0] for a in arrs)

        def fidx(ix):
            return [I.at1(a.arr, (ix[a.pos],)) for a in arrs]
    else:
        fshape = bshape([a.shape for a in arrs if isinstance(a, Arr)])
        if fshape is None:
            return mismatch(I, tuple(a.shape for a in arrs
                                     if isinstance(a, Arr)), 'fancy')
        rds = [broadcast_reader(I, a, fshape) if isinstance(a, Arr) else
               (lambda ix, a=a: a) for a in arrs]

        def fidx(ix):
            return [I.toE(r(ix)) for r in rds]
    desc = []
    shape = []
    done = False
    for p, x in enumerate(items):
        if p in pos:
            if not done:
                shape += list(fshape)
                desc.append(('f',))
                done = True
            continue
        b = slice_bounds(I, x, o.shape[p])
        if b is None:
            return I.unk('slice', o)
        desc.append(('s',) + b)
        shape.append(b[1])

    def g(ix):
        ix = list(ix)
        out = []
        q = 0
        for t in desc:
            if t[0] == 'f':
                fi = ix[q:q + len(fshape)]
                q += len(fshape)
                for e, pp in zip(fidx(fi), pos):
                    out.append(norm_int(I, e, o.shape[pp]))
            else:
                out.append(t[1] + ix[q] * t[3])
                q += 1
        return I.at(o, tuple(out))
    if not shape:
        return g(())
    return I.new_arr(shape, g, o.dtype)


# -------------------------------------------------------------- dictionaries
def dict_get(I, d, k, default=NotImplemented):
    rec = I.heap[d.id]
    if rec.unk:
        return UnkV('item of dict (%s)' % rec.unk, rec.roots)
    items = I.dict_items(d)
    alts = []
    rem = ONE
    for kk, v, c in items:
        e = I.simp(equal(I, kk, k) * c)
        if not e.t:
            continue
        if e == ONE:
            alts.append((rem, v))
            rem = ZERO
            break
        alts.append((rem * e, v))
        rem = rem * (ONE - e)
    rem = I.simp(rem)
    if default is not NotImplemented:
        if rem.t:
            alts.append((rem, default))
        return mk_choice(alts)
    if not alts:
        I.event('key_error', key=k)
        I.do_raise('KeyError', None, I.cur)
        return I.unk('missing key %r' % (k,))
    if rem.t:
        I.do_raise('KeyError', None, I.cur, cond=rem)
    return mk_choice(alts) if len(alts) > 1 else alts[0][1]


def dict_set(I, d, k, v, cond=ONE):
    rec = I.heap[d.id]
    if rec.unk:
        return
    items = list(I.dict_items(d))
    for i, (kk, vv, c) in enumerate(items):
        e = I.simp(equal(I, kk, k))
        if e == ONE:
            if cond == ONE:
                items[i] = (kk, v, ONE)
            else:
                items[i] = (kk, I.merge_val(cond, v, vv), ite(cond, ONE, c))
            I.heap[d.id] = DictRec(items, rec.roots, rec.unk)
            return
        if e.t:
            I.heap[d.id] = DictRec(items, rec.roots,
                                   'key %r not decided' % (k,))
            return
    items.append((k, v, cond))
    I.heap[d.id] = DictRec(items, rec.roots, rec.unk)


def setitem(I, o, ix, v, aug=False, quiet=False):
    if isinstance(o, Choice):
        return I.distribute(o, lambda x: setitem(I, x, ix, v, aug, quiet))
    if isinstance(o, DRef):
        dict_set(I, o, ix, v)
        if not quiet:
            I.event('write', target='dict', roots=I.heap[o.id].roots,
                    store=o.id, op='setitem', certain=True, key=ix)
        return
    if isinstance(o, UnkV):
        I.event('write', target='unknown', roots=o.roots, store=None,
                op='setitem', certain=False)
        return
    if isinstance(o, LRef):
        return list_set(I, o, ix, v)
    if isinstance(o, ORef):
        if I.is_param(o):
            I.event('param_write', obj=o.id)
            return setitem(I, I.param_arr(o), ix, v)
        _, m = I.find_member(I.heap[o.id].cls, '__setitem__')
        if isinstance(m, PyFunc):
            return I.call(Bound(o, m), (ix, v), {})
        I.event('write', target='object', roots=I.heap[o.id].roots,
                store=o.id, op='setitem', certain=False)
        return
    if isinstance(o, Arr):
        return arr_set(I, o, ix, v)
    if isinstance(o, Abs) and hasattr(o, 'setitem'):
        return o.setitem(I, ix, v)
    I.event('write', target='unknown', roots=I.roots_of(o), store=None,
            op='setitem', certain=False)


def arr_set(I, o, ix, v):
    if isinstance(ix, Choice):
        return I.distribute(ix, lambda x: arr_set(I, o, x, v))
    m = ix
    if isinstance(m, (LRef, Seq)):
        m = I.as_arr(m)
    if isinstance(m, Arr) and m.dtype == 'bool' and m.shape == o.shape:
        src = None
        if isinstance(v, Masked) and same_val(v.mask, m):
            src = v.arr
        elif isinstance(v, (E, bool)):
            e = I.toE(v)
            src = I.new_arr((), lambda _: e)
        if src is None:
            return havoc_arr(I, o, 'masked assignment')
        rd = broadcast_reader(I, src, o.shape)
        old = I.heap[o.id]
        vs = tuple(fresh_var('i', n) for n in o.shape)
        ixs = tuple(A(x) for x in vs)
        body = ite(I.at1(m, ixs), cast_store(I, I.toE(rd(ixs)), src.dtype,
                                             o.dtype), I.at1(o, ixs))
        I.write_arr(o, lambda q: subst(body, dict(zip(vs, q))))
        return
    if is_fancy(I, o, ix):
        t = ix if isinstance(ix, tuple) else (ix,)
        return fancy_set(I, o, t, v)
    items = norm_index(I, ix, o.ndim)
    if sum(1 for x in items if x is not None) != o.ndim:
        I.event('index_error', what='too many indices')
        return
    desc = []
    d = 0
    for x in items:
        if x is None:
            desc.append(('new',))
            continue
        n = o.shape[d]
        d += 1
        if isinstance(x, SliceV):
            b = slice_bounds(I, x, n)
            if b is None:
                return havoc_arr(I, o, 'slice')
            desc.append(('slice',) + b)
        elif isinstance(x, UnkV):
            return havoc_arr(I, o, 'unknown index')
        else:
            e = I.toE(x)
            if e.unk:
                return havoc_arr(I, o, 'unknown index')
            desc.append(('int', norm_int(I, e, n)))
    view = make_view(I, o, desc)
    if o.dtype == 'object':
        rec = I.heap[o.id]
        I.write_arr(view, lambda q: v if not isinstance(v, Arr) or
                    view.shape == () else I.at(v, q))
        return
    if isinstance(v, Choice):
        a = I.as_arr(v)
        if a is None:
            return havoc_arr(I, view, 'choice')
        v = a
    if isinstance(v, (E, bool)):
        e = I.toE(v)
        e = cast_store(I, e, 'float' if not is_int(e) else 'int', o.dtype)
        I.write_arr(view, lambda q: e)
        return
    src = I.as_arr(v) if not isinstance(v, UnkV) else None
    if src is None or not isinstance(src, Arr):
        return havoc_arr(I, view, 'assigned %r' % (v,))
    ss = src.shape
    while len(ss) > len(view.shape) and ss[0] == ONE:
        src = index_arr(I, src, ZERO)
        if not isinstance(src, Arr):
            return arr_set(I, o, ix, src)
        ss = src.shape
    bs = bshape([ss, view.shape])
    if bs is None or len(bs) != len(view.shape) or not all(
            same_dim(x, y) for x, y in zip(bs, view.shape)):
        mismatch(I, (view.shape, ss), 'assignment')
        return havoc_arr(I, view, 'shape mismatch')
    rd = broadcast_reader(I, src, view.shape)
    vs = tuple(fresh_var('i', n) for n in view.shape)
    body = rd(tuple(A(x) for x in vs))
    if isinstance(body, (E, bool)):
        body = cast_store(I, I.toE(body), src.dtype, o.dtype)
    I.write_arr(view, lambda q: subst_val(body, dict(zip(vs, q))))


def fancy_set(I, o, items, v):
    """scatter assignment at constant positions, else havoc"""
    if len(items) == o.ndim == 1 and scatter(I, o, items[0], v):
        return None
    return havoc_arr(I, o, 'fancy assignment')


def scatter(I, o, idx, v):
    """o[idx] = v for a constant number of constant positions, in order"""
    y = I.as_arr(idx)
    if not isinstance(y, Arr) or y.ndim != 1 or y.dtype == 'bool' or \
            not isinstance(o, Arr) or o.ndim != 1:
        return False
    n = y.shape[0].const()
    if n is None or n > 32:
        return False
    pos = [I.at(y, (num(i),)) for i in range(int(n))]
    if any(not isinstance(p, E) or p.const() is None for p in pos):
        return False
    if isinstance(v, (E, bool)):
        vals = [v] * len(pos)
    else:
        w = I.as_arr(v) if not isinstance(v, UnkV) else None
        if not isinstance(w, Arr) or w.ndim > 1:
            return False
        if w.ndim == 0:
            vals = [I.at(w, ())] * len(pos)
        elif w.shape[0] == ONE:
            vals = [I.at(w, (ZERO,))] * len(pos)
        elif w.shape[0] == y.shape[0]:
            vals = [I.at(w, (num(i),)) for i in range(int(n))]
        else:
            return False
    for p, x in zip(pos, vals):
        arr_set(I, o, (p,), x)
    return True


def havoc_arr(I, view, why):
    u = I.unkE(why)
    I.write_arr(view, lambda q: u)


def list_set(I, o, ix, v):
    rec = I.heap[o.id]
    segs = list(I.segs(o))
    I.event('write', target='list', roots=rec.roots, store=o.id,
            op='setitem', certain=True)
    if isinstance(ix, SliceV):
        if ix.lo is None and ix.hi is None and ix.step is None:
            I.heap[o.id] = ListRec(I.iterate(v), rec.roots, rec.kind)
            return
        I.heap[o.id] = ListRec([Fam(((fresh_var('k', I.length(o)),
                                      I.length(o)),), I.unk(
                                          'slice assignment'))],
                               rec.roots, rec.kind)
        return
    e = I.toE(ix)
    pos = ZERO
    c = e.const()
    if c is not None and c < 0:
        e = I.length(o) + e
    for i, s in enumerate(segs):
        if isinstance(s, PhiSeg):
            break
        n = I.seg_count(s)
        if isinstance(s, Item) and s.cond == ONE:
            q = ind('eq', e - pos)
            q = I.simp(q)
            if q.t:
                segs[i] = Item(I.merge_val(q, v, s.v))
        elif isinstance(s, Fam) and s.cond == ONE and len(s.ks) == 1:
            k, _ = s.ks[0]
            q = I.simp(ind('eq', A(k) - (e - pos)))
            if q.t:
                segs[i] = Fam(s.ks, I.merge_val(q, v, s.v))
        else:
            segs[i] = Fam(((fresh_var('k', n), n),), I.unk('list store'))
        pos = pos + n
    I.heap[o.id] = ListRec(segs, rec.roots, rec.kind)


# --------------------------------------------------------------- stack_seq
def stack_seq(I, v):
    """np.array(list): stack along a new leading axis; None if impossible"""
    try:
        segs = I.iterate(v)
    except Exception:
        return None
    if not segs:
        return I.new_arr((ZERO,), lambda ix: ZERO)
    els = []
    for s in segs:
        if isinstance(s, PhiSeg) or s.cond != ONE:
            return None
        x = s.v
        if isinstance(x, (E, bool)):
            els.append(I.toE(x))
            continue
        a = I.as_arr(x)
        if not isinstance(a, Arr):
            return None
        els.append(a)
    shp = None
    for x in els:
        sh = x.shape if isinstance(x, Arr) else ()
        if shp is None:
            shp = sh
        elif len(sh) != len(shp) or not all(map(same_dim, sh, shp)):
            return None
    for s in segs:
        if isinstance(s, Fam) and any(
                k in d.vars for d in shp for k, _ in s.ks):
            return None
    n = T.esum([I.seg_count(s) for s in segs])
    dt = join_dtype(I, els)
    if any(isinstance(x, Arr) and x.dtype == 'bool' for x in els) and all(
            isinstance(x, Arr) and x.dtype == 'bool' for x in els):
        dt = 'bool'
    segs2 = []
    for s, x in zip(segs, els):
        def rdr(ix, x=x):
            return I.at(x, ix) if isinstance(x, Arr) else x
        segs2.append((s, rdr))

    def g(ix):
        i, rest = ix[0], ix[1:]
        fs = []
        for s, rdr in segs2:
            val = rdr(rest)
            fs.append(Item(val) if isinstance(s, Item) else
                      Fam(s.ks, val))
        return seq_at(I, fs, i)
    if len(segs2) > 1 or isinstance(segs[0], Fam):
        return I.new_arr((n,) + tuple(shp), g, dt)
    return I.new_arr((n,) + tuple(shp), lambda ix: segs2[0][1](ix[1:]), dt)


# ---------------------------------------------------------------- dispatch
def ext_class_member(extname, name):
    from . import models_ext
    return models_ext.class_member(extname, name)


UF1 = set('''negative absolute abs fabs exp expm1 exp2 log log1p log2 log10
sqrt square reciprocal sin cos tan tanh sinh cosh floor ceil rint sign conj
conjugate isnan isfinite isinf logical_not positive cbrt trunc'''.split())
UF2 = set('''add subtract multiply divide true_divide floor_divide power mod
remainder fmod maximum minimum fmax fmin logical_and logical_or logical_xor
greater greater_equal less less_equal equal not_equal hypot arctan2 matmul
dot float_power outer'''.split())
MUTATE = set('''copyto place putmask put_along_axis put fill_diagonal
random.shuffle'''.split())
MUTMETH = set('''put partition resize itemset byteswap sort fill'''.split())


def into(I, out, r):
    """result of a computation stored into a given array"""
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if isinstance(out, Arr):
        if isinstance(r, (Arr, E, bool)):
            arr_set(I, out, Ellipsis, r)
        else:
            havoc_arr(I, out, 'output of %r' % (r,))
        return out
    I.havoc_value(out, 'output argument')
    return I.unk('output argument')


def call_ext(I, name, args, kwargs):
    if name in I.stubs:
        r = I.stubs[name](I, args, kwargs)
        if r is not NotImplemented:     # only watching
            return r
    f = REG.get(name)
    top, _, last = name.partition('.')
    if top in ('numpy', 'scipy'):
        if kwargs.get('out') is not None:
            kw = {k: v for k, v in kwargs.items() if k != 'out'}
            return into(I, kwargs['out'], call_ext(I, name, args, kw))
        n = 1 if last in UF1 else 2 if last in UF2 else None
        if n is not None and len(args) == n + 1 and not any(
                isinstance(a, Seq) and a.kind == 'star' for a in args):
            return into(I, args[n], call_ext(I, name, args[:n], kwargs))
        if last == 'copyto' and len(args) == 2 and not kwargs and isinstance(
                args[0], Arr) and isinstance(args[1], (Arr, E, bool)):
            arr_set(I, args[0], Ellipsis, args[1])
            return None
        if (last in MUTATE or last.endswith('.at')) and (
                f is None or kwargs) and args:
            if isinstance(args[0], Arr):
                havoc_arr(I, args[0], name)
            else:
                I.havoc_value(args[0], name)
            return None
    elif f is None and top not in ('math', 'logging', 'itertools', 'copy'):
        for a in list(args) + list(kwargs.values()):
            I.havoc_value(a, 'passed to ' + name)
    if f is None:
        from . import models_ext
        r = models_ext.call_prefix(I, name, args, kwargs)
        if r is not NotImplemented:
            return r
        I.event('unkcall', what=name, args=args)
        return I.unk('call of ' + name, *args)
    star = any(isinstance(a, Seq) and a.kind == 'star' for a in args)
    if star and not getattr(f, 'star', False):
        return I.unk('%s with star-args' % name, *args)
    if not getattr(f, 'raw', False):
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                return I.distribute(a, lambda x: call_ext(
                    I, name, args[:i] + (x,) + args[i + 1:], kwargs))
        for k, a in kwargs.items():
            if isinstance(a, Choice):
                return I.distribute(a, lambda x: call_ext(
                    I, name, args, {**kwargs, k: x}))
        if '**' in kwargs:
            return I.unk('%s with unknown keywords' % name)
    try:
        return f(I, *args, **kwargs)
    except TypeError as e:
        if 'argument' in str(e):
            return I.unk('arguments of %s: %s' % (name, e), *args)
        raise


def raw(f):
    f.raw = True
    return f


def star(f):
    f.star = True
    return f


def flat_star(args):
    """(fixed args, segments) of a star call"""
    segs = []
    for a in args:
        if isinstance(a, Seq) and a.kind == 'star':
            segs.extend(a.segs)
        else:
            segs.append(Item(a))
    return segs


def kind_of(I, o):
    if isinstance(o, Arr):
        return 'arr'
    if isinstance(o, LRef):
        return 'set' if I.heap[o.id].kind == 'set' else 'list'
    if isinstance(o, DRef):
        return 'dict'
    if isinstance(o, str):
        return 'str'
    if isinstance(o, (E, bool)):
        return 'num'
    if isinstance(o, tuple):
        return 'tuple'
    if isinstance(o, Seq):
        return 'tuple'
    if isinstance(o, (PyFunc, Bound)):
        return 'func'
    if isinstance(o, Ext):
        return 'ext'
    return '?'


def call_method(I, obj, name, args, kwargs):
    if isinstance(obj, Choice):
        return I.distribute(obj, lambda x: call_method(I, x, name, args,
                                                       kwargs))
    k = kind_of(I, obj)
    if k == 'arr' and kwargs.get('out') is not None:
        kw = {a: v for a, v in kwargs.items() if a != 'out'}
        return into(I, kwargs['out'], call_method(I, obj, name, args, kw))
    f = METH.get((k, name))
    if f is None:
        if isinstance(obj, UnkV):
            return UnkV('%s.%s()' % (obj.reason, name), obj.roots)
        if k == 'arr' and name in MUTMETH:
            havoc_arr(I, obj, '.' + name)
        elif k in ('list', 'dict', 'set'):
            I.havoc_value(obj, '.' + name)
        I.event('unkcall', what='%s.%s' % (k, name), args=args)
        return I.unk('method %s.%s' % (k, name), obj, *args)
    for i, a in enumerate(args):
        if isinstance(a, Choice) and not getattr(f, 'raw', False):
            return I.distribute(a, lambda x: call_method(
                I, obj, name, args[:i] + (x,) + args[i + 1:], kwargs))
    try:
        return f(I, obj, *args, **kwargs)
    except TypeError as e:
        if 'argument' in str(e):
            return I.unk('arguments of %s: %s' % (name, e), *args)
        raise


def ext_new(I, cls, extname, args, kwargs):
    from . import models_ext
    return models_ext.ext_new(I, cls, extname, args, kwargs)


def obj_attr(I, o, name):
    from . import models_ext
    return models_ext.obj_attr(I, o, name)


def ext_super(I, obj, cls, name, args, kwargs):
    from . import models_ext
    return models_ext.ext_super(I, obj, cls, name, args, kwargs)


def ext_attr(I, dotted):
    if dotted in ATTR:
        v = ATTR[dotted]
        return v(I) if callable(v) and not isinstance(v, E) else v
    return Ext(dotted)


def value_attr(I, o, name):
    if isinstance(o, ORef) and I.is_param(o):
        o = I.param_arr(o)
    k = kind_of(I, o)
    if k == 'arr':
        from . import models_np
        r = models_np.arr_attr(I, o, name)
        if r is not NotImplemented:
            return r
    if k == 'num':
        if name in ('real',):
            return o
        if name == 'size':
            return ONE
        if name == 'shape':
            return ()
        if name == 'ndim':
            return ZERO
        if name == 'T':
            return o
    if isinstance(o, SliceV) and name in ('start', 'stop', 'step'):
        return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
    if (k, name) in METH:
        return ExtBound(o, name)
    return ExtBound(o, name)


def attr_dict(o):
    return models_ext.AttrDict(o)


def linked_name(I, o, p):
    return any(e['kind'] == 'link' and isinstance(e['param'], ORef) and
               e['param'].id == p.id for e in I.events)


from . import models_builtin   # noqa: E402,F401
from . import models_np        # noqa: E402,F401
from . import models_ext       # noqa: E402,F401
