"""numpy / scipy models: documented mathematical meaning as terms."""
import ast
from fractions import Fraction as F

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    mk_sum, unk, sym, is_int, nonneg, positive)
from .vals import *
from .vals import rd_at, wr_at
from . import models as M
from .models import (ext, meth, raw, star, flat_star, elementwise, bshape,
                     broadcast_reader, mismatch, same_dim, dtype_of)
from .models_builtin import b_range, map_over, fold_sum

HALF = F(1, 2)


def arr(I, v):
    """coerce to an array or None"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, UnkV) or v is None or isinstance(v, str):
        return None
    a = I.as_arr(v)
    return a if isinstance(a, Arr) else None


def scal(I, a):
    """rank-0 arrays behave as scalars"""
    if isinstance(a, Arr) and a.shape == ():
        v = I.at(a, ())
        return v
    return a


def bad(I, what, *vals):
    r = ''
    for v in vals:
        if isinstance(v, UnkV):
            r = ' of ' + v.reason
    return I.unk(what + r, *vals)


def parse_dtype(d):
    if d is None:
        return None
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, E):
        return None
    else:
        return None
    if n.startswith(('int', 'uint', 'intp', 'long')):
        return 'int'
    if n in ('float32', 'float16', 'single', 'half', 'f4', 'f2', '<f4'):
        return 'f32'
    if n.startswith('float') or n in ('double', 'f8'):
        return 'float'
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('complex'):
        return 'complex'
    if n == 'object':
        return 'object'
    return None


def same_dtype(I, a, b):
    """dtype equality by meaning (float64, float, 'float64'); None: neither
    is a dtype"""
    def is_dt(x):
        return isinstance(x, Ext) and x.name.startswith('numpy.') and (
            parse_dtype(x) is not None or x.name == 'numpy.int?')
    if not (is_dt(a) or is_dt(b)) or not all(
            isinstance(x, (Ext, str)) for x in (a, b)):
        return None
    da, db = parse_dtype(a), parse_dtype(b)
    names = [x.name if isinstance(x, Ext) else '' for x in (a, b)]
    if 'numpy.int?' in names:
        o = db if names[0] == 'numpy.int?' else da
        return ZERO if o in ('bool', 'complex', 'object') else T.truth(
            'eq', I.unkE('dtype'))
    if da is None or db is None:
        return None
    return ONE if da == db else ZERO


def recast(I, a, dt):
    if dt is None or dt == a.dtype:
        return a
    src = a.dtype
    return I.new_arr(a.shape, lambda ix: M.cast_store(
        I, I.at(a, ix), src, dt), dt)


# ------------------------------------------------------------------ ufuncs
def _unary(f, dt='float'):
    def g(I, x, out=None, where=None, dtype=None):
        r = elementwise(I, f, [x], dt) if where is None else I.unk(
            'ufunc with where', x)
        return store_out(I, r, out)
    return g


def store_out(I, r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    M.setitem(I, out, Ellipsis, r)
    return out


UN = {
    'square': (lambda x: x * x, None), 'sqrt': (lambda x: T.power(x, HALF),
                                                'float'),
    'exp': (T.exp, 'float'), 'log': (T.log, 'float'),
    'sin': (lambda x: T.fn('sin', x), 'float'),
    'cos': (lambda x: T.fn('cos', x), 'float'),
    'abs': (T.absE, None), 'absolute': (T.absE, None),
    'fabs': (T.absE, 'float'),
    'sign': (lambda x: T.fn('sign', x), None),
    'floor': (lambda x: x if is_int(x) else T.fn('floor', x), 'float'),
    'ceil': (lambda x: x if is_int(x) else T.fn('ceil', x), 'float'),
    'trunc': (lambda x: x if is_int(x) else T.fn('trunc', x), 'float'),
    'negative': (lambda x: -x, None), 'positive': (lambda x: x, None),
    'reciprocal': (lambda x: T.divide(ONE, x), 'float'),
    'log1p': (lambda x: T.log(x + 1), 'float'),
    'expm1': (lambda x: T.exp(x) - 1, 'float'),
    'log2': (lambda x: T.divide(T.log(x), T.log(num(2))), 'float'),
    'log10': (lambda x: T.divide(T.log(x), T.log(num(10))), 'float'),
    'tan': (lambda x: T.divide(T.fn('sin', x), T.fn('cos', x)), 'float'),
    'conj': (lambda x: x, None), 'real': (lambda x: x, None),
    'deg2rad': (lambda x: x * T.PI / 180, 'float'),
    'isnan': (lambda x: T.truth('isnan', x), 'bool'),
    'isfinite': (lambda x: ONE - T.truth('isnan', x), 'bool'),
    'isinf': (lambda x: T.truth('isinf', x), 'bool'),
    'rint': (lambda x: x if is_int(x) else T.fn('round', x), 'float'),
}
for _n, (_f, _d) in UN.items():
    M.REG['numpy.' + _n] = _unary(_f, _d)
M.REG['scipy.special.gammaln'] = _unary(lambda x: T.fn('gammaln', x))
M.REG['scipy.special.digamma'] = M.REG['scipy.special.psi'] = _unary(
    lambda x: T.fn('digamma', x))
M.REG['numpy.logical_not'] = lambda I, x: elementwise(
    I, lambda e: ONE - I.truthy(e), [x], 'bool')

BIN = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult,
       'divide': ast.Div, 'true_divide': ast.Div, 'power': ast.Pow,
       'floor_divide': ast.FloorDiv, 'mod': ast.Mod, 'remainder': ast.Mod,
       'matmul': ast.MatMult, 'float_power': ast.Pow}
for _n, _op in BIN.items():
    M.REG['numpy.' + _n] = (lambda op: lambda I, a, b, out=None: store_out(
        I, np_bin(I, op, a, b), out))(_op)


def np_bin(I, op, a, b):
    a2 = a if isinstance(a, (E, bool, Arr, ORef, Abs)) else (
        arr(I, a) or UnkV('operand'))
    b2 = b if isinstance(b, (E, bool, Arr, ORef, Abs)) else (
        arr(I, b) or UnkV('operand'))
    return I.binop(op, a2, b2)


for _n, _f in (('maximum', T.maxE), ('minimum', T.minE), ('fmax', T.maxE),
               ('fmin', T.minE)):
    M.REG['numpy.' + _n] = (lambda f: lambda I, a, b, out=None: store_out(
        I, elementwise(I, f, [a, b]), out))(_f)
for _n, _op in (('equal', ast.Eq), ('not_equal', ast.NotEq), ('less', ast.Lt),
                ('greater', ast.Gt), ('less_equal', ast.LtE),
                ('greater_equal', ast.GtE)):
    M.REG['numpy.' + _n] = (lambda op: lambda I, a, b: M.compare(
        I, op, arr(I, a) if not isinstance(a, E) else a,
        arr(I, b) if not isinstance(b, E) else b))(_op)
M.REG['numpy.logical_and'] = lambda I, a, b: elementwise(
    I, lambda x, y: I.truthy(x) * I.truthy(y), [a, b], 'bool')
M.REG['numpy.logical_or'] = lambda I, a, b: elementwise(
    I, lambda x, y: I.truthy(x) + I.truthy(y) - I.truthy(x) * I.truthy(y),
    [a, b], 'bool')
M.REG['numpy.hypot'] = lambda I, a, b: elementwise(
    I, lambda x, y: T.power(x * x + y * y, HALF), [a, b], 'float')
M.REG['numpy.divmod'] = lambda I, a, b: (
    elementwise(I, T.floordiv, [a, b]), elementwise(I, T.mod, [a, b]))


@ext('numpy.clip')
def np_clip(I, x, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if lo is not None:
        x = elementwise(I, T.maxE, [x, lo])
    if hi is not None:
        x = elementwise(I, T.minE, [x, hi])
    return store_out(I, x, out)


M.METH[('arr', 'clip')] = np_clip


@ext('numpy.where')
def np_where(I, c, a=None, b=None):
    if a is None:
        return I.unk('where with one argument')
    return elementwise(I, lambda p, x, y: ite(I.truthy(p), x, y), [c, a, b],
                       M.join_dtype(I, [x for x in (a, b)
                                        if isinstance(x, (E, Arr))]))


# ---------------------------------------------------------------- creation
def shape_of(I, s):
    if isinstance(s, (E, bool)):
        return (I.toE(s),)
    if isinstance(s, Arr):
        c = s.shape[0].const() if s.ndim == 1 else None
        if s.ndim == 0:
            return (I.toE(s),)
        if c is None:
            return None
        return tuple(I.at1(s, (num(i),)) for i in range(int(c)))
    if isinstance(s, (tuple, LRef, Seq)):
        segs = I.iterate(s)
        if not all(isinstance(x, Item) and x.cond == ONE for x in segs):
            return None
        out = tuple(I.toE(x.v) for x in segs)
        return out
    return None


def fill(I, shape, val, dtype, default='float'):
    sh = shape_of(I, shape)
    if sh is None or any(x.unk for x in sh):
        return bad(I, 'array of unknown shape', shape)
    dt = parse_dtype(dtype) or default
    return I.new_arr(sh, lambda ix: val, dt)


@ext('numpy.zeros')
def np_zeros(I, shape, dtype=None, order=None):
    return fill(I, shape, ZERO, dtype)


@ext('numpy.ones')
def np_ones(I, shape, dtype=None, order=None):
    return fill(I, shape, ONE, dtype)


_undef = [0]


@ext('numpy.empty')
def np_empty(I, shape, dtype=None, order=None):
    sh = shape_of(I, shape)
    if sh is None or any(x.unk for x in sh):
        return bad(I, 'array of unknown shape', shape)
    dt = parse_dtype(dtype) or 'float'
    if dt == 'object':
        return I.new_arr(sh, lambda ix: None, dt)
    _undef[0] += 1
    nm = T.tensor('undef%d' % _undef[0])
    return I.new_arr(sh, lambda ix: T.el(nm, *ix), dt)


@ext('numpy.full')
def np_full(I, shape, v, dtype=None):
    return fill(I, shape, I.toE(v), dtype)


def like(f):
    def g(I, a, dtype=None, order=None, subok=None, shape=None):
        x = arr(I, a)
        if x is None:
            return bad(I, 'like', a)
        return fill(I, tuple(x.shape), f, dtype, x.dtype)
    return g


M.REG['numpy.zeros_like'] = like(ZERO)
M.REG['numpy.ones_like'] = like(ONE)


@ext('numpy.empty_like')
def np_empty_like(I, a, dtype=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'like', a)
    return np_empty(I, tuple(x.shape), dtype)


@ext('numpy.full_like')
def np_full_like(I, a, v, dtype=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'like', a)
    return fill(I, tuple(x.shape), I.toE(v), dtype, x.dtype)


@ext('numpy.identity', 'numpy.eye')
def np_eye(I, n, m=None, k=None, dtype=None):
    n = I.toE(n)
    m = I.toE(m) if m is not None else n
    k = I.toE(k) if k is not None else ZERO
    return I.new_arr((n, m), lambda ix: ind('eq', ix[1] - ix[0] - k),
                     parse_dtype(dtype) or 'float')


@ext('numpy.arange')
def np_arange(I, a, b=None, c=None, dtype=None):
    lo, hi = (ZERO, I.toE(a)) if b is None else (I.toE(a), I.toE(b))
    st = I.toE(c) if c is not None else ONE
    if lo.unk or hi.unk or st.unk:
        return I.unk('arange')
    if not (is_int(lo) and is_int(hi) and is_int(st)) or (
            st.const() is None and not nonneg(st - 1)):
        return I.unk('arange with fractional step')
    s = st.const()
    if s is None:
        n = T.floordiv(hi - lo + (st - 1), st)
        if not nonneg(n):
            n = T.maxE(n, ZERO)
        return I.new_arr((n,), lambda ix: lo + ix[0] * st,
                         parse_dtype(dtype) or 'int?')
    n = hi - lo if s == 1 else T.floordiv(hi - lo + (s - 1), st) if s > 0 \
        else T.floordiv(lo - hi - s - 1, -st)
    if not nonneg(n):
        n = T.maxE(n, ZERO)
    return I.new_arr((n,), lambda ix: lo + ix[0] * s,
                     parse_dtype(dtype) or 'int?')


@ext('numpy.linspace')
def np_linspace(I, a, b, n=None, endpoint=True, retstep=False, dtype=None,
                num=None):
    n = I.toE(n if n is not None else (num if num is not None
                                       else T.num(50)))
    a, b = I.toE(a), I.toE(b)
    if a.unk or b.unk or n.unk:
        return I.unk('linspace')
    c = n.const()
    if endpoint is True:
        d = ZERO if c == 1 else T.divide(b - a, n - 1)
    elif endpoint is False:
        d = T.divide(b - a, n)
    else:
        return I.unk('linspace endpoint')
    r = I.new_arr((n,), lambda ix: a + ix[0] * d,
                  parse_dtype(dtype) or 'float')
    return (r, d) if retstep is True else r


def to_array(I, x, dtype=None, copy=True):
    dt = parse_dtype(dtype)
    if isinstance(x, Choice):
        return I.distribute(x, lambda y: to_array(I, y, dtype, copy))
    if isinstance(x, UnkV):
        return bad(I, 'array', x)
    if isinstance(x, Abs):
        if hasattr(x, 'asarray'):
            return x.asarray(I)
        return bad(I, 'array of object', x)
    if dt == 'object' and isinstance(x, (LRef, tuple, Seq)):
        segs = I.iterate(x)
        n = T.esum([I.seg_count(s) for s in segs])
        return I.new_arr((n,), lambda ix: M.seq_at(I, segs, ix[0]), 'object')
    if isinstance(x, (E, bool)):
        e = I.toE(x)
        d0 = dt or dtype_of(I, x)
        return I.new_arr((), lambda ix: e, 'int?' if d0 == 'const' else d0)
    a = arr(I, x)
    if a is None:
        # nested lists of objects
        if isinstance(x, (LRef, tuple, Seq)):
            return np_object_array(I, x)
        return bad(I, 'array of %r' % (x,), x)
    if a is x and not copy and (dt is None or dt == a.dtype):
        return a
    if a is not x and not copy and isinstance(x, ORef) and (
            dt is None or dt == a.dtype):
        return a
    return I.new_arr(a.shape, (lambda ix: M.cast_store(
        I, I.at(a, ix), a.dtype, dt)) if dt else (lambda ix: I.at(a, ix)),
        dt or a.dtype)


def np_object_array(I, x):
    """np.array of a list of non-numeric values: 1-d or 2-d object array"""
    segs = I.iterate(x)
    rows = []
    for s in segs:
        if not isinstance(s, Item) or s.cond != ONE:
            return I.unk('object array')
        if isinstance(s.v, (LRef, tuple, Seq)):
            r = I.iterate(s.v)
            if not all(isinstance(t, Item) and t.cond == ONE for t in r):
                return I.unk('object array')
            rows.append([t.v for t in r])
        elif isinstance(s.v, (ORef, Abs)) or s.v is None:
            rows.append(s.v)
        else:
            return I.unk('object array')
    if rows and all(isinstance(r, list) and len(r) == len(rows[0])
                    for r in rows):
        return I.new_arr(
            (num(len(rows)), num(len(rows[0]))),
            lambda ix: M.seq_at(I, [Item(M.seq_at(
                I, [Item(v) for v in r], ix[1])) for r in rows], ix[0]),
            'object')
    if all(not isinstance(r, list) for r in rows):
        return I.new_arr((num(len(rows)),), lambda ix: M.seq_at(
            I, [Item(v) for v in rows], ix[0]), 'object')
    return I.unk('object array')


@ext('numpy.array')
@raw
def np_array(I, x, dtype=None, copy=True, ndmin=None, order=None,
             subok=None):
    r = to_array(I, x, dtype, copy is not False)
    if ndmin is not None and isinstance(r, Arr):
        c = I.toE(ndmin).const()
        while c is not None and r.ndim < c:
            r = M.index_arr(I, r, (None, Ellipsis)) if r.ndim else reshape(
                I, r, (ONE,))
    return r


@ext('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
@raw
def np_asarray(I, x, dtype=None, order=None):
    return to_array(I, x, dtype, False)


@ext('numpy.copy')
def np_copy(I, x, order=None):
    return to_array(I, x, None, True)


@ext('numpy.fromiter')
def np_fromiter(I, x, dtype=None, count=None):
    if isinstance(x, UnkV):
        return bad(I, 'fromiter', x)
    return to_array(I, Seq(I.iterate(x), 'list'), dtype, True)


@ext('numpy.atleast_1d')
def np_al1(I, x):
    a = arr(I, x)
    if a is None:
        return bad(I, 'atleast_1d', x)
    return a if a.ndim else reshape(I, a, (ONE,))


@ext('numpy.atleast_2d')
def np_al2(I, x):
    a = arr(I, x)
    if a is None:
        return bad(I, 'atleast_2d', x)
    if a.ndim >= 2:
        return a
    return reshape(I, a, (ONE, I.size(a)))


# -------------------------------------------------------------- attributes
class NdIter(Abs):
    def __init__(self, a, attr):
        self.a, self.attr_ = a, attr

    def getattr(self, I, name):
        return I.unk('flat.' + name)

    def asarray(self, I):
        return self.a

    def iterate(self, I):
        return I.iterate(ravel(I, self.a))

    def getitem(self, I, ix):
        return M.index(I, ravel(I, self.a), ix)

    def setitem(self, I, ix, v):
        return M.setitem(I, ravel(I, self.a), ix, v)


def arr_attr(I, a, name):
    if name == 'shape':
        return tuple(a.shape)
    if name == 'size':
        return I.size(a)
    if name == 'ndim':
        return num(a.ndim)
    if name == 'T':
        return transpose(I, a)
    if name == 'dtype':
        return Ext('numpy.' + {'float': 'float64', 'int': 'int64', 'int?':
                               'int?', 'bool': 'bool_', 'object': 'object',
                               'complex': 'complex128', 'f32': 'float32'
                               }[a.dtype])
    if name in ('real',):
        return a
    if name == 'flat':
        return NdIter(a, 'flat')
    if name == 'base':
        return I.unk('base')
    if name == 'nbytes':
        return I.size(a) * 8
    return NotImplemented


def transpose(I, a, axes=None):
    p = list(range(a.ndim))[::-1]
    if axes is not None:
        cs = [I.toE(x).const() for x in axes]
        if any(c is None for c in cs):
            return I.unk('transpose', a)
        p = [int(c) for c in cs]
    rec = I.heap[a.id]
    shape = tuple(a.shape[q] for q in p)
    vs = tuple(fresh_var('t', n) for n in shape)
    inv = [p.index(d) for d in range(a.ndim)]
    rd = (vs, rd_at(a, tuple(A(vs[inv[d]]) for d in range(a.ndim))))
    bvs = tuple(fresh_var('b', n) for n in rec.shape)
    c, ax = wr_at(a, tuple(A(b) for b in bvs))
    return Arr(a.id, shape, rd, (bvs, c, tuple(ax[q] for q in p)), a.dtype,
               a.sub, a.flags)


def flat_index(shape, ix):
    f = ZERO
    for n, i in zip(shape, ix):
        f = f * n + i
    return f


def unflat(shape, f):
    """row-major index of flat position f"""
    out = []
    rest = f
    for d in range(len(shape)):
        st = ONE
        for n in shape[d + 1:]:
            st = st * n
        if shape[d] == ONE:
            out.append(ZERO)
            continue
        if all(n == ONE for n in shape[:d]):
            # leading significant dimension: no modulo needed
            if st == ONE:
                out.append(rest)
                rest = ZERO
            else:
                out.append(T.floordiv(rest, st))
                rest = T.mod(rest, st)
        elif st == ONE:
            out.append(rest)
        else:
            out.append(T.floordiv(rest, st))
            rest = T.mod(rest, st)
    return tuple(out)


def split_flat(I, shape, ix, newshape):
    """index map between shapes with equal element order; matches equal
    trailing / leading dimensions and ignores unit dimensions"""
    a = [(n, i) for n, i in zip(shape, ix) if n != ONE]
    b = [(d, n) for d, n in enumerate(newshape) if n != ONE]
    out = [ZERO] * len(newshape)
    # equal prefix
    while a and b and same_dim(a[0][0], b[0][1]) and not (
            len(a) == 1) != (len(b) == 1):
        out[b[0][0]] = a[0][1]
        a.pop(0)
        b.pop(0)
    while a and b and same_dim(a[-1][0], b[-1][1]):
        out[b[-1][0]] = a[-1][1]
        a.pop()
        b.pop()
    if a or b:
        f = flat_index([n for n, _ in a], [i for _, i in a])
        r = unflat([n for _, n in b], f)
        for (d, _), e in zip(b, r):
            out[d] = e
    return tuple(out)


def reshape(I, a, newshape):
    size = I.size(a)
    ns = list(newshape)
    neg = [d for d, n in enumerate(ns) if n == -ONE]
    if len(neg) > 1:
        return I.unk('reshape', a)
    if neg:
        rest = ONE
        for d, n in enumerate(ns):
            if d != neg[0]:
                rest = rest * n
        # cancel equal dims
        q = T.divide(size, rest)
        if not is_int(q):
            q = T.floordiv(size, rest)
        ns[neg[0]] = q
    n2 = ONE
    for n in ns:
        n2 = n2 * n
    if not same_dim(size, n2):
        return mismatch(I, (a.shape, tuple(ns)), 'reshape')
    ns = tuple(ns)
    if len(ns) == a.ndim and all(map(same_dim, ns, a.shape)):
        return a
    rec = I.heap[a.id]
    vs = tuple(fresh_var('v', n) for n in ns)
    rd = (vs, rd_at(a, split_flat(I, ns, [A(v) for v in vs], a.shape)))
    bvs = tuple(fresh_var('b', n) for n in rec.shape)
    c, ax = wr_at(a, tuple(A(b) for b in bvs))
    wr = (bvs, c, split_flat(I, a.shape, ax, ns))
    return Arr(a.id, ns, rd, wr, a.dtype, a.sub, a.flags)


def ravel(I, a):
    return reshape(I, a, (I.size(a),))


@meth('arr', 'reshape')
def m_reshape(I, a, *s, order=None):
    if len(s) == 1 and not isinstance(s[0], (E, bool)):
        sh = shape_of(I, s[0])
    else:
        sh = tuple(I.toE(x) for x in s)
    if sh is None or any(x.unk for x in sh) or order not in (None, 'C', 'F'):
        return I.unk('reshape', a)
    if order == 'F':
        r = reshape(I, transpose(I, a), tuple(reversed(sh)))
        if not isinstance(r, Arr):
            return r
        r = transpose(I, r)
        return r if a.ndim == 1 else np_copy(I, r)
    return reshape(I, a, sh)


@ext('numpy.reshape')
def np_reshape(I, a, s, order=None):
    x = arr(I, a)
    return m_reshape(I, x, s, order=order) if x is not None else bad(
        I, 'reshape', a)


@meth('arr', 'ravel')
def m_ravel(I, a, order=None):
    return ravel(I, a) if order in (None, 'C') else ravel(
        I, transpose(I, a)) if order == 'F' else I.unk('ravel', a)


@ext('numpy.ravel')
def np_ravel(I, a, order=None):
    x = arr(I, a)
    return m_ravel(I, x, order) if x is not None else bad(I, 'ravel', a)


@meth('arr', 'flatten')
def m_flatten(I, a, order=None):
    r = m_ravel(I, a, order)
    return np_copy(I, r)


@meth('arr', 'copy')
def m_copy(I, a, order=None):
    return np_copy(I, a)


@meth('arr', 'transpose')
def m_transpose(I, a, *ax):
    if len(ax) == 1 and isinstance(ax[0], tuple):
        ax = ax[0]
    return transpose(I, a, ax or None)


@ext('numpy.transpose')
def np_transpose(I, a, axes=None):
    x = arr(I, a)
    return transpose(I, x, axes) if x is not None else bad(I, 'T', a)


@ext('numpy.squeeze')
def np_squeeze(I, a, axis=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'squeeze', a)
    return scal(I, reshape(I, x, tuple(n for n in x.shape if n != ONE)))


M.METH[('arr', 'squeeze')] = np_squeeze


@ext('numpy.expand_dims')
def np_expand(I, a, axis):
    x = arr(I, a)
    c = I.toE(axis).const()
    if x is None or c is None:
        return bad(I, 'expand_dims', a)
    c = int(c)
    if c < 0:
        c += x.ndim + 1
    return M.index_arr(I, x, tuple(
        [SliceV(None, None, None)] * c + [None]))


@ext('numpy.swapaxes')
def np_swapaxes(I, a, i, j):
    x = arr(I, a)
    if x is None:
        return bad(I, 'swapaxes', a)
    p = list(range(x.ndim))
    i, j = int(I.toE(i).const()), int(I.toE(j).const())
    p[i], p[j] = p[j], p[i]
    return transpose(I, x, [num(q) for q in p])


@ext('numpy.broadcast_to')
def np_broadcast_to(I, a, s):
    x, sh = arr(I, a), shape_of(I, s)
    if x is None or sh is None:
        return bad(I, 'broadcast_to', a)
    return M.broadcast_to(I, x, sh)


@ext('numpy.flip', 'numpy.flipud')
def np_flip(I, a, axis=ZERO):
    x = arr(I, a)
    if x is None or x.ndim != 1:
        return bad(I, 'flip', a)
    return M.index_arr(I, x, SliceV(None, None, num(-1)))


@meth('arr', 'astype')
def m_astype(I, a, t, order=None, casting=None, subok=None, copy=None):
    dt = parse_dtype(t)
    if dt is None or order is not None:
        return I.unk('astype', a)
    if casting not in (None, 'unsafe', 'safe', 'same_kind') or \
            casting in ('safe', 'same_kind') and a.dtype != dt and (
                a.dtype, dt) != ('int', 'float'):
        return I.unk('astype casting', a)
    if copy is False and a.dtype == dt:
        return a
    return I.new_arr(a.shape, lambda ix: M.cast_store(
        I, I.at(a, ix), a.dtype, dt), dt)


@meth('arr', 'tolist')
def m_tolist(I, a):
    return I.new_list(I.iterate(a)) if a.ndim == 1 else I.unk('tolist', a)


@meth('arr', 'item')
def m_item(I, a, *ix):
    if not ix:
        return I.toE(a)
    return M.index_arr(I, ravel(I, a), ix[0])


@meth('arr', 'fill')
def m_fill(I, a, v):
    e = I.toE(v)
    I.write_arr(a, lambda ix: e)


@meth('arr', 'view', 'squeeze_')
def m_view(I, a, *x):
    return a


@meth('arr', 'conj', 'conjugate')
def m_conj(I, a):
    return a


@meth('arr', 'sort')
def m_sort(I, a, *x, **k):
    M.havoc_arr(I, a, 'sort')


@meth('arr', 'setflags')
def m_setflags(I, a, *x, **k):
    return None


# --------------------------------------------------------------- reductions
def norm_axis(I, a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        ax = [I.toE(x).const() for x in axis]
    else:
        ax = [I.toE(axis).const()]
    if any(x is None for x in ax):
        return None
    out = [int(x) + (a.ndim if x < 0 else 0) for x in ax]
    if any(x < 0 or x >= a.ndim for x in out):
        return None
    return out


def reduce_arr(I, x, axis, f, dt, keep=False, what='reduce'):
    """f(list of (var,bound), body) -> E"""
    a = arr(I, x)
    if a is None:
        return bad(I, what, x)
    ax = norm_axis(I, a, axis)
    if ax is None:
        return bad(I, what + ' axis', x)
    keepd = [d for d in range(a.ndim) if d not in ax]
    shape = tuple(a.shape[d] for d in keepd)

    def g(ix):
        full = [None] * a.ndim
        for d, i in zip(keepd, ix):
            full[d] = i
        ks = []
        for d in ax:
            v = fresh_var('s', a.shape[d])
            ks.append((v, a.shape[d]))
            full[d] = A(v)
        return f(ks, I.at1(a, tuple(full)))
    if keep is True:
        shape2 = tuple(ONE if d in ax else n for d, n in enumerate(a.shape))
        return I.new_arr(shape2, lambda ix: g(tuple(
            ix[d] for d in keepd)), dt)
    if not shape:
        return g(())
    return I.new_arr(shape, g, dt)


def r_sum(ks, b):
    for k, n in reversed(ks):
        b = mk_sum(k, n, b)
    return b


def r_red(op):
    def f(ks, b):
        for k, n in reversed(ks):
            b = T.red(op, k, n, b) if b.const() is None or op == 'prod' \
                else (b if op != 'any' else b * (ONE - ind('eq', n)))
        return b
    return f


def _sum_dt(I, a):
    x = arr(I, a)
    return 'int' if x is not None and x.dtype in ('int', 'bool') else (
        x.dtype if x is not None else 'float')


@ext('numpy.sum')
@raw
def np_sum(I, a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, Abs) and hasattr(a, 'sum'):
        return a.sum(I, axis)
    return store_out(I, reduce_arr(I, a, axis, r_sum, _sum_dt(I, a),
                                   keepdims, 'sum'), out)


@ext('numpy.mean', 'numpy.average')
@raw
def np_mean(I, a, axis=None, dtype=None, out=None, keepdims=False):
    def f(ks, b):
        n = ONE
        for _, m in ks:
            n = n * m
        return T.divide(r_sum(ks, b), n)
    return reduce_arr(I, a, axis, f, 'float', keepdims, 'mean')


def _var(I, a, axis, ddof, root, keepdims=False):
    dd = I.toE(ddof)

    def f(ks, b):
        n = ONE
        for _, m in ks:
            n = n * m
        mu = T.divide(r_sum(ks, b), n)
        v = T.divide(r_sum(ks, (b - mu) * (b - mu)), n - dd)
        return T.power(v, HALF) if root else v
    return reduce_arr(I, a, axis, f, 'float', keepdims, 'std')


@ext('numpy.std')
@raw
def np_std(I, a, axis=None, dtype=None, out=None, ddof=ZERO,
           keepdims=False):
    return _var(I, a, axis, ddof, True, keepdims)


@ext('numpy.var')
@raw
def np_var(I, a, axis=None, dtype=None, out=None, ddof=ZERO,
           keepdims=False):
    return _var(I, a, axis, ddof, False, keepdims)


def _mkred(op, names, dt=None):
    def f(I, a, axis=None, out=None, keepdims=False):
        return reduce_arr(I, a, axis, r_red(op), dt or _sum_dt(I, a),
                          keepdims, op)
    for n in names:
        M.REG['numpy.' + n] = f
        if not n.startswith('a'):
            M.METH[('arr', n)] = f


_mkred('max', ['max', 'amax', 'nanmax'])
_mkred('min', ['min', 'amin', 'nanmin'])
_mkred('prod', ['prod', 'product'])


@ext('numpy.any')
@raw
def np_any(I, a, axis=None):
    if isinstance(a, (LRef, Seq, tuple)):
        from .models_builtin import b_any
        if axis is None and arr(I, a) is None:
            return b_any(I, a)
    if isinstance(a, (E, bool)):
        return I.truthy(a)
    return reduce_arr(I, a, axis, lambda ks, b: r_red('any')(
        ks, I.truthy(b)), 'bool', what='any')


@ext('numpy.all')
@raw
def np_all(I, a, axis=None):
    if isinstance(a, (LRef, Seq, tuple)):
        from .models_builtin import b_all
        if axis is None and arr(I, a) is None:
            return b_all(I, a)
    if isinstance(a, (E, bool)):
        return I.truthy(a)
    return reduce_arr(I, a, axis, lambda ks, b: ONE - r_red('any')(
        ks, ONE - I.truthy(b)), 'bool', what='all')


for _n, _f in (('sum', np_sum), ('mean', np_mean), ('std', np_std),
               ('var', np_var), ('any', np_any), ('all', np_all)):
    M.METH[('arr', _n)] = _f


@ext('numpy.trace')
def np_trace(I, a, offset=None):
    x = arr(I, a)
    if x is None or x.ndim != 2 or offset is not None:
        return bad(I, 'trace', a)
    k = fresh_var('s', x.shape[0])
    return mk_sum(k, x.shape[0], I.at1(x, (A(k), A(k))))


M.METH[('arr', 'trace')] = np_trace


@ext('numpy.cumsum', 'numpy.add.accumulate')
def np_cumsum(I, a, axis=None, dtype=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'cumsum', a)
    if axis is None and x.ndim != 1:
        x = ravel(I, x)
    if x.ndim != 1:
        return I.unk('cumsum axis')

    def g(ix):
        j = fresh_var('j', ix[0] + 1)
        return mk_sum(j, ix[0] + 1, I.at1(x, (A(j),)))
    return I.new_arr(x.shape, g, x.dtype)


M.METH[('arr', 'cumsum')] = np_cumsum
M.REG['numpy.add.reduce'] = lambda I, a, axis=ZERO: np_sum(I, a, axis)
M.REG['numpy.multiply.reduce'] = lambda I, a, axis=ZERO: M.REG[
    'numpy.prod'](I, a, axis)


@ext('numpy.diff')
def np_diff(I, a, n=ONE, axis=None):
    x = arr(I, a)
    if x is None or x.ndim != 1:
        return bad(I, 'diff', a)
    return I.new_arr((x.shape[0] - 1,), lambda ix: I.at1(
        x, (ix[0] + 1,)) - I.at1(x, ix), x.dtype)


@ext('numpy.round', 'numpy.around', 'numpy.round_')
def np_round(I, a, decimals=None):
    d = ZERO if decimals is None else I.toE(decimals)
    return elementwise(I, lambda x: x if is_int(x) and not d.t else T.fn(
        'round', x, d), [a])


M.METH[('arr', 'round')] = np_round


for _n in ('argmin', 'argmax', 'argsort', 'nonzero', 'argwhere',
           'median', 'percentile', 'unique', 'sort', 'histogram'):
    def _mk(n):
        def f(I, a, *x, **k):
            return bad(I, n, a)
        return f
    M.REG['numpy.' + _n] = _mk(_n)
    if ('arr', _n) not in M.METH:
        M.METH[('arr', _n)] = _mk(_n)


# ----------------------------------------------------------------- products
def matmul(I, a, b):
    if isinstance(a, UnkV) or isinstance(b, UnkV):
        return bad(I, 'matmul', a, b)
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None:
        return bad(I, 'matmul of objects', a, b)
    if x.ndim == 0 or y.ndim == 0 or x.ndim > 2 or y.ndim > 2:
        if x.ndim == 3 and y.ndim <= 2 or y.ndim == 3:
            return bad(I, 'stacked matmul', a, b)
        return bad(I, 'matmul of scalar', a, b)
    k = x.shape[-1]
    if not same_dim(k, y.shape[0]):
        return mismatch(I, (x.shape, y.shape), 'matmul')
    shape = x.shape[:-1] + y.shape[1:]
    dt = M.join_dtype(I, [x, y])

    def g(ix):
        j = fresh_var('j', k)
        p = ix[:x.ndim - 1]
        q = ix[x.ndim - 1:]
        return mk_sum(j, k, I.at1(x, p + (A(j),)) * I.at1(y, (A(j),) + q))
    if not shape:
        return g(())
    return I.new_arr(shape, g, dt)


@ext('numpy.dot', 'numpy.matmul')
def np_dot(I, a, b, out=None):
    from . import models_ext
    if isinstance(a, (E, bool)) or isinstance(b, (E, bool)):
        return store_out(I, I.binop(ast.Mult, a, b), out)
    if isinstance(a, Abs) or isinstance(b, Abs):
        return I.binop(ast.MatMult, a, b)
    return store_out(I, matmul(I, a, b), out)


M.METH[('arr', 'dot')] = np_dot


@ext('numpy.inner', 'numpy.vdot')
def np_inner(I, a, b):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None or x.ndim != 1 or y.ndim != 1:
        return bad(I, 'inner', a, b)
    return matmul(I, x, y)


@ext('numpy.outer', 'numpy.multiply.outer')
def np_outer(I, a, b):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None:
        return bad(I, 'outer', a, b)
    if x.ndim != 1:
        x = ravel(I, x)
    if y.ndim != 1:
        y = ravel(I, y)
    return I.new_arr(x.shape + y.shape, lambda ix: I.at1(
        x, ix[:1]) * I.at1(y, ix[1:]), M.join_dtype(I, [x, y]))


@ext('numpy.add.outer', 'numpy.subtract.outer')
def np_addouter(I, a, b):
    return bad(I, 'add.outer', a, b)


@ext('numpy.subtract.outer')
def np_subouter(I, a, b):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None or x.ndim != 1 or y.ndim != 1:
        return bad(I, 'outer', a, b)
    return I.new_arr(x.shape + y.shape, lambda ix: I.at1(
        x, ix[:1]) - I.at1(y, ix[1:]), M.join_dtype(I, [x, y]))


@ext('numpy.kron')
def np_kron(I, a, b):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None or x.ndim != y.ndim:
        return bad(I, 'kron', a, b)

    def g(ix):
        p = tuple(T.floordiv(i, n) for i, n in zip(ix, y.shape))
        q = tuple(T.mod(i, n) for i, n in zip(ix, y.shape))
        return I.at1(x, p) * I.at1(y, q)
    return I.new_arr(tuple(m * n for m, n in zip(x.shape, y.shape)), g,
                     M.join_dtype(I, [x, y]))


@ext('numpy.tensordot')
def np_tensordot(I, a, b, axes=num(2)):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None:
        return bad(I, 'tensordot', a, b)
    if isinstance(axes, (E, bool)):
        c = I.toE(axes).const()
        if c is None:
            return bad(I, 'tensordot', a, b)
        c = int(c)
        ax, bx = list(range(x.ndim - c, x.ndim)), list(range(c))
    else:
        s = [t.v for t in I.iterate(axes)]

        def lst(v):
            if isinstance(v, (E, bool)):
                return [int(I.toE(v).const())]
            return [int(I.toE(t.v).const()) for t in I.iterate(v)]
        ax, bx = lst(s[0]), lst(s[1])
        ax = [q + x.ndim if q < 0 else q for q in ax]
        bx = [q + y.ndim if q < 0 else q for q in bx]
    for p, q in zip(ax, bx):
        if not same_dim(x.shape[p], y.shape[q]):
            return mismatch(I, (x.shape, y.shape), 'tensordot')
    fx = [d for d in range(x.ndim) if d not in ax]
    fy = [d for d in range(y.ndim) if d not in bx]
    shape = tuple(x.shape[d] for d in fx) + tuple(y.shape[d] for d in fy)

    def g(ix):
        ks = [(fresh_var('s', x.shape[p]), x.shape[p]) for p in ax]
        px, py = [None] * x.ndim, [None] * y.ndim
        for d, i in zip(fx, ix[:len(fx)]):
            px[d] = i
        for d, i in zip(fy, ix[len(fx):]):
            py[d] = i
        for (k, _), p, q in zip(ks, ax, bx):
            px[p] = A(k)
            py[q] = A(k)
        return r_sum(ks, I.at1(x, tuple(px)) * I.at1(y, tuple(py)))
    if not shape:
        return g(())
    return I.new_arr(shape, g, M.join_dtype(I, [x, y]))


@ext('numpy.einsum')
def np_einsum(I, spec, *ops, optimize=None):
    if not isinstance(spec, str) or '.' in spec:
        return I.unk('einsum')
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    xs = [arr(I, o) for o in ops]
    if len(ins) != len(xs) or any(x is None or x.ndim != len(t)
                                  for x, t in zip(xs, ins)):
        return bad(I, 'einsum', *ops)
    if '->' not in spec:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for x, t in zip(xs, ins):
        for n, c in zip(x.shape, t):
            if c in dims and not same_dim(dims[c], n):
                return mismatch(I, tuple(y.shape for y in xs), 'einsum')
            dims.setdefault(c, n)
    summed = [c for c in dims if c not in out]

    def g(ix):
        m = dict(zip(out, ix))
        ks = []
        for c in summed:
            v = fresh_var('s', dims[c])
            ks.append((v, dims[c]))
            m[c] = A(v)
        b = ONE
        for x, t in zip(xs, ins):
            b = b * I.at1(x, tuple(m[c] for c in t))
        return r_sum(ks, b)
    if not out:
        return g(())
    return I.new_arr(tuple(dims[c] for c in out), g,
                     M.join_dtype(I, xs))


@ext('numpy.diag')
def np_diag(I, a, k=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'diag', a)
    o = I.toE(k) if k is not None else ZERO
    if x.ndim == 2:
        if o.t:
            return I.unk('diag offset')
        n = x.shape[0]
        if not same_dim(n, x.shape[1]):
            n = T.minE(n, x.shape[1])
        return I.new_arr((n,), lambda ix: I.at1(x, (ix[0], ix[0])), x.dtype)
    if x.ndim == 1:
        if o.t:
            return I.unk('diag offset')
        n = x.shape[0]
        return I.new_arr((n, n), lambda ix: ind('eq', ix[0] - ix[1]) *
                         I.at1(x, ix[:1]), x.dtype)
    return I.unk('diag')


M.REG['numpy.diagonal'] = lambda I, a: np_diag(I, a)
M.METH[('arr', 'diagonal')] = lambda I, a: np_diag(I, a)


@ext('numpy.fill_diagonal')
def np_filldiag(I, a, v):
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'fill_diagonal', a)
    vv = arr(I, v)
    vs = tuple(fresh_var('i', n) for n in x.shape)
    ix = tuple(A(q) for q in vs)
    val = I.at1(vv, ix[:vv.ndim])
    body = ite(ind('eq', ix[0] - ix[1]), val, I.at1(x, ix))
    I.write_arr(x, lambda q: subst(body, dict(zip(vs, q))))
    return None


@ext('numpy.tril')
def np_tril(I, a, k=ZERO):
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'tril', a)
    return I.new_arr(x.shape, lambda ix: (ONE - ind(
        'lt', ix[0] - ix[1] + I.toE(k))) * I.at1(x, ix), x.dtype)


@ext('numpy.triu')
def np_triu(I, a, k=ZERO):
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'triu', a)
    return I.new_arr(x.shape, lambda ix: (ONE - ind(
        'lt', ix[1] - ix[0] - I.toE(k))) * I.at1(x, ix), x.dtype)


# ------------------------------------------------------------ concatenation
def locate(ks, size, j):
    """nested blocks of (k-dependent) size: index map and offset of j"""
    m = {}
    rest = j
    ks = list(ks)
    for p, (k, n) in enumerate(ks):
        cnt = size
        for k2, n2 in reversed(ks[p + 1:]):
            cnt = mk_sum(k2, n2, cnt)
        cnt = subst(cnt, m)
        n2 = subst(n, m)
        m[k] = T.blk(k, cnt, n2, rest)
        rest = T.off(k, cnt, n2, rest)
    return m, rest


def concat(I, segs, axis, what='concatenate'):
    """segs: Item/Fam of arrays (conditional pieces allowed)"""
    pieces = []
    for s in segs:
        if isinstance(s, PhiSeg):
            return I.unk(what + ' of recurrent list')
        a = arr(I, s.v) if not isinstance(s.v, UnkV) else None
        if a is None:
            return bad(I, what, s.v)
        pieces.append((s, a))
    if not pieces:
        I.do_raise('ValueError', None, I.cur)
        return I.unk(what + ' of nothing')
    nd = pieces[0][1].ndim
    if axis < 0:
        axis += nd
    if any(a.ndim != nd for _, a in pieces):
        return mismatch(I, tuple(a.shape for _, a in pieces), what)
    other = None
    for s, a in pieces:
        o = tuple(n for d, n in enumerate(a.shape) if d != axis)
        if isinstance(s, Fam) and any(k in n.vars for n in o
                                      for k, _ in s.ks):
            return I.unk(what + ' of varying shapes')
        if other is None:
            other = o
        elif not all(map(same_dim, other, o)):
            return mismatch(I, tuple(a.shape for _, a in pieces), what)
    sizes = []
    for s, a in pieces:
        n = a.shape[axis] * s.cond
        t = n
        if isinstance(s, Fam):
            for k, b in reversed(s.ks):
                t = mk_sum(k, b, t)
        sizes.append((n, t))
    total = T.esum([t for _, t in sizes])
    shape = list(pieces[0][1].shape)
    shape[axis] = total
    dts = set(a.dtype for _, a in pieces)
    dt = dts.pop() if len(dts) == 1 else M.join_dtype(
        I, [a for _, a in pieces])

    def g(ix):
        i = ix[axis]
        pos = ZERO
        alts = []
        for q, ((s, a), (n, t)) in enumerate(zip(pieces, sizes)):
            j = i - pos
            if isinstance(s, Item):
                x, o = a, j
            else:
                m, o = locate(s.ks, n, j)
                x = subst_val(a, m)
            c = ind('lt', j - t) if q < len(pieces) - 1 else ONE
            c = I.simp(c)
            if c.const() == 0:
                pos = pos + t
                continue
            jx = list(ix)
            jx[axis] = o
            alts.append((c, I.at(x, tuple(jx))))
            if c.const() == 1:
                break
            pos = pos + t
        if not alts:
            return I.unkE('index outside concatenation')
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]):
            r = I.merge_val(c, v, r)
        return r
    return I.new_arr(shape, g, dt)


def _axis(I, axis, default=0):
    if axis is None:
        return None
    c = I.toE(axis).const()
    return int(c) if c is not None else None


def seq_segs(I, x):
    if isinstance(x, UnkV):
        return None
    if isinstance(x, Arr):
        return I.iterate(x)
    return I.iterate(x)


@ext('numpy.concatenate')
@raw
def np_concatenate(I, xs, axis=ZERO, out=None):
    segs = seq_segs(I, xs)
    ax = _axis(I, axis)
    if segs is None or ax is None:
        return bad(I, 'concatenate', xs)
    return concat(I, segs, ax)


def lift1(I, s, f):
    a = arr(I, s.v) if not isinstance(s.v, UnkV) else None
    if a is None:
        return None
    v = f(a)
    return Item(v, s.cond) if isinstance(s, Item) else Fam(s.ks, v, s.cond)


@ext('numpy.hstack')
@raw
def np_hstack(I, xs):
    segs = seq_segs(I, xs)
    if segs is None:
        return bad(I, 'hstack', xs)
    segs2 = [lift1(I, s, lambda a: a if a.ndim else reshape(
        I, a, (ONE,))) for s in segs]
    if any(s is None for s in segs2):
        return bad(I, 'hstack', *[s.v for s in segs])
    return concat(I, segs2, 0 if segs2 and segs2[0].v.ndim == 1 else 1,
                  'hstack')


@ext('numpy.vstack', 'numpy.row_stack')
@raw
def np_vstack(I, xs):
    segs = seq_segs(I, xs)
    if segs is None:
        return bad(I, 'vstack', xs)
    segs2 = [lift1(I, s, lambda a: a if a.ndim >= 2 else reshape(
        I, a, (ONE, I.size(a)))) for s in segs]
    if any(s is None for s in segs2):
        return bad(I, 'vstack', *[s.v for s in segs])
    return concat(I, segs2, 0, 'vstack')


@ext('numpy.column_stack')
@raw
def np_column_stack(I, xs):
    segs = seq_segs(I, xs)
    if segs is None:
        return bad(I, 'column_stack', xs)
    segs2 = [lift1(I, s, lambda a: a if a.ndim >= 2 else reshape(
        I, a, (I.size(a), ONE))) for s in segs]
    if any(s is None for s in segs2):
        return bad(I, 'column_stack', *[s.v for s in segs])
    return concat(I, segs2, 1, 'column_stack')


@ext('numpy.stack')
@raw
def np_stack(I, xs, axis=ZERO):
    a = to_array(I, xs if not isinstance(xs, Arr) else xs)
    ax = _axis(I, axis)
    if not isinstance(a, Arr) or ax is None:
        return bad(I, 'stack', xs)
    if ax < 0:
        ax += a.ndim
    if ax == 0:
        return a
    p = list(range(1, a.ndim))
    p.insert(ax, 0)
    return transpose(I, a, [num(q) for q in p])


@ext('numpy.append')
def np_append(I, a, b, axis=None):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None:
        return bad(I, 'append', a, b)
    if axis is None:
        return concat(I, [Item(ravel(I, x)), Item(ravel(I, y))], 0, 'append')
    return concat(I, [Item(x), Item(y)], _axis(I, axis), 'append')


@ext('numpy.repeat')
def np_repeat(I, a, reps, axis=None):
    x = arr(I, a)
    if x is None or isinstance(reps, UnkV):
        return bad(I, 'repeat', a, reps)
    if axis is None:
        x = x if x.ndim == 1 else ravel(I, x)
        ax = 0
    else:
        ax = _axis(I, axis)
        if ax is None:
            return bad(I, 'repeat', a)
        if ax < 0:
            ax += x.ndim
    n = x.shape[ax]
    if isinstance(reps, (E, bool)) or isinstance(reps, Arr) and \
            reps.shape in ((), (ONE,)):
        r = I.toE(reps)
        if r.unk:
            return bad(I, 'repeat', a)
        shape = list(x.shape)
        shape[ax] = n * r

        def g(ix):
            jx = list(ix)
            jx[ax] = T.floordiv(ix[ax], r) if n != ONE else ZERO
            return I.at(x, tuple(jx))
        return I.new_arr(shape, g, x.dtype)
    # family of repetition counts
    rs = arr(I, reps)
    if rs is None or rs.ndim != 1:
        return bad(I, 'repeat', reps)
    if n != ONE and not same_dim(rs.shape[0], n):
        return mismatch(I, (x.shape, rs.shape), 'repeat')
    c = n.const()
    if n == ONE:
        if rs.shape[0] == ONE:
            return np_repeat(I, x, I.at1(rs, (ZERO,)), num(ax))
        return bad(I, 'repeat one by many', reps)
    k = fresh_var('k', n)
    size = I.at1(rs, (A(k),))
    if c is not None and c <= 8:
        segs = []
        for q in range(int(c)):
            segs.append(Item(M.index_arr(I, x, tuple(
                [SliceV(None, None, None)] * ax + [SliceV(
                    num(q), num(q + 1), None)]))))
        pieces = [Item(np_repeat(I, s.v, I.at1(rs, (num(q),)),
                                 num(ax))) for q, s in enumerate(segs)]
        return concat(I, pieces, ax, 'repeat')
    tot = mk_sum(k, n, size)
    shape = list(x.shape)
    shape[ax] = tot

    def g(ix):
        jx = list(ix)
        jx[ax] = T.blk(k, size, n, ix[ax])
        return I.at(x, tuple(jx))
    return I.new_arr(shape, g, x.dtype)


M.METH[('arr', 'repeat')] = np_repeat


@ext('numpy.tile')
def np_tile(I, a, reps):
    x = arr(I, a)
    if x is None:
        return bad(I, 'tile', a)
    sh = shape_of(I, reps)
    if sh is None:
        return bad(I, 'tile', reps)
    while x.ndim < len(sh):
        x = M.index_arr(I, x, (None, Ellipsis)) if x.ndim else reshape(
            I, x, (ONE,))
    sh = (ONE,) * (x.ndim - len(sh)) + tuple(sh)
    return I.new_arr(tuple(n * r for n, r in zip(x.shape, sh)),
                     lambda ix: I.at(x, tuple(
                         i if r == ONE else (ZERO if n == ONE else T.mod(
                             i, n)) for i, n, r in zip(ix, x.shape, sh))),
                     x.dtype)


@ext('numpy.roll')
def np_roll(I, a, shift, axis=None):
    x = arr(I, a)
    if x is None:
        return bad(I, 'roll', a)
    if axis is None and x.ndim != 1:
        return bad(I, 'roll', a)
    ax = _axis(I, axis) if axis is not None else 0
    if ax is None or not isinstance(shift, (E, bool)):
        return bad(I, 'roll', a)
    if ax < 0:
        ax += x.ndim
    s = I.toE(shift)
    n = x.shape[ax]

    def g(ix):
        jx = list(ix)
        jx[ax] = T.mod(ix[ax] - s, n)
        return I.at(x, tuple(jx))
    return I.new_arr(x.shape, g, x.dtype)


@ext('numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit')
def np_split(I, a, cuts, axis=ZERO):
    """pieces a[c0:c1], ...; uniform families are recognised"""
    x = arr(I, a)
    ax = _axis(I, axis)
    if x is None or ax != 0 or isinstance(cuts, UnkV):
        return bad(I, 'split', a, cuts)
    n = x.shape[0]
    if isinstance(cuts, (E, bool)):
        c = I.toE(cuts)
        sz = T.divide(n, c)
        if not is_int(sz):
            return bad(I, 'split into equal parts', a)
        k = fresh_var('k', c)
        cc = c.const()
        if cc is not None and cc <= 8:
            return I.new_list([Item(M.index_arr(I, x, SliceV(
                sz * q, sz * (q + 1), None))) for q in range(int(cc))])
        return I.new_list([Fam(((k, c),), slice_view(
            I, x, A(k) * sz, sz))])
    segs = I.iterate(cuts)
    # cut points as one function e(k), k < m
    if any(isinstance(s, PhiSeg) or s.cond != ONE for s in segs):
        return bad(I, 'split', a)
    m = T.esum([I.seg_count(s) for s in segs])
    if m == ZERO:
        return I.new_list([Item(x)])
    out = []
    prev = ZERO
    for s in segs:
        if isinstance(s, Item):
            c = I.toE(s.v)
            out.append(Item(slice_view(I, x, prev, c - prev)))
            prev = c
        else:
            if len(s.ks) != 1:
                return bad(I, 'split', a)
            k, b = s.ks[0]
            e = I.toE(s.v)
            # piece k goes from e(k-1) (or prev) to e(k)
            before = T.prev_of(e, k)
            d0 = subst(before, {k: ZERO})
            if T.is_zero(d0 - prev):
                T.push_fact(b - 1 - A(k))
                out.append(Fam(s.ks, slice_view(I, x, before, e - before)))
                T.pop_fact()
            else:
                if not positive(b):
                    return bad(I, 'split of possibly no cuts', a)
                out.append(Item(slice_view(I, x, prev, subst(
                    e, {k: ZERO}) - prev)))
                k2 = fresh_var('k', b - 1)
                lo = subst(e, {k: A(k2)})
                hi = subst(e, {k: A(k2) + 1})
                if (b - 1).t:
                    out.append(Fam(((k2, b - 1),), slice_view(
                        I, x, lo, hi - lo)))
            prev = subst(e, {k: b - 1})
    last = n - prev
    # merge the tail piece into a uniform family when it continues it
    if len(out) == 1 and isinstance(out[0], Fam):
        s = out[0]
        k, b = s.ks[0]
        vv = s.v
        lo = vv_lo(vv)
        if lo is not None and T.is_zero(subst(lo[0], {k: b}) - prev) and \
                T.is_zero(subst(lo[0] + lo[1], {k: b}) - n):
            k2 = fresh_var('k', b + 1)
            T.push_fact(b - A(k2))
            v2 = slice_view(I, x, subst(lo[0], {k: A(k2)}),
                            subst(lo[1], {k: A(k2)}))
            T.pop_fact()
            return I.new_list([Fam(((k2, b + 1),), v2)])
    out.append(Item(slice_view(I, x, prev, last)))
    return I.new_list(out)


_vv = {}


def slice_view(I, x, lo, n):
    v = M.make_view(I, x, [('slice', lo, n, 1)] + [
        ('slice', ZERO, d, 1) for d in x.shape[1:]])
    _vv[id(v)] = (v, lo, n)
    return v


def vv_lo(v):
    r = _vv.get(id(v))
    return (r[1], r[2]) if r and r[0] is v else None


@ext('numpy.ix_')
def np_ix(I, *a):
    xs = [arr(I, x) for x in a]
    if any(x is None or x.ndim != 1 for x in xs):
        return bad(I, 'ix_', *a)
    return tuple(M.Ix(x, p, len(xs)) for p, x in enumerate(xs))


@ext('numpy.meshgrid')
@star
def np_meshgrid(I, *a, indexing='xy'):
    xs = [arr(I, s.v) for s in flat_star(a)]
    if any(x is None for x in xs) or indexing != 'ij':
        return bad(I, 'meshgrid', *a)
    sh = tuple(x.shape[0] for x in xs)
    return I.new_list([Item(I.new_arr(sh, lambda ix, x=x, p=p: I.at(
        x, (ix[p],)), x.dtype)) for p, x in enumerate(xs)])


@ext('numpy.nditer')
def np_nditer(I, a):
    x = arr(I, a)
    if x is None:
        return bad(I, 'nditer', a)
    return Seq(I.iterate(ravel(I, x) if x.ndim != 1 else x), 'iter')


@ext('numpy.ndenumerate')
def np_ndenum(I, a):
    return bad(I, 'ndenumerate', a)


@ext('numpy.put')
def np_put(I, a, idx, v):
    x = arr(I, a)
    if x is None:
        return bad(I, 'put', a)
    y = arr(I, idx)
    w = arr(I, v) if not isinstance(v, UnkV) else None
    if y is None or w is None:
        M.havoc_arr(I, x, 'put')
        return None
    if M.scatter(I, x, y, w):
        return None
    return scatter(I, x, y, w, None)


def scatter(I, x, y, w, op):
    """x[y[j]] = w[j]; exact when y is injective (declared by a flag)"""
    if x.ndim != 1 or y.ndim != 1 or 'inj' not in y.flags:
        M.havoc_arr(I, x, 'scatter')
        return None
    n = y.shape[0]
    vs = (fresh_var('i', x.shape[0]),)
    k = fresh_var('k', n)
    hit = ind('eq', I.at1(y, (A(k),)) - A(vs[0]))
    wv = I.at1(w, (A(k),)) if w.ndim else I.at1(w, ())
    val = mk_sum(k, n, hit * wv)
    anyhit = mk_sum(k, n, hit)
    old = I.at1(x, (A(vs[0]),))
    body = val + (ONE - anyhit) * old
    I.write_arr(x, lambda q: subst(body, dict(zip(vs, q))))
    return None


@ext('numpy.searchsorted')
def np_searchsorted(I, a, v, side='left', sorter=None):
    x = arr(I, a)
    if x is None or x.ndim != 1 or side not in ('left', 'right'):
        return bad(I, 'searchsorted', a, v)

    def f(e):
        j = fresh_var('j', x.shape[0])
        aj = I.at1(x, (A(j),))
        if side == 'left':
            return mk_sum(j, x.shape[0], ind('lt', aj - e))
        return mk_sum(j, x.shape[0], ONE - ind('lt', e - aj))
    return elementwise(I, f, [v], 'int')


def _pairs(I, a, b):
    """element pairs of two small arrays; None if not enumerable, False if
    the shapes differ"""
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None or any(
            s.const() is None for s in x.shape + y.shape):
        return None
    n = 1
    for s in x.shape:
        n *= int(s.const())
    if n > 64:
        return None
    if y.ndim == 0:
        c = I.at1(y, ())
        y = I.new_arr(x.shape, lambda ix: c)
    if tuple(x.shape) != tuple(y.shape):
        return False
    import itertools
    return [tuple(I.toE(I.at1(z, tuple(num(i) for i in ix)))
                  for z in (x, y)) for ix in itertools.product(
                      *[range(int(s.const())) for s in x.shape])]


@ext('numpy.array_equal')
def np_array_equal(I, a, b, *x, **k):
    ps = _pairs(I, a, b)
    if ps is False:
        return ZERO
    if ps is None or any(e.unk for p in ps for e in p):
        return T.truth('array_equal', I.unkE('array_equal'))
    r = ONE
    for p, q in ps:
        r = r * ind('eq', p - q)
    return r


def _close(p, q, rtol, atol):
    if T.DISTINCT[0] and T.DISTINCT[0](p - q):
        return ZERO
    return ONE - ind('lt', atol + rtol * T.absE(q) - T.absE(p - q))


@ext('numpy.allclose')
def np_allclose(I, a, b, rtol=None, atol=None, **k):
    ps = _pairs(I, a, b)
    if not ps or any(e.unk for p in ps for e in p):
        return T.truth('allclose', I.unkE('allclose'))
    rtol = num(F(1, 10 ** 5)) if rtol is None else I.toE(rtol)
    atol = num(F(1, 10 ** 8)) if atol is None else I.toE(atol)
    r = ONE
    for p, q in ps:
        if not T.prove_zero(T.deep_refresh(p - q)):
            r = r * _close(p, q, rtol, atol)
    return r


@ext('numpy.isclose')
def np_isclose(I, a, b, rtol=None, atol=None, **k):
    rtol = num(F(1, 10 ** 5)) if rtol is None else I.toE(rtol)
    atol = num(F(1, 10 ** 8)) if atol is None else I.toE(atol)
    return elementwise(I, lambda p, q: _close(p, q, rtol, atol), [a, b],
                       'bool')


for _n, _k in (('float64', 'f'), ('float32', 'f'), ('int64', 'i'),
               ('bool_', 'b'), ('complex128', 'c'), ('object', 'O')):
    M.ATTR['numpy.%s.kind' % _n] = _k
M.ATTR['numpy.int?.kind'] = lambda I: I.unk('dtype kind')


@ext('numpy.issubdtype')
def np_issubdtype(I, a, b):
    d = parse_dtype(a)
    n = b.name.split('.')[-1] if isinstance(b, Ext) else None
    sets = {'floating': ('float', 'f32'), 'inexact': (
        'float', 'f32', 'complex'), 'integer': ('int',), 'number': (
        'float', 'f32', 'complex', 'int'), 'bool_': ('bool',),
        'signedinteger': ('int',), 'complexfloating': ('complex',)}
    if d is None or n is None:
        return T.truth('issubdtype', I.unkE('dtype'))
    ok = sets.get(n) or (parse_dtype(b),)
    if None in ok:
        return T.truth('issubdtype', I.unkE('dtype'))
    return ONE if d in ok else ZERO


@ext('numpy.result_type', 'numpy.promote_types')
def np_rt(I, *a):
    ds = set()
    for x in a:
        y = arr(I, x)
        ds.add(y.dtype if y is not None else None)
    if ds <= {'int', 'bool'}:
        return Ext('numpy.int64') if 'int' in ds else Ext('numpy.bool_')
    if 'object' in ds:
        return Ext('numpy.object_')
    if ds <= {'int', 'bool', 'float'}:
        return Ext('numpy.float64')
    return I.unk('result type')


@ext('numpy.ndim')
def np_ndim(I, a):
    x = arr(I, a)
    return num(x.ndim) if x is not None else bad(I, 'ndim', a)


@ext('numpy.shape')
def np_shape(I, a):
    x = arr(I, a)
    return tuple(x.shape) if x is not None else bad(I, 'shape', a)


@ext('numpy.size')
def np_size(I, a):
    x = arr(I, a)
    return I.size(x) if x is not None else bad(I, 'size', a)


@ext('numpy.isscalar')
def np_isscalar(I, a):
    if isinstance(a, (E, bool, str)):
        return ONE
    if isinstance(a, (Arr, LRef, tuple, ORef)):
        return ZERO
    return T.truth('isscalar', I.unkE('isscalar'))


@ext('numpy.may_share_memory', 'numpy.shares_memory')
def np_share(I, *a):
    return T.truth('share', I.unkE('share'))


class NullCtx(Abs):
    def getattr(self, I, name):
        if name == '__enter__':
            return Native(lambda I2, a, k: None)
        if name == '__exit__':
            return Native(lambda I2, a, k: False)
        return I.unk('ctx.' + name)


@ext('numpy.errstate', 'warnings.catch_warnings', 'contextlib.suppress')
def np_errstate(I, *a, **k):
    return NullCtx()


@ext('numpy.seterr')
def np_seterr(I, *a, **k):
    I.event('global_state', what='numpy.seterr')
    return I.unk('seterr')


M.ATTR['numpy.pi'] = T.PI
M.ATTR['numpy.newaxis'] = None
M.ATTR['numpy.inf'] = lambda I: sym('inf', 'pos')
M.ATTR['numpy.nan'] = lambda I: sym('nan')
M.ATTR['numpy.e'] = T.exp(ONE)


class FInfo(Abs):
    def getattr(self, I, name):
        if name == 'eps':
            return T.power(num(2), F(-52))
        if name == 'tiny':
            return sym('float_tiny', 'pos')
        if name == 'max':
            return sym('float_max', 'pos')
        return I.unk('finfo.' + name)


M.REG['numpy.finfo'] = lambda I, *a: FInfo()


# ------------------------------------------------------------------- linalg
@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def la_norm(I, a, ord=None, axis=None):
    if isinstance(a, (E, bool)):
        return T.absE(I.toE(a))
    if ord is not None:
        o = I.toE(ord) if isinstance(ord, (E, bool)) else None
        x = arr(I, a)
        if x is None:
            return bad(I, 'norm', a)
        if o is not None and o == num(2) and (x.ndim == 1 or axis
                                              is not None):
            pass
        elif o is not None and o == ONE and x.ndim == 1:
            return reduce_arr(I, a, axis, lambda ks, b: r_sum(
                ks, T.absE(b)), 'float', what='norm')
        elif o is not None and o == sym('inf', 'pos') and x.ndim == 1:
            return reduce_arr(I, a, axis, lambda ks, b: r_red('max')(
                ks, T.absE(b)), 'float', what='norm')
        else:
            return bad(I, 'norm', a)
    return reduce_arr(I, a, axis, lambda ks, b: T.power(
        r_sum(ks, b * b), HALF), 'float', what='norm')


@ext('scipy.linalg.toeplitz')
def la_toeplitz(I, c, r=None):
    x = arr(I, c)
    y = arr(I, r) if r is not None else x
    if x is None or y is None:
        return bad(I, 'toeplitz', c, r)
    x, y = ravel(I, x), ravel(I, y)

    def g(ix):
        d = ix[0] - ix[1]
        return ite(ind('lt', d), I.at1(y, (-d,)), I.at1(x, (d,)))
    if r is None:
        def g(ix):
            return I.at1(x, (T.absE(ix[0] - ix[1]),))
    return I.new_arr((x.shape[0], y.shape[0]), g, x.dtype)


@ext('scipy.linalg.block_diag')
@star
@raw
def la_block_diag(I, *a):
    segs = flat_star(a)
    if len(segs) == 1 and isinstance(segs[0], Fam) and \
            segs[0].cond == ONE:
        s = segs[0]
        x = arr(I, s.v)
        if x is None or x.ndim != 2:
            return bad(I, 'block_diag', s.v)
        r, c = x.shape
        R, C = r, c
        for k, n in reversed(s.ks):
            R, C = mk_sum(k, n, R), mk_sum(k, n, C)

        def g(ix):
            m1, o1 = locate(s.ks, r, ix[0])
            m2, o2 = locate(s.ks, c, ix[1])
            cnd = ONE
            for k, _ in s.ks:
                cnd = cnd * ind('eq', m1[k] - m2[k])
            return cnd * I.at1(subst_val(x, m1), (o1, o2))
        return I.new_arr((R, C), g, x.dtype)
    if any(not isinstance(s, Item) or s.cond != ONE for s in segs):
        return bad(I, 'block_diag', *a)
    xs = [arr(I, s.v) for s in segs]
    if any(x is None for x in xs):
        return bad(I, 'block_diag', *a)
    xs = [x if x.ndim == 2 else reshape(I, x, (ONE, I.size(x)))
          for x in xs]
    R = T.esum([x.shape[0] for x in xs])
    C = T.esum([x.shape[1] for x in xs])

    def g(ix):
        r = ZERO
        p, q = ZERO, ZERO
        for x in xs:
            i, j = ix[0] - p, ix[1] - q
            c = ind('lt', i - x.shape[0]) * ind('lt', j - x.shape[1])
            if p.t:
                c = c * (ONE - ind('lt', i))
            if q.t:
                c = c * (ONE - ind('lt', j))
            if c.t:
                r = r + c * I.at1(x, (i, j))
            p, q = p + x.shape[0], q + x.shape[1]
        return r
    return I.new_arr((R, C), g, 'float')


def elements_key(I, a):
    vs = tuple(T.atom('var', '#c%d' % d, n) for d, n in enumerate(a.shape))
    return I.at1(a, tuple(A(v) for v in vs))


_inv_reg = []


def named_fun(I, kind, a, extra=(), sym2=False):
    """opaque function of a whole matrix, congruent for equal matrices"""
    body = elements_key(I, a)
    if body.unk:
        return None
    for kd, shp, b, ex, nm in _inv_reg:
        if kd != kind or len(shp) != len(a.shape) or ex != extra:
            continue
        if not all(x == y for x, y in zip(shp, a.shape)):
            # same up to provable equality of dimensions only
            continue
        if b == body:
            return nm
        st, _ = T.compare(b, body)
        if st == 'eq':
            return nm
        if st == 'unk':
            return None
    nm = T.tensor('%s%d' % (kind, len(_inv_reg)))
    _inv_reg.append((kind, a.shape, body, extra, nm))
    return nm


def inverse_el(I, K, symmetric):
    nm = named_fun(I, 'inv', K)
    if nm is None:
        return None
    if symmetric:
        return lambda i, j: T.el(nm, i, j) + T.el(nm, j, i)
    # general inverse of a (declared) symmetric matrix is symmetric too
    b = elements_key(I, K)
    vs = tuple(T.atom('var', '#c%d' % d, n) for d, n in enumerate(K.shape))
    bt = I.at1(K, (A(vs[1]), A(vs[0])))
    if K.shape[0] == K.shape[1] and T.compare(b, bt)[0] == 'eq':
        return lambda i, j: T.el(nm, i, j) + T.el(nm, j, i)
    nm2 = named_fun(I, 'ginv', K)
    return lambda i, j: T.el(nm2, i, j)


class Cho(Abs):
    def __init__(self, K, lower):
        self.K, self.lower = K, lower

    def getattr(self, I, name):
        return I.unk('cholesky factor')

    def getitem(self, I, ix):
        c = ix.const() if isinstance(ix, E) else None
        if c in (0, -2):
            nm = named_fun(I, 'chol', self.K, (self.lower,))
            if nm is None:
                return I.unk('cholesky factor')
            # the other triangle holds left-overs
            return I.new_arr(self.K.shape, lambda q: T.el(nm, *q))
        if c in (1, -1):
            return self.lower
        return I.unk('cholesky factor')

    def key(self):
        return ('cho', repr(self.K))


@ext('scipy.linalg.cho_factor')
def la_cho_factor(I, K, lower=False, overwrite_a=False, check_finite=True):
    x = arr(I, K)
    if x is None or x.ndim != 2:
        return bad(I, 'cho_factor', K)
    I.event('cho_factor')
    if overwrite_a is not False:
        I.event('write', target='array', roots=I.heap[x.id].roots,
                store=x.id, op='overwrite_a', certain=True)
        snap = np_copy(I, x)
        M.havoc_arr(I, x, 'overwritten by cho_factor')
        x = snap
    else:
        x = np_copy(I, x)
    return Cho(x, lower)


def apply_inv(I, el, n, b):
    y = arr(I, b)
    if y is None:
        return bad(I, 'solve', b)
    if not same_dim(y.shape[0], n):
        return mismatch(I, ((n, n), y.shape), 'solve')

    def g(ix):
        j = fresh_var('j', n)
        return mk_sum(j, n, el(ix[0], A(j)) * I.at1(
            y, (A(j),) + tuple(ix[1:])))
    return I.new_arr(y.shape, g)


@ext('scipy.linalg.cho_solve')
def la_cho_solve(I, c, b, overwrite_b=False, check_finite=True):
    if not isinstance(c, Cho):
        return bad(I, 'cho_solve', c)
    el = inverse_el(I, c.K, True)
    if el is None:
        return bad(I, 'cho_solve of unknown matrix', c)
    r = apply_inv(I, el, c.K.shape[0], b)
    return overwritten(I, r, b, overwrite_b)


def overwritten(I, r, b, flag):
    """LAPACK solves in place in a one-dimensional right-hand side"""
    if flag is not False and isinstance(b, Arr) and isinstance(r, Arr):
        if flag is True and b.ndim == 1 and b.rd is None:
            I.write_arr(b, lambda ix: I.at(r, ix), kind='overwrite_b')
        elif I.heap[b.id].roots or b.rd is not None:
            M.havoc_arr(I, b, 'overwrite_b')
    return r


@ext('numpy.linalg.solve', 'scipy.linalg.solve')
def la_solve(I, a, b, sym_pos=False, assume_a=None, overwrite_a=False,
             overwrite_b=False, check_finite=True, lower=False):
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'solve', a)
    el = inverse_el(I, x, sym_pos is True)
    if el is None:
        return bad(I, 'solve of unknown matrix', a)
    return overwritten(I, apply_inv(I, el, x.shape[0], b), b, overwrite_b)


@ext('numpy.linalg.inv', 'scipy.linalg.inv')
def la_inv(I, a):
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'inv', a)
    el = inverse_el(I, x, False)
    if el is None:
        return bad(I, 'inv', a)
    return I.new_arr(x.shape, lambda ix: el(ix[0], ix[1]))


@ext('numpy.linalg.slogdet')
def la_slogdet(I, a):
    x = arr(I, a)
    nm = named_fun(I, 'logdet', x) if x is not None else None
    if nm is None:
        return bad(I, 'slogdet', a)
    return (ONE, T.el(nm, ZERO))


@ext('scipy.linalg.eigvalsh', 'numpy.linalg.eigvalsh', 'scipy.linalg.eigh',
     'numpy.linalg.cond', 'numpy.linalg.det', 'scipy.linalg.det',
     'scipy.linalg.cholesky', 'numpy.linalg.cholesky',
     'scipy.linalg.solve_toeplitz', 'scipy.linalg.hilbert')
def la_unknown(I, *a, **k):
    return bad(I, 'linear algebra', *a)


@ext('scipy.spatial.distance.cdist')
def sd_cdist(I, a, b, metric='euclidean'):
    x, y = arr(I, a), arr(I, b)
    if x is None or y is None or x.ndim != 2 or y.ndim != 2:
        return bad(I, 'cdist', a, b)
    if not same_dim(x.shape[1], y.shape[1]):
        return mismatch(I, (x.shape, y.shape), 'cdist')
    if metric not in ('euclidean', 'sqeuclidean', 'cityblock'):
        return bad(I, 'cdist metric', a)

    def g(ix):
        k = fresh_var('s', x.shape[1])
        d = I.at1(x, (ix[0], A(k))) - I.at1(y, (ix[1], A(k)))
        if metric == 'cityblock':
            return mk_sum(k, x.shape[1], T.absE(d))
        s = mk_sum(k, x.shape[1], d * d)
        return s if metric == 'sqeuclidean' else T.power(s, HALF)
    return I.new_arr((x.shape[0], y.shape[0]), g)


# ---------------------------------------------------------------------- rng
_rng = [0]


def rng_arr(I, shape, what, attrs=()):
    _rng[0] += 1
    I.event('rng', what=what)
    nm = T.tensor('rng%d' % _rng[0], *attrs)
    if shape is None or shape == ():
        return T.el(nm, ZERO)
    return I.new_arr(shape, lambda ix: T.el(nm, *ix),
                     'int' if 'int' in attrs else 'float')


def rng_shape(I, s):
    if not s:
        return ()
    if len(s) == 1:
        return shape_of(I, s[0])
    return tuple(I.toE(x) for x in s)


for _n in ('rand', 'randn'):
    M.REG['numpy.random.' + _n] = (lambda n: lambda I, *s: rng_arr(
        I, rng_shape(I, s), n))(_n)


@ext('numpy.random.randint')
def rng_int(I, lo, hi=None, size=None):
    sh = shape_of(I, size) if size is not None else ()
    lo, hi = (ZERO, I.toE(lo)) if hi is None else (I.toE(lo), I.toE(hi))
    if sh is None or lo.unk or hi.unk:
        I.event('rng', what='randint')
        return I.unk('randint')
    k = (hi - lo).const()
    if k == 1:
        I.event('rng', what='randint')
        return broadcast_const(I, sh, lo)
    if k == 2:
        return two_valued(I, sh, lo, lo + 1, 'randint')
    r = rng_arr(I, sh, 'randint', ('int', 'nn'))
    return elementwise(I, lambda x: lo + T.mod(x, hi - lo), [r], 'int')


def broadcast_const(I, sh, v):
    return I.new_arr(sh, lambda ix: v, 'int') if sh else v


def two_valued(I, sh, a, b, what):
    r = rng_arr(I, sh, what)
    return elementwise(I, lambda x: a + (b - a) * ind('lt', x), [r], 'int')


@ext('numpy.random.choice')
def rng_choice(I, a, size=None, replace=True, p=None):
    sh = shape_of(I, size) if size is not None else ()
    if isinstance(a, E):
        return rng_int(I, ZERO, a, size)
    try:
        segs = I.iterate(a)
    except Exception:
        segs = ()
    if sh is not None and len(segs) == 2 and all(
            isinstance(x, Item) and x.cond == ONE for x in segs):
        x, y = [I.toE(t.v) for t in segs]
        if not x.unk and not y.unk:
            return two_valued(I, sh, x, y, 'choice')
    _rng[0] += 1
    I.event('rng', what='choice')
    return I.unk('choice')


@ext('numpy.random.normal', 'numpy.random.uniform',
     'numpy.random.standard_normal', 'numpy.random.random')
def rng_gen(I, *a, size=None, **k):
    if size is None and a:
        size = a[-1]
    sh = shape_of(I, size) if size is not None else ()
    return rng_arr(I, sh, 'random') if sh is not None else I.unk('rng')


@ext('numpy.random.seed')
def rng_seed(I, *a):
    I.event('rng_seed')
    c = a[0].const() if a and isinstance(a[0], E) else None
    _rng[0] = 10 ** 7 + (int(c) if c is not None else _rng[0])
    return None


@ext('numpy.random.shuffle')
def rng_shuffle(I, a):
    _rng[0] += 1
    I.event('rng', what='shuffle')
    x = arr(I, a)
    if x is not None:
        M.havoc_arr(I, x, 'shuffled')
    return None


@ext('numpy.random.permutation')
def rng_perm(I, a):
    _rng[0] += 1
    I.event('rng', what='permutation')
    return I.unk('permutation')


class Frozen(Abs):
    """a random distribution with fixed parameters"""

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('frozen', self.name)

    def getattr(self, I, name):
        if name == 'rvs':
            return Native(lambda I2, a, k: rng_trunc(
                I2, size=k.get('size', a[0] if a else None)), 'rvs')
        return I.unk('distribution.' + name)


@ext('scipy.stats.truncnorm', 'scipy.stats.norm', 'scipy.stats.uniform')
def st_frozen(I, *a, **k):
    return Frozen('dist')


@ext('scipy.stats.truncnorm.rvs')
def rng_trunc(I, *a, size=None, **k):
    sh = shape_of(I, size) if size is not None else ()
    return rng_arr(I, sh, 'truncnorm') if sh is not None else I.unk('rng')


def _ppf(x):
    return T.fn('ppf', x)


@ext('scipy.stats.norm.ppf', 'scipy.special.ndtri')
def st_ppf(I, q, loc=ZERO, scale=ONE):
    return elementwise(I, lambda x, m, s: m + s * _ppf(x), [q, loc, scale],
                       'float')


@ext('scipy.stats.norm.isf')
def st_isf(I, q, loc=ZERO, scale=ONE):
    return elementwise(I, lambda x, m, s: m - s * _ppf(x), [q, loc, scale],
                       'float')


@ext('numpy.ma.masked_invalid')
def ma_inv(I, a, copy=True):
    # finite data: nothing is masked
    return to_array(I, a, None, bool(copy))
