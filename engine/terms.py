"""Canonical terms: the abstract value domain for numbers.

A number is a polynomial `E` with rational coefficients over *atoms* raised to
rational powers.  Atoms are interned and carry a structural key, so that equal
denotations built in different ways (helper extracted, statements reordered,
factors commuted, loops fused or split) reach one normal form.

Nothing here executes the analysed program: terms are produced by the abstract
interpreter from the syntax tree and compared structurally (`is_zero`).
`evaluate` values a *term* at a random valuation; it is only used to withhold
an alarm when two normal forms differ although no distinguishing valuation is
known (see `compare`).
"""
import hashlib
import itertools
import math
import random
import time
from fractions import Fraction as F

sys_max = 10 ** 9


# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('kind', 'args', 'key', 'vars', 'unk', '_int', '_nn', 'syms')
    _pool = {}

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_atom(self)


def _ser(x):
    if isinstance(x, E):
        return x.key
    if isinstance(x, Atom):
        return x.key
    if isinstance(x, tuple):
        return '(' + ','.join(_ser(y) for y in x) + ')'
    return repr(x)


def _freevars(x):
    if isinstance(x, E):
        return x.vars
    if isinstance(x, Atom):
        return x.vars
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _freevars(y)
        return r
    return frozenset()


def _isunk(x):
    if isinstance(x, (E, Atom)):
        return x.unk
    if isinstance(x, tuple):
        return any(_isunk(y) for y in x)
    return False


def _syms(x):
    if isinstance(x, (E, Atom)):
        return x.syms
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _syms(y)
        return r
    return frozenset()


def atom(kind, *args):
    raw = kind + '|' + '|'.join(_ser(a) for a in args)
    key = raw if len(raw) < 48 else kind + '#' + hashlib.md5(
        raw.encode()).hexdigest()
    a = Atom._pool.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.key = key
        if kind == 'var':
            a.vars = frozenset([a]) | _freevars(args[1])
            # the variable itself plus variables its bound depends on
            a.vars = frozenset([a])
        elif kind == 'sum' or kind == 'red':
            vs, body = (args[0], args[1]) if kind == 'sum' else (
                args[1], args[2])
            fv = body.vars
            for v in vs:
                fv = fv | _freevars(v.args[1])
            a.vars = fv - frozenset(vs)
        else:
            a.vars = _freevars(args)
        a.unk = kind == 'unk' or _isunk(args)
        a.syms = (frozenset([a]) if kind in ('sym',) else
                  frozenset([('T', args[0])]) | _syms(args)
                  if kind in ('el', 'uf') else _syms(args))
        a._int = None
        a._nn = None
        Atom._pool[key] = a
    return a


TENSOR = {}      # tensor name -> dict(attrs)


class E:
    __slots__ = ('t', '_key', '_vars', '_unk', '_syms')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._vars = None
        self._unk = None
        self._syms = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m, c in self.t.items():
                parts.append(str(c) + '*' + '.'.join(
                    a.key + '^' + str(e) for a, e in m))
            parts.sort()
            s = '+'.join(parts)
            self._key = s if len(s) < 40 else 'P#' + hashlib.md5(
                s.encode()).hexdigest()
        return self._key

    @property
    def vars(self):
        if self._vars is None:
            r = set()
            for m in self.t:
                for a, _ in m:
                    r |= a.vars
            self._vars = frozenset(r)
        return self._vars

    @property
    def syms(self):
        if self._syms is None:
            r = set()
            for m in self.t:
                for a, _ in m:
                    r |= a.syms
            self._syms = frozenset(r)
        return self._syms

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(a.unk for m in self.t for a, _ in m)
        return self._unk

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, E) and self.key == o.key

    def __add__(self, o):
        return add(self, lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))
    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return mul(self, power(lift(o), F(-1)))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, F(-1)))

    def __pow__(self, o):
        return power(self, F(o))

    def __repr__(self):
        return show(self)

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


ZERO = E({})
ONE = E({(): F(1)})


def num(x):
    if isinstance(x, float):
        if x != x:
            return A(atom('sym', 'nan', ()))
        if x in (float('inf'), float('-inf')):
            i = A(atom('sym', 'inf', ('pos',)))
            return i if x > 0 else neg(i)
        x = F(repr(x)) if 'e' not in repr(x) and 'E' not in repr(
            x) else F(x).limit_denominator(10 ** 24)
    c = F(x)
    return E({(): c}) if c else ZERO


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, Atom):
        return A(x)
    return num(x)


def A(a):
    return E({((a, 1),): F(1)})


def sym(name, *attrs):
    """attrs: pos (strictly), nn (>=0), int, ge1"""
    return A(atom('sym', name, tuple(sorted(attrs))))


_ctr = itertools.count()


def fresh_var(hint, bound):
    return atom('var', '%s%d' % (hint, next(_ctr)), bound)


def unk(reason):
    return A(atom('unk', next(_ctr), str(reason)))


def unk_reasons(x):
    out = []
    seen = set()

    def go(y):
        if isinstance(y, E):
            if not y.unk:
                return
            for m in y.t:
                for a, _ in m:
                    go(a)
        elif isinstance(y, Atom):
            if not y.unk or y.key in seen:
                return
            seen.add(y.key)
            if y.kind == 'unk':
                out.append(y.args[1])
            for z in y.args:
                go(z)
        elif isinstance(y, tuple):
            for z in y:
                go(z)
    go(x)
    return out


# ---------------------------------------------------------------- ring ops
def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    r = dict(a.t)
    for m, c in b.t.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return E(r)


def neg(a):
    return E({m: -c for m, c in a.t.items()})


def scale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return E({m: c * d for m, d in a.t.items()})


def esum(xs):
    r = {}
    for x in xs:
        for m, c in x.t.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    return E(r)


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca = a.const()
    if ca is not None:
        return scale(b, ca)
    cb = b.const()
    if cb is not None:
        return scale(a, cb)
    out = []
    simple = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            x = mono_mul(m1, m2)
            if isinstance(x, E):
                if x.t:
                    out.append(scale(x, c1 * c2))
            else:
                s = simple.get(x, 0) + c1 * c2
                if s:
                    simple[x] = s
                else:
                    simple.pop(x, None)
    if out:
        out.append(E(simple))
        return esum(out)
    return E(simple)


_mm = {}


def mono_mul(m1, m2):
    """product of two monomials: a monomial tuple, or an E if rewriting
    happened"""
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        r = norm_mono(d)
        _mm[k] = r
    return r


def _sortmono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda p: p[0].key))


def norm_mono(d):
    coef = F(1)
    special = False
    exps = []
    inds = []
    d = dict(d)
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.kind == 'red' and a.args[0] == 'any':
            if e > 1:
                d[a] = 1
        elif a.kind == 'ind' or a.kind == 'truth':
            if e > 0:
                d[a] = 1
                inds.append(a)
            # division by an indicator keeps its negative power (undecidable)
        elif a.kind == 'exp':
            exps.append(a)
        elif a.kind == 'prime':
            fl = math.floor(e)
            if fl:
                coef *= F(a.args[0]) ** int(fl)
                d[a] = e - fl
                if d[a] == 0:
                    del d[a]
        elif a.kind == 'cos' and e >= 2:
            special = True
        elif a.kind == 'abs' and e >= 2:
            special = True
        elif a.kind == 'pow' and e >= 1:
            special = True
        elif a.kind == 'signpm':
            # +-1 valued: even powers vanish
            d[a] = e % 2
            if d[a] == 0:
                del d[a]
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        tot = ZERO
        for a in exps:
            tot = tot + scale(a.args[0], F(d[a]))
            del d[a]
        ex = exp(tot)
        c = ex.const()
        if c is None:
            for m, cc in ex.t.items():
                coef *= cc
                for a, e in m:
                    d[a] = d.get(a, 0) + e
        else:
            coef *= c
    if special:
        for a in list(d):
            e = d[a]
            if a.kind == 'cos' and e >= 2:
                d[a] = e - 2
                rest = norm_mono(d)
                rest = rest if isinstance(rest, E) else E({rest: F(1)})
                s = fn('sin', a.args[0])
                return scale(rest * (ONE - s * s), coef)
            if a.kind == 'abs' and e >= 2:
                k = int(e // 2)
                d[a] = e - 2 * k
                rest = norm_mono(d)
                rest = rest if isinstance(rest, E) else E({rest: F(1)})
                return scale(rest * ipow(a.args[0], 2 * k), coef)
            if a.kind == 'pow' and e >= 1:
                k = int(math.floor(e))
                d[a] = e - k
                rest = norm_mono(d)
                rest = rest if isinstance(rest, E) else E({rest: F(1)})
                return scale(rest * ipow(a.args[0], k), coef)
    if inds and len(d) > 1:
        r = _norm_inds(d, inds)
        if r is not None:
            return scale(r, coef)
    m = _sortmono(d)
    if coef != 1:
        return E({m: coef}) if coef else ZERO
    return m


def _norm_inds(d, inds):
    """simplify products with indicators; None if nothing to do"""
    lts = [a for a in inds if a.kind == 'ind' and a.args[0] == 'lt']
    for i, a in enumerate(lts):
        for b in lts[i + 1:]:
            if nonneg(a.args[1] + b.args[1]):
                return ZERO
            # b<0 implies a<0 when a<=b
            if nonneg(b.args[1] - a.args[1]):
                d2 = dict(d)
                del d2[a]
                return _toE(norm_mono(d2))
            if nonneg(a.args[1] - b.args[1]):
                d2 = dict(d)
                del d2[b]
                return _toE(norm_mono(d2))
    for a in inds:
        if a.kind != 'ind' or a.args[0] != 'eq':
            continue
        sol = solve_eq(a)
        if sol is None:
            # syntactic: eq(e)*lt(e) = 0
            for b in lts:
                if b.args[1] == a.args[1] or b.args[1] == neg(a.args[1]):
                    return ZERO
            continue
        v, t = sol
        hit = [b for b in d if b is not a and v in b.vars]
        if not hit:
            continue
        rest = ONE
        keep = {a: 1}
        for b, e in d.items():
            if b is a:
                continue
            if v in b.vars:
                rest = mul(rest, power(subst_atom(b, {v: t}), F(e)))
            else:
                keep[b] = e
        return mul(rest, _toE(norm_mono(keep)))
    return None


def _toE(x):
    return x if isinstance(x, E) else E({x: F(1)})


def solve_eq(a):
    """eq atom -> (var, expr) to eliminate, deterministic; None"""
    e = a.args[1]
    best = None
    for m, c in e.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and \
                abs(c) == 1:
            v = m[0][0]
            rest = E({mm: cc for mm, cc in e.t.items() if mm != m})
            if v in rest.vars:
                continue
            t = scale(rest, -1 / c)
            if best is None or v.key > best[0].key:
                best = (v, t)
    return best


def ipow(a, k):
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_pow(c, e):
    if c == 0:
        return ZERO if e > 0 else unk('division by zero')
    if e.denominator == 1:
        return num(c ** int(e))
    if c < 0:
        return fn('powneg', num(c), num(e))
    d = {}
    coef = F(1)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n > 10 ** 12:
            return A(atom('pow', num(c))) ** e if False else E(
                {((atom('pow', num(c)), e),): F(1)})
        for p, k in _primes(n).items():
            a = atom('prime', p)
            d[a] = d.get(a, 0) + e * k * s
    r = norm_mono(d)
    return _toE(r)


def power(a, e):
    e = F(e)
    if e == 1:
        return a
    if e == 0:
        return ONE
    c = a.const()
    if c is not None:
        return const_pow(c, e)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if e.denominator == 1:
            d = {}
            for at, x in m:
                if at.kind in ('ind', 'truth') and e < 0:
                    d[at] = x * e
                else:
                    d[at] = x * e
            return mul(const_pow(c, e), _toE(norm_mono(d)))
        # fractional power of a monomial
        ok = c > 0
        d = {}
        extra = ONE
        for at, x in m:
            if at.kind in ('ind', 'truth') and x > 0:
                d[at] = 1
            elif nn_atom(at):
                d[at] = x * e
            elif F(x).denominator == 1 and x % 2 == 0:
                extra = mul(extra, power(absE(A(at)), F(x) * e))
            else:
                ok = False
        if ok:
            return mul(mul(const_pow(c, e), _toE(norm_mono(d))), extra)
        return E({((atom('pow', a), e),): F(1)})
    if e.denominator == 1 and e > 0:
        return ipow(a, int(e))
    # non-monomial base
    ex = _indicator_split(a)
    if ex is not None:
        at, a1, a0 = ex
        return mul(A(at), power(a1, e)) + mul(ONE - A(at), power(a0, e))
    lead = min(a.t, key=lambda m: tuple(x[0].key for x in m))
    c = a.t[lead]
    k = abs(c)
    if k != 1:
        return mul(const_pow(k, e), power(scale(a, 1 / k), e))
    # pull out common monomial factor
    com = None
    for m in a.t:
        dm = {at: x for at, x in m}
        if com is None:
            com = dm
        else:
            com = {at: min(x, dm[at]) for at, x in com.items() if at in dm}
    com = {at: x for at, x in (com or {}).items() if (
        nn_atom(at) or e.denominator == 1) and at.kind not in (
            'ind', 'truth', 'exp')}
    if com:
        inv = E({_sortmono({at: -x for at, x in com.items()}): F(1)})
        rest = mul(a, inv)
        if len(rest.t) >= 1 and rest != a:
            return mul(power(E({_sortmono(com): F(1)}), e), power(rest, e))
    if c < 0 and e.denominator == 1:
        return scale(power(neg(a), e), F(-1) ** int(e))
    if e.denominator == 1 and e < 0:
        return E({((atom('pow', a), e),): F(1)})
    fl = math.floor(e)
    r = E({((atom('pow', a), e - fl),): F(1)}) if e != fl else ONE
    if fl > 0:
        r = mul(r, ipow(a, fl))
    elif fl < 0:
        r = mul(r, E({((atom('pow', a), F(fl)),): F(1)}))
    return r


def _indicator_split(a):
    """if every use of some indicator atom can be split: (atom, a|1, a|0)"""
    for m in a.t:
        for at, e in m:
            if at.kind in ('ind', 'truth') and e == 1:
                a1, a0 = set_ind(a, at, 1), set_ind(a, at, 0)
                return at, a1, a0
    return None


def set_ind(a, at, val):
    r = {}
    out = []
    for m, c in a.t.items():
        d = dict(m)
        if at in d:
            if not val:
                continue
            del d[at]
            x = norm_mono(d)
            out.append(scale(_toE(x), c))
        else:
            r[m] = r.get(m, 0) + c
    out.append(E({m: c for m, c in r.items() if c}))
    return esum(out)


# ------------------------------------------------------------- predicates
def is_int_atom(a):
    if a._int is None:
        k = a.kind
        if k == 'sym':
            r = 'int' in a.args[1]
        elif k in ('var', 'ind', 'truth', 'floor', 'floordiv', 'size',
                   'blk', 'trunc', 'pow2ceil', 'signpm'):
            r = True
        elif k in ('el', 'uf'):
            r = 'int' in TENSOR.get(a.args[0], ())
        elif k in ('mod', 'off'):
            r = all(is_int(x) for x in a.args if isinstance(x, E))
        elif k in ('sum',):
            r = is_int(a.args[1])
        elif k == 'red':
            r = a.args[0] in ('any',) or is_int(a.args[2])
        elif k in ('abs',):
            r = is_int(a.args[0])
        else:
            r = False
        a._int = r
    return a._int


def is_int(e):
    for m, c in e.t.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if x < 0 or F(x).denominator != 1 or not is_int_atom(a):
                return False
    return True


def nn_atom(a):
    """a >= 0 for sure"""
    if a._nn is None:
        k = a.kind
        if k == 'sym':
            r = bool({'pos', 'nn', 'ge1'} & set(a.args[1]))
        elif k in ('var', 'ind', 'truth', 'exp', 'abs', 'prime', 'size',
                   'blk', 'off', 'pow2ceil'):
            r = True
        elif k in ('el', 'uf'):
            r = bool({'pos', 'nn', 'ge1'} & set(TENSOR.get(a.args[0], ())))
        elif k == 'sum':
            a._nn = False
            r = nonneg(a.args[1])
        elif k == 'pow':
            a._nn = False
            r = nonneg(a.args[0])
        elif k in ('floordiv', 'mod'):
            r = nonneg(a.args[0]) and nonneg(a.args[1])
        elif k == 'floor':
            r = nonneg(a.args[0])
        elif k == 'red' and a.args[0] in ('any', 'norm'):
            r = True
        else:
            r = False
        a._nn = r
    return a._nn


def pos_atom(a):
    k = a.kind
    if k == 'sym':
        return bool({'pos', 'ge1'} & set(a.args[1]))
    if k in ('el', 'uf'):
        return bool({'pos', 'ge1'} & set(TENSOR.get(a.args[0], ())))
    if k in ('exp', 'prime', 'pow2ceil'):
        return True
    if k == 'pow':
        return positive(a.args[0])
    return False


FACTS = []          # list of E known to be >= 0 (path assumptions)
_nn_cache = {}
_depth = [0]


FKEY = [0]           # identifies the current set of assumptions
_fkeys = {(): 0}


def _refact():
    k = tuple(f.key for f in FACTS)
    FKEY[0] = _fkeys.setdefault(k, len(_fkeys))
    _nn_cache.clear()


def push_fact(e):
    FACTS.append(e)
    _refact()


def pop_fact():
    FACTS.pop()
    _refact()


def reset_facts(fs=()):
    FACTS[:] = list(fs)
    _refact()


def _mono_nn(m):
    for a, x in m:
        if not nn_atom(a) and not (F(x).denominator == 1 and x % 2 == 0):
            return False
    return True


def nonneg(e):
    """prove e >= 0 (incomplete)"""
    c = e.const()
    if c is not None:
        return c >= 0
    k = e.key
    r = _nn_cache.get(k)
    if r is not None:
        return r
    if _depth[0] > 12:
        return False
    _depth[0] += 1
    try:
        r = _nonneg(e)
    finally:
        _depth[0] -= 1
    if _depth[0] == 0 or r:
        _nn_cache[k] = r
    return r


def _nonneg(e):
    if all((c > 0 and _mono_nn(m)) for m, c in e.t.items()):
        return True
    # eliminate index variables by monotonicity
    for v in sorted(e.vars, key=lambda a: a.key):
        co = lin_coeff(e, v)
        if co is None:
            continue
        k, rest = co
        if nonneg(neg(k)):
            if nonneg(rest + k * (v.args[1] - 1)):
                return True
        elif nonneg(k):
            if nonneg(rest):
                return True
    # symbols that are >= 1
    for m in e.t:
        for a, x in m:
            if (a.kind == 'sym' and 'ge1' in a.args[1]) or (
                    a.kind in ('el', 'uf') and
                    'ge1' in TENSOR.get(a.args[0], ())):
                co = lin_coeff(e, a)
                if co is None:
                    continue
                k, rest = co
                if nonneg(k) and nonneg(rest + k):
                    # e increasing in a; minimum at a = 1
                    return True
    # floordiv/mod/blk/off bounds
    for m in e.t:
        for a, x in m:
            if a.kind in ('mod', 'off', 'blk', 'floordiv', 'pow2ceil',
                          'sum') or a.kind == 'uf' and \
                    a.args[0] == 'pow2above':
                co = lin_coeff(e, a)
                if co is None:
                    continue
                k, rest = co
                if a.kind == 'floordiv' and positive(a.args[1]) and \
                        (k + a.args[1]) == ZERO:
                    # b * (a // b) <= a
                    if nonneg(rest - a.args[0]):
                        return True
                if a.kind == 'floordiv' and k == num(-1) and is_int(
                        rest) and is_int(a.args[0]) and is_int(
                            a.args[1]) and positive(a.args[1]):
                    # a // b <= r  iff  a <= r * b + b - 1
                    if nonneg((rest + 1) * a.args[1] - 1 - a.args[0]):
                        return True
                hi = upper_of(a)
                if hi is not None and nonneg(neg(k)) and nonneg(
                        rest + k * hi):
                    return True
                lo = lower_of(a)
                if lo is not None and nonneg(k) and nonneg(rest + k * lo):
                    return True
    for f in FACTS:
        if f.key == e.key:
            return True
    # difference of two prefix sums of the same non-negative terms
    sums = [(m[0][0], c) for m, c in e.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sum' and
            len(m[0][0].args[0]) == 1]
    if len(sums) > 1 and _depth[0] < 6:
        for a1, c1 in sums:
            if c1 <= 0:
                continue
            for a2, c2 in sums:
                if c2 >= 0 or c1 + c2 != 0:
                    continue
                v1, v2 = a1.args[0][0], a2.args[0][0]
                n1, n2 = v1.args[1], v2.args[1]
                t = fresh_var('p', n1)
                b1 = subst(a1.args[1], {v1: A(t)})
                b2 = subst(a2.args[1], {v2: A(t)})
                if b1 != b2 or not nonneg(b1):
                    continue
                rest = e - scale(A(a1), c1) - scale(A(a2), c2)
                if nonneg(n1 - n2 - 1):
                    if nonneg(rest + scale(subst(b1, {t: n2}), c1)):
                        return True
                elif nonneg(n1 - n2) and nonneg(rest):
                    return True
    for f in FACTS:
        d = e - f
        if len(d.t) < len(e.t) + len(f.t) and _depth[0] < 4 and nonneg(d):
            return True
    return False


def upper_of(a):
    """greatest value of an atom, as E, or None"""
    if a.kind == 'mod' and is_int(a.args[0]) and is_int(a.args[1]):
        return a.args[1] - 1
    if a.kind == 'blk':
        return a.args[2] - 1
    return None


def lower_of(a):
    if a.kind == 'pow2ceil':
        return a.args[0]
    if a.kind == 'uf' and a.args[0] == 'pow2above':
        return a.args[1] + 1
    if a.kind in ('mod', 'off', 'blk'):
        return ZERO
    return None


def positive(e):
    c = e.const()
    if c is not None:
        return c > 0
    if is_int(e):
        return nonneg(e - 1)
    strict = False
    for m, c in e.t.items():
        if c < 0 or not _mono_nn(m):
            return False
        if all(pos_atom(a) or (False) for a, x in m):
            strict = True
    return strict


def lin_coeff(e, v):
    """e = k*v + rest with v not in k, rest; None if not affine"""
    k, r = {}, {}
    for m, c in e.t.items():
        inn = [(a, x) for a, x in m if a is v]
        if inn:
            if inn[0][1] != 1:
                return None
            mm = tuple(p for p in m if p[0] is not v)
            for a, _ in mm:
                if v.kind == 'var' and v in a.vars:
                    return None
            k[mm] = k.get(mm, 0) + c
        else:
            for a, _ in m:
                if v.kind == 'var' and v in a.vars:
                    return None
            r[m] = c
    return E(k), E(r)


# ------------------------------------------------------------- functions
def exp(e):
    if not e.t:
        return ONE
    # split indicators: exp(c*a + (1-c)*b)
    sp = _indicator_split(e)
    if sp is not None:
        at, a1, a0 = sp
        return mul(A(at), exp(a1)) + mul(ONE - A(at), exp(a0))
    # exp(log(x)*k)
    for m, c in e.t.items():
        if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1 and \
                c.denominator == 1:
            rest = E({mm: cc for mm, cc in e.t.items() if mm != m})
            return mul(power(m[0][0].args[0], c), exp(rest))
    return A(atom('exp', e))


def log(e):
    c = e.const()
    if c is not None:
        if c == 1:
            return ZERO
        if c <= 0:
            return unk('log of non-positive constant')
        r = ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            if n > 10 ** 12:
                return A(atom('log', e))
            for p, k in _primes(n).items():
                r = r + scale(A(atom('log', num(p))), F(k * s))
        return r
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c > 0 and all(pos_atom(a) for a, x in m):
            r = log(num(c))
            for a, x in m:
                if a.kind == 'exp':
                    r = r + scale(a.args[0], F(x))
                elif a.kind == 'prime':
                    r = r + scale(log(num(a.args[0])), F(x))
                elif a.kind == 'pow':
                    r = r + scale(log(a.args[0]), F(x))
                else:
                    r = r + scale(A(atom('log', A(a))), F(x))
            return r
    return A(atom('log', e))


def absE(e):
    c = e.const()
    if c is not None:
        return num(abs(c))
    if nonneg(e):
        return e
    if nonneg(neg(e)):
        return neg(e)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        r = num(abs(c))
        d = {}
        left = {}
        for a, x in m:
            if nn_atom(a) or x % 2 == 0:
                d[a] = x
            else:
                left[a] = x
        if d:
            return mul(mul(r, _toE(norm_mono(d))),
                       absE(_toE(norm_mono(left))))
        if c < 0 or c != 1:
            return mul(r, absE(_toE(norm_mono(left))))
        return A(atom('abs', e))
    sp = _indicator_split(e)
    if sp is not None:
        at, a1, a0 = sp
        return mul(A(at), absE(a1)) + mul(ONE - A(at), absE(a0))
    lead = min(e.t, key=lambda m: tuple(x[0].key for x in m))
    if e.t[lead] < 0:
        e = neg(e)
    return A(atom('abs', e))


_ODD = {'sin', 'sinh', 'arcsin', 'tan', 'erf'}


def fn(name, *args):
    """interpreted unary/binary functions"""
    if name == 'exp':
        return exp(args[0])
    if name == 'log':
        return log(args[0])
    if name == 'abs':
        return absE(args[0])
    if name == 'sqrt':
        return power(args[0], F(1, 2))
    e = args[0]
    if len(args) == 1:
        sp = _indicator_split(e)
        if sp is not None:
            at, a1, a0 = sp
            return mul(A(at), fn(name, a1)) + mul(ONE - A(at), fn(name, a0))
    if name in ('sin', 'cos'):
        if not e.t:
            return ZERO if name == 'sin' else ONE
        lead = min(e.t, key=lambda m: tuple(x[0].key for x in m))
        if e.t[lead] < 0:
            r = fn(name, neg(e))
            return neg(r) if name == 'sin' else r
        # double-angle is not expanded: sin(2x) stays an atom
        return A(atom(name, e))
    if name == 'floor':
        if is_int(e):
            return e
        c = e.const()
        if c is not None:
            return num(math.floor(c))
        ip, fp = {}, {}
        for m, c in e.t.items():
            if is_int(E({m: c})):
                ip[m] = c
            else:
                fp[m] = c
        if ip and fp:
            return E(ip) + A(atom('floor', E(fp)))
        return A(atom('floor', e))
    if name == 'ceil':
        return neg(fn('floor', neg(e)))
    if name == 'trunc':
        if is_int(e):
            return e
        if nonneg(e):
            return fn('floor', e)
        return A(atom('trunc', e))
    if name == 'sign':
        return ONE - ind('eq', e) - ind('lt', e) * 2
    if name == 'ppf' and e.const() is not None:
        if e.const() == F(1, 2):
            return ZERO
        if e.const() > F(1, 2):     # symmetric distribution
            return neg(fn(name, ONE - e))
    return A(atom('fn_' + name, *args))


def maxE(a, b):
    if nonneg(a - b):
        return a
    if nonneg(b - a):
        return b
    c = ind('lt', a - b)
    return c * b + (ONE - c) * a


def minE(a, b):
    c = ind('lt', a - b)
    return c * a + (ONE - c) * b


# differences assumed to be substantial (scenario: values that did change)
DISTINCT = [None]


def ind(op, e):
    """op: 'lt' -> [e<0], 'eq' -> [e==0]"""
    c = e.const()
    if c is not None:
        return ONE if (c < 0 if op == 'lt' else c == 0) else ZERO
    if op == 'eq' and DISTINCT[0] and DISTINCT[0](e):
        return ZERO
    if e.unk and any(a.kind == 'unk' for a in e.atoms()):
        return A(atom('truth', op, e))
    sp = _indicator_split(e)
    if sp is not None:
        at, a1, a0 = sp
        return mul(A(at), ind(op, a1)) + mul(ONE - A(at), ind(op, a0))
    integer = is_int(e)
    # scale to primitive
    lead = min(e.t, key=lambda m: (len(m) == 0,
                                   tuple(x[0].key for x in m)))
    c = abs(e.t[lead])
    if c != 1:
        ok = all((x / c).denominator == 1 for x in e.t.values()) or \
            not integer
        if ok:
            e = scale(e, 1 / c)
    if op == 'lt':
        if nonneg(e):
            return ZERO
        if positive(neg(e)):
            return ONE
        if e.t[lead] < 0:
            if integer:
                return ONE - ind('lt', neg(e) - 1)
            return ONE - ind('lt', neg(e)) - ind('eq', neg(e))
        # drop strictly positive common factors
        e = _strip_pos(e)
        return A(atom('ind', 'lt', e))
    if positive(e) or positive(neg(e)):
        return ZERO
    if e.t[lead] < 0:
        e = neg(e)
    e = _strip_pos(e)
    # sum of nonneg parts = 0 not decomposed
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if not m:
            return ZERO
        # product zero iff some factor zero
        r = ONE
        for a, x in m:
            if x > 0 and not pos_atom(a):
                r = mul(r, ONE - A(atom('ind', 'eq', A(a)))
                        if not (a.kind in ('ind', 'truth')) else A(a))
        if len(m) > 1 or m[0][1] != 1:
            return ONE - r
        if m[0][0].kind in ('ind', 'truth'):
            return ONE - A(m[0][0])
        if m[0][0].kind == 'abs':
            return ind('eq', m[0][0].args[0])
    return A(atom('ind', 'eq', e))


def _strip_pos(e):
    com = None
    for m in e.t:
        dm = {a: x for a, x in m if pos_atom(a)}
        com = dm if com is None else {
            a: min(x, dm[a]) for a, x in com.items() if a in dm}
    # also clear negative powers of positive atoms
    negs = {}
    for m in e.t:
        for a, x in m:
            if x < 0 and pos_atom(a):
                negs[a] = min(negs.get(a, 0), x)
    f = dict(com or {})
    for a, x in negs.items():
        f[a] = min(f.get(a, 0), x)
    f = {a: x for a, x in f.items() if x and a.kind != 'exp'}
    if not f:
        return e
    return mul(e, E({_sortmono({a: -x for a, x in f.items()}): F(1)}))


def truth(name, *args):
    return A(atom('truth', name, *args))


def ite(c, a, b):
    if a == b:
        return a
    return c * a + (ONE - c) * b


def floordiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb:
        return num(math.floor(ca / cb))
    if cb == 1:
        return fn('floor', a)
    # split a = q*b + r
    q, r = _pdivide(a, b)
    if q.t:
        if nonneg(r) and positive(b - r):
            return q
        return q + floordiv(r, b) if r.t else q
    if nonneg(a) and positive(b - a):
        return ZERO
    if ca is not None and ca < 0 and positive(b) and nonneg(a + b):
        return num(-1)
    if len(a.t) == 1 and cb != 0:
        (m, c), = a.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            if m[0][0].kind == 'mod':
                x, y = m[0][0].args
                q, r = _pdivide(y, b)
                if not r.t and q.t and positive(b) and is_int(q):
                    return mod(floordiv(x, b), q)
            if m[0][0].kind == 'floordiv' and positive(b) and \
                    positive(m[0][0].args[1]) and is_int(b):
                x, y = m[0][0].args
                return floordiv(x, y * b)
    return A(atom('floordiv', a, b))


def mod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb:
        return num(ca - cb * math.floor(ca / cb))
    q, r = _pdivide(a, b)
    if not r.t:
        return ZERO
    if nonneg(r) and positive(b - r):
        return r
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0].kind == 'mod':
            x, y = m[0][0].args
            q, r2 = _pdivide(y, b)
            if not r2.t and q.t and positive(b) and is_int(q):
                return mod(x, b)
    if cb is None and is_int(r) and r.t.get((), 0) < 0 and \
            positive(b - r) and positive(b) and nonneg(r + 1):
        # only -1 wraps around
        return r + b * ind('lt', r)
    return A(atom('mod', r, b))


def divide(a, b):
    return a / b


def _pdivide(a, b):
    """a = q*b + r pulling out monomials divisible by b (b monomial)"""
    if len(b.t) != 1:
        # try a - b
        if a == b:
            return ONE, ZERO
        if positive(b) and nonneg(a - b):
            q, r = _pdivide(a - b, b)
            return q + 1, r
        return ZERO, a
    (mb, cb), = b.t.items()
    db = dict(mb)
    q, r = {}, {}
    for m, c in a.t.items():
        dm = dict(m)
        if all(dm.get(x, 0) >= k for x, k in db.items()) and \
                (c / cb).denominator == 1 and db:
            mm = dict(dm)
            for x, k in db.items():
                mm[x] -= k
            q[_sortmono(mm)] = q.get(_sortmono(mm), 0) + c / cb
        else:
            r[m] = c
    return E(q), E(r)


# ------------------------------------------------------- tensors & UFs
def tensor(name, *attrs):
    TENSOR[name] = tuple(sorted(attrs))
    return name


def el(name, *idx):
    """element of an uninterpreted tensor"""
    idx = tuple(lift(i) for i in idx)
    return _split_args(lambda *xs: A(atom('el', name, *xs)), idx)


def uf(name, *args):
    """uninterpreted function of real arguments"""
    args = tuple(lift(i) for i in args)
    if name in ('pow2above', 'bitlen'):
        TENSOR[name] = ('ge1', 'int', 'nn', 'pos') if name == 'pow2above' \
            else ('int', 'nn')
        c = args[0].const()
        if c is not None and c.denominator == 1:
            n = int(c).bit_length()
            return num(2 ** n if name == 'pow2above' else n)
    return _split_args(lambda *xs: A(atom('uf', name, *xs)), args)


def _split_args(mk, args):
    for i, x in enumerate(args):
        if len(x.t) > 1 or x.const() is None:
            sp = _indicator_split(x)
            if sp is not None:
                at, a1, a0 = sp
                l = list(args)
                l[i] = a1
                p = _split_args(mk, tuple(set_ind(y, at, 1) for y in l))
                l[i] = a0
                q = _split_args(mk, tuple(set_ind(y, at, 0) for y in l))
                return mul(A(at), p) + mul(ONE - A(at), q)
    return mk(*args)


def blk(kvar, body, total, i):
    """block number of flat index i, blocks k<total of length body(k)"""
    k0 = canon_var()
    b = subst(body, {kvar: A(k0)})
    c = b if k0 not in b.vars else None
    if c is not None:
        return floordiv(i, c)
    # i = S(k) + j  with S prefix sum and 0 <= j < body(k)
    m = match_prefix(k0, b, i)
    if m is not None:
        k, j = m
        if nonneg(j) and positive(subst(b, {k0: k}) - j):
            return k
    return A(atom('blk', Lam(k0, b), i, total))


def off(kvar, body, total, i):
    k = blk(kvar, body, total, i)
    k0 = canon_var()
    b = subst(body, {kvar: A(k0)})
    if k0 not in b.vars:
        return mod(i, b)
    return i - msum_to(kvar, body, k)


def Lam(v, b):
    return ('lam', subst(b, {v: A(canon_var())}))


_cv = None


def canon_var():
    global _cv
    if _cv is None:
        _cv = atom('var', '#k', num(sys_max))
    return _cv


def match_prefix(k0, b, i):
    """i == sum_{k<K} b(k) + j  -> (K, j)"""
    for m, c in i.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sum':
            s = m[0][0]
            if len(s.args[0]) == 1:
                v = s.args[0][0]
                bb = subst(s.args[1], {v: A(k0)})
                if bb == b:
                    rest = E({mm: cc for mm, cc in i.t.items() if mm != m})
                    # rest may contain extra terms b(K) ... accept as j
                    return v.args[1], rest
    # K = 0
    return ZERO, i


def msum_to(v, body, upto):
    """sum_{v<upto} body(v)"""
    return mk_sum(v, upto, body)


# ------------------------------------------------------------------- sums
_sum_cache = {}


def mk_sum(v, bound, body):
    """sum_{v in [0,bound)} body; for a negative bound the telescoping
    extension -sum_{v in [bound,0)} (loops with possibly negative counts are
    clipped where they are created)"""
    if not body.t:
        return ZERO
    key = (v.key, bound.key, body.key, FKEY[0])
    r = _sum_cache.get(key)
    if r is None:
        r = _mk_sum(v, bound, body)
        _sum_cache[key] = r
    return r


def _mk_sum(v, bound, body):
    c = bound.const()
    if c is not None and c.denominator == 1 and -8 <= c <= 8:
        if c < 0:
            return neg(esum([subst(body, {v: num(i)})
                             for i in range(int(c), 0)]))
        return esum([subst(body, {v: num(i)}) for i in range(int(c))])
    if v not in body.vars:
        return mul(bound, body)
    # integer constant part of the bound
    c0 = bound.t.get((), 0)
    if c0 and F(c0).denominator == 1 and abs(c0) <= 8 and len(bound.t) > 1:
        base = E({m: c for m, c in bound.t.items() if m != ()})
        if c0 > 0:
            r = mk_sum(v, base, body)
            for i in range(int(c0)):
                r = r + subst(body, {v: base + i})
            return r
        r = mk_sum(v, base, body)
        for i in range(int(-c0)):
            r = r - subst(body, {v: base - (i + 1)})
        return r
    # v's own bound should be `bound`
    if v.args[1] != bound:
        w = fresh_var('s', bound)
        return mk_sum(w, bound, subst(body, {v: A(w)}))
    # split at range indicators linear in v
    for at in sorted(body.atoms(), key=lambda a: a.key):
        if at.kind == 'ind' and at.args[0] == 'lt' and v in at.vars:
            co = lin_coeff(at.args[1], v)
            if co is None:
                continue
            k = co[0].const()
            if k is None or abs(k) != 1 or not is_int(at.args[1]):
                continue
            if k == 1:
                # v + rest < 0  <=> v < -rest
                cut = neg(co[1])
                lo, hi = 1, 0
            else:
                # rest - v < 0 <=> v > rest <=> v >= rest+1
                cut = co[1] + 1
                lo, hi = 0, 1
            if not (nonneg(cut) and nonneg(bound - cut)):
                continue
            w = fresh_var('s', cut)
            u = fresh_var('s', bound - cut)
            a = subst(set_ind(body, at, lo), {v: A(w)})
            b = subst(set_ind(body, at, hi), {v: cut + A(u)})
            return mk_sum(w, cut, a) + mk_sum(u, bound - cut, b)
    # change of variables for flattened axes
    for at in sorted(all_atoms(body, v), key=lambda a: a.key):
        if at.kind in ('floordiv', 'mod') and at.args[0] == A(v) and \
                v not in at.args[1].vars:
            b = at.args[1]
            q, r = _pdivide(bound, b)
            if not r.t and positive(b):
                i, j = fresh_var('s', q), fresh_var('s', b)
                return mk_sum(i, q, mk_sum(j, b, subst(
                    body, {v: A(i) * b + A(j)})))
        if at.kind == 'blk' and at.args[1] == A(v):
            lam, _, tot = at.args
            bb = lam[1]
            i = fresh_var('s', tot)
            ln = subst(bb, {canon_var(): A(i)})
            j = fresh_var('s', ln)
            st = msum_to(canon_var(), bb, A(i))
            return mk_sum(i, tot, mk_sum(j, ln, subst(body, {v: st + A(j)})))
    out = []
    for m, c in body.t.items():
        out.append(scale(_sum_mono(v, bound, m), c))
    return esum(out)


def all_atoms(e, v, acc=None):
    """atoms (deep) mentioning v"""
    acc = set() if acc is None else acc

    def go(x):
        if isinstance(x, E):
            if v in x.vars:
                for m in x.t:
                    for a, _ in m:
                        go(a)
        elif isinstance(x, Atom):
            if v in x.vars and x not in acc:
                acc.add(x)
                for y in x.args:
                    go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(e)
    return acc


def _negcount(a, v):
    n = 0
    for x in all_atoms(A(a), v):
        for y in x.args:
            if isinstance(y, E) and v in y.vars and x.kind == 'el':
                co = lin_coeff(y, v)
                if co is not None and co[0].const() is not None:
                    n += 1 if co[0].const() < 0 else -1
    return n


def _sum_mono(v, bound, m):
    n = sum(_negcount(a, v) for a, x in m if v in a.vars)
    if n > 0:
        e = subst(E({m: F(1)}), {v: bound - 1 - A(v)})
        return esum([scale(_sum_mono1(v, bound, m2), c)
                     for m2, c in e.t.items()])
    return _sum_mono1(v, bound, m)


def _sum_mono1(v, bound, m):
    # delta elimination
    for a, x in m:
        if a.kind == 'ind' and a.args[0] == 'eq' and v in a.vars:
            co = lin_coeff(a.args[1], v)
            if co is None:
                continue
            k = co[0].const()
            if k is None or abs(k) != 1:
                continue
            t = scale(co[1], -1 / k)
            if not is_int(t):
                continue
            rest = {b: y for b, y in m if b is not a}
            r = subst(_toE(norm_mono(rest)), {v: t})
            g = ONE
            if not nonneg(t):
                g = g * (ONE - ind('lt', t))
            if not nonneg(bound - 1 - t):
                g = g * ind('lt', t - bound)
            return mul(g, r)
    outer, inner = {}, {}
    for a, x in m:
        (inner if v in a.vars else outer)[a] = x
    if not inner:
        return mul(bound, _toE(_sortmono(outer)))
    # flatten nested sums
    vs = [v]
    fl = {}
    extra = ONE
    for a, x in inner.items():
        if a.kind == 'sum' and F(x).denominator == 1 and 0 < x <= 3:
            for _ in range(int(x)):
                ren = {}
                body = a.args[1]
                for w in a.args[0]:
                    nb = subst(w.args[1], ren) if ren else w.args[1]
                    nw = fresh_var('s', nb)
                    ren[w] = A(nw)
                    vs.append(nw)
                extra = mul(extra, subst(body, ren))
        else:
            fl[a] = fl.get(a, 0) + x
    if len(vs) > 1:
        prod = mul(_toE(norm_mono(fl)), extra)
        r = ZERO
        for mm, c in prod.t.items():
            r = r + scale(_canon_sum(vs, mm), c)
        return mul(_toE(_sortmono(outer)), r)
    return mul(_toE(_sortmono(outer)), _canon_sum(vs, _sortmono(inner)))


def _canon_sum(vs, m):
    """canonical multi-sum of a monomial; vs in dependency order"""
    outer = {}
    inner = {}
    vset = frozenset(vs)
    for a, x in m:
        (inner if a.vars & vset else outer)[a] = x
    used = set()
    for a in inner:
        used |= a.vars
    # variables occurring in bounds of used ones
    ch = True
    while ch:
        ch = False
        for v in vs:
            if v in used:
                for w in v.args[1].vars:
                    if w in vset and w not in used:
                        used.add(w)
                        ch = True
    pre = _toE(_sortmono(outer))
    free = [v for v in vs if v not in used]
    vs = [v for v in vs if v in used]
    for v in free:
        pre = mul(pre, v.args[1])
    if not vs:
        return mul(pre, _toE(_sortmono(inner)))
    # connected components
    comp = {v: v for v in vs}

    def find(x):
        while comp[x] is not x:
            x = comp[x]
        return x

    def union(xs):
        xs = [x for x in xs if x in comp]
        for y in xs[1:]:
            comp[find(y)] = find(xs[0])
    for a in inner:
        union(list(a.vars & vset))
    for v in vs:
        union([v] + list(v.args[1].vars & vset))
    groups = {}
    for v in vs:
        groups.setdefault(find(v).key, []).append(v)
    out = pre
    for g in sorted(groups):
        gv = groups[g]
        gs = frozenset(gv)
        fs = {a: x for a, x in inner.items() if a.vars & gs}
        out = mul(out, _canon_group(gv, fs))
    return out


def _canon_group(vs, fs):
    if len(vs) == 1:
        perms = [tuple(vs)]
    elif len(vs) <= 4:
        perms = [p for p in itertools.permutations(vs) if _dep_ok(p)]
    else:
        perms = [tuple(vs)]
    best = None
    mono = _sortmono(fs)
    body0 = E({mono: F(1)})
    vset = set(vs)
    avoid = {x.args[0] for x in body0.vars if x not in vset}
    for v in vs:
        avoid |= {x.args[0] for x in v.args[1].vars if x not in vset}
    names = ['#%d' % i for i in range(len(vs) + len(avoid))
             if '#%d' % i not in avoid]
    for p in perms:
        ren = {}
        nvs = []
        for i, v in enumerate(p):
            nb = subst(v.args[1], ren) if ren else v.args[1]
            nv = atom('var', names[i], nb)
            nvs.append(nv)
            ren[v] = A(nv)
        b = subst(body0, ren)
        k = (tuple(nv.args[1].key for nv in nvs), b.key)
        if best is None or k < best[0]:
            best = (k, tuple(nvs), b)
    return A(atom('sum', best[1], best[2]))


def _dep_ok(p):
    seen = set()
    ps = set(p)
    for v in p:
        for w in v.args[1].vars:
            if w in ps and w not in seen:
                return False
        seen.add(v)
    return True


def red(op, v, bound, body):
    """reductions other than sum: any/max/min/prod ...  op(v<bound) body"""
    if op == 'any':
        if not body.t:
            return ZERO
        if v not in body.vars:
            return body * (ONE - ind('eq', bound))
        c = bound.const()
        if c is not None and 0 <= c <= 8:
            r = ONE
            for i in range(int(c)):
                r = r * (ONE - subst(body, {v: num(i)}))
            return ONE - r
    if op in ('max', 'min') and v not in body.vars:
        return body
    if op == 'prod':
        c = bound.const()
        if c is not None and 0 <= c <= 8:
            r = ONE
            for i in range(int(c)):
                r = r * subst(body, {v: num(i)})
            return r
        if v not in body.vars and body == ONE:
            return ONE
    depth = 0
    names = {x.args[0] for x in body.vars if x is not v}
    names |= {x.args[0] for x in bound.vars}
    while '#%d' % depth in names:
        depth += 1
    nv = atom('var', '#%d' % depth, bound)
    return A(atom('red', op, (nv,), subst(body, {v: A(nv)})))


# ----------------------------------------------------------- substitution
_subst_cache = {}


def subst(x, s):
    """s: {var/sym atom: E}"""
    if not s:
        return x
    keys = frozenset(s)
    if not any(k.kind != 'var' for k in s) and not (x.vars & keys):
        return x
    sk = (x.key, tuple(sorted((k.key, v.key) for k, v in s.items())),
          FKEY[0])
    r = _subst_cache.get(sk)
    if r is not None:
        return r
    anysym = any(k.kind != 'var' for k in s)
    out = []
    keep = {}
    for m, c in x.t.items():
        hit = False
        for a, _ in m:
            if anysym or (a.vars & keys):
                hit = True
                break
        if not hit:
            keep[m] = c
            continue
        p = num(c)
        plain = {}
        for a, e in m:
            if anysym or (a.vars & keys):
                p = mul(p, power(subst_atom(a, s), F(e)))
                if not p.t:
                    break
            else:
                plain[a] = e
        if p.t and plain:
            p = mul(p, _toE(_sortmono(plain)))
        out.append(p)
    out.append(E(keep))
    r = esum(out)
    if len(_subst_cache) > 400000:
        _subst_cache.clear()
    _subst_cache[sk] = r
    return r


def prev_of(x, k):
    """x at iteration k-1, for k >= 1"""
    push_fact(A(k) - 1)
    try:
        return subst(x, {k: A(k) - 1})
    finally:
        pop_fact()


def subst_any(x, s):
    if isinstance(x, E):
        return subst(x, s)
    if isinstance(x, tuple):
        return tuple(subst_any(y, s) for y in x)
    return x


def subst_atom(a, s):
    if a in s:
        return s[a]
    k = a.kind
    if k == 'var':
        return A(a)
    if k == 'sym' or k == 'unk' or k == 'prime':
        return A(a)
    args = a.args
    if k == 'sum':
        vs, body = args
        # rename bound variables apart
        ren = {}
        nvs = []
        for v in vs:
            nb = subst(subst(v.args[1], ren) if ren else v.args[1], s)
            nv = fresh_var('b', nb)
            ren[v] = A(nv)
            nvs.append(nv)
        b = subst(subst(body, ren), s)
        for nv in reversed(nvs):
            b = mk_sum(nv, nv.args[1], b)
        return b
    if k == 'red':
        op, (v,), body = args
        nb = subst(v.args[1], s)
        nv = fresh_var('b', nb)
        return red(op, nv, nb, subst(subst(body, {v: A(nv)}), s))
    na = tuple(subst_any(x, s) for x in args)
    return rebuild(a, na)


def rebuild(a, na):
    k = a.kind
    if k == 'exp':
        return exp(na[0])
    if k == 'log':
        return log(na[0])
    if k == 'abs':
        return absE(na[0])
    if k == 'pow':
        # exponent applied by the caller
        c = na[0].const()
        if c is not None or len(na[0].t) == 1:
            return na[0]
        if na[0] == a.args[0]:
            return A(a)
        return na[0]
    if k in ('sin', 'cos', 'floor', 'trunc'):
        return fn(k, na[0])
    if k.startswith('fn_'):
        return fn(k[3:], *na)
    if k == 'ind':
        return ind(na[0], na[1])
    if k == 'floordiv':
        return floordiv(na[0], na[1])
    if k == 'mod':
        return mod(na[0], na[1])
    if k == 'el':
        return el(*na)
    if k == 'uf':
        return uf(*na)
    if k == 'blk':
        lam, i, tot = na
        return blk(canon_var(), lam[1], tot, i)
    if k == 'pow2ceil':
        return A(atom('pow2ceil', *na))
    return A(atom(k, *na))


# ---------------------------------------------------------- differentiation
def diff(e, x):
    if isinstance(x, E):
        ((m, _),) = x.t.items()
        x = m[0][0]
    """d e / d x, x an atom (sym or el)"""
    out = []
    for m, c in e.t.items():
        for i, (a, p) in enumerate(m):
            da = diff_atom(a, x)
            if not da.t:
                continue
            d = dict(m)
            d[a] = d[a] - 1
            rest = _toE(norm_mono(d))
            out.append(scale(mul(rest, da), c * F(p)))
    return esum(out)


class NotDifferentiable(Exception):
    pass


def _depends(x, wrt):
    if isinstance(x, E):
        return (wrt in x.syms) if wrt.kind == 'sym' else (
            ('T', wrt.args[0]) in x.syms)
    if isinstance(x, Atom):
        return (wrt in x.syms) if wrt.kind == 'sym' else (
            ('T', wrt.args[0]) in x.syms)
    return False


def diff_atom(a, x):
    if a is x:
        return ONE
    if not _depends(a, x):
        return ZERO
    k = a.kind
    if k == 'el' and x.kind == 'el' and a.args[0] == x.args[0]:
        r = ONE
        for i, j in zip(a.args[1:], x.args[1:]):
            r = mul(r, ind('eq', i - j))
        return r
    if k in ('ind', 'truth', 'floor', 'trunc'):
        return ZERO
    if k == 'exp':
        return mul(A(a), diff(a.args[0], x))
    if k == 'log':
        return mul(power(a.args[0], F(-1)), diff(a.args[0], x))
    if k == 'sin':
        return mul(fn('cos', a.args[0]), diff(a.args[0], x))
    if k == 'cos':
        return neg(mul(fn('sin', a.args[0]), diff(a.args[0], x)))
    if k == 'pow':
        return diff(a.args[0], x)
    if k == 'abs':
        return mul(fn('sign', a.args[0]), diff(a.args[0], x))
    if k == 'sum':
        vs, body = a.args
        d = diff(body, x)
        for v in reversed(vs):
            d = mk_sum(v, v.args[1], d)
        return d
    if k == 'uf':
        r = ZERO
        for i, y in enumerate(a.args[1:]):
            dy = diff(y, x)
            if dy.t:
                nm = a.args[0] + "'%d" % i
                TENSOR.setdefault(nm, ())
                r = r + mul(uf(nm, *a.args[1:]), dy)
        return r
    raise NotDifferentiable(k)


# ---------------------------------------------------------------- equality
def clear_denoms(e):
    """multiply out negative powers of non-monomial bases / inverse atoms"""
    for _ in range(6):
        need = {}
        for m in e.t:
            for a, x in m:
                if a.kind == 'pow' and x < 0:
                    need[a] = max(need.get(a, 0), -x)
        if not need:
            return e
        f = ONE
        for a, x in need.items():
            k = math.ceil(x)
            f = mul(f, ipow(a.args[0], k))
        out = []
        for m, c in e.t.items():
            d = dict(m)
            p = ONE
            for a, x in need.items():
                k = math.ceil(x)
                y = d.pop(a, 0) + k
                if y == 0:
                    continue
                fl = math.floor(y)
                p = mul(p, ipow(a.args[0], fl))
                if y - fl:
                    d[a] = d.get(a, 0) + (y - fl)
            out.append(scale(mul(p, _toE(norm_mono(d))), c))
        e = esum(out)
    return e


def is_zero(e):
    if not e.t:
        return True
    if not clear_denoms(e).t:
        return True
    # complete case split on indicators
    return _prove(e, 0, [400]) or _prove_shifted(e, 400)


def prove_zero(e, budget=2500):
    return _prove(e, 0, [budget]) or _prove_shifted(e, budget)


SHIFT = [False]     # costly; switched on by the checks that need it


def _prove_shifted(e, budget):
    if not SHIFT[0] or e.unk or not any(a.kind == 'sum' for m in e.t for a, _ in m):
        return False
    r = shift_form(e)
    return r.key != e.key and _prove(r, 0, [budget])


def shift_form(e):
    """sums over [0, n) split at absolute values and rewritten to prefix
    sums of a summand whose index offset is canonical"""
    out = []
    for m, c in e.t.items():
        p = num(c)
        for a, x in m:
            f = A(a)
            if a.kind == 'sum' and x == 1:
                f = _shift_sum(a, 0)
            p = mul(p, power(f, F(x)) if x != 1 else f)
        out.append(p)
    return esum(out)


def _shift_sum(a, depth):
    vs, body = a.args
    if depth > 12:
        return A(a)
    # fresh names: the canonical ones must not be captured
    ren, nvs = {}, []
    for v in vs:
        nv = fresh_var('z', subst(v.args[1], ren) if ren else v.args[1])
        ren[v] = A(nv)
        nvs.append(nv)
    body = subst(body, ren)

    def wrap(b, but, bound, f):
        # sum over the remaining variables
        r = mk_sum(but, bound, b) if f is None else f
        for w in reversed(nvs):
            if w is not but:
                r = mk_sum(w, w.args[1], r)
        return r
    for v in nvs:
        n = v.args[1]
        if any(v in w.args[1].vars for w in nvs):
            continue
        for x in sorted(all_atoms(body, v), key=lambda q: q.key):
            if x.kind != 'abs':
                continue
            co = lin_coeff(x.args[0], v)
            if co is None or co[0].const() is None or \
                    abs(co[0].const()) != 1:
                continue
            cut = scale(co[1], -1 / co[0].const())
            if any(w in cut.vars for w in nvs) or not is_int(cut):
                continue
            if not (nonneg(cut) and nonneg(n - cut)):
                continue
            u = fresh_var('z', cut)
            w = fresh_var('z', n - cut)
            lo = mk_sum(u, cut, deep_refresh(subst(body, {v: A(u)})))
            hi = mk_sum(w, n - cut, deep_refresh(subst(
                body, {v: cut + A(w)})))
            r = wrap(None, v, None, lo + hi)
            return _again(r, depth)
    for v in nvs:
        n = v.args[1]
        if any(v in w.args[1].vars for w in nvs):
            continue
        offs = {}
        ats = all_atoms(body, v)
        if any(x.kind not in ('el', 'uf', 'exp', 'log', 'pow', 'var')
               for x in ats):
            continue       # conditional simplification depends on the range
        for x in ats:
            if x.kind != 'el':
                continue
            for y in x.args[1:]:
                if v not in y.vars:
                    continue
                co = lin_coeff(y, v)
                if co is None or any(w in co[0].vars for w in nvs):
                    continue
                if co[0].const() is not None:
                    q = scale(co[1], 1 / co[0].const())
                else:
                    q, _ = _pdivide(co[1], co[0])
                q = E({m: c for m, c in q.t.items() if not any(
                    w in z.vars for z, _ in m for w in nvs)})
                if is_int(q):
                    offs[q.key] = q
        best = None
        w = atom('var', 'zz', sym('inf$', 'int', 'ge1', 'pos'))
        for o in offs.values():
            for sg in (1, -1):
                b = subst(body, {v: scale(A(w), sg) - o})
                k = (len(b.key), b.key)
                if best is None or k < best[0]:
                    best = (k, o, sg)
        if best is None or not best[1].t and best[2] == 1:
            continue
        _, o, sg = best
        w = fresh_var('z', n)
        b = subst(body, {v: scale(A(w), sg) - o})
        if sg == 1:
            r = mk_sum(w, n + o, b) - mk_sum(w, o, b)
        else:
            r = mk_sum(w, ONE - o, b) - mk_sum(w, ONE - o - n, b)
        return _again(wrap(None, v, None, r), depth)
    return A(a)


def _again(e, depth):
    out = []
    for m, c in e.t.items():
        p = num(c)
        for a, x in m:
            f = A(a)
            if a.kind == 'sum' and x == 1:
                f = _shift_sum(a, depth + 1)
            p = mul(p, power(f, F(x)) if x != 1 else f)
        out.append(p)
    return esum(out)


def _deep_atoms(e):
    """all atoms of e outside binders (no bound variables)"""
    acc = {}

    def go(x):
        if isinstance(x, E):
            for m in x.t:
                for a, _ in m:
                    go(a)
        elif isinstance(x, Atom):
            if x in acc or any(v.args[0][0] == '#' for v in x.vars):
                # still look inside for closed parts
                if x in acc:
                    return
            acc[x] = not any(v.args[0][0] == '#' for v in x.vars)
            if x.kind == 'var':
                return
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(e)
    return [a for a, ok in acc.items() if ok]


_DUMMY = None


def deep_refresh(e):
    """re-normalise every nested atom under the current facts"""
    global _DUMMY
    if _DUMMY is None:
        _DUMMY = atom('sym', 'dummy$', ())
    return subst(e, {_DUMMY: A(_DUMMY)})


def _int_base(a):
    return a.kind in ('var', 'sym') and is_int_atom(a) and nn_atom(a)


def _prove(e, depth, bud):
    if not e.t:
        return True
    e = clear_denoms(e)
    if not e.t:
        return True
    bud[0] -= 1
    if depth > 16 or bud[0] < 0:
        return False
    # a factor common to no case: pick a split atom
    pick = None
    for m in e.t:
        for a, x in m:
            if a.kind in ('ind', 'truth') or (
                    a.kind == 'red' and a.args[0] == 'any'):
                k = (0 if a.kind == 'ind' and a.args[0] == 'eq' else 1,
                     len(a.key), a.key)
                if pick is None or k < pick[0]:
                    pick = (k, a)
    if pick is None:
        for a in _deep_atoms(e):
            if a.kind == 'ind':
                k = (0, len(a.key), a.key)
                if pick is None or k < pick[0]:
                    pick = (k, a)
    if pick is not None:
        a = pick[1]
        return _prove_case(e, a, 1, depth, bud) and \
            _prove_case(e, a, 0, depth, bud)
    # integer division with undecided sign / wrap-around
    cands = []
    for a in _deep_atoms(e):
        if a.kind in ('mod', 'floordiv') and is_int(a.args[0]) and \
                is_int(a.args[1]):
            num_, den = a.args
            for c in (num_, num_ - den):
                i = ind('lt', c)
                for at in i.atoms():
                    if at.kind == 'ind':
                        cands.append(at)
    seen = set()
    for at in sorted(cands, key=lambda a: (len(a.key), a.key)):
        if at in seen:
            continue
        seen.add(at)
        if len(seen) > 3:
            break
        if _prove_case(e, at, 1, depth + 3, bud) and \
                _prove_case(e, at, 0, depth + 3, bud):
            return True
    # an empty index range: split on a symbolic size being zero
    return False


def _prove_case(e, a, val, depth, bud):
    n0 = len(FACTS)
    saved = list(FACTS)
    try:
        r = set_ind(e, a, val)
        s = {}
        if a.kind == 'ind' and a.args[0] == 'eq':
            f = a.args[1]
            if val:
                sol = _solve_any(f)
                if sol is not None:
                    s[sol[0]] = sol[1]
            elif len(f.t) == 1:
                (m, c), = f.t.items()
                if len(m) == 1 and m[0][1] == 1 and _int_base(m[0][0]):
                    s[m[0][0]] = _shifted(m[0][0])
            elif is_int(f) and (nonneg(f) or nonneg(neg(f))):
                FACTS.append(f - 1 if nonneg(f) else neg(f) - 1)
            elif is_int(f) and any(
                    b.kind == 'ind' and b.args[0] == 'lt' and (
                        (b.args[1] - f).const() is not None or
                        (b.args[1] + f).const() is not None)
                    for m in r.t for b, _ in m):
                # f != 0: f < 0 or f > 0
                for g in (f - 1, neg(f) - 1):
                    FACTS.append(g)
                    _refact()
                    ok = nonneg(neg(g) - 1) or _prove(
                        deep_refresh(r), depth + 1, bud)
                    reset_facts(saved)
                    if not ok:
                        return False
                return True
        elif a.kind == 'ind':
            f = a.args[1]
            g = neg(f) if val else f
            if val and is_int(f):
                g = g - 1
            # x <= 0 for a non-negative integer pins it
            if len(g.t) == 1 and is_int(g):
                (m, c), = g.t.items()
                if c < 0 and len(m) == 1 and m[0][1] == 1 and \
                        _int_base(m[0][0]):
                    s[m[0][0]] = ZERO
            FACTS.append(g)
            if is_int(g) and positive(neg(g)):
                return True      # contradictory case
        _refact()
        if a.kind == 'ind' and nonneg(neg(FACTS[-1]) - 1) if len(
                FACTS) > n0 else False:
            return True
        if not s and a.kind == 'ind' and a.args[0] == 'lt' and len(
                FACTS) > n0 and nonneg(neg(FACTS[-1])):
            sol = _solve_any(FACTS[-1])      # squeezed to zero
            if sol is not None:
                s[sol[0]] = sol[1]
        if s:
            r = subst(r, s)
            for i in range(len(FACTS)):
                FACTS[i] = subst(FACTS[i], s)
                c = FACTS[i].const()
                if c is not None and c < 0:
                    return True   # contradictory case
            _refact()
        r = deep_refresh(r)
        return _prove(r, depth + 1, bud)
    finally:
        reset_facts(saved)





def _shifted(a):
    if a.kind == 'var':
        return A(fresh_var('h', a.args[1] - 1)) + 1
    nm, at = a.args
    at = tuple(x for x in at if x not in ('pos', 'ge1'))
    return A(atom('sym', nm + "'", at)) + 1


def _solve_any(f):
    """solve f == 0 for a variable, else for a symbol"""
    best = None
    for m, c in f.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('var', 'sym'):
            x = m[0][0]
            if x.kind == 'var' and x.args[0][0] == '#':
                continue
            co = lin_coeff(f, x)
            if co is None or not co[0].const():
                continue
            t = scale(co[1], -1 / co[0].const())
            if x in t.vars or x in t.syms:
                continue
            if is_int_atom(x) and not is_int(t):
                continue
            k = (0 if x.kind == 'var' else 1, x.key)
            if best is None or k < best[0]:
                best = (k, x, t)
    return best and best[1:]


def _assume(e, a, val):
    r = set_ind(e, a, val)
    if a.kind == 'ind' and a.args[0] == 'eq' and val:
        sol = solve_eq(a)
        if sol is not None:
            r = subst(r, {sol[0]: sol[1]})
        else:
            # solve for a symbol
            for m, c in a.args[1].t.items():
                if len(m) == 1 and m[0][1] == 1 and \
                        m[0][0].kind == 'sym':
                    co = lin_coeff(a.args[1], m[0][0])
                    if co and co[0].const() and m[0][0] not in co[1].syms:
                        r = subst(r, {m[0][0]: scale(
                            co[1], -1 / co[0].const())})
                        break
    if a.kind == 'ind' and a.args[0] == 'lt':
        f = neg(a.args[1]) if val else a.args[1]
        if val and is_int(f):
            f = f - 1
        push_fact(f)
        try:
            r = refresh(r)
        finally:
            pop_fact()
    return r


def refresh(e):
    """re-normalise indicators under current facts"""
    out = []
    for m, c in e.t.items():
        p = num(c)
        for a, x in m:
            if a.kind == 'ind':
                p = mul(p, ind(a.args[0], a.args[1]))
            elif a.kind == 'abs':
                p = mul(p, power(absE(a.args[0]), F(x)))
            else:
                p = mul(p, power(A(a), F(x)))
            if not p.t:
                break
        out.append(p)
    return esum(out)


# ---------------------------------------------------------------- display
def show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'var':
        return a.args[0]
    if k in ('el',):
        return '%s[%s]' % (a.args[0], ','.join(map(show, a.args[1:])))
    if k == 'uf':
        return '%s(%s)' % (a.args[0], ','.join(map(show, a.args[1:])))
    if k == 'sum':
        return 'sum{%s}(%s)' % (','.join('%s<%s' % (v.args[0], show(
            v.args[1])) for v in a.args[0]), show(a.args[1]))
    if k == 'red':
        return '%s{%s<%s}(%s)' % (a.args[0], a.args[1][0].args[0], show(
            a.args[1][0].args[1]), show(a.args[2]))
    if k == 'ind':
        return '[%s %s 0]' % (show(a.args[1]),
                              '<' if a.args[0] == 'lt' else '==')
    if k == 'unk':
        return '?%s' % a.args[1]
    if k == 'prime':
        return str(a.args[0])
    if k == 'pow':
        return '(%s)' % show(a.args[0])
    return '%s(%s)' % (k, ','.join(
        show(x) if isinstance(x, E) else repr(x) for x in a.args))


def show(e, limit=1200):
    if not isinstance(e, E):
        return repr(e)
    if not e.t:
        return '0'
    parts = []
    for m, c in sorted(e.t.items(), key=lambda p: [x[0].key for x in p[0]]):
        s = '*'.join(show_atom(a) + ('' if x == 1 else '^' + (
            str(x) if F(x).denominator == 1 and x > 0 else '(%s)' % x))
            for a, x in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        parts.append(s)
    r = ' + '.join(parts)
    return r if len(r) <= limit else r[:limit] + '...'


# ------------------------------------------------- valuation of terms
class Valuation:
    """a random valuation of symbols and tensors (terms only)"""

    def __init__(self, seed, sizes=(1, 2, 3), special=False, fixed=None,
                 near=(), skew=False):
        self.near = near      # thresholds mentioned by the terms
        self.skew = skew      # every name has a magnitude of its own
        self.steps = 60000
        self.seed = seed
        self.closed = {}      # values of atoms without bound variables
        self.vals = {}
        self.rng = random.Random(seed)
        self.sizes = sizes
        self.syms = {}
        self.special = special
        self.fixed = fixed or {}

    def _h(self, *k):
        return random.Random(str((self.seed,) + k))

    def val(self, name, attrs, args=()):
        k = (name, args)
        if k not in self.vals:
            self.vals[k] = self._val(name, attrs, args)
        return self.vals[k]

    def _val(self, name, attrs, args):
        r = self._h(name, args)
        if 'int' in attrs:
            if 'bool' in attrs:
                return r.randint(0, 1)
            lo = 1 if ('ge1' in attrs or 'pos' in attrs) else (
                0 if 'nn' in attrs else -2)
            if self.near and r.random() < .4:
                c = int(r.choice(self.near)) + r.randint(-1, 2)
                if c >= lo:
                    return c
            return r.choice([x for x in self.sizes if x >= lo] +
                            ([0, 0] if lo <= 0 else []))
        if self.near and r.random() < .5:
            c = float(r.choice(self.near)) + r.choice(
                (0, r.uniform(-.5, .5), r.uniform(-2, 2)))
            c *= r.choice((1, 1, r.uniform(0, 1)))
            if 'pos' in attrs and c <= 0 or 'nn' in attrs and c < 0:
                c = abs(c) + (1e-3 if 'pos' in attrs else 0)
            return c
        if self.special and r.random() < .35:
            return float(r.choice([1, 2, 3] if 'pos' in attrs else
                                  [0, 1, 2] if 'nn' in attrs
                                  else [0, 1, -1, 2, -2]))
        k = 10 ** self._h('scale', name).uniform(-1, 1) \
            if self.skew else 1
        if 'pos' in attrs or 'nn' in attrs:
            return r.uniform(.2, 3) * k
        return r.uniform(-2, 2) * k


class EvalFail(Exception):
    pass


def evaluate(e, V, env=None):
    env = env or {}
    tot = 0.0
    for m, c in e.t.items():
        p = float(c) if c.denominator != 1 else int(c)
        for a, x in sorted(m, key=lambda q: q[0].kind not in (
                'ind', 'truth')):
            y = ev_atom(a, V, env)
            if y == 0 and x > 0:
                p = 0
                break
            if x != 1:
                try:
                    if F(x).denominator == 1:
                        y = y ** int(x)
                    else:
                        if y < 0:
                            raise EvalFail('neg root')
                        y = y ** float(x)
                except ZeroDivisionError:
                    raise EvalFail('div0')
                except OverflowError:
                    raise EvalFail('ovf')
            p = p * y
        tot += p
    if isinstance(tot, complex) or tot != tot:
        raise EvalFail('nan')
    return tot


def _iround(x):
    r = round(x)
    return r if abs(x - r) < 1e-6 else x


def thresholds(es, cap=10 ** 5):
    """constants that comparisons, divisions and bounds mention"""
    out, seen, todo = set(), set(), list(es)
    while todo and len(seen) < 5000:
        e = todo.pop()
        if isinstance(e, E):
            for m, c in e.t.items():
                if not m and abs(c) <= cap:
                    out.add(abs(c))
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        todo.extend(a.args)
        elif isinstance(e, Atom):
            if e not in seen:
                seen.add(e)
                todo.extend(e.args)
        elif isinstance(e, tuple):
            todo.extend(e)
    return tuple(sorted(out))


def ev_atom(a, V, env):
    if env:
        return _ev_atom(a, V, env)
    r = V.closed.get(a)
    if r is None:
        r = V.closed[a] = _ev_atom(a, V, env)
    return r


def _ev_atom(a, V, env):
    V.steps -= 1
    if V.steps < 0:
        raise EvalFail('too long')
    k = a.kind
    if k == 'var':
        if a in env:
            return env[a]
        # free variable: random within its bound
        b = int(_iround(evaluate(a.args[1], V, env)))
        if b <= 0:
            raise EvalFail('empty')
        return V._h('var', a.args[0]).randrange(b)
    if k == 'sym':
        if a.args[0] in V.fixed:
            return V.fixed[a.args[0]]
        if a.args[0] == 'pi':
            return math.pi
        if a.args[0] == 'inf':
            return 1e9
        if a.args[0] == 'nan':
            raise EvalFail('nan')
        return V.val(a.args[0], a.args[1])
    if k == 'unk':
        raise EvalFail('unk')
    if k == 'prime':
        return float(a.args[0])
    if k == 'el':
        ix = tuple(round(evaluate(x, V, env), 6) + 0.0 for x in a.args[1:])
        return V.val(a.args[0], TENSOR.get(a.args[0], ()), ix)
    if k == 'uf':
        # smooth in its real arguments, arbitrary in exact integers
        xs = [evaluate(x, V, env) for x in a.args[1:]]
        if a.args[0] in ('pow2above', 'bitlen'):
            n = int(_iround(xs[0])).bit_length()
            return 2 ** n if a.args[0] == 'pow2above' else n
        r = V._h('uf', a.args[0])
        s = r.uniform(-1, 1)
        for x in xs:
            s += math.cos(r.uniform(.5, 2) * x + r.uniform(0, 3)) * \
                r.uniform(.5, 1.5)
        at = TENSOR.get(a.args[0], ())
        if 'pos' in at or 'nn' in at:
            s = abs(s) + .1
        if 'int' in at:
            s = int(round(s * 3))
        return s
    if k == 'exp':
        try:
            return math.exp(evaluate(a.args[0], V, env))
        except OverflowError:
            raise EvalFail('ovf')
    if k == 'log':
        x = evaluate(a.args[0], V, env)
        if x <= 0:
            raise EvalFail('log')
        return math.log(x)
    if k in ('sin', 'cos'):
        return getattr(math, k)(evaluate(a.args[0], V, env))
    if k == 'abs':
        return abs(evaluate(a.args[0], V, env))
    if k == 'pow':
        return evaluate(a.args[0], V, env)
    if k == 'floor':
        return math.floor(evaluate(a.args[0], V, env) + 1e-12)
    if k == 'trunc':
        return math.trunc(evaluate(a.args[0], V, env))
    if k == 'pow2ceil':
        n = int(_iround(evaluate(a.args[0], V, env)))
        return 1 << max(n - 1, 0).bit_length()
    if k == 'ind':
        x = evaluate(a.args[1], V, env)
        if a.args[0] == 'lt':
            return 1 if x < -1e-9 else 0
        return 1 if abs(x) < 1e-9 else 0
    if k == 'truth':
        xs = []
        for x in a.args[1:]:
            if isinstance(x, E):
                xs.append(round(evaluate(x, V, env), 6) + 0.0)
            else:
                xs.append(x)
        return V._h('truth', a.args[0], tuple(xs)).randint(0, 1)
    if k == 'floordiv':
        d = evaluate(a.args[1], V, env)
        if d == 0:
            raise EvalFail('div0')
        return math.floor(_iround(evaluate(a.args[0], V, env)) / d + 1e-12)
    if k == 'mod':
        d = evaluate(a.args[1], V, env)
        if d == 0:
            raise EvalFail('div0')
        x = _iround(evaluate(a.args[0], V, env))
        return x - d * math.floor(x / d + 1e-12)
    if k == 'blk':
        lam, i, tot = a.args
        n = int(_iround(evaluate(tot, V, env)))
        i = evaluate(i, V, env)
        s = 0
        for b in range(n):
            env2 = dict(env)
            env2[canon_var()] = b
            s += evaluate(lam[1], V, env2)
            if i < s - 1e-9:
                return b
        raise EvalFail('blk')
    if k == 'sum':
        vs, body = a.args

        def rec(j, env):
            if j == len(vs):
                return evaluate(body, V, env)
            n = int(_iround(evaluate(vs[j].args[1], V, env)))
            if n > 60:
                raise EvalFail('big')
            t = 0
            for i in (range(n) if n >= 0 else range(n, 0)):
                e2 = dict(env)
                e2[vs[j]] = i
                t += rec(j + 1, e2)
            return t if n >= 0 else -t
        return rec(0, env)
    if k == 'red':
        op, (v,), body = a.args
        n = int(_iround(evaluate(v.args[1], V, env)))
        xs = []
        for i in range(n):
            e2 = dict(env)
            e2[v] = i
            xs.append(evaluate(body, V, e2))
        if op == 'any':
            return 1 if any(xs) else 0
        if op == 'prod':
            return math.prod(xs)
        if op == 'last':
            if not xs:
                raise EvalFail('last')
            return xs[-1]
        if not xs:
            raise EvalFail('empty reduction')
        if op == 'max':
            return max(xs)
        if op == 'min':
            return min(xs)
        raise EvalFail(op)
    if k.startswith('fn_'):
        xs = []
        for x in a.args:
            xs.append(evaluate(x, V, env) if isinstance(x, E) else x)
        if k == 'fn_gammaln':
            if xs[0] <= 0:
                raise EvalFail('gammaln')
            return math.lgamma(xs[0])
        r = V._h('fn', k)
        s = r.uniform(-1, 1)
        for x in xs:
            if isinstance(x, (int, float)):
                s += math.cos(r.uniform(.5, 2) * x + r.uniform(0, 3))
        return s
    raise EvalFail('no valuation for ' + k)


def compare(a, b, fixed=None, trials=24, assume=()):
    """'eq' (same normal form) | 'ne' (differ, with witness valuation)
    | 'unk' (not understood / no witness)"""
    d = a - b
    if not d.unk and is_zero(d):
        return 'eq', None
    if not d.t:
        return 'eq', None
    if d.unk:
        return 'unk', 'unmodelled: ' + '; '.join(unk_reasons(d)[:3])
    near = ()
    t0 = time.time()
    for s in range(20 * trials):
        if s >= 2 * trials and time.time() - t0 > 4:
            break
        if s == trials:
            near = thresholds((a, b))
        sz = (1, 2, 3) if s % 2 else (2, 3)
        V = Valuation(s, sizes=sz + (4, 5) if near else sz,
                      special=s % 3 == 2, fixed=fixed, near=near,
                      skew=s % 4 == 3)
        try:
            if any(evaluate(c, V) < .5 for c in assume):
                continue
            if any(evaluate(f, V) < -1e-9 for f in FACTS):
                continue
            V.steps = 60000
            x, y = evaluate(a, V), evaluate(b, V)
        except EvalFail:
            continue
        except (OverflowError, RecursionError):
            continue
        if abs(x - y) > (1e-4 if V.skew else 1e-6) * (1 + abs(x) + abs(y)):
            return 'ne', 'difference: %s' % show(d, 400)
        if len(d.t) <= 3 and _small(d, V, 1e-11 * (1 + abs(x) + abs(y))):
            return 'ne', 'difference: %s' % show(d, 400)
    return 'unk', 'normal forms differ but no distinguishing valuation'


def _small(d, V, floor):
    """a tiny difference that is not the residue of a cancellation: its few
    terms add up to something of their own magnitude"""
    try:
        z = evaluate(d, V)
        parts = [abs(evaluate(E({m: c}), V)) for m, c in d.t.items()]
    except (EvalFail, OverflowError, RecursionError):
        return False
    return abs(z) > floor and abs(z) > 1e-4 * max(parts)


PI = sym('pi', 'pos')


def sqrt(e):
    return power(e, F(1, 2))
