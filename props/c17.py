"""C17: the iterative solver answers the question asked or says so."""
from .components import *
from .mats import AMat

RULE = ('Abstract interpretation of the solver with the library iteration '
        'known by contract (it reports an arbitrary sequence of iterates to '
        'the callback and ends with an arbitrary one and an arbitrary status): '
        'the system handed over, the returned solution as a gated combination '
        'of the iterates, the reported statistics and the path condition of '
        'the critical log entry are compared in normal form with what the '
        'residuals of those iterates demand.')
Q = 'runlmc.approx.iterative.Iterative.solve'
BUDGET = 240
N = 2


def atom_of(e):
    (m, _), = e.t.items()
    return m[0][0]


class Iterates:
    def __init__(self):
        self.x = {}

    def __getitem__(self, k):
        if k not in self.x:
            self.x[k] = [sym('it%s_%d' % (k, i)) for i in range(N)]
        return self.x[k]

    def __iter__(self):
        return iter(list(self.x))

    def coef(self, e, k=None):
        """how much of the k-th iterate is in e, per component (k None: what
        does not come from an iterate)"""
        own = {atom_of(v) for x in self.x.values() for v in x}
        at = [atom_of(v) for v in self.x[k]] if k is not None else None
        out = [{} for _ in range(N)] if at else {}
        for m, c in e.t.items():
            mine = [(a, x) for a, x in m if a in own]
            if at is None:
                if not mine:
                    out[m] = c
            elif len(mine) == 1 and mine[0][1] == 1 and mine[0][0] in at:
                out[at.index(mine[0][0])][tuple(
                    y for y in m if y[0] not in own)] = c
        return E(out) if at is None else [E(o) for o in out]


class System(Abs):
    """an arbitrary matrix; its product with the k-th iterate has a name of
    its own, so that residuals are free of the iterates themselves"""
    cls = None

    def __init__(self, its, pre=None):
        self.its, self.pre = its, pre
        self.shape = (num(N), num(N))

    def subst(self, s):
        return self

    def key(self):
        return ('system',)

    def isinst(self, I, k):
        return ONE if isinstance(k, PyClass) and k.qual in (
            'runlmc.linalg.matrix.Matrix',
            'runlmc.linalg.symmetric_matrix.SymmetricMatrix') else ZERO

    def dot(self, I, x):
        x = I.as_arr(x)
        if not isinstance(x, Arr) or x.ndim != 1:
            return I.unk('product with something else')
        v = [I.toE(I.at1(x, (num(i),))) for i in range(N)]
        out = [ZERO] * N
        if any(e.unk for e in v):
            return I.unk('product')
        for k in self.its:
            c = [self.its.coef(e, k) for e in v]
            if not c[0][0].t:
                continue
            if not T.prove_zero(c[0][0] - c[1][1]) or c[0][1].t or c[1][0].t:
                return I.unk('product with a mixture')
            for j in range(N):
                out[j] = out[j] + c[0][0] * sym('K%s_%d' % (k, j))
        rest = [self.its.coef(e) for e in v]
        for j in range(N):
            for i in range(N):
                out[j] = out[j] + el('K', num(j), num(i)) * rest[i]
        return I.new_arr((num(N),), lambda ix: pick(out, ix[0]))

    def getattr(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'as_linear_operator':
            return Native(lambda I2, a, k: self, name)
        if name in ('matvec', 'dot', '__call__', '_matvec'):
            return Native(lambda I2, a, k: self.dot(I2, a[0]), name)
        if name == 'dtype':
            return Ext('numpy.float64')
        if name == 'preconditioner':
            if self.pre is None:
                I.event('missing_attr', name=name)
            return self.pre
        return I.unk('system .' + name)

    def hasattr(self, I, name):
        return name in ('shape', 'as_linear_operator', 'matvec', 'dtype') or \
            name == 'preconditioner' and self.pre is not None

    def binop(self, I, op, y, rev):
        if op in (ast.MatMult, ast.Mult) and not rev:
            return self.dot(I, y)
        return I.unk('system arithmetic')


def pick(xs, i):
    c = i.const()
    if c is not None:
        return xs[int(c)]
    return sum((ind('eq', i - k) * x for k, x in enumerate(xs)), ZERO)



class Run:
    """one solve: the library method reports the iterates 1..steps"""

    def __init__(self, chk, steps, verbose, minres, tol=None, extra=()):
        self.chk, self.steps = chk, steps
        self.its = Iterates()
        self.its['end']
        self.calls = []
        self.I = I = chk.interp({
            'scipy.sparse.linalg.' + n: lambda I, a, k, n=n: self.method(
                I, n, a, k) for n in ('minres', 'cg', 'gmres', 'bicgstab',
                                      'lgmres', 'bicg', 'cgs', 'qmr')})
        I.log_level = 30
        self.K = System(self.its, *extra)
        self.y = I.new_arr((num(N),), lambda ix: el('y', *ix))
        self.tol = sym('tol', 'pos') if tol is None else tol
        self.out = I.call(I.func(Q), (self.K, self.y), {
            'verbose': ONE if verbose else ZERO,
            'minres': ONE if minres else ZERO, 'tol': self.tol})

    def method(self, I, name, a, k):
        k = dict(zip(('op', 'y', 'x0'), a), **k)
        cb = k.get('callback')
        self.calls.append((name, dict(k), I.loc()))
        buf = None
        for i in range(1, self.steps + 1):
            v = self.its[i]
            if name == 'cg' and buf is not None:
                I.noevents += 1
                I.write_arr(buf, lambda ix, v=v: pick(v, ix[0]))
                I.noevents -= 1
            else:       # cg reports the array it works on, minres a new one
                buf = I.new_arr((num(N),), lambda ix, v=v: pick(v, ix[0]))
            if cb is not None:
                I.call(cb, (buf,), {})
            if I.dead:
                return None
        v = self.its['end']
        return (I.new_arr((num(N),), lambda ix: pick(v, ix[0])),
                sym('info', 'int'))

    def resid(self, k):
        return T.sqrt(sum(((el('y', num(j)) - sym('K%s_%d' % (k, j))) ** 2
                           for j in range(N)), ZERO))


def vec(I, a):
    a = I.as_arr(a)
    if not isinstance(a, Arr) or a.ndim != 1 or a.shape[0] != num(N):
        return None
    return [I.toE(I.at1(a, (num(i),))) for i in range(N)]


def handed(chk, r, tag, minres):
    I = r.I
    if len(r.calls) != 1:
        return chk.holds(tag + ': one solve', Q, None, '%d calls' % len(
            r.calls))
    name, k, loc = r.calls[0]
    chk.holds(tag + ': method', Q, name == ('minres' if minres else 'cg'),
              name, loc)
    y = vec(I, k.get('b', k.get('y')))
    if y is None:
        chk.holds(tag + ': right-hand side', Q, None, 'not a vector', loc)
    else:
        for i in range(N):
            chk.eq(tag + ': right-hand side [%d]' % i, Q, y[i], el(
                'y', num(i)), loc=loc)
    chk.eq(tag + ': no shift', Q, k.get('shift', ZERO) or ZERO, 0, loc=loc)
    op = k.get('A', k.get('op'))
    v = I.new_arr((num(N),), lambda ix: el('v', *ix))
    I.noevents += 1
    got = vec(I, I.method(op, 'matvec', v)) if not isinstance(
        op, Arr) else vec(I, I.models.binop(I, ast.MatMult, op, v))
    I.noevents -= 1
    for j in range(N):
        if got is None:
            chk.holds(tag + ': matrix', Q, None, 'operator not understood')
            break
        chk.eq(tag + ': matrix, row %d' % j, Q, got[j], sum((
            el('K', num(j), num(i)) * el('v', num(i)) for i in range(N)),
            ZERO), loc=loc)


def answered(chk, r, tag, verbose):
    """the returned solution is the last iterate, or one with a residual
    below the tolerance; returns the shares of the iterates"""
    I = r.I
    out = r.out
    if verbose:
        out = items(I, out) if not isinstance(out, tuple) else list(out)
        if out is None or len(out) != 3:
            chk.holds(tag + ': statistics', Q, None, repr(r.out)[:200])
            return None
    x = vec(I, out[0] if verbose else out)
    if x is None:
        chk.holds(tag + ': solution', Q, None, 'not a vector: %r' % (
            r.out,))
        return None
    share = {}
    tot = ZERO
    for k in r.its:
        c = [r.its.coef(e, k) for e in x]
        for i in range(N):
            if not c[i][i].t and not share.get(k):
                continue
            chk.eq(tag + ': iterate %s as a whole [%d]' % (k, i), Q,
                   c[i][i], c[0][0])
        if c[0][0].t:
            share[k] = c[0][0]
            tot = tot + c[0][0]
            if k != 'end':
                chk.eq(tag + ': stops at iterate %s only when it is good' % k,
                       Q, c[0][0] * ind('lt', r.tol - r.resid(k)), 0)
    chk.eq(tag + ': some iterate is returned', Q, tot, 1)
    for i in range(N):
        chk.eq(tag + ': nothing but iterates [%d]' % i, Q, r.its.coef(x[i]),
               0)
    if verbose:
        chk.eq(tag + ': iteration count', Q, out[1], sum((
            c * num(r.steps if k == 'end' else k) for k, c in
            share.items()), ZERO))
        chk.eq(tag + ': reported error', Q, out[2], sum((
            c * r.resid(k) for k, c in share.items()), ZERO))
    return share


def said(chk, r, tag, share):
    I = r.I
    c = ZERO
    for e in I.events:
        if e['kind'] == 'log' and e['level'] == 'critical' or e[
                'kind'] == 'log' and e['level'] in ('exception', 'fatal'):
            x = e['pc']
            for p in e['path']:
                x = x * p
            c = c + x - c * x
    end = share.get('end', ZERO)
    for k, s in share.items():
        bad = ind('lt', r.tol - r.resid(k))
        chk.eq(tag + ': a residual above the tolerance is reported '
               '(iterate %s)' % k, Q, s * bad * (ONE - c), 0)
    chk.eq(tag + ': a reported failure is passed on', Q, end * (
        ONE - ind('eq', sym('info', 'int'))) * (ONE - c), 0)


def run(chk):
    for verbose in (False, True):
        for minres in (True, False):
            for steps in (0, 1, 99, 100, 205):
                tag = '%s, %d steps%s' % ('minres' if minres else 'cg',
                                          steps, ', statistics' * verbose)
                with chk.section(tag, Q, limit=60):
                    r = Run(chk, steps, verbose, minres)
                    handed(chk, r, tag, minres)
                    s = answered(chk, r, tag, verbose)
                    if s is not None:
                        said(chk, r, tag, s)
                    accepted(chk, tag, Q, 0)
