"""What a model answers: every public query, flattened to numbers, so that two
models (or one model at two moments) can be compared term by term."""
import itertools

from .llgp import *
from .c06 import Real, linked, owner
from engine import models_np as NP

FKQ = 'runlmc.lmc.functional_kernel.FunctionalKernel'
PROBES = 100000


class Chol(NP.Cho):
    """Cholesky factor with the diagonal named after the matrix entries"""
    nm = None

    def getitem(self, I, ix):
        c = ix.const() if isinstance(ix, E) else None
        if c not in (0, -2):
            return NP.Cho.getitem(self, I, ix)

        def f(q):
            e = ind('eq', q[0] - q[1])
            return e * el(tensor('d' + self.nm, 'pos'), q[0]) + (
                ONE - e) * el(self.nm, *q)
        return I.new_arr(self.K.shape, f)


def chol_stub():
    names = {}

    def stub(I, args, kw):
        r = NP.la_cho_factor(I, *args, **kw)
        if not isinstance(r, NP.Cho):
            return r
        n = r.K.shape[0].const()
        if n is None:
            return r
        es = [I.toE(I.at1(r.K, (num(i), num(j)))) for i in range(int(n))
              for j in range(int(n))]
        if any(e.unk for e in es):
            return I.unk('factor of %s' % unk_reasons(es[0])[:1])
        key = tuple(e.key for e in es)
        f = Chol(r.K, r.lower)
        f.nm = names.setdefault(key, 'chol%d' % len(names))
        return f
    return stub


class World:
    """what two compared models have in common: contracts and naming"""

    def __init__(self):
        self.solve = Solve()
        self.cho = chol_stub()
        T.DISTINCT[0] = distinct

    def stubs(self):
        return {'scipy.linalg.cho_factor': self.cho}


def leaves(I, v, path=''):
    """(path, term) for every number in a value"""
    if isinstance(v, E):
        return [(path, v)]
    if isinstance(v, bool):
        return [(path, num(int(v)))]
    if v is None:
        return []
    if isinstance(v, Choice):
        a = I.as_arr(v)
        if not isinstance(a, Arr):
            live = [x for c, x in v.alts if I.chk.satisfiable(c) is not False]
            if len(live) != 1:
                raise Skip('answer %s has several forms' % path)
            a = live[0]
        return leaves(I, a, path)
    if isinstance(v, (MX.Csr, AMat)):
        n, m = [int(s.const()) for s in shp(I, v)]
        return [('%s[%d,%d]' % (path, i, j), ent(I, v, num(i), num(j)))
                for i in range(n) for j in range(m)]
    if isinstance(v, ORef) and not I.is_param(v):
        raise Skip('answer %s is an object' % path)
    if not isinstance(v, Arr):
        xs = items(I, v)
        if xs is not None:
            out = []
            for i, x in enumerate(xs):
                out += leaves(I, x, '%s[%d]' % (path, i))
            return out
    a = I.as_arr(v)
    if not isinstance(a, Arr) or any(s.const() is None for s in a.shape):
        raise Skip('answer %s not enumerable: %r' % (path, v))
    out = []
    for ix in itertools.product(*[range(int(s.const())) for s in a.shape]):
        out.append(('%s%s' % (path, list(ix)), I.toE(I.at1(a, tuple(
            num(i) for i in ix)))))
    return out


def queries(m, tlens, grads=True):
    """name -> function computing the answer afresh"""
    I, o = m.I, m.o

    def kern(name):
        return lambda: I.method(I.getattr(o, 'kernel'), name)

    def cov():
        return I.getattr(I.getattr(o, 'kernel'), 'K')

    def xs():
        return m.da.Xs(I, 'Z', tlens)
    q = {'predict': lambda: I.method(o, 'predict', xs()),
         'predict_quantiles': lambda: I.method(
             o, 'predict_quantiles', xs(), I.new_list((Item(
                 T.num(5)), Item(T.num(60))))),
         'log_likelihood': lambda: I.method(o, 'log_likelihood'),
         'log_det_K': lambda: I.method(o, 'log_det_K'),
         'normal_quadratic': lambda: I.method(o, 'normal_quadratic'),
         'K': lambda: I.method(o, 'K'),
         'covariance operator': cov}
    if grads:
        for n in ('coreg_vec_gradients', 'coreg_diags_gradients',
                  'kernel_gradients', 'noise_gradient'):
            q[n] = kern(n)
    return q


def same(chk, name, anchor, Ia, a, Ib, b, assume=(), flip=False):
    """values a and b (of interpreters Ia, Ib) are the same numbers"""
    la = a if isinstance(a, list) else leaves(Ia, a)
    lb = b if isinstance(b, list) else leaves(Ib, b)
    if sum(p.count(',') + p.count('[') for p, _ in la) != sum(
            p.count(',') + p.count('[') for p, _ in lb):
        return chk.holds(name, anchor, False, 'different structure: %s / %s'
                         % ([p for p, _ in la][:6], [p for p, _ in lb][:6]))
    und = None
    for (p, x), (_, y) in zip(la, lb):
        if x == y and not x.unk:
            continue
        r, info = chk.cmp(x, y, assume)
        if r == 'ne':
            return chk.holds(name, anchor, False, '%s: %s' % (p, info))
        if r != 'eq':
            und = '%s: %s' % (p, info)
    return chk.holds(name, anchor, True if und is None else None, und or
                     '%d numbers' % len(la))


def reparameterise(m):
    """new values for every registered parameter, written in place"""
    I, fk = m.I, m.fk
    ps = linked(I, m.o)
    if ps is None:
        raise Skip('registered parameters not enumerable')
    m.places = [p for p in ps if I.is_param(p)]
    return m.places


NEAR = '~'


def distinct(e):
    """the difference of one parameter's values in two generations: a change
    by more than any rounding"""
    if len(e.t) != 2 or sorted(e.t.values()) != [-1, 1]:
        return False
    ns = []
    for mono in e.t:
        if len(mono) != 1 or mono[0][1] != 1:
            return False
        at = mono[0][0]
        n = str(at.args[0]) if at.kind == 'el' else ''
        if not n.startswith('theta'):
            return False
        ns.append(n)
    return ns[0] != ns[1] and ns[0].rstrip("'") == ns[1].rstrip("'")


def write(m, gen, only=None):
    """write generation gen of the parameter values in place, as an
    optimiser does (no setter is involved)"""
    I = m.I
    I.noevents += 1
    for j, p in enumerate(m.places):
        if only is not None and j != only:
            continue
        a = I.param_arr(p)
        if gen == NEAR:      # almost the first values
            t = tensor('theta%d' % j, 'pos')
            I.write_arr(a, lambda ix, t=t: el(t, *ix) * num(
                F(2 ** 17 + 1, 2 ** 17)))
        else:
            t = tensor('theta%d%s' % (j, gen), 'pos')
            I.write_arr(a, lambda ix, t=t: el(t, *ix))
    for k in m.cfg.kernels:
        if only is not None or gen == NEAR:
            continue
        rec = I.heap[k.id].copy()
        rec.attrs['verif_gen'] = gen
        I.heap[k.id] = rec
    I.noevents -= 1


def update(m):
    NP._rng[0] = PROBES      # the probes of every update have the same names
    m.update()
