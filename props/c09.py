"""C09: objective and its gradient combine likelihood and all priors."""
from .common import *

RULE = ('Abstract interpretation of the objective, the log prior and their '
        'gradients for every assignment of priors and constraints in an '
        'enumerated family over an arbitrary parameter vector, with '
        'arbitrary densities and Jacobian terms: compared in normal form '
        'with minus (likelihood + sum of log densities + Jacobian terms) '
        'and its derivative.')
Q = 'runlmc.parameterization.model.Model'


class Pr(Abs):
    """an arbitrary prior"""
    cls = None

    def __init__(self, k):
        self.k = k

    def key(self):
        return ('prior', self.k)

    def subst(self, s):
        return self

    def isinst(self, I, c):
        return ONE if isinstance(c, PyClass) and c.qual == \
            'runlmc.parameterization.priors.Prior' else ZERO

    def getattr(self, I, name):
        n = {'lnpdf': 'ln%d', 'lnpdf_grad': 'dln%d'}.get(name)
        if n is None:
            return I.unk('prior.' + name)
        return Native(lambda I2, a, k: I2.models.elementwise(
            I2, lambda e: uf(n % self.k, e), [a[0]]), name)


class Tr(Abs):
    """an arbitrary constraint; a transformation unless real is False"""
    cls = None

    def __init__(self, k, real=True):
        self.k, self.real = k, real

    def key(self):
        return ('constraint', self.k)

    def subst(self, s):
        return self

    def isinst(self, I, c):
        n = c.name if isinstance(c, Ext) else getattr(c, 'qual', '')
        return ONE if self.real and n.endswith('Transformation') else ZERO

    def getattr(self, I, name):
        n = {'log_jacobian': 'lj%d', 'log_jacobian_grad': 'dlj%d'}.get(name)
        if n is None or not self.real:
            return I.unk('constraint.' + name)
        return Native(lambda I2, a, k: I2.models.elementwise(
            I2, lambda e: uf(n % self.k, e), [a[0]]), name)


class Ops(Abs):
    """index operations: (property, positions) pairs"""
    cls = None

    def __init__(self, name, pairs):
        self.name, self.pairs = name, pairs

    def key(self):
        return ('ops', self.name)

    def subst(self, s):
        return self

    def one(self, I, p):
        return I.new_arr((num(len(p)),), lambda ix: sum(
            (ind('eq', ix[0] - n) * num(v) for n, v in enumerate(p)), ZERO),
            'int')

    def getattr(self, I, name):
        if name == 'size':
            return num(sum(len(p) for _, p in self.pairs))
        if name in ('items', 'iteritems'):
            return Native(lambda I2, a, k: I2.new_list(tuple(Item((
                o, self.one(I2, p))) for o, p in self.pairs)), name)
        if name in ('properties', 'keys'):
            return Native(lambda I2, a, k: I2.new_list(tuple(Item(
                o) for o, _ in self.pairs)), name)
        if name in ('indices', 'values'):
            return Native(lambda I2, a, k: I2.new_list(tuple(Item(
                self.one(I2, p)) for _, p in self.pairs)), name)
        return I.unk('index operations.' + name)


# size, priors' positions, constraints (positions, is a transformation)
CASES = [
    (3, [], []),
    (3, [], [([0, 2], True)]),
    (1, [[0]], []),
    (4, [[2]], [([0, 1, 2, 3], True)]),
    (4, [[0, 3]], [([1, 2], True)]),
    (4, [[1, 2]], [([0, 1], True), ([2, 3], True)]),
    (5, [[0], [3, 4]], [([0, 1, 3], True), ([2], False), ([4], True)]),
    (5, [[4], [0, 1]], [([1, 4], True), ([0], False)]),
    (3, [[0, 1, 2]], [([0, 1, 2], True)]),
    (6, [[5], [1], [0, 3]], [([0], True), ([1, 5], True), ([2], True),
                             ([3], False)]),
]


def run(chk):
    chk.strict = True
    for c in CASES:
        with chk.section('objective %s' % (c,), Q, limit=60):
            one(chk, *c)


def build(I, N, priors, cons):
    """a model with the given priors and constraints"""
    o = I.call(I.func(Q), ('m',), {})
    if not isinstance(o, ORef):
        raise Skip('model %r' % (o,))
    rec = I.heap[o.id].copy()
    rec.attrs['priors'] = Ops('priors', [(Pr(k), p) for k, p in enumerate(
        priors)])
    rec.attrs['constraints'] = Ops('constraints', [
        (Tr(k, r), p) for k, (p, r) in enumerate(cons)])
    rec.attrs['param_array'] = vector(I, 'theta', num(N))
    rec.attrs['gradient'] = vector(I, 'g', num(N))
    I.heap[o.id] = rec
    return o


def one(chk, N, priors, cons):
    L = sym('loglik')
    I = chk.interp({Q + '.log_likelihood': lambda I2, a, k: L})
    o = build(I, N, priors, cons)
    tag = '(%d parameters, priors at %s, constraints at %s)' % (
        N, priors, [p if r else 'fixed %s' % p for p, r in cons])
    th = [el('theta', num(i)) for i in range(N)]
    P = {i: k for k, p in enumerate(priors) for i in p}
    C = {i: k for k, (p, r) in enumerate(cons) for i in p if r}
    lp = ZERO
    for i in P:
        lp = lp + uf('ln%d' % P[i], th[i])
        if i in C:
            lp = lp + uf('lj%d' % C[i], th[i])

    def dlp(i):
        if i not in P:
            return ZERO
        t = uf('dln%d' % P[i], th[i])
        return t + uf('dlj%d' % C[i], th[i]) if i in C else t
    e0 = len(I.events)
    chk.eq('log prior ' + tag, Q + '.log_prior', I.toE(I.method(
        o, 'log_prior')), lp)
    chk.eq('likelihood with prior ' + tag, Q + '.log_likelihood_with_prior',
           I.toE(I.method(o, 'log_likelihood_with_prior')), L + lp)
    chk.eq('objective ' + tag, Q + '.objective_function', I.toE(I.method(
        o, 'objective_function')), -(L + lp))
    g = I.method(o, 'objective_function_gradients')
    chk.arr('objective gradient ' + tag, Q + '.objective_function_gradients',
            g, (num(N),), lambda ix: -(el('g', ix[0]) + dlp(int(
                ix[0].const() or 0))) if ix[0].const() is not None else
            -(el('g', ix[0])))
    w = I.heap[o.id].attrs
    for n, t in (('param_array', 'theta'), ('gradient', 'g')):
        chk.arr('%s is left alone %s' % (n, tag), Q, w[n], (num(N),),
                lambda ix: el(t, *ix))
    accepted(chk, 'the objective is available ' + tag, Q, 0)
