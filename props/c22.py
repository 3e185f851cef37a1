"""C22: the bundled optimiser is bounded, reusable and transparent."""
import itertools

from .lmcmodel import *

RULE = ('Abstract interpretation of the optimiser loop against an arbitrary '
        'sequence of gradients (the step generator known by contract): the '
        'condition under which each iteration is taken, derived from the '
        'source, is compared with the configured limits; the configuration '
        'handed to the step rule, the recorded result and a second run are '
        'compared with the first; exceptions raised by the fitting layer are '
        'followed to the caller.')
Q = 'runlmc.models.optimization.AdaDelta'
OWN = ('verbosity', 'min_grad_ratio', 'max_it', 'permitted_drops', 'callback')


class Info(Abs):
    """what the step generator reports; the step has been taken by then"""
    cls = None

    def __init__(self, run, i, g, w):
        self.run, self.i, self.g, self.w = run, i, g, w

    def key(self):
        return ('info', self.i)

    def subst(self, s):
        return self

    def getattr(self, I, name):
        if name == 'get':
            return Native(lambda I2, a, k: self.getitem(I2, a[0]), name)
        return I.unk('info.' + name)

    def getitem(self, I, ix):
        if isinstance(self.w, Arr):
            I.write_arr(self.w, lambda ix: el('x%d' % self.run.gen, num(
                self.i + 1)))
        if ix == 'n_iter':
            return num(self.i + 1)
        if ix == 'gradient':
            return self.g
        return I.unk('info[%r]' % (ix,))


class Run:
    """an optimiser with its surroundings known by contract"""

    def __init__(self, chk, n, **kw):
        self.n, self.steps, self.took = n, [], []
        self.values = None
        self.gen = 0
        self.I = I = chk.interp({'climin.Adadelta': self.ada,
                                 'climin.adadelta.Adadelta': self.ada})
        I.log_level = 30
        self.hook = None
        self.cb = Native(self.call, 'callback')
        if kw.get('callback', 1) is None:
            del kw['callback']
        else:
            kw['callback'] = self.cb
        self.o = I.call(I.func(Q), (), dict(kw))
        if not isinstance(self.o, ORef):
            raise Skip('optimiser %r' % (self.o,))

    def call(self, I, a, k):
        self.took.append(I.pc)
        return self.hook(I) if self.hook else None

    def ada(self, I, a, k):
        self.steps.append((a, k))
        w = a[0] if a else k.get('wrt')
        out = []
        for i in range(self.n):
            g = I.new_arr((ONE,), lambda ix, i=i: el(tensor(
                'g%d' % self.gen, 'pos'), num(i)) if self.values is None
                else self.values[i])
            out.append(Item(Info(self, i, g, w)))
        return I.new_list(tuple(out))

    def go(self, gen=0):
        """conditions of the callback calls of one run"""
        I, self.gen, self.took = self.I, gen, []
        x = I.new_arr((ONE,), lambda ix: el('x%d' % gen, *ix))
        fp = Native(lambda I2, a, k: I2.unk('gradient'), 'fp')
        f = Native(lambda I2, a, k: I2.unk('objective'), 'f')
        self.x, self.fp = x, fp
        I.method(self.o, 'opt', x, None, f, fp)
        return list(self.took)


def expected(n, gen, max_it, drops, ratio, pt=None):
    """condition that iteration i is taken, as configured"""
    g = tensor('g%d' % gen, 'pos')
    # states: (condition, largest so far, drops so far)
    paths = [(ONE, 0, None)]
    out = []
    for i in range(n):
        x = el(g, num(i)) if pt is None else pt[i]
        live = ZERO
        nxt = []
        for c, used, big in paths:
            live = live + c
            b = x if big is None else T.maxE(x, big)
            d = ind('lt', x - ratio * b)
            for k, cc in ((1, d), (0, ONE - d)):
                if used + k < drops and i + 1 < max_it and cc.t:
                    nxt.append((c * cc, used + k, b))
        out.append(live)
        paths = nxt
    return out


def atoms(e, out):
    for m in e.t:
        for a, _ in m:
            out.add(a)
    return out


def agree(a, b, n):
    """a == b for every positive g: by sign cells of the comparisons
    g_i ~ g_j and g_i ~ g_j / 2, each of which has a point with base-2
    logarithms that are multiples of 1 / (n + 1) in [-n, n], the first 0"""
    d = a - b
    if T.is_zero(d):
        return True, ''
    if d.unk:
        return None, 'not modelled'
    gs = {}
    cells = True
    for at in atoms(d, set()):
        for x in at.args:
            if not isinstance(x, E):
                continue
            t = sorted(x.t.items(), key=lambda kv: kv[1])
            if len(t) != 2 or any(len(m) != 1 or m[0][1] != 1 or
                                  m[0][0].kind != 'el' for m, _ in t) or \
                    -t[1][1] / t[0][1] not in (1, 2, F(1, 2)):
                cells = False
            for m in x.t:
                for y, _ in m:
                    if y.kind == 'el':
                        gs[y.key if hasattr(y, 'key') else y] = y
    gs = list(gs.values())
    k = len(gs) + 1
    if len(gs) > 4:
        return None, 'too many gradients'
    vals = [num(F(2.0 ** (F(j % k, k)) if j % k else 1) * F(2) ** (j // k))
            for j in range(-k * len(gs), k * len(gs) + 1)]
    for pt in itertools.product(*[vals] * max(0, len(gs) - 1)):
        # the comparisons are homogeneous: one gradient may be fixed
        pt = (ONE,) + pt
        c = T.subst(d, dict(zip(gs, pt))).const()
        if c is None:
            return None, 'condition %s' % T.show(d, 100)
        if c:
            return False, 'with gradient norms %s' % ', '.join(
                '%s = %.3g' % (T.show(A(g)), float(v.const()))
                for g, v in zip(gs, pt))
    return (True if cells else None), 'other comparisons'


def counts(chk, name, I, took, n, want):
    """took: conditions of callback calls, want: per iteration"""
    for i in range(n):
        ok, det = agree(took[i] if i < len(took) else ZERO, want[i], n)
        chk.holds('%s: iteration %d' % (name, i + 1), Q + '.opt', ok,
                  'taken although it should not be, or the reverse, %s' % det
                  if ok is False else det)
    if len(took) > n:
        chk.holds('%s: one call per iteration' % name, Q + '.opt', {
            True: False, False: True, None: None}[chk.satisfiable(
                took[n])], '%d calls' % len(took))


def run(chk):
    H = num(F(1, 2))
    for max_it, drops, ratio, n in (
            (1, 5, H, 3), (2, 5, H, 4), (3, 9, H, 5), (10, 1, H, 3),
            (3, 1, H, 4), (3, 1, ZERO, 4)):
        t = 'at most %d iterations, %d drops' % (max_it, drops)
        with chk.section(t, Q, limit=100):
            r = Run(chk, n, max_it=num(max_it), permitted_drops=num(drops),
                    min_grad_ratio=ratio)
            took = r.go()
            counts(chk, t, r.I, took, n, expected(n, 0, max_it, drops, ratio))
            accepted(chk, t, Q + '.opt', 0)
            finish(chk, t, r)
            took = r.go(1)
            counts(chk, t + ', reused', r.I, took, n, expected(
                n, 1, max_it, drops, ratio))
            finish(chk, t + ', reused', r)
    for max_it, drops in ((4, 2), (9, 2), (9, 1)):
        t = 'at most %d iterations, %d drops' % (max_it, drops)
        with chk.section('cells ' + t, Q, limit=150):
            cells(chk, t, max_it, drops, H)
    with chk.section('defaults', Q):
        r = Run(chk, 3, callback=None)
        I = r.I
        r.go()
        finish(chk, 'default configuration', r)
        accepted(chk, 'default configuration', Q, 0)
    with chk.section('step rule', Q):
        kw = {k: sym(k, 'pos') for k in ('step_rate', 'decay', 'offset')}
        kw['momentum'] = ZERO
        r = Run(chk, 2, max_it=num(1), **kw)
        for gen in (0, 1):
            r.go(gen)
            a, k = r.steps[-1]
            t = 'run %d' % (gen + 1)
            ok = all(n in k and isinstance(k[n], E) for n in kw)
            chk.holds('the step rule gets its configuration, ' + t, Q, ok and
                      all(k[n] == kw[n] for n in kw) if ok else None,
                      'got %s' % k)
            chk.holds('the step rule gets nothing else, ' + t, Q, set(
                k) <= set(kw) | {'args'}, 'got %s' % sorted(k))
    for exc in ('KeyboardInterrupt', 'ValueError', 'LinAlgError'):
        with chk.section('callback raises ' + exc, Q):
            r = Run(chk, 3, max_it=num(2))
            r.hook = lambda I, exc=exc: I.do_raise(exc, None, I.cur)
            r.go()
            chk.holds('%s raised by the callback reaches the caller' % exc,
                      Q + '.opt', any(x.exc == exc and x.cond == ONE
                                      for x in r.I.raises), 'raised: %s' % [
                          x.exc for x in r.I.raises])
    fitting(chk)


def cells(chk, t, max_it, drops, ratio):
    """representatives of all orders of four gradient norms and halves"""
    vals = [num(v) for v in (F(1, 5), F(9, 20), F(7, 10), 1, F(7, 5),
                               F(9, 4), 5)]
    n = 5
    bad = und = None
    k = 0
    for pt in itertools.product(vals, repeat=3):
        pt = [ONE] + list(pt) + [num(1)]
        r = Run(chk, n, max_it=num(max_it), permitted_drops=num(drops),
                min_grad_ratio=ratio)
        for again in (0, 1):
            r.values = pt
            took = r.go(again)
            g = tensor('g%d' % again, 'pos')
            want = [T.subst(e, {a: pt[i] for i in range(n) for a in atoms(
                el(g, num(i)), set())}) for i, e in enumerate(expected(
                    n, again, max_it, drops, ratio, pt))]
            got = took + [ZERO] * (n - len(took))
            k += 1
            for i in range(max(n, len(took))):
                w = want[i] if i < n else ZERO
                d = got[i] - w
                if d.unk or d.const() is None:
                    und = 'iteration %d: %s' % (i + 1, T.show(d, 80))
                elif d.const():
                    bad = bad or 'iteration %d of run %d %s with gradient ' \
                        'norms %s' % (i + 1, again + 1, 'missing' if
                                      d.const() < 0 else 'too much', [
                                          T.show(x) for x in pt])
    chk.holds('%s: iterations of %d histories' % (t, k), Q + '.opt',
              False if bad else None if und else True, bad or und or '')


def finish(chk, t, r):
    I = r.I
    v = I.heap[r.o.id].attrs.get('x_opt')
    if isinstance(v, Arr):
        a, b = [I.toE(I.at1(y, (ZERO,))) for y in (v, r.x)]
        chk.eq('the final iterate is the result: ' + t, Q + '.opt', a, b)
    else:
        chk.holds('the final iterate is the result: ' + t, Q + '.opt',
                  False if v is None else None, 'x_opt is %r' % (v,))
    if r.steps:
        a, k = r.steps[-1]
        w = a[0] if a else k.get('wrt')
        g = a[1] if len(a) > 1 else k.get('fprime')
        chk.holds('steps are taken on the given array: ' + t, Q + '.opt',
                  w.id == r.x.id and w.rd is None if isinstance(w, Arr)
                  else None, '%r' % (w,))
        chk.holds('steps follow the given gradient: ' + t, Q + '.opt',
                  True if g is r.fp else None, '%r' % (g,))


M = 'runlmc.models.interpolated_llgp.InterpolatedLLGP'
G = 'runlmc.models.multigp.MultiGP'


def fitting(chk):
    for q in (G, M):
        for metrics in ((False, True) if q == M else (False,)):
            for exc in (None, 'KeyboardInterrupt', 'ValueError',
                        'LinAlgError'):
                t = '%s%s, %s' % (q.split('.')[-1], ' with metrics'
                                  if metrics else '', exc or 'no exception')
                for kw in ({'max_iters': num(7)}, {}, {'max_iters': ONE}):
                    with chk.section('fitting ' + t, q + '.optimize'):
                        fit(chk, q, metrics, exc, t, kw)


def fit(chk, q, metrics, exc, t, opts):
    t += ' (max_iters=%s)' % opts['max_iters'] if opts else ''
    got = []

    def opt(I, args, kw):
        got.append((I.pc, args, kw))
        if exc:
            I.do_raise(exc, None, I.cur)
        return I.unk('optimiser run')
    I = chk.interp({'paramz.optimize': opt})
    I.log_level = 30
    o = I.new_obj(I.func(q)) if hasattr(I, 'new_obj') else None
    if o is None:
        raise Skip('object')
    at = {'name': 'm', 'metrics': None}
    if metrics:
        at['metrics'] = I.call(I.func('runlmc.lmc.metrics.Metrics'), (), {})
    at['_deriv_service'] = I.call(I.func(
        'runlmc.lmc.stochastic_deriv.StochasticDerivService'), (
            at['metrics'], None, num(1), num(1)), {})
    rec = I.heap[o.id].copy()
    rec.attrs.update(at)
    I.heap[o.id] = rec
    op = ExtMark()
    n0 = len(I.raises)
    I.call(I.getattr(o, 'optimize'), (), dict(opts, optimizer=op))
    chk.holds('fitting starts the optimiser once: ' + t, q + '.optimize',
              len(got) == 1 and got[0][0] == ONE, '%d times' % len(got))
    if got:
        kw = got[0][2]
        chk.holds('the optimiser asked for is used: ' + t, q + '.optimize',
                  kw.get('optimizer') is op, '%r' % (kw.get('optimizer'),))
        for n in opts:
            chk.holds('the iteration limit asked for is used: ' + t,
                      q + '.optimize', kw.get(n) == opts[n], '%r' % (
                          kw.get(n),))
    rs = I.raises[n0:]
    if exc:
        chk.holds('the exception reaches the caller: ' + t, q + '.optimize',
                  any(r.exc == exc and r.cond == ONE for r in rs),
                  'raised: %s' % [r.exc for r in rs])
    else:
        chk.holds('nothing is raised: ' + t, q + '.optimize', not rs,
                  'raised: %s' % [r.exc for r in rs])


class ExtMark(Abs):
    def key(self):
        return ('optimizer',)

    def subst(self, s):
        return self

    def getattr(self, I, name):
        return I.unk('optimizer.' + name)
