"""C19: diagnostics never influence numerical results."""
from .answers import *
from . import c22

RULE = ('Abstract interpretation of whole model histories (construction, '
        'two updates, predictions) with every combination of metrics and '
        'debug logging, random draws numbered in the order they are made: '
        'parameters, gradients, predictions and the number of draws are '
        'compared in normal form with the run without diagnostics; the '
        'iterations taken by the bundled optimiser are compared between '
        'verbosity settings.')
BUDGET = 700
CASES = [
    (Cfg(1, lmc=[1]), [2], [2], [1], 'on-the-fly', False),
    (Cfg(1, lmc=[1]), [2], [2], [1], 'precompute', True),
    (Cfg(1, lmc=[1]), [2], [2], [1], 'exact', False),
    (Cfg(2, slfm=1), [2], [2, 2], [1, 1], 'on-the-fly', False),
]


class Keyed(Solve):
    """a solver whose answer may depend on the method and the tolerance"""

    def __call__(self, I, args, kw):
        r = Solve.__call__(self, I, args, kw)
        how = []
        for k, n in ((3, 'minres'), (4, 'tol')):
            v = args[k] if len(args) > k else kw.get(n)
            how.append(repr(v))
        if not self.calls or isinstance(r, UnkV):
            return r
        nm, ys, _ = self.calls[-1]
        new = 'how%d' % self.names.setdefault((nm,) + tuple(how), len(
            self.names))
        n = len(ys)
        x = I.new_arr((num(n),), lambda ix: sum(
            (el(new, ix[0], num(j)) * ys[j] for j in range(n)), ZERO))
        return (x,) + r[1:] if isinstance(r, tuple) else x


def norm_stub():
    """a norm is named after the numbers it is taken of"""
    names = {}

    def f(I, args, kw):
        a = I.as_arr(args[0])
        if not isinstance(a, Arr) or a.ndim != 1 or len(args) > 2 or kw:
            return NP.la_norm(I, *args, **kw)
        ls = leaves(I, a)
        if any(e.unk for _, e in ls):
            return I.unk('norm')
        key = tuple(e.key for _, e in ls) + (repr(args[1:]), repr(kw))
        return sym('norm%d' % names.setdefault(key, len(names)), 'nn')
    return f


def tag(c):
    return '(%s, %s%s)' % (c[0], c[4], ', normalised' if c[5] else '')


def history(chk, w, c, metrics, level):
    """parameters, gradients and predictions over two updates"""
    cfg, sizes, lens, tlens, mode, norm = c
    NP._rng[0] = PROBES
    m = Model(chk, cfg, sizes, lens, mode, {
        'trace_iterations': ONE, 'metrics': metrics}, w.stubs(),
        normalize=norm, solve=w.solve, level=level)
    I = m.I
    I.log_level = level
    I.remember_results()
    reparameterise(m)
    q = queries(m, tlens)
    out = {}
    for k, gen in enumerate(('', "'")):
        write(m, gen)
        m.update()
        t = ' after update %d' % (k + 1)
        for j, p in enumerate(m.places):
            n = I.heap[p.id].attrs.get('name')
            out['value of %s (%d)' % (n, j) + t] = leaves(I, I.param_arr(p))
            g = gradient_of(I, p)
            if g is not None:
                out['gradient of %s (%d)' % (n, j) + t] = leaves(I, g)
        for n in ('predict', 'log_likelihood') + (('kernel_gradients',) if
                                                  k else ()):
            out[n + t] = leaves(I, q[n](), n)
        out['random draws' + t] = [('', num(NP._rng[0]))]
    return m, out


def run(chk):
    for c in CASES:
        with chk.section('model ' + tag(c), M, limit=200):
            w = World()
            w.solve = Keyed()
            norm = norm_stub()
            st = {'scipy.linalg.norm': norm, 'numpy.linalg.norm': norm}
            w.stubs = lambda w=w, st=st: dict(World.stubs(w), **st)
            m, base = history(chk, w, c, False, 30)
            for metrics, level, what in (
                    (True, 30, 'metrics'), (False, 10, 'debug logging'),
                    (True, 10, 'metrics and debug logging')):
                if metrics and level == 10 and c[0].D > 1:
                    continue
                m2, got = history(chk, w, c, metrics, level)
                for n in base:
                    if n in got:
                        same(chk, '%s with %s %s' % (n, what, tag(c)),
                             M + '.parameters_changed', m2.I, got[n], m.I,
                             base[n], m.varied() if c[5] else ())
                    else:
                        chk.holds('%s with %s %s' % (n, what, tag(c)), M,
                                  None, 'not available')
    H = num(F(1, 2))
    for max_it, drops, n in ((1, 5, 3), (3, 9, 5), (9, 1, 3), (3, 1, 4)):
        for v in (1, 2, 7):
            t = 'verbosity %d, at most %d iterations, %d drops' % (
                v, max_it, drops)
            with chk.section(t, c22.Q, limit=60):
                rs = []
                for vb in (0, v):
                    r = c22.Run(chk, n, max_it=num(max_it), verbosity=num(vb),
                                permitted_drops=num(drops),
                                min_grad_ratio=H)
                    rs.append((r, r.go()))
                (a, ta), (b, tb) = rs
                for i in range(max(len(ta), len(tb))):
                    ok, det = c22.agree(*[x[i] if i < len(x) else ZERO
                                          for x in (ta, tb)], n)
                    chk.holds('%s: iteration %d' % (t, i + 1),
                              c22.Q + '.opt', ok, det)
                for x in zip(a.steps, b.steps):
                    (_, k1), (_, k2) = x
                    chk.holds(t + ': the step rule is the same',
                              c22.Q + '.opt', {k: repr(y) for k, y in
                                               k1.items()} == {
                                  k: repr(y) for k, y in k2.items()},
                              '%s / %s' % (k1, k2))
                accepted(chk, t, c22.Q, 0)
