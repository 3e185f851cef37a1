"""C02: queries leave the model unchanged and are repeatable."""
from .components import *
from . import c09

RULE = ('Abstract interpretation of sequences of questions: every building '
        'block and whole models are asked everything in order, then '
        'everything again in reverse order, and a second instance in reverse '
        'order only, with memoised functions and written buffers modelled '
        'exactly; every number is compared in normal form between the three '
        'passes, and parameters and stored data with what they were before '
        'the questions.')
BUDGET = 800


def ask(I, ops, held=None):
    """answers, as they are when given; held keeps the values themselves"""
    out = {}
    for n, f in ops:
        v = f()
        out[n] = leaves(I, v, n)
        if held is not None:
            held[n] = v
    return out


def objective():
    def f(I, A):
        c = (5, [[0], [3, 4]], [([0, 1, 3], True), ([2], False), (
            [4], True)])
        o = c09.build(I, *c)
        return [(n, lambda n=n: I.method(o, n)) for n in (
            'log_prior', 'log_likelihood_with_prior', 'objective_function',
            'objective_function_gradients', '_log_prior_gradients')]
    L = sym('loglik')
    return Comp('objective', c09.Q, f, {
        c09.Q + '.log_likelihood': lambda I2, a, k: L})


def run(chk):
    for c in every(chk.prog) + [objective()]:
        with chk.section(c.name, c.anchor, limit=60):
            component(chk, c)
    ONE1 = Cfg(1, lmc=[1])
    for c in (
            (ONE1, [2], [2], [2], 'on-the-fly', False),
            (ONE1, [2], [2], [1], 'on-the-fly', True),
            (ONE1, [2], [2], [1], 'exact', False),
            (ONE1, [2], [2], [1], 'exact', True),
            (ONE1, [2], [2], [1], 'precompute', False),
            (ONE1, [2], [2], [1], 'precompute', True),
            (Cfg(2, slfm=1), [2], [2, 2], [1, 1], 'precompute', False),
            (Cfg(2, lmc=[1], indep=[1]), [2], [2, 2], [1, 1], 'on-the-fly',
             False),
            (Cfg(1, lmc=[1, 1], P=2, active=[[1], [0]]), [2, 2], [2], [1],
             'on-the-fly', False)):
        with chk.section('model ' + tag(c), M, limit=150):
            model(chk, c)


def component(chk, c):
    held = {}
    for which in (0, 1):
        I = chk.interp(c.stubs)
        I.remember_results()
        NP._rng[0] = PROBES
        ops = c.build(I, Args(I))
        if which == 0:
            a = ask(I, ops, held)
            kept = {n: leaves(I, v, n) for n, v in held.items()}
            b = ask(I, reversed(ops))
            n = ops[-1][0]
            kept[n] = leaves(I, held[n], n)
        else:
            d = ask(I, reversed(ops))
    for n, _ in ops:
        same(chk, '%s: %s asked again is the same' % (c.name, n), c.anchor,
             I, a[n], I, b[n])
        same(chk, '%s: %s does not depend on the order of questions' % (
            c.name, n), c.anchor, I, a[n], I, d[n])
        same(chk, '%s: the answer to %s is not changed by later questions' % (
            c.name, n), c.anchor, I, a[n], I, kept[n])


def tag(c):
    return '(%s, %s%s)' % (c[0], c[4], ', normalised' if c[5] else '')


def state(m):
    """parameter values and public data attributes"""
    I, o = m.I, m.o
    out = {'parameter %s' % I.heap[p.id].attrs.get('name'): leaves(
        I, I.param_arr(p)) for p in m.places}
    for n, v in list(I.heap[o.id].attrs.items()):
        if n.startswith('_') or isinstance(v, ORef):
            continue
        if isinstance(v, str):
            out['attribute ' + n] = v
            continue
        try:
            out['attribute ' + n] = leaves(I, v)
        except Skip:
            pass
    return out


def model(chk, c):
    cfg, sizes, lens, tlens, mode, norm = c
    w = World()

    def make():
        m = Model(chk, cfg, sizes, lens, mode, {'trace_iterations': ONE},
                  w.stubs(), normalize=norm, solve=w.solve)
        reparameterise(m)
        m.I.remember_results()
        write(m, '')
        update(m)
        return m
    a = make()
    I = a.I
    before = state(a)
    ops = list(queries(a, tlens).items())
    held = {}
    p1 = ask(I, ops, held)
    kept = {n: leaves(I, v, n) for n, v in held.items()}
    p2 = ask(I, reversed(ops))
    after = state(a)
    n = ops[-1][0]
    kept[n] = leaves(I, held[n], n)
    update(a)
    p4 = ask(I, ops[:4])
    b = make()
    ops = list(queries(b, tlens).items())
    p3 = ask(b.I, reversed(ops))
    t = tag(c)
    asm = a.varied() if norm else ()
    for n in before:
        if isinstance(before[n], str):
            v = after.get(n)
            chk.holds('%s is not changed by questions %s' % (n, t), M, (
                v == before[n]) if isinstance(v, str) else None, '%r, was %r'
                % (v, before[n]))
        elif n in after:
            same(chk, '%s is not changed by questions %s' % (n, t), M, I,
                 before[n], I, after[n], asm)
    for n, _ in ops:
        same(chk, '%s asked again is the same %s' % (n, t), M, I, p1[n], I,
             p2[n], asm)
        same(chk, '%s does not depend on the order of questions %s' % (n, t),
             M, I, p1[n], I, p3[n], asm)
        same(chk, 'the answer to %s is not changed by later questions %s' % (
            n, t), M, I, p1[n], I, kept[n], asm)
        if n in p4:
            same(chk, '%s after an update with the same values is the same %s'
                 % (n, t), M, I, p1[n], I, p4[n], asm)
    accepted(chk, 'questions are answered ' + t, M, 0, asm)
