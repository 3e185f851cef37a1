"""C03: no stale results after a parameter change."""
from .answers import *
from .kernels import all_kernels, build

RULE = ('Abstract interpretation of whole model histories with memoised '
        'functions modelled exactly (a result once computed is returned again '
        'until the cache is cleared): update, ask everything, change every '
        'registered parameter in place, update, ask everything again - every '
        'number compared in normal form with a model that only ever had the '
        'new values; two models in one program interleaved and compared with '
        'each alone.')
BUDGET = 800
CASES = [
    (Cfg(1, lmc=[1]), [2], [2], [2], 'on-the-fly', False),
    (Cfg(2, lmc=[1], indep=[1]), [2], [2, 2], [1, 1], 'on-the-fly', False),
    (Cfg(2, slfm=1), [2], [2, 2], [1, 1], 'exact', False),
    (Cfg(1, lmc=[1, 1], P=2, active=[[1], [0]]), [2, 2], [2], [1],
     'on-the-fly', False),
    (Cfg(1, lmc=[1]), [2], [2], [2], 'precompute', False),
    (Cfg(2, slfm=1), [2], [2, 2], [1, 1], 'precompute', False),
    (Cfg(1, lmc=[1]), [2], [2], [1], 'on-the-fly', True),
    (Cfg(1, lmc=[1]), [2], [2], [1], 'exact', True),
]


def model(chk, w, c, gen, I=None, extra=None):
    cfg, sizes, lens, tlens, mode, norm = c
    m = Model(chk, cfg, sizes, lens, mode, dict(
        {'trace_iterations': ONE}, **(extra or {})), w.stubs(),
        normalize=norm, solve=w.solve, I=I)
    reparameterise(m)
    write(m, gen)
    return m


def answers(m, tlens, order=None):
    q = queries(m, tlens)
    out = {}
    for n in order or list(q):
        out[n] = leaves(m.I, q[n](), n)
    return out


def tag(c):
    return '(%s, %s%s)' % (c[0], c[4], ', normalised' if c[5] else '')


SINGLE = (Real(1, lmc=[1]), [2], [2], [1], 'precompute', False)
PAIRS = [
    ((Cfg(1, lmc=[1]), [2], [2], [1], 'on-the-fly', False),
     (Cfg(1, lmc=[1]), [2], [2], [1], 'on-the-fly', False)),
    ((Cfg(1, lmc=[1]), [2], [2], [1], 'exact', False),
     (Cfg(1, lmc=[1]), [2], [2], [1], 'precompute', False)),
]
REALS = [
    (Real(1, lmc=[1]), [2], [2], [1], 'on-the-fly', False),
    (Real(1, lmc=[1], first=2), [2], [2], [1], 'exact', False),
]


def run(chk):
    with chk.section('single parameters ' + tag(SINGLE), M, limit=150):
        singles(chk, SINGLE)
    for c in CASES:
        with chk.section('history ' + tag(c), M, limit=120):
            history(chk, c)
    for c in CASES[:1]:
        with chk.section('history with metrics ' + tag(c), M, limit=120):
            history(chk, c, {'metrics': True}, 'with metrics ')
    for c in REALS:
        with chk.section('history, package kernels ' + tag(c), M, limit=120):
            history(chk, c, what='with package kernels ')
    for a, b in PAIRS:
        with chk.section('two models %s %s' % (tag(a), tag(b)), M,
                         limit=120):
            pair(chk, a, b)
    I = Interp(chk.prog)
    for cls in all_kernels(I):
        with chk.section('kernel ' + cls.name, cls.qual):
            kernel(chk, cls.qual)


def history(chk, c, extra=None, what=''):
    w = World()
    a = model(chk, w, c, '', extra=extra)
    a.I.remember_results()
    update(a)
    for f in queries(a, c[3]).values():
        f()
    write(a, "'")
    update(a)
    got = answers(a, c[3])
    b = model(chk, w, c, "'", extra=extra)
    update(b)
    want = answers(b, c[3])
    for n in want:
        same(chk, '%s%s after a parameter change is that of the new values %s'
             % (what, n, tag(c)), M + '.parameters_changed', a.I, got[n], b.I,
             want[n], a.varied() if c[5] else ())


def pair(chk, ca, cb):
    """two models in one program, interleaved, answer as each does alone"""
    w = World()
    a = model(chk, w, ca, '')
    a.I.remember_results()
    b = model(chk, w, cb, "'", I=a.I)
    update(a)
    update(b)
    n = ['predict', 'log_likelihood', 'K', 'noise_gradient']
    got = [answers(a, ca[3], n), answers(b, cb[3], n), answers(a, ca[3], n)]
    write(a, "''")
    update(a)
    got += [answers(b, cb[3], n), answers(a, ca[3], n)]
    want = []
    for c, g in ((ca, ''), (cb, "'"), (ca, "''")):
        x = model(chk, w, c, g)
        update(x)
        want.append(answers(x, c[3], n))
    for k, (g, v, what) in enumerate(zip(got, (0, 1, 0, 1, 2), (
            'first model', 'second model', 'first model again',
            'second model after the first changed', 'first model changed'))):
        for q in n:
            same(chk, '%s of the %s is its own %s %s' % (
                q, what, tag(ca), cb[4]), M, a.I, g[q], a.I, want[v][q])


def kernel(chk, qual):
    """a kernel evaluated, changed in place and evaluated again"""
    d = tensor('dist', 'nn')
    out = []
    for hist in (("", "'"), ("'",)):
        I = chk.interp()
        I.remember_results()
        k = build(I, I.func(qual))
        ps = [p for p in linked(I, k) or () if I.is_param(p)]
        if not ps:
            return
        x = I.new_arr((num(2),), lambda ix: el(d, *ix))
        for gen in hist:
            I.noevents += 1
            for j, p in enumerate(ps):
                t = tensor('theta%d%s' % (j, gen), 'pos')
                I.write_arr(I.param_arr(p), lambda ix, t=t: el(t, *ix))
            I.noevents -= 1
            v = leaves(I, I.method(k, 'from_dist', x), 'value')
            g = leaves(I, I.method(k, 'kernel_gradient', x), 'gradient')
        out.append((v, g))
    for n, a, b in zip(('value', 'gradient'), *out):
        same(chk, '%s: %s after a parameter change is that of the new values'
             % (qual.split('.')[-1], n), qual, I, a, I, b)


def singles(chk, c):
    """one parameter changes, or all of them very little"""
    w = World()
    n = ['predict', 'log_likelihood', 'noise_gradient']
    k = len(model(chk, w, c, '').places)
    for only, gen in [(None, NEAR)] + [
            (j, "'") for j in range(k)]:
        a = model(chk, w, c, '')
        a.I.remember_results()
        update(a)
        q = queries(a, c[3])
        for x in n:
            q[x]()
        write(a, gen, only)
        update(a)
        got = answers(a, c[3], n)
        b = model(chk, w, c, '')
        write(b, gen, only)
        update(b)
        want = answers(b, c[3], n)
        for x in n:
            same(chk, '%s after %s is that of the new values' % (
                x, 'a small change' if only is None else
                'a change of parameter %d only' % only),
                M + '.parameters_changed', a.I, got[x], b.I, want[x])
