"""C18: parallel execution gives the serial answers, in order."""
from .components import *

RULE = ('Abstract interpretation with worker processes known by contract: each '
        'task runs on a transferred copy of its arguments (taken apart and '
        'rebuilt with the class\' own __getstate__/__setstate__ where it '
        'has them), on a copy of the heap that is thrown away, last task '
        'first, with random draws of its own; only results come back. '
        'Updates, gradients and predictions of a model using it are compared '
        'in normal form with those of the serial model; the pool wrapper is '
        'compared on lists of tasks, and structured matrices before and '
        'after a transfer.')
BUDGET = 600
IP = 'runlmc.util.inline_pool.InlinePool'
CASES = [
    (Cfg(1, lmc=[1]), [2], [2], [1], 'on-the-fly'),
    (Cfg(1, lmc=[1]), [2], [2], [2], 'precompute'),
    (Cfg(2, slfm=1), [2], [2, 2], [1, 1], 'on-the-fly'),
    (Cfg(2, lmc=[1], indep=[1]), [2], [2, 2], [1, 0], 'on-the-fly'),
]


class NoTransfer(Exception):
    pass


def transfer(I, v, seen=None):
    """v as it arrives in another process"""
    seen = {} if seen is None else seen
    if isinstance(v, (E, str, bool, int, float)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(transfer(I, x, seen) for x in v)
    if isinstance(v, Arr):
        return I.as_arr(I.call(Ext('numpy.array'), (v,), {}))
    if isinstance(v, (PyClass, Ext)):
        return v
    if isinstance(v, PyFunc):
        if isinstance(v.node, ast.Lambda) or v.env is not None:
            raise NoTransfer('the function %s is local' % v.qual)
        return v
    if isinstance(v, Bound):
        return Bound(transfer(I, v.self_, seen), v.func)
    if isinstance(v, MX.LinOp):
        return MX.LinOp(v.shape, transfer(I, v.mv, seen), transfer(
            I, v.mm, seen))
    if isinstance(v, DRef):
        d = I.new_dict()
        for a, b, c in I.dict_items(v):
            if c != ONE:
                _skip(v)
            I.models.dict_set(I, d, a, transfer(I, b, seen))
        return d
    if isinstance(v, LRef):
        return I.new_list(tuple(Item(transfer(I, x, seen)) for x in items(
            I, v) or _skip(v)))
    if isinstance(v, ORef):
        k = (v.id, tuple(v.sub) if v.sub else ())
        if k in seen:
            return seen[k]
        rec = I.heap[v.id]
        if not isinstance(rec.cls, PyClass) or I.is_param(v):
            return v
        seen[k] = o = I.new_obj(rec.cls)
        _, g = I.find_member(rec.cls, '__getstate__')
        if isinstance(g, PyFunc):
            state = I.method(v, '__getstate__')
            if not isinstance(state, DRef):
                raise Skip('state of %s' % rec.cls.qual)
            its = [(a, b) for a, b, c in I.dict_items(state) if c == ONE]
        else:
            its = list(rec.attrs.items())
        its = [(a, transfer(I, b, seen)) for a, b in its]
        _, s = I.find_member(rec.cls, '__setstate__')
        if isinstance(s, PyFunc):
            d = I.new_dict()
            for a, b in its:
                I.models.dict_set(I, d, a, b)
            I.method(o, '__setstate__', d)
        else:
            r = I.heap[o.id].copy()
            r.attrs = dict(its)
            I.heap[o.id] = r
        return o
    return v


def _skip(v):
    raise Skip('transfer of %r' % (v,))


class Workers(MX.PoolV):
    """a pool of worker processes; reports what could not be sent"""
    cls = None

    def __init__(self):
        MX.PoolV.__init__(self, ())
        self.refused, self.tasks = [], 0
        self.drew, self.wrote = [], []

    def key(self):
        return ('workers',)

    def subst(self, s):
        return self

    def truthy(self, I):
        return ONE

    def work(self, I, f, args):
        self.tasks += 1
        h0, rng, n0 = I.heap, NP._rng[0], len(I.events)
        I.heap = dict(h0)
        mine = NP._rng[0] = 10 ** 6 * self.tasks
        try:
            f2 = transfer(I, f)
            r = I.call(f2, tuple(transfer(I, a) for a in args), {})
            r = transfer(I, r)
        except NoTransfer as e:
            self.refused.append(str(e))
            r = I.unk('not transferable')
        for e in I.events[n0:]:
            if e['kind'] == 'setattr_class':
                self.wrote.append('%s.%s' % (e['cls'], e['attr']))
            if e['kind'] in ('rng', 'rng_seed'):
                self.drew.append(e['loc'])
        if NP._rng[0] != mine:
            self.drew.append('task %d' % self.tasks)
        for k, v in h0.items():
            if I.heap.get(k) is not v and differs(I.heap.get(k), v):
                self.wrote.append('%s %r' % (type(v).__name__, k))
        new = {k: v for k, v in I.heap.items() if k not in h0}
        I.heap = dict(h0)
        I.heap.update(new)
        NP._rng[0] = rng
        return r

    def getattr(self, I, name):
        if name in ('starmap', 'map', 'imap', 'imap_unordered'):
            def f(I2, a, k):
                xs = items(I2, a[1])
                if xs is None:
                    return I2.unk('tasks')
                out = [None] * len(xs)
                for i in reversed(range(len(xs))):
                    args = items(I2, xs[i]) if name == 'starmap' else (
                        xs[i],)
                    out[i] = self.work(I2, a[0], args)
                if name == 'imap_unordered':
                    out.reverse()
                return I2.new_list(tuple(Item(x) for x in out))
            return Native(f, 'pool.' + name)
        if name in ('apply', 'apply_async', 'starmap_async', 'map_async'):
            def f(I2, a, k):
                if name.startswith('apply'):
                    r = self.work(I2, a[0], items(I2, a[1]) if len(
                        a) > 1 else ())
                else:
                    r = I2.call(self.getattr(I2, name[:-6]), a, {})
                return Later(r) if name.endswith('async') else r
            return Native(f, 'pool.' + name)
        return MX.PoolV.getattr(self, I, name)


def differs(a, b):
    if type(a) is not type(b):
        return True
    if isinstance(a, DictRec):
        return len(a.items) != len(b.items) or any(
            x is not y for p, q in zip(a.items, b.items)
            for x, y in zip(p[:2], q[:2]))
    if isinstance(a, ListRec):
        return len(a.segs) != len(b.segs) or any(
            x is not y for x, y in zip(a.segs, b.segs))
    if isinstance(a, ObjRec):
        return a.attrs.keys() != b.attrs.keys() or any(
            a.attrs[k] is not b.attrs[k] for k in a.attrs)
    return False


class Later(Abs):
    cls = None

    def __init__(self, v):
        self.v = v

    def key(self):
        return ('later', repr(self.v))

    def subst(self, s):
        return Later(subst_val(self.v, s))

    def getattr(self, I, name):
        return Native(lambda I2, a, k: self.v if name == 'get' else None,
                      name)


def wrapper(chk):
    f = Native(lambda I2, a, k: uf('f', *[I2.toE(x) for x in a]), 'f')
    for n in (0, 1, 2, 3, 5, 9, 17, 40, 130):
        for form in ('list', 'iterator'):
            tag = 'wrapper, %d tasks as %s' % (n, form)
            with chk.section(tag, IP, limit=30):
                for pool in (False, True):
                    I = chk.interp()
                    w = Workers() if pool else None
                    o = I.call(I.func(IP), (w,), {})
                    args = [(el('a', num(i)), el('b', num(i)))
                            for i in range(n)]
                    l = I.new_list(tuple(Item(x) for x in args))
                    if form == 'iterator':
                        l = I.call(Ext('builtins.iter'), (l,), {})
                        if isinstance(l, UnkV):
                            continue
                    r = items(I, I.method(o, 'starmap', f, l))
                    t = tag + (', workers' if pool else ', serial')
                    if r is None:
                        chk.holds(t, IP + '.starmap', None, 'no list')
                        continue
                    chk.holds(t + ': one result per task', IP + '.starmap',
                              len(r) == n, '%d results' % len(r))
                    for i in range(min(n, len(r))):
                        chk.eq('%s: result %d' % (t, i), IP + '.starmap',
                               r[i], uf('f', *args[i]))
                    accepted(chk, t, IP, 0)


def history(chk, w, c, workers, met):
    cfg, sizes, lens, tlens, mode = c

    def init(I, args, kw):
        del I.stubs[IP + '.__init__']
        try:
            _, f = I.find_member(I.heap[args[0].id].cls, '__init__')
            r = I.call(f, (args[0], workers), {})
        finally:
            I.stubs[IP + '.__init__'] = init
        return r
    NP._rng[0] = PROBES
    st = w.stubs()
    if workers is not None:
        st[IP + '.__init__'] = init
    m = Model(chk, cfg, sizes, lens, mode, {
        'trace_iterations': num(2), 'max_procs': ONE, 'metrics': met}, st,
        solve=w.solve, level=30)
    I = m.I
    I.remember_results()
    reparameterise(m)
    q = queries(m, tlens)
    out = {}
    for k, gen in enumerate(('', "'")):
        write(m, gen)
        m.update()
        t = ' after update %d' % (k + 1)
        for j, p in enumerate(m.places):
            n = I.heap[p.id].attrs.get('name')
            g = gradient_of(I, p)
            if g is not None:
                out['gradient of %s (%d)' % (n, j) + t] = leaves(I, g)
        out['predict' + t] = leaves(I, q['predict'](), 'predict')
        out['predict again' + t] = leaves(I, q['predict'](), 'predict')
        out['random draws' + t] = [('', num(NP._rng[0]))]
    return m, out


def pure(chk, ws, tag, anchor):
    chk.holds('tasks can be sent to a worker ' + tag, anchor,
              not ws.refused, '; '.join(ws.refused[:3]))
    chk.holds('tasks draw no random numbers ' + tag, anchor,
              not ws.drew, '; '.join(ws.drew[:3]))
    chk.holds('tasks write no shared state ' + tag, anchor,
              not ws.wrote, '; '.join(ws.wrote[:3]))


def models(chk):
    for c in CASES:
        for met in (False, True):
            if met and (c[0].D > 1 or c[4] == 'precompute'):
                continue
            tag = '(%s, %s%s)' % (c[0], c[4], ', metrics' * met)
            with chk.section('model ' + tag, M, limit=200):
                w = World()
                m, a = history(chk, w, c, None, met)
                ws = Workers()
                try:
                    m2, b = history(chk, w, c, ws, met)
                finally:
                    if ws.tasks:
                        pure(chk, ws, tag, M)
                if not ws.tasks:
                    chk.holds('workers are used ' + tag, M, None,
                              'no task was sent')
                    continue
                for n in a:
                    same(chk, '%s with workers %s' % (n, tag), M, m2.I,
                         b[n], m.I, a[n])


def transfers(chk):
    for comp in matrices():
        with chk.section('transfer of ' + comp.name, comp.anchor, limit=60):
            for warm in (False, True):
                I = chk.interp(comp.stubs)
                A = Args(I)
                qs = comp.build(I, A)
                o = qs.o
                t = '%s%s' % (comp.name, ', used before' * warm)
                if warm:
                    I.method(o, 'as_linear_operator')
                    for n, f in qs:
                        f()
                before = [(n, leaves(I, f(), n)) for n, f in qs]
                o2 = transfer(I, o)
                n0 = len(I.events)
                after = []
                try:
                    after = [(n, leaves(I, I.method(o2, n, *a), n))
                             for n, a in qs.args]
                    I.method(o2, 'as_linear_operator')
                finally:
                    had = I.heap[o.id].attrs
                    lost = [e for e in I.events[n0:] if e['kind'] ==
                            'missing_attr' and e.get('obj') == o2.id and
                            e['attr'] in had]
                    if any(e['kind'] == 'havoc' for e in I.events):
                        lost = []
                    chk.holds(t + ': nothing needed is lost', comp.anchor,
                              not lost, ', '.join(sorted({
                                  e['attr'] for e in lost})), lost[0]['loc']
                              if lost else '')
                for (n, x), (_, y) in zip(before, after):
                    same(chk, '%s: %s after transfer' % (t, n), comp.anchor,
                         I, y, I, x)
                op = I.method(o2, 'as_linear_operator')
                for n, a in qs.args:
                    if n == 'matvec':
                        same(chk, '%s: operator after transfer' % t,
                             comp.anchor, I, leaves(I, I.method(
                                 op, 'matvec', *a)), I, dict(before)[n])
                after = [(n, leaves(I, f(), n)) for n, f in qs]
                for (n, x), (_, y) in zip(before, after):
                    same(chk, '%s: %s of the one that stayed' % (t, n),
                         comp.anchor, I, y, I, x)


def serial(chk):
    G = M + '._generate_pool'
    for n in (1, 299, 300, 301, 1000):
        tag = '%d points, one process' % n
        with chk.section(tag, G, limit=30):
            I = chk.interp()
            o = I.new_obj(I.func(M))
            r = I.heap[o.id].copy()
            r.attrs = dict(r.attrs, y=I.new_arr((num(n),), lambda ix: el(
                'y', *ix)), name='m', param_array=I.new_arr(
                    (num(3),), lambda ix: el('p', *ix)))
            I.heap[o.id] = r
            if I.find_member(I.func(M), '_generate_pool')[1] is None:
                raise Skip('no such function')
            I.method(o, '_generate_pool', ONE)
            op = [e for e in I.events if e['kind'] == 'pool_open']
            bad = None
            for e in op:
                x = e['pc']
                for p in e['path']:
                    x = x * p
                s = chk.satisfiable(x)
                bad = True if s else bad
            chk.holds(tag + ': no worker is started', G, not op if bad is
                      None else False, '%d pools' % len(op), op[0]['loc']
                      if op else '')


SV = 'runlmc.approx.iterative.Iterative.solve'


def solver(chk):
    """the solver itself as a task: its answers depend on its arguments"""
    def runs(workers, names):
        def method(I, args, kw):
            k = dict(zip(('op', 'y', 'x0'), args), **kw)
            y = I.as_arr(k.get('b', k.get('y')))
            key = [e.key for _, e in leaves(I, y)]
            if k.get('x0') is not None:
                key += ['x0'] + [e.key for _, e in leaves(I, I.as_arr(
                    k['x0']))]
            key += [repr(k.get(n)) for n in ('tol', 'rtol', 'maxiter', 'M',
                                             'shift')]
            op = k.get('A', k.get('op'))
            for i in range(2):
                e = I.new_arr((num(2),), lambda ix: ind('eq', ix[0] - i))
                key += [x.key for _, x in leaves(I, I.method(
                    op, 'matvec', e))]
            nm = names.setdefault(tuple(key), 'sol%d' % len(names))
            x = I.new_arr((num(2),), lambda ix: el(nm, *ix))
            cb = k.get('callback')
            if cb is not None:
                I.call(cb, (x,), {})
            return x, sym('i' + nm, 'int')
        I = chk.interp({'scipy.sparse.linalg.minres': method,
                        'scipy.sparse.linalg.cg': method})
        I.log_level = 30
        Ks = [I.call(I.func(L + 'numpy_matrix.NumpyMatrix'), (I.new_arr(
            (num(2), num(2)), lambda ix, k=k: el('K%d' % k, *ix)),), {})
            for k in range(2)]
        ys = [I.new_arr((num(2),), lambda ix, k=k: el('y%d' % k, *ix))
              for k in range(2)]
        o = I.call(I.func(IP), (workers,), {})
        f = I.getattr(I.func('runlmc.approx.iterative.Iterative'), 'solve')
        tasks = [(Ks[a], ys[b], v, mr, sym('tol', 'pos'))
                 for a, b, v, mr in ((0, 0, ONE, ONE), (0, 1, ONE, ONE), (
                     0, 0, ONE, ONE), (1, 0, ONE, ONE), (1, 1, ONE, ZERO),
                     (0, 1, ONE, ZERO))]
        r = I.method(o, 'starmap', f, I.new_list(tuple(
            Item(t) for t in tasks)))
        return I, items(I, r)
    with chk.section('solver as a task', SV, limit=60):
        names = {}
        I, a = runs(None, names)
        ws = Workers()
        try:
            I2, b = runs(ws, names)
        finally:
            pure(chk, ws, '(solver)', SV)
        if a is None or b is None:
            raise Skip('no list')
        chk.holds('one solution per task', SV, len(a) == len(b) == 6)
        for i, (x, y) in enumerate(zip(a, b)):
            same(chk, 'solution %d' % i, SV, I2, y, I, x)


def run(chk):
    solver(chk)
    wrapper(chk)
    serial(chk)
    transfers(chk)
    models(chk)
