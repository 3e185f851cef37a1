"""C06: every trainable parameter is registered and gets its own gradient."""
from .llgp import *
from .kernels import all_kernels, build as build_kernel

RULE = ('Abstract interpretation of kernel and model construction and of the '
        'parameter update. Registration: every parameter object whose value '
        'reaches a kernel value, a coregionalisation matrix or the noise is '
        'reachable from the model through link_parameter calls. '
        'Distribution: with arbitrary likelihood gradients, after the first '
        'and after a second update every registered parameter holds exactly '
        'its own components of the latest gradient.')
BUDGET = 600
LK = 'runlmc.lmc.likelihood.'
FK = 'runlmc.lmc.functional_kernel.FunctionalKernel'


def linked(I, o):
    """objects reachable from o by link_parameter, each once per link"""
    out, todo = [], [o]
    while todo:
        x = todo.pop()
        for ev in I.events:
            if ev['kind'] == 'link' and isinstance(ev['obj'], ORef) and \
                    ev['obj'].same(x):
                if not isinstance(ev['param'], ORef) or 'fam' in ev or \
                        ev['loops'] or ev['pc'] != ONE:
                    return None
                if any(ev['param'].same(y) for y in out):
                    continue
                out.append(ev['param'])
                todo.append(ev['param'])
            if ev['kind'] == 'unlink' and isinstance(ev['obj'], ORef) and \
                    ev['obj'].same(x):
                return None
    return out


def store(I, a):
    """identity of the memory an array lives in"""
    a = I.as_arr(a)
    return a.id if isinstance(a, Arr) else None


def owner(I, ps, a):
    s = store(I, a)
    for p in ps:
        if s is not None and I.is_param(p) and I.param_arr(p).id == s:
            return p
    return None


# ------------------------------------------------------------- kernels
def sets(I, cls):
    names, defaults = init_args(I, cls)
    return [n for n in names if n in defaults and isinstance(
        defaults[n], ast.Constant) and isinstance(
            defaults[n].value, (int, float)) and not isinstance(
                defaults[n].value, bool)]


def one_kernel(chk, qual, inner):
    I = chk.interp()
    cls = I.func(qual)
    names, defaults = init_args(I, cls)
    kw = {n: sym('arg_' + n, 'pos') for n in sets(I, cls)}
    free = [n for n in names if n not in defaults]
    if free:
        if inner is None:
            raise Skip('needs a kernel')
        ic = I.func(inner)
        kw[free[0]] = I.call(ic, (), {n: sym('arg_inner_' + n, 'pos')
                                      for n in sets(I, ic)})
    k = I.call(cls, (), kw)
    if not isinstance(k, ORef):
        raise Skip('kernel %r' % (k,))
    reg = linked(I, k)
    if reg is None:
        raise Skip('registration not enumerable')
    nm = cls.name + ('(%s)' % inner.split('.')[-1] if free else '')
    # every parameter object gets an arbitrary value
    free_syms = {}
    allp = [e['obj'] for e in I.events if e['kind'] == 'new_param']
    for j, p in enumerate(allp):
        a = I.param_arr(p)
        if not isinstance(a, Arr) or any(s != ONE for s in a.shape):
            raise Skip('vector parameter')
        x = sym('value%d' % j, 'pos')
        I.noevents += 1
        I.write_arr(a, lambda ix: x)
        I.noevents -= 1
        if not any(p.same(r) for r in reg):
            free_syms[x] = str(I.heap[p.id].attrs.get('name'))
    for n, v in kw.items():
        if isinstance(v, E):
            free_syms[v] = n
    if free:
        for n in sets(I, ic):
            free_syms[sym('arg_inner_' + n, 'pos')] = n
    d = sym('dist', 'nn')
    v = I.method(k, 'from_dist', I.new_arr((ONE,), lambda ix: d))
    if isinstance(v, Choice):
        live = [x for c, x in v.alts if chk.satisfiable(c) is not False]
        v = live[0] if len(live) == 1 else None
    v = I.as_arr(v)
    if not isinstance(v, Arr):
        raise Skip('kernel value %r' % (v,))
    val = I.toE(I.at1(v, (ZERO,)))
    for x, n in free_syms.items():
        # does the value change with the unregistered quantity?
        y = T.subst(val, {next(iter(x.t))[0][0]: x + ONE})
        r, _ = chk.cmp(val, y)
        chk.holds('%s: the value does not depend on an unregistered %s' % (
            nm, n), qual, {'eq': True, 'ne': False, 'unk': None}[r],
            '%s influences the kernel but is not registered' % n)
    chk.holds('%s: registration is enumerable' % nm, qual, True)
    # whatever the values, each update stores every component with one
    # parameter
    ps = [p for p in reg if I.is_param(p)]
    for g in (1, 2):
        want = [sym('component%d@%d' % (j, g)) for j in range(len(ps))]
        n0 = len(I.events)
        I.method(k, 'update_gradient', I.new_list(tuple(map(Item, want))))
        if any(e['kind'] == 'raise' for e in I.events[n0:]):
            raise Skip('update_gradient raises')
        for p in ps:
            n = I.heap[p.id].attrs.get('name')
            what = '%s: %s holds a component of update %d, whatever the ' \
                'values' % (nm, n, g)
            gv = gradient_of(I, p)
            if gv is None:
                chk.holds(what, qual + '.update_gradient', False,
                          'gradient never set')
                continue
            e = I.toE(gv)
            r = 'eq'
            if e not in want:
                rs = [chk.cmp(e, w)[0] for w in want]
                r = 'eq' if 'eq' in rs else 'unk' if 'unk' in rs else 'ne'
            chk.holds(what, qual + '.update_gradient', {
                'eq': True, 'ne': False, 'unk': None}[r],
                'got %s' % T.show(e, 120))


# --------------------------------------------------------------- models
class Real(Cfg):
    """a mixture of the package's own kernels"""
    names = ('rbf.RBF', 'std_periodic.StdPeriodic', 'matern32.Matern32',
             'scaled.Scaled')

    def __init__(self, *a, first=0, **k):
        Cfg.__init__(self, *a, **k)
        self.first = first

    def kernel(self, I, q):
        n = self.names[(q + self.first) % len(self.names)]
        kw = {}
        if n == 'scaled.Scaled':
            args = (self._plain(I, self.names[1], q),)
        else:
            return self._plain(I, n, q)
        k = I.call(I.func('runlmc.kern.' + n), args, kw)
        if not isinstance(k, ORef):
            raise Skip('kernel %r' % (k,))
        return k

    def _plain(self, I, n, q):
        a = self.active[q]
        kw = {'name': 'k%d' % q}
        if a is not None:
            kw['active_dims'] = I.new_list(tuple(Item(num(v)) for v in a))
        k = I.call(I.func('runlmc.kern.' + n), (), kw)
        if not isinstance(k, ORef):
            raise Skip('kernel %r' % (k,))
        return k


CFGS = [
    Real(2, (1, 2), 1, (0, 1)),
    Real(1, (1,), 0, ()),
    Real(2, (), 2, ()),
    Real(2, (), 0, (1, 0), first=1),
    Real(3, (1,), 0, (2,), first=3),
    Real(2, (1,), 1, (1,), P=2, active=[(0,), (1,), (0, 1)], first=2),
]


def grad_stubs(cfg, gen, nk):
    """arbitrary likelihood gradients, new ones for each generation; nk: a
    list to be filled with the number of parameters of each kernel"""
    def grads(name, f):
        def stub(I, args, kw):
            return f(I, '%s@%d' % (name, gen[0]))
        return stub

    def vec(I, t):
        return I.new_list(tuple(Item(I.new_arr(
            (num(cfg.rank(q)), num(cfg.D)), lambda ix, q=q: el(
                '%s_%d' % (t, q), *ix))) for q in range(cfg.Q)))

    def diag(I, t):
        return I.new_list(tuple(Item(I.new_arr(
            (num(cfg.D),), lambda ix, q=q: el('%s_%d' % (t, q), *ix)))
            for q in range(cfg.Q)))

    def kern(I, t):
        return I.new_list(tuple(Item(I.new_list(tuple(
            Item(sym('%s_%d_%d' % (t, q, j))) for j in range(nk[q]))))
            for q in range(cfg.Q)))

    def noise(I, t):
        return I.new_arr((num(cfg.D),), lambda ix: el(t, *ix))
    st = {}
    for c in ('LMCLikelihood', 'ApproxLMCLikelihood'):
        for n, f in (('coreg_vec_gradients', vec),
                     ('coreg_diags_gradients', diag),
                     ('kernel_gradients', kern), ('noise_gradient', noise)):
            st[LK + c + '.' + n] = grads(n, f)
    return st


def one_model(chk, cfg):
    gen, nk = [0], []
    st = grad_stubs(cfg, gen, nk)
    lens = [2] * cfg.D
    mo = Model(chk, cfg, [2] * cfg.P, lens, stubs=st)
    I, o, fk = mo.I, mo.o, mo.fk
    reg = linked(I, o)
    if reg is None:
        raise Skip('registration not enumerable')
    kparams = [params_of(I, k) for k in cfg.kernels]
    if None in kparams:
        raise Skip('kernel parameters')
    nk.extend(len(p) for p in kparams)
    # which component of a distributed kernel gradient belongs to whom is
    # C05's business: read the permutation off update_gradient
    for q, k in enumerate(cfg.kernels):
        chk.holds('kernel %d is registered %s' % (q, cfg), FK, any(
            k.same(r) for r in reg), 'kernel %d is not linked' % q)
        for p in kparams[q]:
            chk.holds('parameter %s of kernel %d is registered %s' % (
                I.heap[p.id].attrs.get('name'), q, cfg), FK, any(
                    p.same(r) for r in reg), 'not linked')
    slots = []
    for prop, t, want in (
            ('coreg_vecs', 'coreg_vec_gradients',
             lambda q: cfg.kind(q) != 'indep'),
            ('coreg_diags', 'coreg_diags_gradients',
             lambda q: cfg.kind(q) == 'lmc')):
        vs = items(I, I.getattr(fk, prop))
        if vs is None or len(vs) != cfg.Q:
            raise Skip(prop)
        for q, v in enumerate(vs):
            if not want(q):
                continue
            p = owner(I, reg, v)
            known = store(I, v) is not None
            chk.holds('%s of kernel %d are registered %s' % (prop, q, cfg),
                      FK, p is not None if known else None,
                      'not linked to the model')
            if p is not None:
                slots.append((prop + '[%d]' % q, p, '%s@%%d_%d' % (t, q)))
    p = owner(I, reg, I.getattr(fk, 'noise'))
    chk.holds('noise is registered %s' % cfg, FK, p is not None,
              'noise is not linked to the model')
    if p is not None:
        slots.append(('noise', p, 'noise_gradient@%d'))
    for g in (1, 2):
        gen[0] = g
        mo.update()
        for n, p, t in slots:
            gv = gradient_of(I, p)
            if gv is None:
                chk.holds('%s has a gradient after update %d %s' % (
                    n, g, cfg), FK + '.update_gradient', False,
                    'gradient never set')
                continue
            a = I.param_arr(p)
            chk.arr('%s holds its own gradient after update %d %s' % (
                n, g, cfg), FK + '.update_gradient', gv, a.shape,
                lambda ix: el(t % g, *ix))
        for q, ps in enumerate(kparams):
            want = [sym('kernel_gradients@%d_%d_%d' % (g, q, j))
                    for j in range(len(ps))]
            got = []
            for p in ps:
                gv = gradient_of(I, p)
                n = I.heap[p.id].attrs.get('name')
                if gv is None:
                    chk.holds('%s of kernel %d has a gradient after update '
                              '%d %s' % (n, q, g, cfg), FK, False,
                              'gradient never set')
                    continue
                e = I.toE(gv)
                i = next((i for i, w in enumerate(want) if w == e), 0)
                r, info = chk.cmp(e, want[i])
                got.append(i if r == 'eq' else None)
                chk.holds('%s of kernel %d holds a component of its own '
                          'gradient after update %d %s' % (n, q, g, cfg),
                          FK, {'eq': True, 'ne': False, 'unk': None}[r],
                          'got %s' % T.show(e, 100))
            chk.holds('components of kernel %d go to different parameters '
                      'after update %d %s' % (q, g, cfg), FK,
                      None if None in got else len(set(got)) == len(got),
                      'one component is stored twice')
    accepted(chk, 'the model is built and updated %s' % cfg, M, 0,
             mo.varied())


def run(chk):
    I0 = chk.interp()
    for cls in all_kernels(I0):
        names, defaults = init_args(I0, cls)
        free = [n for n in names if n not in defaults]
        for inner in (['runlmc.kern.' + n for n in (
                'rbf.RBF', 'std_periodic.StdPeriodic', 'matern32.Matern32',
                'identity.Identity')] if free else [None]):
            with chk.section('kernel %s %s' % (cls.name, inner), cls.qual):
                one_kernel(chk, cls.qual, inner)
    for cfg in CFGS:
        with chk.section('model %s' % cfg, M, limit=120):
            one_model(chk, cfg)
