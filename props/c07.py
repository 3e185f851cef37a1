"""C07: scale-like parameters are confined to positive values."""
from .c06 import *

RULE = ('Abstract interpretation of kernel, model and prior construction: '
        'for every parameter object backing a noise level, inverse '
        'lengthscale, period, scale or trainable coregionalisation diagonal, '
        'the constraint in force after construction and after an update '
        '(typestate over default constraint, constrain_* and unconstrain_* '
        'calls) must be one with positive domain, and its initial value '
        'positive; setting a prior must leave the constraint of the prior\'s '
        'domain in force.')
BUDGET = 600
PR = 'runlmc.parameterization.priors.'
SCALES = {'inv_lengthscale', 'lengthscale', 'period', 'scale', 'variance'}
DOMAIN = {'Logexp': 'positive', 'Exponent': 'positive', 'Square': 'positive',
          'NegativeLogexp': 'negative', 'NegativeExponent': 'negative',
          'Logistic': 'bounded', 'LogexpClipped': 'positive'}


def dom(c):
    """domain of a constraint value"""
    if c is None:
        return 'real'
    if isinstance(c, MX.ExtObj):
        n = c.name.split('.')[-1]
        if n == 'Logistic':
            lo = c.args[0] if c.args else None
            return 'positive' if isinstance(lo, E) and nonneg(lo) else \
                'bounded'
        return DOMAIN.get(n)
    return None


def state(I, p):
    """(domain in force, fixed) for a parameter; None: not understood"""
    d = dom(I.heap[p.id].attrs.get('_constraint0'))
    fixed = False
    for e in I.events:
        if e['kind'] == 'havoc' and False:
            return None
        if e['kind'] != 'constrain' or not isinstance(e['obj'], ORef) or \
                e['obj'].id != p.id:
            continue
        if e['pc'] != ONE or e['loops']:
            return None
        h = e['how']
        if h == 'constrain_positive':
            d = 'positive'
        elif h == 'constrain_negative':
            d = 'negative'
        elif h in ('constrain_fixed', 'fix'):
            fixed = True
        elif h in ('unfix', 'unconstrain_fixed'):
            fixed = False
        elif h in ('unconstrain', 'unconstrain_positive'):
            d, fixed = 'real', False
        elif h == 'constrain_bounded':
            lo = e['args'][0] if e['args'] else None
            d = 'positive' if isinstance(lo, E) and nonneg(lo) else 'bounded'
        elif h == 'constrain':
            d = dom(e['args'][0] if e['args'] else None)
        else:
            return None
    return d, fixed


def confined(chk, I, p, what, anchor, when):
    s = state(I, p)
    ok = None if s is None or s[0] is None else s[0] == 'positive'
    chk.holds('%s carries a positivity constraint %s' % (what, when), anchor,
              ok, 'constraint in force: %s' % (s and s[0]))
    return s


def initial(chk, I, p, what, anchor):
    a = I.param_arr(p)
    if not isinstance(a, Arr):
        return chk.holds('%s starts positive' % what, anchor, None, 'value')
    ix = tuple(A(fresh_var('i', n)) for n in a.shape)
    e = I.toE(I.at1(a, ix))
    if positive(e):
        return chk.holds('%s starts positive' % what, anchor, True)
    r, _ = chk.cmp(ind('lt', -e), ONE)
    chk.holds('%s starts positive' % what, anchor, {
        'eq': True, 'ne': False, 'unk': None}[r], 'initially %s' % T.show(
            e, 80))


def kernel(chk, qual, inner):
    I = chk.interp()
    cls = I.func(qual)
    names, defaults = init_args(I, cls)
    kw = {n: sym('arg_' + n, 'pos') for n in sets(I, cls)}
    free = [n for n in names if n not in defaults]
    if free:
        ic = I.func(inner)
        kw[free[0]] = I.call(ic, (), {n: sym('arg_inner_' + n, 'pos')
                                      for n in sets(I, ic)})
    k = I.call(cls, (), kw)
    if not isinstance(k, ORef):
        raise Skip('kernel %r' % (k,))
    nm = cls.name + ('(%s)' % inner.split('.')[-1] if free else '')
    for e in list(I.events):
        if e['kind'] != 'new_param':
            continue
        p = e['obj']
        n = e['name'] if isinstance(e['name'], str) else None
        if n not in SCALES:
            continue
        confined(chk, I, p, '%s: %s' % (nm, n), qual, 'after construction')
        initial(chk, I, p, '%s: %s' % (nm, n), qual)
        d = sym('dist', 'nn')
    for m in ('from_dist', 'kernel_gradient'):
        I.method(k, m, I.new_arr((ONE,), lambda ix: sym('dist', 'nn')))
    for p in params_of(I, k) or ():
        n = I.heap[p.id].attrs.get('name')
        if n in SCALES:
            confined(chk, I, p, '%s: %s' % (nm, n), qual, 'after use')
    chk.holds('%s is understood' % nm, qual, True)


def model(chk, cfg):
    nk = []
    st = grad_stubs(cfg, [0], nk)
    mo = Model(chk, cfg, [2] * cfg.P, [2] * cfg.D, stubs=st)
    I, fk = mo.I, mo.fk
    allp = [e['obj'] for e in I.events if e['kind'] == 'new_param']

    def every(when):
        vs = items(I, I.getattr(fk, 'coreg_diags'))
        if vs is None or len(vs) != cfg.Q:
            raise Skip('coreg_diags')
        todo = [('noise', I.getattr(fk, 'noise'))] + [
            ('coregionalisation diagonal %d' % q, v)
            for q, v in enumerate(vs) if cfg.kind(q) == 'lmc']
        for n, v in todo:
            p = owner(I, allp, v)
            if p is None:
                chk.holds('%s is a parameter %s' % (n, cfg), FK, None, '?')
                continue
            confined(chk, I, p, '%s (%s)' % (n, cfg), FK, when)
        for q, k in enumerate(cfg.kernels):
            for p in params_of(I, k) or ():
                n = I.heap[p.id].attrs.get('name')
                if n in SCALES:
                    confined(chk, I, p, '%s of kernel %d (%s)' % (n, q, cfg),
                             FK, when)
    every('after construction')
    nk.extend(len(params_of(I, k) or ()) for k in cfg.kernels)
    mo.update()
    every('after an update')


def initials(chk, cfg):
    I = chk.interp()
    fk = cfg.build(I)
    allp = [e['obj'] for e in I.events if e['kind'] == 'new_param']
    vs = items(I, I.getattr(fk, 'coreg_diags'))
    if vs is None or len(vs) != cfg.Q:
        raise Skip('coreg_diags')
    for n, v in [('noise', I.getattr(fk, 'noise'))] + [
            ('coregionalisation diagonal %d' % q, v)
            for q, v in enumerate(vs) if cfg.kind(q) == 'lmc']:
        p = owner(I, allp, v)
        if p is not None:
            initial(chk, I, p, '%s (%s)' % (n, cfg), FK)


class AnyPrior(Abs):
    cls = None

    def __init__(self, domain):
        self.d = domain

    def key(self):
        return ('anyprior', self.d)

    def subst(self, s):
        return self

    def isinst(self, I, c):
        return ONE if isinstance(c, PyClass) and c.qual == PR + 'Prior' \
            else ZERO

    def getattr(self, I, name):
        return self.d if name == 'domain' else I.unk('prior.' + name)


PRIORS = {'Gaussian': 'real', 'Gamma': 'positive', 'InverseGamma':
          'positive', 'HalfLaplace': 'positive'}
PQ = 'runlmc.parameterization.priorizable.PriorizableLeaf.set_prior'


def prior(chk, name, domain):
    I = chk.interp()
    P = I.func('runlmc.parameterization.param.Param')
    p = I.call(P, ('p', I.new_arr((num(2),), lambda ix: el('v', *ix))), {})
    if not isinstance(p, ORef):
        raise Skip('parameter %r' % (p,))
    if name is None:
        pr = AnyPrior(domain)
        name = 'any prior on the %s numbers' % domain
    else:
        n = 1 if name == 'HalfLaplace' else 2
        pr = I.call(I.func(PR + name), tuple(sym('h%d' % i, 'pos')
                                             for i in range(n)), {})
    e0 = len(I.events)
    n0 = len(I.raises)
    I.method(p, 'set_prior', pr)
    s = state(I, p)
    chk.holds('%s: the parameter is confined to the prior\'s domain' % name,
              PQ, None if s is None or s[0] is None else s[0] == domain,
              'constraint in force: %s, domain %s' % (s and s[0], domain))
    added = [e for e in I.events[e0:] if e['kind'] == 'add_prior']
    removed = [i for i, e in enumerate(I.events[e0:])
               if e['kind'] == 'remove_prior']
    pos = [i for i, e in enumerate(I.events[e0:]) if e['kind'] == 'add_prior']
    if not any(e['kind'] in ('unkcall', 'havoc') for e in I.events[e0:]) or \
            added:
        ok = len(added) == 1 and any(
            x is pr or isinstance(x, ORef) and isinstance(pr, ORef) and
            x.same(pr) for x in added[0]['args'])
        chk.holds('%s: the prior is recorded once' % name, PQ,
                  ok if all(e['pc'] == ONE for e in added) else None,
                  'recorded %d times' % len(added))
        chk.holds('%s: an earlier prior is dropped first' % name, PQ,
                  bool(removed) and bool(pos) and removed[0] < pos[0],
                  'not dropped')
    for r in I.raises[n0:]:
        if r.exc not in ('AssertionError',):
            chk.holds('%s is accepted' % name, PQ, {
                True: False, False: True, None: None}[chk.satisfiable(
                    r.cond)], r.exc, r.loc)


def run(chk):
    I0 = chk.interp()
    for cls in all_kernels(I0):
        names, defaults = init_args(I0, cls)
        free = [n for n in names if n not in defaults]
        for inner in (['runlmc.kern.' + n for n in (
                'rbf.RBF', 'std_periodic.StdPeriodic', 'matern32.Matern32',
                'identity.Identity')] if free else [None]):
            with chk.section('kernel %s %s' % (cls.name, inner), cls.qual):
                kernel(chk, cls.qual, inner)
    for n, d in PRIORS.items():
        with chk.section('prior ' + n, PR + n):
            prior(chk, n, d)
    for d in ('real', 'positive', 'negative'):
        with chk.section('domain ' + d, PQ):
            prior(chk, None, d)
    with chk.section('Gaussian variance', PR + 'Gaussian'):
        I = chk.interp()
        v = sym('var')
        I.call(I.func(PR + 'Gaussian'), (sym('mu'), v), {})
        refused(chk, 'a Gaussian prior needs a positive variance',
                PR + 'Gaussian', 0, ONE - ind('lt', -v))
        I = chk.interp()
        n0 = len(I.raises)
        I.call(I.func(PR + 'Gaussian'), (sym('mu'), sym('var', 'pos')), {})
        accepted(chk, 'a Gaussian prior with positive variance is accepted',
                 PR + 'Gaussian', n0)
    for cfg in CFGS:
        with chk.section('initial %s' % cfg, FK):
            initials(chk, cfg)
        with chk.section('model %s' % cfg, M, limit=120):
            model(chk, cfg)
