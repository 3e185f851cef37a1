import ast

from engine.spec import *
from engine import terms as T
from engine.terms import *
from engine.vals import *
from engine.program import AnalysisError
from engine import models_ext as MX


def subclasses(I, base_qual):
    """concrete classes of the package deriving from base_qual"""
    out = []
    for m in I.prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                c = I.mod_member(m, n.name)
                if isinstance(c, PyClass) and c.qual != base_qual and \
                        I.subclass(c, base_qual):
                    out.append(c)
    return out


def init_args(I, cls):
    """parameter names of the class' __init__ with defaults"""
    _, f = I.find_member(cls, '__init__')
    if not isinstance(f, PyFunc):
        return [], {}
    a = f.node.args
    names = [x.arg for x in a.args][1:]
    nd = len(a.defaults)
    defaults = dict(zip(names[len(names) - nd:], a.defaults)) if nd else {}
    return names, defaults


def params_of(I, o):
    """trainable parameters of an object, in link order (link events), as a
    list of (param ref, element count); None if not resolvable"""
    out = []
    for ev in I.events:
        if ev['kind'] == 'link' and isinstance(ev['obj'], ORef) and \
                ev['obj'].same(o):
            p = ev['param']
            if 'fam' in ev or ev['loops']:
                return None
            if I.is_param(p):
                out.append(p)
            elif isinstance(p, ORef):
                sub = params_of(I, p)
                if sub is None:
                    return None
                out.extend(sub)
            else:
                return None
    return out


def gradient_of(I, p):
    return I.heap[p.id].attrs.get('gradient')


def bind_params(I, o, fn):
    """replace each parameter's value by a symbol (parameters change after
    construction); fn(j, param) -> value term"""
    ps = params_of(I, o)
    if ps is None:
        raise Skip('parameters of %r not resolvable' % (o,))
    syms = []
    for j, p in enumerate(ps):
        a = I.param_arr(p)
        if any(s != ONE for s in a.shape):
            raise Skip('vector parameter')
        x = fn(j, p)
        I.noevents += 1
        I.write_arr(a, lambda ix: x)
        I.noevents -= 1
        syms.append(x)
    return ps, syms


def vector(I, name, n, *attrs, dtype='float', roots=frozenset()):
    t = tensor(name, *attrs)
    return I.new_arr((n,), lambda ix: el(t, *ix), dtype, roots)


def array(I, name, shape, *attrs, dtype='float', roots=frozenset()):
    t = tensor(name, *attrs)
    return I.new_arr(shape, lambda ix: el(t, *ix), dtype, roots)


def items(I, v):
    """list of plain items of a sequence value; None if not enumerable"""
    if v is None or isinstance(v, UnkV):
        return None
    try:
        segs = I.iterate(v)
    except Exception:
        return None
    out = []
    for s in segs:
        if not isinstance(s, Item) or s.cond != ONE:
            return None
        out.append(s.v)
    return out


def raise_cond(I, n0, excs=('ValueError',)):
    """condition under which one of excs was raised since n0"""
    c = ZERO
    for r in I.raises[n0:]:
        if r.exc in excs:
            x = r.cond
            c = c + x - c * x
    return c


def refused(chk, name, anchor, n0, cond, excs=('ValueError',), assume=()):
    """under cond (0/1 term) the request is refused with one of excs, checked
    by comparing cond * (raised) with cond; a valuation in which cond holds
    and nothing is raised is a violation"""
    I = chk._I
    rc = raise_cond(I, n0, excs)
    d = cond - cond * rc
    if not d.t or T.is_zero(d):
        return chk.holds(name, anchor, True)
    if d.unk:
        return chk.holds(name, anchor, None, 'condition not modelled: %s' % (
            '; '.join(unk_reasons(d)[:2])))
    other = raise_cond(I, n0, [r.exc for r in I.raises[n0:]
                               if r.exc not in excs])
    r, info = chk.cmp(cond * rc, cond, assume)
    det = 'not refused when %s' % T.show(cond, 150)
    if r == 'ne' and other.t:
        det += '; instead: %s' % [x.exc for x in I.raises[n0:]]
    return chk.holds(name, anchor, {'eq': True, 'ne': False,
                                    'unk': None}[r], det)


def accepted(chk, name, anchor, n0, assume=()):
    """a well-formed request raises nothing"""
    return chk.quiet(name, anchor, n0, assume)
