"""Abstract values and heap records of the interpreter."""
from .terms import (E, A, ONE, ZERO, subst, ite, lift, num, ind, is_int,
                    fresh_var)


class UnkV:
    """a value the analysis does not model (never used to raise an alarm)"""
    __slots__ = ('reason', 'roots')

    def __init__(self, reason, roots=frozenset()):
        self.reason = str(reason)
        self.roots = frozenset(roots)

    def __repr__(self):
        return '<?%s>' % self.reason


class Ref:
    """heap reference; sub instantiates the family variables of objects that
    were allocated inside a summarised loop"""
    __slots__ = ('id', 'sub')

    def __init__(self, id, sub=()):
        self.id = id
        self.sub = sub

    def same(self, o):
        return type(self) is type(o) and self.id == o.id and \
            self.sub == o.sub

    def __repr__(self):
        return '%s%d%s' % (type(self).__name__, self.id, '' if not self.sub
                           else dict(self.sub))


class ORef(Ref):
    __slots__ = ()


class LRef(Ref):
    __slots__ = ()


class DRef(Ref):
    __slots__ = ()


class FRef(Ref):          # frame
    __slots__ = ()


class Arr(Ref):
    """array view: store id + shape + index maps"""
    __slots__ = ('shape', 'rd', 'wr', 'dtype', 'flags')

    def __init__(self, id, shape, rd=None, wr=None, dtype='float', sub=(),
                 flags=()):
        super().__init__(id, sub)
        self.shape = tuple(shape)
        self.rd = rd          # (view vars, base index exprs) or None
        self.wr = wr          # (base vars, cond, view index exprs) or None
        self.dtype = dtype
        self.flags = flags

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return 'Arr%d%r' % (self.id, self.shape)


class Choice:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts      # [(cond E, value)], exclusive + exhaustive

    def __repr__(self):
        return 'Choice(%r)' % (self.alts,)


class PyFunc:
    __slots__ = ('node', 'mod', 'cls', 'env', 'qual', 'sub', 'kind',
                 'defaults', 'memo')

    def __init__(self, node, mod, qual, cls=None, env=None, sub=(),
                 kind='func', defaults=None, memo=False):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.env = env        # enclosing frame ref
        self.sub = sub
        self.kind = kind      # func | static | class | property
        self.defaults = defaults
        self.memo = memo

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound:
    __slots__ = ('self_', 'func')

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class PyClass:
    __slots__ = ('node', 'mod', 'name', 'qual', 'bases', 'attrs', 'mro',
                 'setters', 'decorators')

    def __repr__(self):
        return '<class %s>' % self.qual


class Ext:
    """external name, e.g. numpy.square"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class ExtBound:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return '<extbound %r.%s>' % (self.obj, self.name)


class SuperV:
    __slots__ = ('obj', 'cls')

    def __init__(self, obj, cls):
        self.obj = obj
        self.cls = cls


class ModV:
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.lo, self.hi, self.step)


class Native:
    """python-implemented callable for contracts: fn(interp, args, kwargs)"""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name='native'):
        self.fn = fn
        self.name = name


class Abs:
    """abstract object with contract: subclass and define methods
    getattr(interp, name), optional subst(s), key()"""

    def getattr(self, I, name):
        raise NotImplementedError

    def setattr(self, I, name, value):
        I.event('abs_setattr', obj=self, attr=name, value=value)

    def subst(self, s):
        return self

    def key(self):
        return ('abs', id(self))


class LazyE(Abs):
    """array element computed when it is read (obj.at(ix))"""

    def __init__(self, obj, ix):
        self.obj, self.ix = obj, tuple(ix)

    def subst(self, s):
        return LazyE(self.obj.subst(s), tuple(subst(i, s) for i in self.ix))

    def key(self):
        return ('lazy', self.obj.key(), tuple(i.key for i in self.ix))

    def force(self):
        return self.obj.at(self.ix)

    def getattr(self, I, name):
        return I.getattr(self.force(), name)


class Seq:
    """immutable iteration result: tuple of segments"""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='list'):
        self.segs = tuple(segs)
        self.kind = kind

    def __repr__(self):
        return 'Seq(%s,%r)' % (self.kind, self.segs)


class Item:
    __slots__ = ('v', 'cond')

    def __init__(self, v, cond=ONE):
        self.v = v
        self.cond = cond

    def __repr__(self):
        return 'Item(%r%s)' % (self.v, '' if self.cond == ONE else
                               ' if %r' % self.cond)


class Fam:
    """family of values v(ks), ks = ((var, bound), ...) nested; cond filters"""
    __slots__ = ('ks', 'v', 'cond')

    def __init__(self, ks, v, cond=ONE):
        self.ks = tuple(ks)
        self.v = v
        self.cond = cond

    def __repr__(self):
        return 'Fam(%r: %r)' % (self.ks, self.v)


class PhiSeg:
    __slots__ = ('uid', 'len')

    def __init__(self, uid, len_):
        self.uid = uid
        self.len = len_


def rd_at(a, ix):
    if a.rd is None:
        return tuple(ix)
    vs, ex = a.rd
    m = dict(zip(vs, ix))
    return tuple(subst(x, m) for x in ex)


def wr_at(a, bx):
    if a.wr is None:
        return ONE, tuple(bx)
    vs, c, ex = a.wr
    m = dict(zip(vs, bx))
    return subst(c, m), tuple(subst(x, m) for x in ex)


# ------------------------------------------------------------ heap records
class ObjRec:
    __slots__ = ('cls', 'attrs', 'roots', 'tag')

    def __init__(self, cls, attrs, roots=frozenset(), tag=None):
        self.cls = cls
        self.attrs = attrs
        self.roots = roots
        self.tag = tag

    def copy(self):
        return ObjRec(self.cls, dict(self.attrs), self.roots, self.tag)


class ListRec:
    __slots__ = ('segs', 'roots', 'kind')

    def __init__(self, segs, roots=frozenset(), kind='list'):
        self.segs = tuple(segs)
        self.roots = roots
        self.kind = kind


class DictRec:
    __slots__ = ('items', 'roots', 'unk')

    def __init__(self, items, roots=frozenset(), unk=None):
        self.items = tuple(items)      # (key, value, cond)
        self.roots = roots
        self.unk = unk


class StoreRec:
    __slots__ = ('vars', 'body', 'shape', 'dtype', 'roots')

    def __init__(self, vars, body, shape, dtype, roots=frozenset()):
        self.vars = tuple(vars)
        self.body = body
        self.shape = tuple(shape)
        self.dtype = dtype
        self.roots = roots


class FrameRec:
    __slots__ = ('vars', 'parent', 'func', 'nonlocals')

    def __init__(self, vars, parent, func, nonlocals=()):
        self.vars = vars
        self.parent = parent
        self.func = func
        self.nonlocals = nonlocals

    def copy(self):
        return FrameRec(dict(self.vars), self.parent, self.func,
                        self.nonlocals)


def compose(sub, s):
    """apply substitution s after sub"""
    if not s:
        return sub
    d = {}
    for k, t in sub:
        d[k] = subst(t, s)
    for k, t in s.items():
        if k not in d:
            d[k] = t
    return tuple(sorted(d.items(), key=lambda p: p[0].key))


def subst_val(v, s):
    if not s:
        return v
    if isinstance(v, E):
        return subst(v, s)
    if v is None or isinstance(v, (str, bool, UnkV, Ext, PyClass, ModV,
                                   Native, int, float)):
        return v
    if isinstance(v, tuple):
        return tuple(subst_val(x, s) for x in v)
    if isinstance(v, Arr):
        shape = tuple(subst(x, s) for x in v.shape)
        nrd, nwr = v.rd, v.wr
        if nrd is not None:
            vs, ex = nrd
            ren = {}
            if shape != v.shape:
                vs2 = tuple(fresh_var('x', n) for n in shape)
                ren = {p: A(q) for p, q in zip(vs, vs2)}
                vs = vs2
            nrd = (vs, tuple(subst(x, {**s, **ren}) for x in ex))
        if nwr is not None:
            vs, c, ex = nwr
            nwr = (vs, subst(c, s), tuple(subst(x, s) for x in ex))
        return Arr(v.id, tuple(subst(x, s) for x in v.shape), nrd, nwr,
                   v.dtype, compose(v.sub, s), v.flags)
    if isinstance(v, Ref):
        return type(v)(v.id, compose(v.sub, s))
    if isinstance(v, Choice):
        return mk_choice([(subst(c, s), subst_val(x, s))
                          for c, x in v.alts])
    if isinstance(v, Bound):
        return Bound(subst_val(v.self_, s), subst_val(v.func, s))
    if isinstance(v, ExtBound):
        return ExtBound(subst_val(v.obj, s), v.name)
    if isinstance(v, PyFunc):
        return PyFunc(v.node, v.mod, v.qual, v.cls, v.env, compose(
            v.sub, s), v.kind, v.defaults, v.memo)
    if isinstance(v, SliceV):
        return SliceV(subst_val(v.lo, s), subst_val(v.hi, s),
                      subst_val(v.step, s))
    if isinstance(v, Seq):
        return Seq([subst_seg(x, s) for x in v.segs], v.kind)
    if isinstance(v, Abs):
        return v.subst(s)
    if isinstance(v, SuperV):
        return SuperV(subst_val(v.obj, s), v.cls)
    return v


def subst_seg(x, s):
    if isinstance(x, Item):
        return Item(subst_val(x.v, s), subst(x.cond, s))
    if isinstance(x, Fam):
        # bound variables are unique atoms; bounds may mention s
        nks = []
        ren = {}
        changed = False
        for k, n in x.ks:
            n2 = subst(n, {**s, **ren})
            if n2 != n:
                changed = True
                k2 = fresh_var('f', n2)
                ren[k] = A(k2)
                nks.append((k2, n2))
            else:
                nks.append((k, n))
        s2 = {k: t for k, t in s.items() if k not in dict(x.ks)}
        if changed:
            s2 = {**s2, **ren}
        return Fam(nks, subst_val(x.v, s2), subst(x.cond, s2))
    return x


def mk_choice(alts):
    out = []
    for c, v in alts:
        if not c.t:
            continue
        if isinstance(v, Choice):
            for c2, v2 in v.alts:
                cc = c * c2
                if cc.t:
                    out.append((cc, v2))
        else:
            out.append((c, v))
    if len(out) == 1:
        return out[0][1]
    if not out:
        return UnkV('empty choice')
    # group equal values
    res = []
    for c, v in out:
        for i, (c2, v2) in enumerate(res):
            if same_val(v, v2):
                res[i] = (c2 + c, v2)
                break
        else:
            res.append((c, v))
    if len(res) == 1:
        return res[0][1]
    if all(isinstance(v, (E, bool)) for c, v in res):
        r = ZERO
        for c, v in res:
            r = r + c * lift(int(v) if isinstance(v, bool) else v)
        return r
    return Choice(res)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, E) and isinstance(b, E):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(same_val, a, b))
    if isinstance(a, Arr):
        if a.id != b.id or a.sub != b.sub or a.shape != b.shape:
            return False
        if a.rd is b.rd:
            return True
        ix = tuple(A(fresh_var('q', n)) for n in a.shape)
        return rd_at(a, ix) == rd_at(b, ix)
    if isinstance(a, Ref):
        return a.id == b.id and a.sub == b.sub
    if isinstance(a, (str, bool, int, float)):
        return a == b
    if isinstance(a, Ext):
        return a.name == b.name
    if isinstance(a, Bound):
        return same_val(a.self_, b.self_) and same_val(a.func, b.func)
    if isinstance(a, ExtBound):
        return a.name == b.name and same_val(a.obj, b.obj)
    if isinstance(a, PyFunc):
        return a.node is b.node and a.sub == b.sub and (
            a.env is b.env or (a.env and b.env and a.env.same(b.env)))
    if isinstance(a, Abs):
        return a.key() == b.key()
    if isinstance(a, SliceV):
        return same_val((a.lo, a.hi, a.step), (b.lo, b.hi, b.step))
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(
            c1 == c2 and same_val(x, y) for (c1, x), (c2, y) in zip(
                a.alts, b.alts))
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(
            map(same_seg, a.segs, b.segs))
    if isinstance(a, ModV):
        return a.mod is b.mod
    return False


def same_seg(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Item):
        return same_val(a.v, b.v) and a.cond == b.cond
    if isinstance(a, Fam):
        if len(a.ks) != len(b.ks):
            return False
        ren = {}
        for (k1, n1), (k2, n2) in zip(a.ks, b.ks):
            if n1 != (subst(n2, ren) if ren else n2):
                return False
            if k1 is not k2:
                ren[k2] = A(k1)
        return same_val(a.v, subst_val(b.v, ren)) and \
            a.cond == subst(b.cond, ren)
    if isinstance(a, PhiSeg):
        return a.uid == b.uid
    return False
