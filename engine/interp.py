"""Abstract interpreter over the syntax tree.

Values are canonical terms (terms.py) and abstract heap objects (vals.py).
Conditionals are joined by gating (no path enumeration), loops over families
of symbolic length are summarised in closed form (no unrolling), repository
functions are inlined, external libraries are described by models.  Whatever is
not modelled becomes an explicit unknown which can never support an alarm.
"""
import ast
import itertools
from fractions import Fraction as F

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    mk_sum, unk, sym, is_int, nonneg, positive, lin_coeff)
from .vals import *
from .vals import rd_at, wr_at
from .program import Program, AnalysisError, Module


class Unsupported(Exception):
    pass


_ids = itertools.count(1)


class RaiseOut:
    __slots__ = ('cond', 'exc', 'args', 'heap', 'loc', 'value', 'stack',
                 'vars')

    def __init__(self, cond, exc, args, heap, loc, value=None, stack=()):
        self.cond, self.exc, self.args = cond, exc, args
        self.heap, self.loc, self.value = heap, loc, value
        self.stack = stack
        self.vars = ()


class Act:
    """function activation"""

    def __init__(self, func, frame, node):
        self.func = func
        self.frame = frame
        self.returns = []     # (pc, value, heap)
        self.yields = None
        self.node = node
        self.loops = []


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


MAXDEPTH = 60


def _maxsize(d):
    """number of results an lru_cache decorator remembers"""
    if not isinstance(d, ast.Call):
        return None if ast.unparse(d).split('.')[-1] == 'cache' else 128
    v = [k.value for k in d.keywords if k.arg == 'maxsize'] or d.args[:1]
    if not v:
        return 128
    return v[0].value if isinstance(v[0], ast.Constant) else 'unknown'


def memo_key(args, kwargs):
    out = []
    for a in list(args) + [x for k in sorted(kwargs) for x in (
            k, kwargs[k])]:
        if isinstance(a, ORef) and not a.sub:
            out.append('obj%d' % a.id)
        elif isinstance(a, (str, bool)) or a is None:
            out.append(repr(a))
        elif isinstance(a, E) and a.const() is not None:
            out.append(str(a.const()))
        else:
            return None
    return ','.join(out)


class Interp:
    def __init__(self, prog, stubs=None):
        self.prog = prog
        self.stubs = stubs or {}
        self.heap = {}
        self.dead = False
        self.pc = ONE
        self.events = []
        self.raises = []       # RaiseOut list of the current try-region
        self.acts = []
        self.truths = {}
        self.stack = []
        self.mods = {}
        self.cur = None        # current ast node (location)
        self.callcount = {}
        self.assume_log = []
        self.steps = 0
        self.noevents = 0
        self.log_level = None    # symbolic unless a check fixes it
        self.memo = None
        self.inmemo = False
        self.loopvars = []
        from . import models
        self.models = models
        self.touched = set()

    # ------------------------------------------------------------- utils
    def loc(self, node=None):
        node = node or self.cur
        mod = self.stack[-1][0] if self.stack else '?'
        return '%s:%s' % (mod, getattr(node, 'lineno', '?'))

    def where(self):
        return [q for _, q in self.stack]

    def event(self, kind, **kw):
        if self.noevents:
            return
        kw['kind'] = kind
        kw.setdefault('loc', self.loc())
        kw['func'] = self.stack[-1][1] if self.stack else '?'
        kw['stack'] = tuple(self.where())
        kw['pc'] = self.pc
        kw['path'] = tuple(a.pc0 for a in self.acts if getattr(
            a, 'pc0', ONE) != ONE)
        kw['loops'] = tuple(self.loopvars)
        self.events.append(kw)

    def unk(self, reason, *vals):
        roots = frozenset()
        for v in vals:
            roots |= self.roots_of(v)
        return UnkV('%s @%s' % (reason, self.loc()), roots)

    def unkE(self, reason):
        return unk('%s @%s' % (reason, self.loc()))

    def roots_of(self, v, depth=0):
        if depth > 4:
            return frozenset()
        if isinstance(v, UnkV):
            return v.roots
        if isinstance(v, Arr):
            return self.heap[v.id].roots
        if isinstance(v, (LRef,)):
            r = self.heap[v.id].roots
            for s in self.heap[v.id].segs:
                if isinstance(s, (Item, Fam)):
                    r |= self.roots_of(s.v, depth + 1)
            return r
        if isinstance(v, DRef):
            r = self.heap[v.id].roots
            for k, x, _ in self.heap[v.id].items:
                r |= self.roots_of(x, depth + 1)
            return r
        if isinstance(v, tuple):
            r = frozenset()
            for x in v:
                r |= self.roots_of(x, depth + 1)
            return r
        if isinstance(v, Choice):
            r = frozenset()
            for _, x in v.alts:
                r |= self.roots_of(x, depth + 1)
            return r
        if isinstance(v, Seq):
            r = frozenset()
            for s in v.segs:
                if isinstance(s, (Item, Fam)):
                    r |= self.roots_of(s.v, depth + 1)
            return r
        if isinstance(v, ORef):
            return self.heap[v.id].roots
        return frozenset()

    # ------------------------------------------------------------ heap
    def new(self, rec):
        i = next(_ids)
        self.heap[i] = rec
        return i

    def new_obj(self, cls, attrs=None, roots=frozenset(), tag=None):
        return ORef(self.new(ObjRec(cls, dict(attrs or {}), roots, tag)))

    def new_list(self, segs=(), roots=frozenset(), kind='list'):
        return LRef(self.new(ListRec(segs, roots, kind)))

    def new_dict(self, items=(), roots=frozenset()):
        return DRef(self.new(DictRec(items, roots)))

    def new_arr(self, shape, f, dtype='float', roots=frozenset(), flags=()):
        """f: index tuple -> E or value"""
        shape = tuple(lift(s) for s in shape)
        vs = tuple(fresh_var('i', n) for n in shape)
        body = f(tuple(ZERO if n == ONE else A(v)
                       for v, n in zip(vs, shape)))
        return Arr(self.new(StoreRec(vs, body, shape, dtype, roots)),
                   shape, dtype=dtype, flags=flags)

    def at(self, a, ix):
        """element of array view at index"""
        rec = self.heap[a.id]
        b = rec.body
        bx = rd_at(a, tuple(lift(i) for i in ix))
        m = dict(a.sub)
        if not isinstance(b, (E,)):
            v = subst_val(b, m) if m else b
            v = subst_val(v, dict(zip(rec.vars, bx)))
            return v.force() if isinstance(v, LazyE) else v
        if m:
            b = subst(b, m)
        return subst(b, dict(zip(rec.vars, bx)))

    def at1(self, a, ix):
        v = self.at(a, ix)
        return v if isinstance(v, E) else self.toE(v)

    def size(self, a):
        n = ONE
        for s in a.shape:
            n = n * s
        return n

    def write_arr(self, a, f, node=None, kind='assign'):
        """overwrite the view: element at view idx := f(idx)"""
        rec = self.heap[a.id]
        if 'copy?' in a.flags:
            pass
        bx = tuple(A(v) for v in rec.vars)
        c, vx = wr_at(a, bx)
        # family instantiation: guard on the family variables
        g = c
        inv = {}
        for k, t in a.sub:
            e = A(k) - t
            g = g * ind('eq', e)
            if len(t.t) == 1:
                (m, co), = t.t.items()
                if co == 1 and len(m) == 1 and m[0][1] == 1 and \
                        m[0][0].kind == 'var':
                    inv[m[0][0]] = A(k)
        val = f(vx)
        old = rec.body
        if isinstance(val, E) and isinstance(old, E):
            body = ite(g, val, old)
            if inv and g != ONE:
                pass
        else:
            body = mk_choice([(g, val), (ONE - g, old)])
        self.heap[a.id] = StoreRec(rec.vars, body, rec.shape, rec.dtype,
                                   rec.roots)
        self.event('write', target='array', roots=rec.roots, store=a.id,
                   op=kind, certain=('maybe' not in a.flags))

    # ------------------------------------------------------- name lookup
    def mod_member(self, m, name):
        if isinstance(m, str):
            full = m + '.' + name
            if full in self.prog.modules:
                return ModV(self.prog.modules[full])
            raise Unsupported('no module member %s.%s' % (m, name))
        key = (m.name, name)
        if key in self.mods:
            return self.mods[key]
        d = m.defs.get(name)
        if d is None:
            full = m.name + '.' + name
            if full in self.prog.modules:
                return ModV(self.prog.modules[full])
            raise KeyError(name)
        if isinstance(d, tuple):
            r = self.prog.lookup_import(d)
            if isinstance(r, tuple):
                try:
                    r = self.mod_member(r[1], r[2])
                except KeyError:
                    r = UnkV('missing import %s.%s' % (r[1].name, r[2]))
        elif isinstance(d, ast.FunctionDef):
            r = self.make_func(d, m, m.name + '.' + d.name)
            r = self.decorate(d, r, m)
        elif isinstance(d, ast.ClassDef):
            r = self.make_class(d, m)
        else:
            # module-level assignment evaluated in a module frame
            r = self.eval_module_assign(m, d, name)
        self.mods[key] = r
        return r

    def eval_module_assign(self, m, d, name):
        fr = FRef(self.new(FrameRec({}, None, None)))
        self.stack.append((m.path, m.name))
        saved, self.raises = self.raises, []
        self.acts.append(Act(None, fr, d))
        self.modframe = getattr(self, 'modframe', {})
        self.heap[fr.id].parent = ('mod', m)
        try:
            self.exec_stmt(d, fr)
            v = self.heap[fr.id].vars.get(name)
            if v is None:
                v = UnkV('module var %s' % name)
        except Unsupported as e:
            v = UnkV(str(e))
        finally:
            self.acts.pop()
            self.raises = saved
            self.stack.pop()
        return v

    def make_func(self, node, m, qual, cls=None, env=None):
        kind = 'func'
        memo = False
        for d in node.decorator_list:
            s = ast.unparse(d)
            if s == 'staticmethod':
                kind = 'static'
            elif s == 'classmethod':
                kind = 'class'
            elif s == 'property':
                kind = 'property'
            elif 'lru_cache' in s or s in ('functools.cache', 'cache'):
                memo = 'lru', _maxsize(d)
            elif 'cached_property' in s:
                kind = 'property'
                memo = 'lru', None
        return PyFunc(node, m, qual, cls, env, (), kind, None, memo)

    def decorate(self, node, f, m):
        return f

    def make_class(self, node, m):
        c = PyClass()
        c.node, c.mod, c.name = node, m, node.name
        c.qual = m.name + '.' + node.name
        c.attrs = {}
        c.setters = {}
        c.bases = []
        self.mods[(m.name, node.name)] = c
        for b in node.bases:
            c.bases.append(self.eval_static(b, m))
        c.mro = self.mro(c)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                setter = False
                for d in n.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr in (
                            'setter', 'deleter'):
                        setter = d.attr
                f = self.make_func(n, m, c.qual + '.' + n.name, c)
                if setter == 'setter':
                    c.setters[n.name] = f
                elif not setter:
                    c.attrs[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = ('lazy', n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                c.attrs[n.target.id] = ('lazy', n.value)
        return c

    def eval_static(self, node, m):
        if isinstance(node, ast.Name):
            try:
                return self.mod_member(m, node.id)
            except KeyError:
                return Ext('builtins.' + node.id)
        if isinstance(node, ast.Attribute):
            b = self.eval_static(node.value, m)
            if isinstance(b, Ext):
                return Ext(b.name + '.' + node.attr)
            if isinstance(b, ModV):
                return self.mod_member(b.mod, node.attr)
        return Ext('?' + ast.unparse(node))

    def mro(self, c):
        """C3 on repository classes; external bases stay opaque leaves"""
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(self._cin(h, t[1:]) for t in seqs):
                        break
                else:
                    raise Unsupported('mro of ' + c.qual)
                out.append(h)
                seqs = [[x for x in s if not self._csame(x, h)]
                        for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        lins = []
        for b in c.bases:
            lins.append(list(b.mro) if isinstance(b, PyClass) else [b])
        return [c] + merge(lins + [list(c.bases)])

    def _csame(self, a, b):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return a is b

    def _cin(self, a, l):
        return any(self._csame(a, x) for x in l)

    def find_member(self, cls, name, after=None):
        """(owner, member) via MRO"""
        mro = cls.mro
        if after is not None:
            for i, x in enumerate(mro):
                if x is after:
                    mro = mro[i + 1:]
                    break
        for c in mro:
            if isinstance(c, PyClass):
                if name in c.attrs:
                    return c, c.attrs[name]
            else:
                r = self.models.ext_class_member(c.name, name)
                if r:
                    return c, r
        return None, None

    def subclass(self, c, base_qual):
        for x in c.mro:
            if isinstance(x, PyClass) and x.qual == base_qual:
                return True
            if isinstance(x, Ext) and x.name == base_qual:
                return True
        return False

    def lookup(self, name, fr):
        f = fr
        sub = {}
        while f is not None and not isinstance(f, tuple):
            rec = self.heap[f.id]
            s = dict(f.sub)
            if name in rec.vars:
                v = rec.vars[name]
                return subst_val(v, s) if s else v
            f = rec.parent
        if isinstance(f, tuple):
            m = f[1]
            try:
                return self.mod_member(m, name)
            except KeyError:
                pass
        return Ext('builtins.' + name)

    def assign_name(self, name, v, fr):
        rec = self.heap[fr.id]
        f = fr
        if name in rec.nonlocals:
            f = rec.parent
            while not isinstance(f, tuple) and f is not None and \
                    name not in self.heap[f.id].vars:
                f = self.heap[f.id].parent
            if f is None or isinstance(f, tuple):
                raise Unsupported('nonlocal ' + name)
        rec = self.heap[f.id].copy()
        rec.vars[name] = v
        self.heap[f.id] = rec

    # ------------------------------------------------------------- truth
    def truthy(self, v):
        """0/1 E for the truth of a value"""
        if isinstance(v, bool):
            return ONE if v else ZERO
        if v is None:
            return ZERO
        if isinstance(v, E):
            if self.is_ind(v):
                return v
            return ONE - ind('eq', v)
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            return ONE if v else ZERO
        if isinstance(v, (LRef, DRef, Seq)):
            n = self.length(v)
            if isinstance(n, E):
                return ONE - ind('eq', n)
            return T.truth('nonempty', unk(str(n)))
        if isinstance(v, Arr):
            if all(s == ONE for s in v.shape):
                e = self.at(v, (ZERO,) * v.ndim)
                return self.truthy(e)
            return T.truth('arr', self.unkE('truth of array'))
        if isinstance(v, Choice):
            r = ZERO
            for c, x in v.alts:
                r = r + c * self.truthy(x)
            return r
        if isinstance(v, ORef):
            cls = self.heap[v.id].cls
            if isinstance(cls, PyClass):
                if self.is_param(v):
                    return self.truthy(self.param_arr(v))
                for nm in ('__bool__', '__len__'):
                    o, mth = self.find_member(cls, nm)
                    if mth is not None and isinstance(mth, PyFunc):
                        r = self.call(Bound(v, mth), (), {})
                        return self.truthy(r)
            return ONE
        if isinstance(v, (PyFunc, Bound, PyClass, Ext, ExtBound, Native,
                          ModV)):
            return ONE
        if isinstance(v, Abs):
            t = getattr(v, 'truth', None)
            return t(self) if t else ONE
        if isinstance(v, UnkV):
            return T.truth('unk', unk(v.reason))
        if v is Ellipsis:
            return ONE
        return T.truth('unk', self.unkE('truth of %r' % (v,)))

    def is_ind(self, e):
        """syntactically 0/1-valued"""
        if not e.t:
            return True
        for m, c in e.t.items():
            if c.denominator != 1:
                return False
            for a, x in m:
                if a.kind not in ('ind', 'truth') and not (
                        a.kind == 'red' and a.args[0] == 'any') or x != 1:
                    return False
        if len(e.t) == 1:
            (m, c), = e.t.items()
            return c == 1
        # 1 - product, sums of exclusive products: accept when small and
        # verified by case analysis
        return self._boolean_valued(e, 0)

    def _boolean_valued(self, e, d):
        c = e.const()
        if c is not None:
            return c in (0, 1)
        if d > 8:
            return False
        for m in e.t:
            for a, x in m:
                return self._boolean_valued(T._assume(e, a, 1), d + 1) and \
                    self._boolean_valued(T._assume(e, a, 0), d + 1)
        return False

    def simp(self, c):
        """simplify a condition under what is known on this path"""
        for a in list(c.atoms()):
            if a in self.truths:
                c = T.set_ind(c, a, self.truths[a])
        if c.const() is None and T.FACTS:
            c = T.refresh(c)
        return c

    def push_assume(self, c, val):
        """returns undo token"""
        tok = []
        if not val:
            c = ONE - c
        if len(c.t) == 1:
            (m, co), = c.t.items()
            if co == 1:
                for a, x in m:
                    self._assume_atom(a, 1, tok)
        elif len(c.t) == 2 and c.t.get(()) == 1:
            (m, co), = [(m, co) for m, co in c.t.items() if m != ()]
            if co == -1 and len(m) == 1:
                self._assume_atom(m[0][0], 0, tok)
        return tok

    def _assume_atom(self, a, val, tok):
        if a.kind in ('ind', 'truth') or a.kind == 'red':
            if a not in self.truths:
                self.truths[a] = val
                tok.append(('t', a))
        if a.kind == 'ind' and a.args[0] == 'lt':
            e = a.args[1]
            f = (-e - 1 if is_int(e) else -e) if val else e
            T.push_fact(f)
            tok.append(('f',))
        elif a.kind == 'ind' and a.args[0] == 'eq':
            e = a.args[1]
            if val:
                T.push_fact(e)
                T.push_fact(-e)
                tok += [('f',), ('f',)]
            elif is_int(e) and nonneg(e):
                T.push_fact(e - 1)
                tok.append(('f',))
            elif is_int(e) and nonneg(-e):
                T.push_fact(-e - 1)
                tok.append(('f',))

    def pop_assume(self, tok):
        for t in reversed(tok):
            if t[0] == 't':
                self.truths.pop(t[1], None)
            else:
                T.pop_fact()

    # ---------------------------------------------------- fork and merge
    def fork(self, cond, f1, f2):
        """run f1 under cond, f2 under not cond, join heaps; returns joined
        value (or the surviving one)"""
        cond = self.simp(cond)
        c = cond.const()
        if c is not None:
            return f1() if c else f2()
        h0 = self.heap
        pc0 = self.pc
        res = []
        for val, f in ((1, f1), (0, f2)):
            self.heap = dict(h0)
            self.dead = False
            self.pc = pc0 * (cond if val else ONE - cond)
            tok = self.push_assume(cond, val)
            try:
                v = f()
            finally:
                self.pop_assume(tok)
            res.append((v, self.heap, self.dead, self.pc))
        (v1, h1, d1, p1), (v2, h2, d2, p2) = res
        if d1 and d2:
            self.dead = True
            self.heap = h1
            return None
        if d1 or d2:
            v, h, p = (v2, h2, p2) if d1 else (v1, h1, p1)
            self.heap, self.dead, self.pc = h, False, p
            self._persist(cond, 0 if d1 else 1)
            return v
        self.dead = False
        self.heap = self.merge_heaps(cond, h1, h2)
        self.pc = p1 + p2 if (p1 != pc0 * cond or p2 != pc0 * (
            ONE - cond)) else pc0
        return self.merge_val(cond, v1, v2)

    def _persist(self, cond, val):
        tok = self.push_assume(cond, val)
        self.assume_log.extend(tok)

    def merge_val(self, c, a, b):
        if same_val(a, b):
            return a
        if a is None and b is None:
            return None
        ea = isinstance(a, (E, bool))
        eb = isinstance(b, (E, bool))
        if ea and eb:
            return ite(c, self.toE(a), self.toE(b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim \
                and a.shape == b.shape:
            ra, rb = self.heap.get(a.id), self.heap.get(b.id)
            if ra is not None and rb is not None:
                ix = None
                roots = ra.roots | rb.roots
                dt = a.dtype if a.dtype == b.dtype else 'float'
                fl = ('maybe',) if roots else ()
                def f(ix):
                    x, y = self.at(a, ix), self.at(b, ix)
                    return self.merge_val(c, x, y)
                return self.new_arr(a.shape, f, dt, roots, fl)
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        return mk_choice([(c, a), (ONE - c, b)])

    def merge_heaps(self, c, h1, h2):
        out = dict(h1)
        todo = []
        for i, r2 in h2.items():
            r1 = h1.get(i)
            if r1 is None:
                out[i] = r2
            elif r1 is not r2:
                todo.append((i, r1, r2))
        self.heap = out
        for i, r1, r2 in todo:
            out[i] = self.merge_rec(c, r1, r2)
        return out

    def merge_rec(self, c, r1, r2):
        if isinstance(r1, FrameRec):
            r = r1.copy()
            for k, v in r2.vars.items():
                if k in r.vars:
                    r.vars[k] = self.merge_val(c, r.vars[k], v)
                else:
                    r.vars[k] = v
            return r
        if isinstance(r1, ObjRec):
            r = r1.copy()
            for k, v in r2.attrs.items():
                if k in r.attrs:
                    r.attrs[k] = self.merge_val(c, r.attrs[k], v)
                else:
                    r.attrs[k] = v
            return r
        if isinstance(r1, StoreRec):
            s = dict(zip(r2.vars, (A(v) for v in r1.vars)))
            b2 = subst_val(r2.body, s) if s else r2.body
            return StoreRec(r1.vars, self.merge_val(c, r1.body, b2),
                            r1.shape, r1.dtype, r1.roots | r2.roots)
        if isinstance(r1, ListRec):
            n = 0
            while n < len(r1.segs) and n < len(r2.segs) and same_seg(
                    r1.segs[n], r2.segs[n]):
                n += 1
            segs = list(r1.segs[:n])
            for rest, cc in ((r1.segs[n:], c), (r2.segs[n:], ONE - c)):
                for s in rest:
                    if isinstance(s, Item):
                        segs.append(Item(s.v, s.cond * cc))
                    elif isinstance(s, Fam):
                        segs.append(Fam(s.ks, s.v, s.cond * cc))
                    else:
                        segs.append(s)
            return ListRec(segs, r1.roots | r2.roots, r1.kind)
        if isinstance(r1, DictRec):
            items = []
            used = set()
            for k, v, cc in r1.items:
                for j, (k2, v2, c2) in enumerate(r2.items):
                    if same_val(k, k2):
                        used.add(j)
                        if cc == c2 and same_val(v, v2):
                            items.append((k, v, cc))
                        else:
                            items.append((k, self.merge_val(c, v, v2),
                                          ite(c, cc, c2)))
                        break
                else:
                    items.append((k, v, cc * c))
            for j, (k2, v2, c2) in enumerate(r2.items):
                if j not in used:
                    items.append((k2, v2, c2 * (ONE - c)))
            return DictRec(items, r1.roots | r2.roots, r1.unk or r2.unk)
        raise Unsupported('merge record %r' % (r1,))

    def distribute(self, v, f):
        """apply f to each alternative of a Choice under its condition"""
        if not isinstance(v, Choice):
            return f(v)

        def go(alts):
            c, x = alts[0]
            if len(alts) == 1:
                return f(x)
            return self.fork(c, lambda: f(x), lambda: go(alts[1:]))
        return go(v.alts)

    # ----------------------------------------------------------- coercion
    def toE(self, v):
        if isinstance(v, E):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, Arr):
            if all(s == ONE for s in v.shape):
                return self.toE(self.at(v, (ZERO,) * v.ndim))
            return self.unkE('array used as scalar')
        if isinstance(v, ORef) and self.is_param(v):
            return self.toE(self.param_arr(v))
        if isinstance(v, Choice):
            r = ZERO
            for c, x in v.alts:
                r = r + c * self.toE(x)
            return r
        if isinstance(v, UnkV):
            return unk(v.reason)
        return self.unkE('not a number: %r' % (v,))

    def is_param(self, v):
        if not isinstance(v, ORef):
            return False
        cls = self.heap[v.id].cls
        return isinstance(cls, PyClass) and (
            '_arr' in self.heap[v.id].attrs)

    def param_arr(self, v):
        a = self.heap[v.id].attrs['_arr']
        return subst_val(a, dict(v.sub)) if v.sub else a

    def as_arr(self, v):
        """coerce to Arr (scalars become rank 0); None if impossible"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, ORef) and self.is_param(v):
            return self.param_arr(v)
        if isinstance(v, (E, bool)):
            e = self.toE(v)
            return self.new_arr((), lambda ix: e,
                                'int' if is_int(e) else 'float')
        if isinstance(v, (tuple, LRef, Seq)):
            return self.models.stack_seq(self, v)
        if isinstance(v, Abs) and hasattr(v, 'as_arr'):
            return v.as_arr(self)
        if isinstance(v, Choice):
            arrs = [(c, self.as_arr(x)) for c, x in v.alts]
            if all(isinstance(a, Arr) for _, a in arrs):
                r = arrs[-1][1]
                for c, a in reversed(arrs[:-1]):
                    r = self.merge_val(c, a, r)
                if isinstance(r, Arr):
                    return r
        if isinstance(v, ORef):
            rec = self.heap[v.id]
            if '_dense' in rec.attrs:
                return rec.attrs['_dense']
        return None

    # ------------------------------------------------------------ length
    def seg_count(self, s):
        if isinstance(s, Item):
            return s.cond
        if isinstance(s, PhiSeg):
            return s.len
        n = s.cond
        for k, b in reversed(s.ks):
            n = mk_sum(k, b, n)
        return n

    def length(self, v):
        if isinstance(v, tuple):
            return num(len(v))
        if isinstance(v, str):
            return num(len(v))
        if isinstance(v, LRef):
            segs = self.segs(v)
            return T.esum([self.seg_count(s) for s in segs])
        if isinstance(v, Seq):
            return T.esum([self.seg_count(s) for s in v.segs])
        if isinstance(v, DRef):
            return T.esum([c for _, _, c in self.dict_items(v)])
        if isinstance(v, Arr):
            if not v.shape:
                return self.unkE('len of 0-d array')
            return v.shape[0]
        if isinstance(v, ORef):
            if self.is_param(v):
                return self.length(self.param_arr(v))
            o, mth = self.find_member(self.heap[v.id].cls, '__len__')
            if isinstance(mth, PyFunc):
                return self.toE(self.call(Bound(v, mth), (), {}))
        if isinstance(v, Choice):
            r = ZERO
            for c, x in v.alts:
                r = r + c * self.length(x)
            return r
        if isinstance(v, Abs):
            f = getattr(v, 'length', None)
            if f:
                return f(self)
        if isinstance(v, UnkV):
            return unk('len ' + v.reason)
        return self.unkE('len of %r' % (v,))

    def segs(self, l):
        rec = self.heap[l.id]
        if l.sub:
            s = dict(l.sub)
            return tuple(subst_seg(x, s) for x in rec.segs)
        return rec.segs

    def dict_items(self, d):
        rec = self.heap[d.id]
        if d.sub:
            s = dict(d.sub)
            return tuple((subst_val(k, s), subst_val(v, s), subst(c, s))
                         for k, v, c in rec.items)
        return rec.items

    # --------------------------------------------------------- iteration
    def iterate(self, v):
        """-> list of segments (Item/Fam)"""
        if isinstance(v, (LRef,)):
            return list(self.segs(v))
        if isinstance(v, Seq):
            return list(v.segs)
        if isinstance(v, tuple):
            return [Item(x) for x in v]
        if isinstance(v, DRef):
            if self.heap[v.id].unk:
                raise Unsupported('iterating unknown dict')
            return [Item(k, c) for k, _, c in self.dict_items(v)]
        if isinstance(v, ORef) and self.is_param(v):
            v = self.param_arr(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise Unsupported('iterate 0-d array')
            n = v.shape[0]
            c = n.const()
            if c is not None and c <= 4:
                return [Item(self.models.index(self, v, num(i)))
                        for i in range(int(c))]
            k = fresh_var('k', n)
            return [Fam(((k, n),), self.models.index(self, v, A(k)))]
        if isinstance(v, str):
            return [Item(ch) for ch in v]
        if isinstance(v, Abs) and hasattr(v, 'iterate'):
            return v.iterate(self)
        if isinstance(v, Choice):
            # guarded alternatives
            out = []
            for c, x in v.alts:
                for s in self.iterate(x):
                    if isinstance(s, Item):
                        out.append(Item(s.v, s.cond * c))
                    else:
                        out.append(Fam(s.ks, s.v, s.cond * c))
            return out
        if isinstance(v, UnkV):
            raise Unsupported('iterating ' + v.reason)
        raise Unsupported('iterating %r @%s' % (v, self.loc()))

    # ----------------------------------------------------------- calling
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Choice):
            return self.distribute(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, Bound):
            return self.call_func(f.func, (f.self_,) + tuple(args), kwargs) \
                if isinstance(f.func, PyFunc) else self.call(
                    f.func, (f.self_,) + tuple(args), kwargs)
        if isinstance(f, PyFunc):
            return self.call_func(f, tuple(args), kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, tuple(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, tuple(args), kwargs)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, tuple(args), kwargs)
        if isinstance(f, ExtBound):
            return self.models.call_method(self, f.obj, f.name,
                                           tuple(args), kwargs)
        if isinstance(f, ORef):
            o, mth = self.find_member(self.heap[f.id].cls, '__call__')
            if isinstance(mth, PyFunc):
                return self.call_func(mth, (f,) + tuple(args), kwargs)
        if isinstance(f, Abs) and hasattr(f, 'call'):
            return f.call(self, tuple(args), kwargs)
        for a in list(args) + list(kwargs.values()):
            self.havoc_value(a, 'passed to unknown code')
        if isinstance(f, UnkV):
            self.event('unkcall', what=f.reason, args=args)
            return self.unk('call of ' + f.reason, *args)
        self.event('unkcall', what=repr(f), args=args)
        return self.unk('call of %r' % (f,), *args)

    def instantiate(self, cls, args, kwargs):
        if cls.qual in self.stubs:
            return self.stubs[cls.qual](self, args, kwargs)
        for b in cls.mro:
            if isinstance(b, Ext):
                h = self.models.ext_new(self, cls, b.name, args, kwargs)
                if h is not None:
                    return h
        o = self.new_obj(cls)
        self.event('new', obj=o, cls=cls.qual)
        _, init = self.find_member(cls, '__init__')
        if isinstance(init, PyFunc):
            self.call_func(init, (o,) + tuple(args), kwargs)
        elif isinstance(init, Native):
            init.fn(self, (o,) + tuple(args), kwargs)
        else:
            # exception classes and plain objects
            rec = self.heap[o.id].copy()
            rec.attrs['args'] = tuple(args)
            self.heap[o.id] = rec
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        rest = None
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest = i
                break
        if a.vararg:
            extra = args[len(names):]
            env[a.vararg.arg] = tuple(extra)
        elif len(args) > len(names):
            raise Unsupported('too many args for ' + f.qual)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kwargs.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(
                [(k, v, ONE) for k, v in kwargs.items() if k != '**'])
            kwargs = {}
        if kwargs:
            raise Unsupported('unexpected kwargs %s for %s' % (
                list(kwargs), f.qual))
        return env, names

    def call_func(self, f, args, kwargs):
        if f.qual in self.stubs:
            return self.stubs[f.qual](self, args, kwargs)
        if len(self.acts) > MAXDEPTH or sum(
                1 for x in self.acts if x.func is not None and
                x.func.node is f.node) > 3:
            return self.unk('recursion depth in ' + f.qual, *args)
        # Seq spread: star-args of unknown length
        if any(isinstance(x, Seq) and x.kind == 'star' for x in args):
            flat = []
            for x in args:
                if isinstance(x, Seq) and x.kind == 'star':
                    for s in x.segs:
                        if isinstance(s, Item) and s.cond == ONE:
                            flat.append(s.v)
                        else:
                            if f.node.args.vararg and len(flat) >= len(
                                    f.node.args.args):
                                return self._call_vararg(f, flat, x, kwargs)
                            return self.unk('star-args of unknown length',
                                            *args)
                else:
                    flat.append(x)
            args = tuple(flat)
        self.touched.add(f.qual)
        self.callcount[f.qual] = self.callcount.get(f.qual, 0) + 1
        if f.memo:
            self.event('memo', func_called=f.qual, obj=args[0] if args
                       else None)
            if self.memo is not None and not self.inmemo:
                return self.remembered(f, args, kwargs)
            self.inmemo = False
        try:
            env, names = self.bind_args(f, args, kwargs)
        except Unsupported as e:
            return self.unk(str(e), *args)
        parent = f.env if f.env is not None else ('mod', f.mod)
        if f.sub and f.env is not None:
            parent = FRef(f.env.id, compose(f.env.sub, dict(f.sub)))
        fr = FRef(self.new(FrameRec(env, parent, f)))
        self.stack.append((f.mod.path, f.qual))
        savecur = self.cur
        # defaults
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in env:
                env[p.arg] = self.ev(d, FRef(self.new(FrameRec(
                    {}, parent, f))))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d, FRef(self.new(FrameRec(
                    {}, parent, f))))
        missing = [x for x in names if x not in env]
        if missing:
            self.stack.pop()
            self.cur = savecur
            return self.unk('missing args %s for %s' % (missing, f.qual))
        act = Act(f, fr, f.node)
        self.acts.append(act)
        pc0 = act.pc0 = self.pc
        self.pc = ONE
        r0 = len(self.raises)
        tok0 = len(self.assume_log)
        if isinstance(f.node, ast.Lambda):
            try:
                v = self.ev(f.node.body, fr)
            finally:
                self.acts.pop()
                self.stack.pop()
                self.cur = savecur
            self.pc = pc0
            return v
        isgen = _is_generator(f.node)
        if isgen:
            act.yields = self.new_list()
        try:
            self.exec_block(f.node.body, fr)
        finally:
            self.acts.pop()
            self.stack.pop()
            self.cur = savecur
        # qualify raises of this call by the caller's path
        for r in self.raises[r0:]:
            r.cond = pc0 * r.cond
        outs = list(act.returns)
        if not self.dead:
            outs.append((self.pc, None, self.heap))
        had_raise = len(self.raises) > r0
        if not outs:
            self.dead = True
            self.pc = pc0
            self._undo(tok0)
            return None
        self.dead = False
        pc, v, h = outs[-1]
        for p2, v2, h2 in reversed(outs[:-1]):
            if h is not h2:
                hm = self.merge_heaps(p2, h2, h)
            else:
                hm = h
            self.heap = hm
            v = self.merge_val(p2, v2, v)
            h = self.heap
        self.heap = h
        self.pc = pc0
        if not had_raise:
            self._undo(tok0)
        elif len(outs) > 1:
            self._undo(tok0)
        if isgen:
            return act.yields
        return v

    # ------------------------------------------------- remembered results
    def remember_results(self):
        """model lru_cache and the like: a result once computed is returned
        again for the same arguments until the cache is cleared"""
        self.memo = self.new(DictRec([]))

    def remembered(self, f, args, kwargs):
        key = memo_key(args, kwargs)
        kind, size = f.memo
        if key is None or size == 0 or size == 'unknown':
            self.event('memo_unknown', func_called=f.qual)
            self.inmemo = True
            return self.call_func(f, args, kwargs)
        slot = f.qual if size == 1 else f.qual + '|' + key
        rec = self.heap[self.memo]
        for k, v, c in rec.items:
            if k != slot:
                continue
            if c == ONE and not rec.unk and isinstance(v, tuple) and \
                    isinstance(v[0], str):
                if v[0] == key:
                    self.event('memo_hit', func_called=f.qual)
                    return v[1]
            else:
                self.event('memo_unknown', func_called=f.qual)
        self.inmemo = True
        n = len(self.raises)
        v = self.call_func(f, args, kwargs)
        self.inmemo = False
        if self.dead:
            return v
        rec = self.heap[self.memo]
        self.heap[self.memo] = DictRec(
            [x for x in rec.items if x[0] != slot] + [(
                slot, (key, v), ONE)], rec.roots, rec.unk)
        return v

    def forget(self, qual):
        if self.memo is None:
            return
        rec = self.heap[self.memo]
        self.heap[self.memo] = DictRec(
            [x for x in rec.items if x[0].split('|')[0] != qual], rec.roots,
            rec.unk)

    def _call_vararg(self, f, flat, seq, kwargs):
        n = len(f.node.args.args)
        g = dict(kwargs)
        # pass the variadic part as a sequence value
        env_args = tuple(flat[:n])
        rest = Seq([Item(x) for x in flat[n:]] + list(seq.segs), 'tuple')
        va = f.node.args.vararg.arg
        node = f.node
        self.touched.add(f.qual)
        self.callcount[f.qual] = self.callcount.get(f.qual, 0) + 1
        clone = PyFunc(_strip_vararg(node), f.mod, f.qual, f.cls, f.env,
                       f.sub, f.kind, f.defaults, f.memo)
        g[va] = rest
        return self.call_func(clone, env_args, g)

    def _undo(self, n):
        while len(self.assume_log) > n:
            t = self.assume_log.pop()
            if t[0] == 't':
                self.truths.pop(t[1], None)
            else:
                T.pop_fact()

    # -------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.distribute(o, lambda x: self.getattr(x, name))
        if isinstance(o, ORef):
            rec = self.heap[o.id]
            if name in rec.attrs:
                v = rec.attrs[name]
                self.event('attr_read', obj=o.id, attr=name)
                return subst_val(v, dict(o.sub)) if o.sub else v
            if isinstance(rec.cls, Abs):
                return rec.cls.getattr(self, name)
            h = self.models.obj_attr(self, o, name)
            if h is not NotImplemented:
                return h
            owner, mem = self.find_member(rec.cls, name)
            if mem is not None:
                return self.bind_member(o, owner, mem)
            if name == '__dict__':
                return self.models.attr_dict(o)
            if name == '__class__':
                return rec.cls
            _, ga = self.find_member(rec.cls, '__getattr__')
            if isinstance(ga, PyFunc):
                return self.call_func(ga, (o, name), {})
            self.event('missing_attr', obj=o.id, attr=name,
                       cls=rec.cls.qual)
            return self.unk('no attribute %s on %s' % (name, rec.cls.qual))
        if isinstance(o, PyClass):
            owner, mem = self.find_member(o, name)
            if mem is None:
                if name == '__name__':
                    return o.name
                return self.unk('class attr %s.%s' % (o.qual, name))
            if isinstance(mem, tuple) and mem[0] == 'lazy':
                return self.class_attr(owner, name, mem[1])
            if isinstance(mem, PyFunc) and mem.kind == 'class':
                return Bound(o, mem)
            return mem
        if isinstance(o, SuperV):
            cls = self.heap[o.obj.id].cls if isinstance(o.obj, ORef) else \
                o.obj
            owner, mem = self.find_member(cls, name, after=o.cls)
            if mem is None:
                return Native(lambda I, a, k: I.models.ext_super(
                    I, o.obj, o.cls, name, a, k), 'super.' + name)
            return self.bind_member(o.obj, owner, mem)
        if isinstance(o, ModV):
            try:
                return self.mod_member(o.mod, name)
            except KeyError:
                return self.unk('module attr %s' % name)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o.name + '.' + name)
        if isinstance(o, Abs):
            return o.getattr(self, name)
        if isinstance(o, UnkV):
            return UnkV('%s.%s' % (o.reason, name), o.roots)
        if isinstance(o, PyFunc):
            if name in ('cache_clear', 'cache_info'):
                return ExtBound(o, name)
            if name == '__name__':
                return o.node.name
            if name == '__func__':
                return o
        if isinstance(o, Bound):
            if name in ('cache_clear', 'cache_info'):
                return ExtBound(o, name)
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
        return self.models.value_attr(self, o, name)

    def class_attr(self, owner, name, node):
        key = (owner.qual, name)
        if key not in self.mods:
            fr = FRef(self.new(FrameRec({}, ('mod', owner.mod), None)))
            # class-body names resolve to earlier class attributes
            self.heap[fr.id].vars.update({})
            self.stack.append((owner.mod.path, owner.qual))
            try:
                v = self.ev(node, FRef(self.new(FrameRec(
                    {}, ('mod', owner.mod), None))))
            except Unsupported as e:
                v = UnkV(str(e))
            finally:
                self.stack.pop()
            self.mods[key] = v
        v = self.mods[key]
        # heap objects of class attributes must exist in this heap
        if isinstance(v, Ref) and v.id not in self.heap:
            del self.mods[key]
            return self.class_attr(owner, name, node)
        return v

    def bind_member(self, o, owner, mem):
        if isinstance(mem, tuple) and mem[0] == 'lazy':
            return self.class_attr(owner, None if False else self._lazyname(
                owner, mem), mem[1])
        if isinstance(mem, PyFunc):
            if mem.kind == 'static':
                return mem
            if mem.kind == 'property':
                return self.call_func(mem, (o,), {})
            if mem.kind == 'class':
                return Bound(self.heap[o.id].cls, mem)
            return Bound(o, mem)
        if isinstance(mem, Native):
            return Bound(o, mem)
        return mem

    def _lazyname(self, owner, mem):
        for k, v in owner.attrs.items():
            if v is mem:
                return k
        return '?'

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            return self.distribute(o, lambda x: self.setattr(x, name, v))
        if isinstance(o, ORef):
            rec = self.heap[o.id]
            cls = rec.cls
            if name == '__dict__' and isinstance(v, DRef):
                return self.models.attr_dict(o).store(self, v)
            if isinstance(cls, PyClass) and name not in rec.attrs:
                for c in cls.mro:
                    if isinstance(c, PyClass):
                        if name in c.setters:
                            return self.call_func(c.setters[name], (o, v),
                                                  {})
                        if name in c.attrs:
                            break
            rec = rec.copy()
            old = rec.attrs.get(name)
            if isinstance(old, ORef) and self.is_param(old) and not (
                    isinstance(v, ORef)) and v is not None and \
                    self.models.linked_name(self, o, old):
                # paramz: assigning a number to a linked parameter
                self.models.setitem(self, old, SliceV(None, None, None), v)
                return
            if o.sub:
                g = ONE
                inv = {}
                for k, t in o.sub:
                    g = g * ind('eq', A(k) - t)
                    if len(t.t) == 1:
                        (m, co), = t.t.items()
                        if co == 1 and len(m) == 1 and m[0][1] == 1 and \
                                m[0][0].kind == 'var':
                            inv[m[0][0]] = A(k)
                full = all(
                    any(A(lv) == t and k.args[1] == lv.args[1]
                        for lv in self.loopvars) or A(k) == t
                    for k, t in o.sub)
                if inv and full:
                    rec.attrs[name] = subst_val(v, inv)
                elif old is None:
                    rec.attrs[name] = mk_choice(
                        [(g, v), (ONE - g, UnkV('unset ' + name))])
                else:
                    rec.attrs[name] = self.merge_val(g, v, old)
            else:
                rec.attrs[name] = v
            self.heap[o.id] = rec
            self.event('setattr', obj=o.id, ref=o, attr=name, value=v,
                       old=old, roots=rec.roots,
                       cls=getattr(cls, 'qual', '?'))
            return
        if isinstance(o, Abs):
            return o.setattr(self, name, v)
        if isinstance(o, PyClass):
            self.event('setattr_class', cls=o.qual, attr=name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, Arr):
            if name == 'shape':
                return self.set_shape(o, v)
        if isinstance(o, ModV):
            self.event('setattr_module', mod=o.mod.name, attr=name)
            return
        self.event('setattr_unk', attr=name, what=repr(o),
                   roots=self.roots_of(o))

    def set_shape(self, o, v):
        """o.shape = v, seen through every reference to this view"""
        from . import models_np
        ns = v if isinstance(v, E) else self.iterate(v)
        ns = (ns,) if isinstance(v, E) else tuple(
            self.models.seq_at(self, ns, num(i)) for i in range(len(ns)))
        if self.pc != ONE or not all(isinstance(n, E) for n in ns):
            raise Unsupported('assigning shape')
        new = models_np.reshape(self, o, ns)
        if not isinstance(new, Arr):
            raise Unsupported('assigning shape')
        self.event('set_shape', arr=o, roots=self.roots_of(o))
        o.shape, o.rd, o.wr = new.shape, new.rd, new.wr

    # -------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            if self.dead:
                return
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.steps += 1
        self.cur = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s @%s' % (type(s).__name__,
                                                    self.loc(s)))
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self._import(a.name), fr)
            else:
                self.assign_name(a.name.split('.')[0], self._import(
                    a.name.split('.')[0]), fr)

    def _import(self, name):
        r = self.prog.lookup_import(('import', name))
        return r

    def x_ImportFrom(self, s, fr):
        m = self.heap[fr.id].func.mod if self.heap[fr.id].func else None
        mod = m or self.acts[-1].func.mod
        src = self.prog.resolve_from(mod, s)
        for a in s.names:
            r = self.prog.lookup_import(('from', src, a.name))
            if isinstance(r, tuple):
                r = self.mod_member(r[1], r[2])
            self.assign_name(a.asname or a.name, r, fr)

    def x_Global(self, s, fr):
        pass

    def x_Nonlocal(self, s, fr):
        rec = self.heap[fr.id].copy()
        rec.nonlocals = tuple(rec.nonlocals) + tuple(s.names)
        self.heap[fr.id] = rec

    def x_FunctionDef(self, s, fr):
        f = self.heap[fr.id].func
        mod = f.mod if f else self.heap[fr.id].parent[1]
        nf = self.make_func(s, mod, (f.qual if f else mod.name) +
                            '.<locals>.' + s.name, f.cls if f else None, fr)
        self.assign_name(s.name, nf, fr)

    def x_ClassDef(self, s, fr):
        self.assign_name(s.name, self.unk('local class'), fr)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        if self.dead:
            return
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            r = self.ev(s.value, fr)
            new = self.inplace(op, cur, r)
            if new is not cur:
                self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.ev(s.value, fr)
            new = self.inplace(op, cur, r)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            r = self.ev(s.value, fr)
            cur = self.models.index(self, o, ix)
            if isinstance(cur, Arr) and isinstance(o, Arr) and \
                    not self.models.is_fancy(self, o, ix):
                new = self.inplace(op, cur, r)
                if new is not cur:
                    self.models.setitem(self, o, ix, new)
            else:
                new = self.binop(op, cur, r)
                self.models.setitem(self, o, ix, new, aug=True)
        else:
            raise Unsupported('augassign target')

    def inplace(self, op, cur, r):
        """value of cur op= r; arrays and lists are updated in place"""
        if isinstance(cur, Choice):
            return self.distribute(cur, lambda x: self.inplace(op, x, r))
        if isinstance(cur, ORef) and self.is_param(cur):
            self.event('param_write', obj=cur.id)
            self.inplace(op, self.param_arr(cur), r)
            return cur
        if isinstance(cur, Arr) and cur.shape != () and \
                'sparse' not in cur.flags:
            new = self.binop(op, cur, r)
            if not isinstance(new, Arr):
                self.write_arr(cur, lambda ix: self.unkE(
                    'in-place with unknown'), kind='inplace')
                return cur
            dt = cur.dtype
            if new.ndim != cur.ndim:
                new = self.models.broadcast_to(self, new, cur.shape)

            bc = self.models.broadcast_reader(self, new, cur.shape)
            vs = tuple(fresh_var('i', n) for n in cur.shape)
            body = bc(tuple(A(v) for v in vs))
            body = self.models.cast_store(self, body, new.dtype, dt)
            self.write_arr(cur, lambda ix: subst_val(
                body, dict(zip(vs, ix))), kind='inplace')
            return cur
        if isinstance(cur, LRef) and op is ast.Add:
            rec = self.heap[cur.id]
            segs = self.iterate(r)
            self.heap[cur.id] = ListRec(rec.segs + tuple(segs), rec.roots,
                                        rec.kind)
            self.event('write', target='list', roots=rec.roots,
                       store=cur.id, op='extend', certain=True)
            return cur
        if isinstance(cur, UnkV):
            if cur.roots:
                self.event('write', target='unknown', roots=cur.roots,
                           store=None, op='inplace', certain=False)
        return self.binop(op, cur, r)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            self.models.setitem(self, o, ix, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign target')

    def unpack(self, elts, v, fr):
        if isinstance(v, Choice) and all(
                isinstance(x, tuple) and len(x) == len(elts)
                for _, x in v.alts):
            for i, t in enumerate(elts):
                self.assign(t, mk_choice([(c, x[i]) for c, x in v.alts]),
                            fr)
            return
        if isinstance(v, tuple) and len(v) == len(elts) and not any(
                isinstance(t, ast.Starred) for t in elts):
            for t, x in zip(elts, v):
                self.assign(t, x, fr)
            return
        if isinstance(v, UnkV):
            for t in elts:
                self.assign(t, UnkV('item of ' + v.reason, v.roots), fr)
            return
        n = len(elts)
        star = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
        if not star:
            for i, t in enumerate(elts):
                self.assign(t, self.models.index(self, v, num(i)), fr)
            return
        i = star[0]
        for j in range(i):
            self.assign(elts[j], self.models.index(self, v, num(j)), fr)
        rest = self.models.index(self, v, SliceV(
            num(i), None if i == n - 1 else num(-(n - 1 - i)), None))
        if not isinstance(rest, LRef):
            rest = self.new_list(self.iterate(rest))
        self.assign(elts[i].value, rest, fr)
        for j in range(i + 1, n):
            self.assign(elts[j], self.models.index(self, v, num(j - n)), fr)

    def x_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        if self.dead:
            return
        self.acts[-1].returns.append((self.pc, v, self.heap))
        self.heap = dict(self.heap)
        self.dead = True

    def x_Raise(self, s, fr):
        exc, args, val = 'reraise', (), None
        if s.exc is not None:
            v = self.ev(s.exc, fr)
            exc, val = self.exc_name(v)
            args = v
        elif getattr(self, 'handling', None):
            exc, val = self.handling[-1]
        self.do_raise(exc, val, s)

    def exc_name(self, v):
        if isinstance(v, Ext):
            return v.name.replace('builtins.', ''), v
        if isinstance(v, PyClass):
            return v.qual, v
        if isinstance(v, ORef):
            c = self.heap[v.id].cls
            return getattr(c, 'qual', '?'), v
        if isinstance(v, Abs) and hasattr(v, 'exc'):
            return v.exc, v
        if isinstance(v, tuple) and len(v) == 2 and v[0] == '#exc':
            return v[1], v
        return '?', v

    def do_raise(self, exc, val, node, cond=None):
        if cond is None:
            r = RaiseOut(self.pc, exc, None, self.heap, self.loc(node), val,
                         tuple(self.where()))
            self.raises.append(r)
            self.event('raise', exc=exc, cond=self.pc, loc=self.loc(node))
            self.heap = dict(self.heap)
            self.dead = True
        else:
            self.raises.append(RaiseOut(self.pc * cond, exc, None,
                                        dict(self.heap), self.loc(node),
                                        val, tuple(self.where())))

    def x_Assert(self, s, fr):
        c = self.truthy(self.ev(s.test, fr))
        c = self.simp(c)
        k = c.const()
        if k == 1:
            return
        if k == 0:
            self.do_raise('AssertionError', None, s)
            return
        self.raises.append(RaiseOut(self.pc * (ONE - c), 'AssertionError',
                                    None, dict(self.heap), self.loc(s),
                                    None, tuple(self.where())))
        self._persist(c, 1)

    def x_If(self, s, fr):
        c = self.truthy(self.ev(s.test, fr))
        if self.dead:
            return
        self.fork(c, lambda: self.exec_block(s.body, fr),
                  lambda: self.exec_block(s.orelse, fr))

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                rec = self.heap[fr.id].copy()
                rec.vars.pop(t.id, None)
                self.heap[fr.id] = rec
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.event('write', target='container', store=getattr(
                    o, 'id', None), roots=self.roots_of(o), op='del',
                    certain=True)
                if isinstance(o, DRef):
                    k = self.ev_index(t.slice, fr)
                    rec = self.heap[o.id]
                    self.heap[o.id] = DictRec(
                        [x for x in rec.items if not same_val(x[0], k)],
                        rec.roots, rec.unk)
                elif isinstance(o, LRef):
                    rec = self.heap[o.id]
                    self.heap[o.id] = ListRec(
                        (Item(self.unk('after del')),), rec.roots)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, ORef):
                    rec = self.heap[o.id].copy()
                    rec.attrs.pop(t.attr, None)
                    self.heap[o.id] = rec
                    self.event('setattr', obj=o.id, ref=o, attr=t.attr,
                               value=None, old=None, roots=rec.roots,
                               cls='?')

    def x_With(self, s, fr):
        exits = []
        for k, it in enumerate(s.items):
            c = it.context_expr
            if isinstance(c, ast.Call):
                f = self.ev(c.func, fr)
                if isinstance(f, Ext) and f.name == 'contextlib.suppress' \
                        and c.args:
                    rest = s.body if k + 1 == len(s.items) else [
                        ast.copy_location(ast.With(
                            items=s.items[k + 1:], body=s.body), s)]
                    h = ast.ExceptHandler(type=ast.Tuple(
                        elts=list(c.args), ctx=ast.Load()), name=None,
                        body=[ast.Pass()])
                    t = ast.Try(body=rest, handlers=[h], orelse=[],
                                finalbody=[])
                    self.exec_stmt(ast.fix_missing_locations(
                        ast.copy_location(t, s)), fr)
                    break
            v = self.ev(c, fr)
            if isinstance(v, ORef) and isinstance(
                    self.heap[v.id].cls, PyClass) and isinstance(
                        self.find_member(self.heap[v.id].cls, '__enter__')[1],
                        PyFunc):
                exits.append(v)
                v = self.method(v, '__enter__')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        else:
            self.exec_block(s.body, fr)
        for v in reversed(exits):
            if not self.dead:
                self.method(v, '__exit__', None, None, None)

    def x_Try(self, s, fr):
        saved = self.raises
        self.raises = []
        pc0 = self.pc
        n_assume = len(self.assume_log)
        self.exec_block(s.body, fr)
        if not self.dead and s.orelse:
            self.exec_block(s.orelse, fr)
        mine = self.raises
        self.raises = saved
        normal = None if self.dead else (self.heap, self.pc)
        outs = []
        leftover = []
        for r in mine:
            h = self.match_handler(s.handlers, r, fr)
            if h is None:
                leftover.append(r)
            else:
                outs.append((r, h))
        had = bool(outs)
        if had:
            self._undo(n_assume)
        results = [] if normal is None else [(normal[1], normal[0])]
        self.handling = getattr(self, 'handling', [])
        for r, h in outs:
            self.heap = dict(r.heap)
            self.dead = False
            self.pc = r.cond
            if h.name:
                self.assign_name(h.name, r.value if r.value is not None
                                 else UnkV('exception'), fr)
            self.handling.append((r.exc, r.value))
            self.exec_block(h.body, fr)
            self.handling.pop()
            if not self.dead:
                results.append((self.pc, self.heap))
        self.raises.extend(leftover)
        if not results:
            self.dead = True
        else:
            # exceptional results first: their conditions are explicit
            p, h = results[0]
            rest = results[1:]
            cur = h
            for p2, h2 in reversed(rest):   # the first raise wins
                cur = self.merge_heaps(p2, h2, cur)
            self.heap = cur
            self.dead = False
            self.pc = pc0 if not leftover else T.esum(
                [p for p, _ in results])
        if s.finalbody:
            d = self.dead
            self.dead = False
            n = len(self.raises)
            self.exec_block(s.finalbody, fr)
            if self.dead and len(self.raises) == n and leftover:
                # left by return or break: pending exceptions are dropped
                del self.raises[n - len(leftover):]
            self.dead = self.dead or d

    def match_handler(self, handlers, r, fr):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                v = self.ev(t, fr)
                nm = v.name.replace('builtins.', '') if isinstance(
                    v, Ext) else getattr(v, 'qual', '?')
                if self.exc_isa(r, nm):
                    return h
        return None

    def exc_isa(self, r, nm):
        if nm.endswith('.LinAlgError'):
            nm = 'LinAlgError'
        if r.exc == nm or nm in ('BaseException',):
            return True
        if nm == 'Exception':
            return r.exc not in ('KeyboardInterrupt', 'SystemExit',
                                 'GeneratorExit')
        v = r.value
        if isinstance(v, ORef):
            c = self.heap.get(v.id)
            if c is not None and isinstance(c.cls, PyClass):
                return self.subclass(c.cls, nm) or self.subclass(
                    c.cls, 'builtins.' + nm)
        hier = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
                'ZeroDivisionError': 'ArithmeticError',
                'FloatingPointError': 'ArithmeticError',
                'OverflowError': 'ArithmeticError',
                'NotImplementedError': 'RuntimeError'}
        return hier.get(r.exc) == nm

    # -------------------------------------------------------------- loops
    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if self.dead:
            return
        try:
            segs = self.iterate(it)
        except Unsupported as e:
            self.havoc_loop(s, fr, str(e))
            return
        lc = LoopCtx()
        self.acts[-1].loops.append(lc)
        try:
            for seg in segs:
                if self.dead:
                    break
                if isinstance(seg, Item):
                    if seg.cond == ONE:
                        self.assign(s.target, seg.v, fr)
                        self.loop_body_once(s, fr, lc)
                    else:
                        def run(seg=seg):
                            self.assign(s.target, seg.v, fr)
                            self.loop_body_once(s, fr, lc)
                        self.fork(seg.cond, run, lambda: None)
                elif isinstance(seg, Fam):
                    seg = self.fresh_fam(seg)
                    self.loop_fam(seg.ks, seg.cond, lambda seg=seg: (
                        self.assign(s.target, seg.v, fr),
                        self.loop_body_once(s, fr, lc)), fr, lc,
                        has_break=_has_break(s.body))
                else:
                    raise Unsupported('loop over recurrent list')
        except Unsupported as e:
            raise
        finally:
            self.acts[-1].loops.pop()
        if lc.breaks:
            # items loop with break: states at break merge with fallthrough
            for p, h in lc.breaks:
                if self.dead:
                    self.heap, self.pc, self.dead = h, p, False
                else:
                    self.heap = self.merge_heaps(p, h, self.heap)
                    self.pc = self.pc + p
        if s.orelse and not self.dead:
            self.exec_block(s.orelse, fr)

    def loop_body_once(self, s, fr, lc):
        lc.continues = []
        self.exec_block(s.body, fr)
        for p, h in lc.continues:
            if self.dead:
                self.heap, self.pc, self.dead = h, p, False
            else:
                self.heap = self.merge_heaps(p, h, self.heap)
                self.pc = self.pc + p
        lc.continues = []

    def x_Break(self, s, fr):
        self.acts[-1].loops[-1].breaks.append((self.pc, self.heap))
        self.heap = dict(self.heap)
        self.dead = True

    def x_Continue(self, s, fr):
        self.acts[-1].loops[-1].continues.append((self.pc, self.heap))
        self.heap = dict(self.heap)
        self.dead = True

    def x_While(self, s, fr):
        # while i < n: ...; i += 1   ==> counted loop
        r = self.while_counted(s, fr)
        if not r:
            self.havoc_loop(s, fr, 'while loop')

    def while_counted(self, s, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], (ast.Lt,)) and
                isinstance(t.left, ast.Name)):
            return False
        nm = t.left.id
        last = s.body[-1] if s.body else None
        if not (isinstance(last, ast.AugAssign) and isinstance(
                last.op, ast.Add) and isinstance(last.target, ast.Name) and
                last.target.id == nm and isinstance(
                    last.value, ast.Constant) and last.value.value == 1):
            return False
        for n in s.body[:-1]:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id == nm and isinstance(
                        x.ctx, ast.Store):
                    return False
                if isinstance(x, (ast.Continue, ast.Break)):
                    return False
        start = self.toE(self.lookup(nm, fr))
        stop = self.toE(self.ev(t.comparators[0], fr))
        n = stop - start
        if not nonneg(n):
            n = T.maxE(n, ZERO)
        lc = LoopCtx()
        self.acts[-1].loops.append(lc)
        body = s.body[:-1]

        class S:
            pass
        S.body = body
        c = n.const()
        try:
            if c is not None and c <= 8:
                for i in range(int(max(c, 0))):
                    self.assign_name(nm, start + i, fr)
                    self.exec_block(body, fr)
            else:
                k = fresh_var('k', n)
                self.loop_fam(((k, n),), ONE, lambda: (
                    self.assign_name(nm, start + A(k), fr),
                    self.exec_block(body, fr)), fr, lc)
        finally:
            self.acts[-1].loops.pop()
        self.assign_name(nm, start + n, fr)
        return True

    def havoc_loop(self, s, fr, why):
        """give up on a loop: everything it may assign becomes unknown"""
        self.event('havoc', why=why, loc=self.loc(s))
        targets = set()
        calls = False
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                targets.add(n.id)
        bases = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                    n.ctx, ast.Store):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    bases.add(b.id)
            if isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Name):
                bases.add(n.target.id)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    b = f.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        bases.add(b.id)
                for a in n.args:
                    if isinstance(a, ast.Name):
                        bases.add(a.id)
        if self.acts and self.acts[-1].yields is not None and any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in ast.walk(s)):
            self.havoc_value(self.acts[-1].yields, why)
        rec = self.heap[fr.id]
        for b in bases:
            if b in rec.vars:
                self.havoc_value(rec.vars[b], why)
        rec = self.heap[fr.id].copy()
        for t in targets:
            old = rec.vars.get(t)
            rec.vars[t] = self.unk(why + ' var ' + t) if not isinstance(
                old, E) else unk(why)
        self.heap[fr.id] = rec
        for n in ast.walk(s):
            if isinstance(n, ast.Return):
                self.acts[-1].returns.append(
                    (T.truth('loopreturn', unk(why)), self.unk(why),
                     dict(self.heap)))
                break

    def havoc_value(self, v, why, depth=0):
        if depth > 3:
            return
        if isinstance(v, Arr):
            rec = self.heap[v.id]
            self.heap[v.id] = StoreRec(rec.vars, unk(why), rec.shape,
                                       rec.dtype, rec.roots)
        elif isinstance(v, LRef):
            rec = self.heap[v.id]
            self.heap[v.id] = ListRec((PhiSeg(next(_ids), unk(why)),),
                                      rec.roots, rec.kind)
        elif isinstance(v, DRef):
            rec = self.heap[v.id]
            self.heap[v.id] = DictRec((), rec.roots, why)
        elif isinstance(v, ORef):
            rec = self.heap[v.id].copy()
            for k in list(rec.attrs):
                x = rec.attrs[k]
                if isinstance(x, E):
                    rec.attrs[k] = unk(why)
            self.heap[v.id] = rec
            for x in list(rec.attrs.values()):
                if isinstance(x, (Arr, LRef, DRef, ORef)):
                    self.havoc_value(x, why, depth + 1)

    def fresh_fam(self, f):
        """members are addressed through the loop's own variables, so that
        writes to them are told apart from loop-carried state"""
        m, ks = {}, []
        for k, n in f.ks:
            n2 = subst(n, m) if m else n
            k2 = fresh_var('r', n2)
            ks.append((k2, n2))
            m[k] = A(k2)
        return Fam(ks, subst_val(f.v, m), subst(f.cond, m))

    def loop_fam(self, ks, cond, body, fr, lc, has_break=False):
        """summarise: for each ks in bounds (filtered by cond): body()"""
        h0 = self.heap
        pc0 = self.pc
        if has_break:
            raise Unsupported('break in summarised loop @%s' % self.loc())
        phis = {}         # loc -> placeholder info
        for attempt in range(8):
            self.heap = dict(h0)
            self.install_phis(phis, h0)
            hstart = dict(self.heap)
            self.dead = False
            self.pc = ONE
            ev0, r0 = len(self.events), len(self.raises)
            ret0 = len(self.acts[-1].returns)
            y0 = self.acts[-1].yields
            tok0 = len(self.assume_log)
            toks = []
            for k, n in ks:
                # the body only runs for 0 <= k < n
                T.push_fact(n - 1 - A(k))
            self.loopvars.extend(k for k, _ in ks)
            tok = self.push_assume(cond, 1) if cond != ONE else []
            try:
                if cond == ONE:
                    body()
                else:
                    hx = self.heap
                    body()
                    if not self.dead:
                        self.heap = self.merge_heaps(
                            cond, self.heap, dict(hx))
            finally:
                self.pop_assume(tok)
                self._undo(tok0)
                for _ in ks:
                    T.pop_fact()
                del self.loopvars[len(self.loopvars) - len(ks):]
            if self.dead:
                # every iteration leaves: only possible when empty
                pass
            changed = self.diff_heap(hstart, self.heap) if not self.dead \
                else []
            new = [l for l in changed if l not in phis]
            if not new:
                break
            for l in new:
                phis[l] = None
            del self.events[ev0:]
            del self.raises[r0:]
            del self.acts[-1].returns[ret0:]
        else:
            raise Unsupported('loop did not stabilise @%s' % self.loc())
        # raises inside: existential over the loop variables
        for r in self.raises[r0:]:
            c = r.cond * cond
            for k, n in reversed(ks):
                c = T.red('any', k, n, c) if c.const() is None or \
                    k in c.vars else c * (ONE - ind('eq', n))
            r.cond = pc0 * c
            r.vars = tuple(r.vars) + tuple(ks)
        for r in self.acts[-1].returns[ret0:]:
            pass
        rets = self.acts[-1].returns[ret0:]
        if rets:
            del self.acts[-1].returns[ret0:]
            tot = T.esum([p for p, _, _ in rets]) * cond
            c = tot
            for k, n in reversed(ks):
                c = T.red('any', k, n, c)
            vals = [v for _, v, _ in rets]
            v0 = vals[0]
            if all(same_val(v, v0) for v in vals) and not self.depends(
                    v0, [k for k, _ in ks]):
                v = v0
            else:
                v = self.unk('value returned from inside a loop')
            self.acts[-1].returns.append((pc0 * c, v, dict(h0)))
            live_pc = pc0 * (ONE - c)
        else:
            live_pc = pc0
        if self.dead:
            n = ONE
            for k, b in ks:
                n = n * b
            self.heap = h0
            self.dead = False
            self.pc = live_pc * ind('eq', n)
            if self.simp(self.pc).const() == 0 or positive(n):
                self.dead = True
            return
        self.pc = live_pc
        self.solve_phis(ks, phis, h0, ev0)

    def depends(self, v, vars):
        s = {k: A(fresh_var('t', k.args[1])) for k in vars}
        return not same_val(v, subst_val(v, s))

    # locations: ('f', id, name) ('o', id, attr) ('l', id) ('d', id) ('s', id)
    def diff_heap(self, h0, h1):
        out = []
        for i, r in h1.items():
            o = h0.get(i)
            if o is None or o is r:
                continue
            if isinstance(r, FrameRec):
                for k, v in r.vars.items():
                    if k in o.vars and not self.same_loc(o.vars[k], v):
                        out.append(('f', i, k))
            elif isinstance(r, ObjRec):
                for k, v in r.attrs.items():
                    if k not in o.attrs or not self.same_loc(
                            o.attrs[k], v):
                        if k in o.attrs:
                            out.append(('o', i, k))
            elif isinstance(r, ListRec):
                if len(o.segs) != len(r.segs) or not all(
                        map(same_seg, o.segs, r.segs)):
                    out.append(('l', i))
            elif isinstance(r, DictRec):
                if len(o.items) != len(r.items) or not all(
                        same_val(a[0], b[0]) and same_val(a[1], b[1]) and
                        a[2] == b[2] for a, b in zip(o.items, r.items)) or \
                        o.unk != r.unk:
                    out.append(('d', i))
            elif isinstance(r, StoreRec):
                s = dict(zip(r.vars, (A(v) for v in o.vars)))
                if not self.same_loc(o.body, subst_val(r.body, s)
                                     if o.vars != r.vars else r.body):
                    out.append(('s', i))
        return out

    def same_loc(self, a, b):
        if same_val(a, b):
            return True
        if isinstance(a, (E, bool)) and isinstance(b, (E, bool)):
            d = self.toE(a) - self.toE(b)
            return not d.unk and T.is_zero(d)
        return False

    def install_phis(self, phis, h0):
        for l in list(phis):
            uid = next(_ids)
            kind = l[0]
            if kind == 'f' or kind == 'o':
                rec = h0[l[1]]
                old = rec.vars[l[2]] if kind == 'f' else rec.attrs[l[2]]
                if isinstance(old, (E, bool)):
                    at = 'int' if is_int(self.toE(old)) else 'real'
                    ph = sym('phi%d' % uid, *(('int',) if at == 'int'
                                              else ()))
                elif isinstance(old, Arr):
                    nm = T.tensor('phi%d' % uid)
                    ph = self.new_arr(old.shape, lambda ix: T.el(nm, *ix),
                                      old.dtype, self.heap[old.id].roots)
                else:
                    ph = UnkV('phi%d' % uid)
                phis[l] = (uid, ph, old)
                r = self.heap[l[1]].copy()
                if kind == 'f':
                    r.vars[l[2]] = ph
                else:
                    r.attrs[l[2]] = ph
                self.heap[l[1]] = r
            elif kind == 's':
                rec = h0[l[1]]
                nm = 'phi%d' % uid
                if isinstance(rec.body, E):
                    T.tensor(nm, *(('int',) if rec.dtype == 'int' else ()))
                    ph = T.el(nm, *[A(v) for v in rec.vars])
                else:
                    ph = UnkV(nm)
                phis[l] = (uid, ph, rec.body)
                self.heap[l[1]] = StoreRec(rec.vars, ph, rec.shape,
                                           rec.dtype, rec.roots)
            elif kind == 'l':
                rec = h0[l[1]]
                ln = sym('lenphi%d' % uid, 'int', 'nn')
                ph = PhiSeg(uid, ln)
                phis[l] = (uid, ph, rec.segs)
                self.heap[l[1]] = ListRec((ph,), rec.roots, rec.kind)
            elif kind == 'd':
                rec = h0[l[1]]
                phis[l] = (uid, ('dphi', uid), rec)
                self.heap[l[1]] = DictRec((), rec.roots, 'phi%d' % uid)

    def solve_phis(self, ks, phis, h0, ev0):
        """closed forms for everything the loop changed"""
        hend = self.heap
        prefix = {}       # phi sym atom -> E closed form at iteration ks
        final = {}
        # order index and total number of iterations before (ks)
        single = len(ks) == 1

        def sum_before(g):
            """sum of g over iterations strictly before the current one"""
            if single:
                (k, n), = ks
                j = fresh_var('j', A(k))
                return mk_sum(j, A(k), subst(g, {k: A(j)}))
            # lexicographic
            tot = ZERO
            for p in range(len(ks)):
                k, n = ks[p]
                j = fresh_var('j', A(k))
                g2 = subst(g, {k: A(j)})
                for q in range(len(ks) - 1, p, -1):
                    g2 = mk_sum(ks[q][0], ks[q][1], g2)
                tot = tot + mk_sum(j, A(k), g2)
            return tot

        def sum_all(g):
            for k, n in reversed(ks):
                g = mk_sum(k, n, g)
            return g

        def last(v):
            s = {}
            for k, n in ks:
                s[k] = subst(n, s) - 1 if s else n - 1
            return subst_val(v, s)

        def empty():
            n = ONE
            for k, b in ks:
                n = n * b
            return ind('eq', n)

        def subst_all_phi(v):
            return self.subst_phi(v, prefix, ks)

        pend = dict(phis)
        # 1. lists: counts appended per iteration
        newsegs = {}
        for l in list(pend):
            if l[0] != 'l':
                continue
            uid, ph, old = pend[l]
            segs = hend[l[1]].segs
            if segs and isinstance(segs[0], PhiSeg) and \
                    segs[0].uid == uid and not any(
                        isinstance(x, PhiSeg) for x in segs[1:]):
                add = segs[1:]
                cnt = T.esum([self.seg_count(x) for x in add])
                base = T.esum([self.seg_count(x) for x in old])
                (m, _), = ph.len.t.items()
                if not any(self.mentions_phi(cnt, u) for u in
                           [p[0] for p in pend.values()]):
                    prefix[m[0][0]] = base + sum_before(cnt)
                newsegs[l] = add
            else:
                newsegs[l] = None
        # 2. scalars, iterate until no progress
        progress = True
        scal = [l for l in pend if l[0] in ('f', 'o') and isinstance(
            pend[l][1], E)]
        solved = set()
        while progress:
            progress = False
            for l in scal:
                if l in solved:
                    continue
                uid, ph, old = pend[l]
                rec = hend[l[1]]
                nv = rec.vars[l[2]] if l[0] == 'f' else rec.attrs[l[2]]
                if not isinstance(nv, (E, bool)):
                    if isinstance(nv, Arr) and nv.shape == ():
                        nv = self.toE(nv)
                    else:
                        continue
                nv = subst_all_phi(self.toE(nv))
                (m, _), = ph.t.items()
                pa = m[0][0]
                others = [p for q, p in pend.items() if q is not l]
                if any(self.mentions_phi(nv, p[0]) for p in others
                       if p[0] != uid):
                    continue
                old = self.toE(old)
                r = self.solve_rec(nv, ph, pa, old, ks, sum_before,
                                   sum_all, last, empty)
                if r is None:
                    continue
                prefix[pa], final[l] = r
                solved.add(l)
                progress = True
        # 3. finals for the rest
        for l in scal:
            if l not in solved:
                uid, ph, old = pend[l]
                (m, _), = ph.t.items()
                u = self.unkE('loop-carried scalar')
                prefix[m[0][0]] = u
                final[l] = u
        # 4. substitute prefix values everywhere in the end heap
        self.heap = hend
        self.apply_prefix(prefix, hend, h0, ev0)
        # 5. stores: several passes since one may mention another's phi
        stores = [l for l in pend if l[0] == 's']
        todo = list(stores)
        sol = {}
        for _ in range(len(stores) + 1):
            nxt = []
            for l in todo:
                r = self.solve_store(l, pend[l], ks, sum_all, sum_before,
                                     last, empty, pend)
                if r is None:
                    nxt.append(l)
                else:
                    sol[l] = r
                    self.apply_store_phi(pend[l][0], r[1], ev0, h0)
            if len(nxt) == len(todo):
                break
            todo = nxt
        for l in todo:
            rec = self.heap[l[1]]
            u = self.unkE('loop-carried array')
            sol[l] = (u, u)
            self.apply_store_phi(pend[l][0], u, ev0, h0)
        for l, (fin, _) in sol.items():
            rec = self.heap[l[1]]
            self.heap[l[1]] = StoreRec(rec.vars, fin, rec.shape,
                                       rec.dtype, rec.roots)
        # 6. write back scalars
        for l, v in final.items():
            self._setloc(l, v)
        # 7. non-scalar variables (objects/arrays rebound each iteration)
        for l in pend:
            if l[0] in ('f', 'o') and l not in final:
                uid, ph, old = pend[l]
                rec = self.heap[l[1]]
                nv = rec.vars[l[2]] if l[0] == 'f' else rec.attrs[l[2]]
                if isinstance(ph, Arr):
                    r = self.solve_rebound(l, pend[l], nv, ks, sum_all,
                                           last, empty)
                    self._setloc(l, r)
                elif self.mentions_phi(nv, uid):
                    self._setloc(l, self.unk('loop-carried value'))
                else:
                    e = self.simp(empty())
                    if e.const() is None:
                        try:
                            nn = ONE
                            for k, b in ks:
                                nn = nn * b
                            if positive(nn):
                                e = ZERO
                        except Exception:
                            pass
                    self._setloc(l, self.merge_val(e, old, last(nv))
                                 if e.t else last(nv))
        # 8. lists
        for l in pend:
            if l[0] == 'l':
                uid, ph, old = pend[l]
                add = newsegs[l]
                rec = self.heap[l[1]]
                if add is None:
                    self.heap[l[1]] = ListRec(
                        (Item(self.unk('list updated in loop')),),
                        rec.roots, rec.kind)
                    continue
                segs = list(old)
                add = rec.segs[1:]
                if len(add) == 1:
                    s = add[0]
                    if isinstance(s, Item):
                        segs.append(Fam(ks, s.v, s.cond))
                    else:
                        segs.append(Fam(tuple(ks) + tuple(s.ks), s.v,
                                        s.cond))
                    self.heap[l[1]] = ListRec(segs, rec.roots, rec.kind)
                elif not add:
                    self.heap[l[1]] = ListRec(old, rec.roots, rec.kind)
                elif all(isinstance(s, Item) for s in add):
                    # alternatives with exclusive guards collapse to one
                    tot = T.esum([s.cond for s in add])
                    if tot == ONE or self.is_ind(tot):
                        v = mk_choice([(s.cond, s.v) for s in add])
                        if tot == ONE:
                            segs.append(Fam(ks, v))
                        else:
                            v = add[-1].v
                            for s in reversed(add[:-1]):
                                v = self.merge_val(s.cond, s.v, v)
                            segs.append(Fam(ks, v, tot))
                        self.heap[l[1]] = ListRec(segs, rec.roots, rec.kind)
                    else:
                        c = len(add)
                        q = fresh_var('q', num(c))
                        v = add[-1].v
                        for i in range(c - 2, -1, -1):
                            v = self.merge_val(ind('eq', A(q) - i),
                                               add[i].v, v)
                        segs.append(Fam(tuple(ks) + ((q, num(c)),), v))
                        self.heap[l[1]] = ListRec(segs, rec.roots, rec.kind)
                else:
                    self.heap[l[1]] = ListRec(
                        list(old) + [Item(self.unk('list appended in loop'))
                                     ], rec.roots, rec.kind)
            elif l[0] == 'd':
                uid, ph, old = pend[l]
                rec = self.heap[l[1]]
                self.heap[l[1]] = DictRec(old.items, rec.roots,
                                          'updated in summarised loop')
                self.solve_dict(l, rec, old, ks)
        # 9. variables first bound inside the loop keep their last value
        for i, r in list(self.heap.items()):
            if isinstance(r, FrameRec) and i in h0:
                o = h0[i]
                ch = None
                for k, v in r.vars.items():
                    if k not in o.vars:
                        if ch is None:
                            ch = r.copy()
                        ch.vars[k] = last(v)
                if ch is not None:
                    self.heap[i] = ch

    def solve_dict(self, l, rec, old, ks):
        """d[key(k)] = v(k): keep as family entries"""
        its = []
        for k, v, c in rec.items:
            its.append((('#fam', tuple(ks), k), v, c))
        if its and not any(self.mentions_phi(v, -1) for _, v, _ in its):
            self.heap[l[1]] = DictRec(tuple(old.items) + tuple(its),
                                      rec.roots, old.unk)

    def _setloc(self, l, v):
        r = self.heap[l[1]].copy()
        if l[0] == 'f':
            r.vars[l[2]] = v
        else:
            r.attrs[l[2]] = v
        self.heap[l[1]] = r

    def solve_rec(self, nv, ph, pa, old, ks, sum_before, sum_all, last,
                  empty):
        """(value at iteration, final) or None"""
        if pa not in nv.syms:
            # overwritten each time
            if not any(k in nv.vars for k, _ in ks):
                e = empty()
                n = ONE
                for k, b in ks:
                    n = n * b
                if positive(n):
                    e = ZERO
                if len(ks) == 1:
                    first = ind('eq', A(ks[0][0]))
                else:
                    first = ONE
                    for k, _ in ks:
                        first = first * ind('eq', A(k))
                return ite(first, old, nv), ite(e, old, nv)
            if len(ks) == 1:
                (k, n), = ks
                pre = ite(ind('eq', A(k)), old, T.prev_of(nv, k))
                e = ind('eq', n)
                if positive(n):
                    e = ZERO
                return pre, ite(e, old, last(nv))
            return None
        co = lin_coeff(nv, pa)
        if co is not None and pa not in co[0].syms and \
                pa not in co[1].syms:
            a, b = co
            if a == ONE:
                return old + sum_before(b), old + sum_all(b)
            if self.disjoint(a - 1, b, ks):
                g = (a - 1) * old + b
                return old + sum_before(g), old + sum_all(g)
            if not b.t and len(ks) == 1:
                (k, n), = ks
                return (old * T.red('prod', fresh_var('j', A(k)), A(k),
                                    a) if k not in a.vars else
                        unk('prefix product'),
                        old * T.red('prod', k, n, a))
        # running maximum / minimum
        if len(ks) == 1:
            (k, n), = ks
            for op, f in (('max', T.maxE), ('min', T.minE)):
                for at in nv.atoms():
                    if at.kind == 'ind' and at.args[0] == 'lt' and \
                            pa in at.syms:
                        c2 = lin_coeff(at.args[1], pa)
                        if c2 is None or c2[0].const() not in (1, -1):
                            continue
                        g = T.scale(c2[1], -1 / c2[0].const())
                        if pa in g.syms:
                            continue
                        if T.is_zero(nv - f(ph, g)):
                            return (unk('running extremum'),
                                    f(old, T.red(op, k, n, g)))
        return None

    def disjoint(self, a, b, ks):
        """every monomial is supported on at most one iteration"""
        for e in (a, b):
            for m, c in e.t.items():
                for k, n in ks:
                    ok = False
                    for at, x in m:
                        if at.kind == 'ind' and at.args[0] == 'eq' and \
                                k in at.vars:
                            co = lin_coeff(at.args[1], k)
                            if co is not None and co[0].const() is not None:
                                ok = True
                                break
                    if not ok:
                        return False
        # all supports must be the same iteration: compare solutions
        sols = {}
        for e in (a, b):
            for m, c in e.t.items():
                for k, n in ks:
                    for at, x in m:
                        if at.kind == 'ind' and at.args[0] == 'eq' and \
                                k in at.vars:
                            co = lin_coeff(at.args[1], k)
                            if co is not None and co[0].const():
                                t = T.scale(co[1], -1 / co[0].const())
                                s = sols.setdefault(k, t)
                                if s != t and not a.t == {} and True:
                                    return False
        return True

    def solve_store(self, l, info, ks, sum_all, sum_before, last, empty,
                    pend):
        uid, ph, old = info
        rec = self.heap[l[1]]
        if isinstance(ph, UnkV):
            return self.solve_objstore(l, info, ks)
        nv = rec.body
        if not isinstance(nv, E):
            return None
        for q, p in pend.items():
            if q is not l and self.mentions_phi(nv, p[0]):
                return None
        if not isinstance(old, E):
            return None
        (m, _), = ph.t.items()
        pa = m[0][0]
        nm = pa.args[0]
        # phi read only at the same index?
        ats = [x for x in self._phi_atoms(nv, nm)]
        if any(x is not pa for x in ats):
            return None
        if not ats:
            # fully overwritten each iteration
            if any(k in nv.vars for k, _ in ks):
                r = last(nv)
                return r, unk('array overwritten in loop')
            return nv, nv
        co = lin_coeff(nv, pa)
        if co is None or ('T', nm) in co[0].syms or ('T', nm) in co[1].syms:
            return None
        a, b = co
        if a == ONE:
            return old + sum_all(b), old + sum_before(b)
        if self.disjoint(a - 1, b, ks):
            g = (a - 1) * old + b
            return old + sum_all(g), old + sum_before(g)
        r = self._scatter_split(a, b, old, ks, sum_all, sum_before)
        return r

    def _scatter_split(self, a, b, old, ks, sum_all, sum_before):
        """writes whose guards are different single iterations but mutually
        exclusive positions (e.g. symmetric fill): group by guard"""
        if a.const() == 0 and not any(
                k in b.vars for k, _ in ks):
            return b, b
        if len(ks) != 1:
            return None
        (k, n), = ks
        sols = []
        for e in (a - 1, b):
            for m, c in e.t.items():
                hit = False
                for at, x in m:
                    if at.kind == 'ind' and at.args[0] == 'eq' and \
                            k in at.vars:
                        co = lin_coeff(at.args[1], k)
                        if co is not None and co[0].const() in (1, -1):
                            t = T.scale(co[1], -1 / co[0].const())
                            hit = True
                            if t not in sols:
                                sols.append(t)
                if not hit:
                    return None
        if len(sols) > 2:
            return None

        def step(t, x):
            inr = ONE
            if not nonneg(t):
                inr = inr * (ONE - ind('lt', t))
            if not nonneg(n - 1 - t):
                inr = inr * ind('lt', t - n)
            y = subst(a, {k: t}) * x + subst(b, {k: t})
            return x + inr * (y - x)
        if len(sols) == 1:
            return step(sols[0], old), unk('array inside loop')
        t1, t2 = sols
        r12 = step(t2, step(t1, old))
        r21 = step(t1, step(t2, old))
        same = ind('eq', t1 - t2)
        if not T.prove_zero((r12 - r21) * (ONE - same), 300):
            return None
        return ite(same, step(t1, old), r12), unk('array inside loop')

    def solve_objstore(self, l, info, ks):
        """object arrays: guarded overwrite, last writer wins"""
        uid, ph, old = info
        rec = self.heap[l[1]]
        nv = rec.body
        alts = nv.alts if isinstance(nv, Choice) else [(ONE, nv)]
        out = []       # (cond, value) after eliminating ks
        rest = ONE
        k_only = [k for k, _ in ks]
        for c, v in alts:
            if isinstance(v, UnkV) and v.reason == 'phi%d' % uid:
                continue
            if self.mentions_phi(v, uid):
                return None
            sol = self._solve_guards(c, ks)
            if sol is None:
                return None
            for s, g in sol:
                out.append((g, subst_val(v, s), s))
        # writes of different iterations to one place must not conflict
        for i, (g1, v1, s1) in enumerate(out):
            for g2, v2, s2 in out[i + 1:]:
                same = ONE
                for k, _ in ks:
                    same = same * ind('eq', s1[k] - s2[k])
                if same == ONE or same_val(v1, v2):
                    continue
                if not T.prove_zero(g1 * g2 * (ONE - same), 300):
                    return None
        out = [(g, v) for g, v, _ in out]
        # later alternatives in Choice are earlier writes; make exclusive
        res = []
        used = ZERO
        for g, v in out:
            gg = g * (ONE - used)
            used = used + gg
            if gg.t:
                res.append((gg, v))
        oldv = old
        res.append((ONE - used, oldv))
        r = mk_choice(res)
        return r, UnkV('object array inside loop')

    def _solve_guards(self, c, ks):
        """as _solve_guard, for a guard that may hold in several iterations
        (one per equation): list of (subst, residual guard)"""
        r = self._solve_guard(c, ks)
        if r is not None:
            return [r]
        if len(ks) != 1:
            return None
        (k, n), = ks
        sols = []
        for m, co in c.t.items():
            hit = False
            for at, x in m:
                if at.kind == 'ind' and at.args[0] == 'eq' and k in at.vars:
                    l = lin_coeff(at.args[1], k)
                    if l is not None and l[0].const() in (1, -1):
                        t = T.scale(l[1], -1 / l[0].const())
                        hit = True
                        if t not in sols:
                            sols.append(t)
            if not hit:
                return None
        if not sols or len(sols) > 4:
            return None
        # keep only equations that can stand alone in some monomial
        out = []
        for t in sols:
            g = subst(c, {k: t})
            if not nonneg(t):
                g = g * (ONE - ind('lt', t))
            if not nonneg(n - 1 - t):
                g = g * ind('lt', t - n)
            if g.t:
                out.append(({k: t}, g))
        return out

    def _solve_guard(self, c, ks):
        """c as guard over ks: find substitution ks->t s.t. c holds only at
        t; returns (subst, residual guard)"""
        s = {}
        for k, n in ks:
            t = None
            for m, co in c.t.items():
                tm = None
                for at, x in m:
                    if at.kind == 'ind' and at.args[0] == 'eq' and \
                            k in at.vars:
                        l = lin_coeff(at.args[1], k)
                        if l is not None and l[0].const():
                            tm = T.scale(l[1], -1 / l[0].const())
                            break
                if tm is None:
                    return None
                if t is None:
                    t = tm
                elif t != tm:
                    return None
            if t is None:
                return None
            s[k] = t
        g = subst(c, s)
        for k, n in ks:
            t = s[k]
            nn = subst(n, s)
            if not nonneg(t):
                g = g * (ONE - ind('lt', t))
            if not nonneg(nn - 1 - t):
                g = g * ind('lt', t - nn)
        return s, g

    def solve_rebound(self, l, info, nv, ks, sum_all, last, empty):
        """array variable rebound each iteration (x = f(x))"""
        uid, ph, old = info
        if not isinstance(nv, Arr):
            return self.unk('loop-carried array variable')
        if not self.mentions_phi_arr(nv, ph):
            e = empty()
            n = ONE
            for k, b in ks:
                n = n * b
            if positive(n):
                e = ZERO
            r = last(nv)
            return self.merge_val(e, old, r) if e.t else r
        if nv.shape != old.shape:
            return self.unk('loop-carried array changes shape')
        vs = tuple(fresh_var('i', n) for n in old.shape)
        ix = tuple(A(v) for v in vs)
        b = self.at(nv, ix)
        if not isinstance(b, E):
            return self.unk('loop-carried array')
        nm = 'phi%d' % uid
        ats = list(self._phi_atoms(b, nm))
        pa = list(T.el(nm, *ix).atoms())[0]
        if any(x is not pa for x in ats):
            return self.unk('loop-carried array (shifted)')
        co = lin_coeff(b, pa)
        if co is None:
            return self.unk('loop-carried array (nonlinear)')
        a, bb = co
        o = self.at(old, ix)
        if a == ONE:
            f = o + sum_all(bb)
        elif self.disjoint(a - 1, bb, ks):
            f = o + sum_all((a - 1) * o + bb)
        else:
            return self.unk('loop-carried array (recurrence)')
        return self.new_arr(old.shape, lambda jx: subst(
            f, dict(zip(vs, jx))), nv.dtype, flags=tuple(
                x for x in nv.flags if x == 'sparse'))

    def mentions_phi_arr(self, v, ph):
        # reads content through nv's own (possibly new) store
        nm = None
        b = self.heap[ph.id].body
        (m, _), = b.t.items()
        nm = m[0][0].args[0]
        x = self.heap[v.id].body
        return self.mentions_name(x, nm) or v.id == ph.id

    def _phi_atoms(self, e, nm):
        out = set()

        def go(x):
            if isinstance(x, E):
                if ('T', nm) in x.syms:
                    for m in x.t:
                        for a, _ in m:
                            go(a)
            elif isinstance(x, T.Atom):
                if ('T', nm) in x.syms:
                    if x.kind == 'el' and x.args[0] == nm:
                        out.add(x)
                    for y in x.args:
                        go(y)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(e)
        return out

    def mentions_name(self, v, nm, depth=0):
        if isinstance(v, E):
            return ('T', nm) in v.syms or any(
                a.args[0] == nm for a in v.syms if not isinstance(a, tuple))
        if isinstance(v, UnkV):
            return nm in v.reason
        if isinstance(v, tuple):
            return any(self.mentions_name(x, nm, depth) for x in v)
        if isinstance(v, Choice):
            return any(self.mentions_name(x, nm, depth) or
                       self.mentions_name(c, nm) for c, x in v.alts)
        if depth > 2:
            return False
        if isinstance(v, Arr):
            return self.mentions_name(self.heap[v.id].body, nm, depth + 1)
        if isinstance(v, LRef):
            for s in self.heap[v.id].segs:
                if isinstance(s, PhiSeg):
                    if 'phi%d' % s.uid == nm:
                        return True
                elif self.mentions_name(s.v, nm, depth + 1):
                    return True
        return False

    def mentions_phi(self, v, uid):
        return self.mentions_name(v, 'phi%d' % uid) or (
            isinstance(v, E) and any(
                not isinstance(a, tuple) and
                a.args[0] == 'lenphi%d' % uid for a in v.syms))

    def subst_phi(self, v, prefix, ks):
        if not prefix:
            return v
        if isinstance(v, E):
            for _ in range(4):
                hit = [a for a in prefix if a in v.syms]
                if not hit:
                    break
                v = subst(v, {a: prefix[a] for a in hit})
            return v
        return v

    def apply_prefix(self, prefix, heap, h0, ev0):
        if not prefix:
            return
        names = set(prefix)

        def needs(e):
            return bool(names & e.syms)

        def go(v):
            if isinstance(v, E):
                return self.subst_phi(v, prefix, None) if needs(v) else v
            return self.map_val(v, go)
        self.rewrite_heap(go, h0)
        for ev in self.events[ev0:]:
            for k in ('value', 'pc', 'cond', 'args'):
                if k in ev:
                    ev[k] = go(ev[k]) if ev[k] is not None else None

    def apply_store_phi(self, uid, prefix_val, ev0, h0):
        """replace reads of the placeholder content inside the loop by its
        closed form"""
        nm = 'phi%d' % uid
        if not isinstance(prefix_val, E):
            return
        # prefix_val is in terms of the store's own index variables
        st = None
        for l in ():
            pass
        ph_vars = self._phi_vars(uid)
        if ph_vars is None:
            return

        def sub_el(e):
            ats = self._phi_atoms(e, nm)
            if not ats:
                return e
            m = {}
            for a in ats:
                m[a] = subst(prefix_val, dict(zip(ph_vars, a.args[1:])))
            return _replace_atoms(e, m)

        def go(v):
            if isinstance(v, E):
                return sub_el(v) if ('T', nm) in v.syms else v
            return self.map_val(v, go)
        self.rewrite_heap(go, h0, skip=uid)
        for ev in self.events[ev0:]:
            for k in ('value', 'cond'):
                if k in ev and ev[k] is not None:
                    ev[k] = go(ev[k])

    def _phi_vars(self, uid):
        for i, r in self.heap.items():
            if isinstance(r, StoreRec) and isinstance(r.body, E):
                for a in self._phi_atoms(r.body, 'phi%d' % uid):
                    if all(x == A(v) for x, v in zip(a.args[1:], r.vars)) \
                            and len(a.args) - 1 == len(r.vars):
                        return r.vars
        return None

    def map_val(self, v, go):
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, Choice):
            return mk_choice([(go(c), go(x)) for c, x in v.alts])
        if isinstance(v, Arr):
            shape = tuple(go(x) for x in v.shape)
            rd, wr = v.rd, v.wr
            if rd is not None:
                rd = (rd[0], tuple(go(x) for x in rd[1]))
            if wr is not None:
                wr = (wr[0], go(wr[1]), tuple(go(x) for x in wr[2]))
            return Arr(v.id, shape, rd, wr, v.dtype, tuple(
                (k, go(t)) for k, t in v.sub), v.flags)
        if isinstance(v, Ref):
            return type(v)(v.id, tuple((k, go(t)) for k, t in v.sub))
        if isinstance(v, Bound):
            return Bound(go(v.self_), v.func)
        if isinstance(v, SliceV):
            return SliceV(go(v.lo), go(v.hi), go(v.step))
        if isinstance(v, Seq):
            return Seq([self.map_seg(s, go) for s in v.segs], v.kind)
        if isinstance(v, Abs) and hasattr(v, 'map'):
            return v.map(go)
        return v

    def map_seg(self, s, go):
        if isinstance(s, Item):
            return Item(go(s.v), go(s.cond))
        if isinstance(s, Fam):
            return Fam(s.ks, go(s.v), go(s.cond))
        return s

    def rewrite_heap(self, go, h0, skip=None):
        for i, r in list(self.heap.items()):
            if i in h0 and h0[i] is r:
                continue
            if isinstance(r, FrameRec):
                n = r.copy()
                n.vars = {k: go(v) for k, v in r.vars.items()}
                self.heap[i] = n
            elif isinstance(r, ObjRec):
                n = r.copy()
                n.attrs = {k: go(v) for k, v in r.attrs.items()}
                self.heap[i] = n
            elif isinstance(r, ListRec):
                self.heap[i] = ListRec([self.map_seg(s, go)
                                        for s in r.segs], r.roots, r.kind)
            elif isinstance(r, DictRec):
                self.heap[i] = DictRec([(go(k), go(v), go(c))
                                        for k, v, c in r.items], r.roots,
                                       r.unk)
            elif isinstance(r, StoreRec):
                self.heap[i] = StoreRec(r.vars, go(r.body), tuple(
                    go(x) for x in r.shape), r.dtype, r.roots)

    # ------------------------------------------------------- expressions
    def ev(self, n, fr):
        if n is None:
            return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s @%s' % (type(n).__name__,
                                                     self.loc(n)))
        sc = self.cur
        if hasattr(n, 'lineno'):
            self.cur = n
        v = m(n, fr)
        self.cur = sc
        return v

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or \
                v is Ellipsis:
            return v
        if isinstance(v, (int, float)):
            return num(v)
        return self.unk('constant %r' % (v,))

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr(o, n.attr)

    def e_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                segs = self.iterate(v)
                if all(isinstance(s, Item) and s.cond == ONE for s in segs):
                    out.extend(s.v for s in segs)
                else:
                    return Seq([Item(y) for y in out] + segs, 'tuple')
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, n, fr):
        segs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iterate(self.ev(x.value, fr)))
            else:
                segs.append(Item(self.ev(x, fr)))
        return self.new_list(segs)

    def e_Set(self, n, fr):
        return self.new_list([Item(self.ev(x, fr)) for x in n.elts],
                             kind='set')

    def e_Dict(self, n, fr):
        items = []
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, Abs) and hasattr(src, 'snap'):
                    src = src.snap(self)
                if isinstance(src, DRef):
                    for kk, vv, cc in self.dict_items(src):
                        items = [x for x in items if not same_val(
                            x[0], kk)] + [(kk, vv, cc)]
                    continue
                return self.unk('dict unpack')
            kk = self.ev(k, fr)
            vv = self.ev(v, fr)
            items = [x for x in items if not same_val(x[0], kk)] + [
                (kk, vv, ONE)]
        self.heap[d.id] = DictRec(items)
        return d

    def e_JoinedStr(self, n, fr):
        return UnkV('fstring')

    def e_Lambda(self, n, fr):
        f = self.heap[fr.id].func
        mod = f.mod if f else self.heap[fr.id].parent[1]
        return PyFunc(n, mod, (f.qual if f else mod.name) + '.<lambda>',
                      f.cls if f else None, fr)

    def e_IfExp(self, n, fr):
        c = self.truthy(self.ev(n.test, fr))
        return self.fork(c, lambda: self.ev(n.body, fr),
                         lambda: self.ev(n.orelse, fr))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.ev(vals[0], fr)
            if len(vals) == 1:
                return v
            c = self.simp(self.truthy(v))
            if c.const() is not None:
                if bool(c.const()) == isand:
                    return go(vals[1:])
                return v
            if isinstance(v, E) and self.is_ind(v) or isinstance(v, bool):
                w = [None]

                def rest():
                    return go(vals[1:])
                if isand:
                    return self.fork(c, rest, lambda: ZERO if isinstance(
                        v, E) else v)
                return self.fork(c, lambda: ONE, rest)
            if isand:
                return self.fork(c, lambda: go(vals[1:]), lambda: v)
            return self.fork(c, lambda: v, lambda: go(vals[1:]))
        return go(n.values)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        return self.unop(type(n.op), v)

    def unop(self, op, v):
        if op is ast.Not:
            return ONE - self.truthy(v)
        if isinstance(v, Choice):
            return self.distribute(v, lambda x: self.unop(op, x))
        if op is ast.USub:
            if isinstance(v, (E, bool)):
                return -self.toE(v)
            return self.models.elementwise(self, lambda x: -x, [v])
        if op is ast.UAdd:
            return v
        if op is ast.Invert:
            if isinstance(v, Arr) and v.dtype == 'bool':
                return self.models.elementwise(self, lambda x: ONE - x, [v],
                                               'bool')
            if isinstance(v, E) and self.is_ind(v):
                return ONE - v
            return self.models.elementwise(self, lambda x: -x - 1, [v])
        raise Unsupported('unary op')

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.models.compare(self, type(op), left, right)
            if res is None:
                res = c
            else:
                res = self.toE(res) * self.toE(c) if not isinstance(
                    res, Arr) else self.models.elementwise(
                        self, lambda x, y: x * y, [res, c], 'bool')
            left = right
        return res

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return SliceV(self.ev(n.lower, fr), self.ev(n.upper, fr),
                          self.ev(n.step, fr))
        if isinstance(n, ast.Tuple):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, fr)
                    out.extend(s.v for s in self.iterate(v))
                else:
                    out.append(self.ev_index(x, fr))
            return tuple(out)
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        ix = self.ev_index(n.slice, fr)
        return self.models.index(self, o, ix)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        act = [a for a in self.acts if a.frame is fr or a.frame.id == fr.id]
        y = act[-1].yields
        rec = self.heap[y.id]
        self.heap[y.id] = ListRec(rec.segs + (Item(v),), rec.roots,
                                  rec.kind)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        y = self.acts[-1].yields
        rec = self.heap[y.id]
        self.heap[y.id] = ListRec(rec.segs + tuple(self.iterate(v)),
                                  rec.roots, rec.kind)

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            f = self.acts[-1].func
            fr2 = fr
            if n.args:
                c = self.ev(n.args[0], fr)
                o = self.ev(n.args[1], fr)
                return SuperV(o, c)
            names = [a.arg for a in f.node.args.args]
            o = self.lookup(names[0], self.acts[-1].frame)
            return SuperV(o, f.cls)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                try:
                    segs = self.iterate(v)
                except Unsupported as e:
                    return self.unk('star-args: %s' % e, v)
                if all(isinstance(s, Item) and s.cond == ONE for s in segs):
                    args.extend(s.v for s in segs)
                else:
                    args.append(Seq(segs, 'star'))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, DRef) and not self.heap[d.id].unk and all(
                        isinstance(x[0], str) for x in self.dict_items(d)):
                    for kk, vv, cc in self.dict_items(d):
                        kw[kk] = vv
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if self.dead:
            return None
        self.cur = n
        if isinstance(f, Ext) and f.name == 'builtins.eval' and len(
                args) == 1:
            return self.eval_builtin(args[0], fr)
        if isinstance(f, Ext) and f.name in ('builtins.locals',
                                             'builtins.globals'):
            return self.unk('locals()')
        return self.call(f, tuple(args), kw, n)

    def eval_builtin(self, s, fr):
        if isinstance(s, str):
            try:
                t = ast.parse(s, mode='eval').body
            except SyntaxError:
                return self.unk('eval')
            for x in ast.walk(t):
                if not isinstance(x, (ast.Name, ast.Load, ast.Attribute)):
                    return self.unk('eval of expression')
            return self.ev(t, fr)
        return self.unk('eval of dynamic text')

    # comprehensions -----------------------------------------------------
    def e_ListComp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, 'set')

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_DictComp(self, n, fr):
        f2 = FRef(self.new(FrameRec({}, fr, self.heap[fr.id].func)))
        d = self.new_dict()

        def emit():
            k = self.ev(n.key, f2)
            v = self.ev(n.value, f2)
            self.models.setitem(self, d, k, v, quiet=True)
        self.comp_gen(n.generators, 0, f2, fr, emit)
        return d

    def comp(self, n, fr, kind):
        f2 = FRef(self.new(FrameRec({}, fr, self.heap[fr.id].func)))
        out = self.new_list((), kind=kind)

        def emit():
            v = self.ev(n.elt, f2)
            rec = self.heap[out.id]
            self.heap[out.id] = ListRec(rec.segs + (Item(v),), rec.roots,
                                        kind)
        try:
            self.comp_gen(n.generators, 0, f2, fr, emit)
        except Unsupported as e:
            return self.unk('comprehension: %s' % e)
        return out

    def comp_gen(self, gens, i, f2, fr, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.ev(g.iter, f2 if i else fr)
        segs = self.iterate(it)
        lc = LoopCtx()

        def one(v):
            self.assign(g.target, v, f2)

            def conds(j):
                if j == len(g.ifs):
                    self.comp_gen(gens, i + 1, f2, fr, emit)
                    return
                c = self.truthy(self.ev(g.ifs[j], f2))
                self.fork(c, lambda: conds(j + 1), lambda: None)
            conds(0)
        for s in segs:
            if isinstance(s, Item):
                if s.cond == ONE:
                    one(s.v)
                else:
                    self.fork(s.cond, lambda s=s: one(s.v), lambda: None)
            elif isinstance(s, Fam):
                s = self.fresh_fam(s)
                self.loop_fam(s.ks, s.cond, lambda s=s: one(s.v), f2, lc)
            else:
                raise Unsupported('comprehension over recurrent list')

    # ------------------------------------------------------- entry points
    def func(self, qual):
        """resolve 'runlmc.kern.rbf.RBF.from_dist' style names"""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            m = self.prog.modules.get('.'.join(parts[:i]))
            if m is not None:
                rest = parts[i:]
                try:
                    v = self.mod_member(m, rest[0]) if rest else ModV(m)
                except KeyError:
                    raise AnalysisError('%s not found' % qual)
                for p in rest[1:]:
                    if isinstance(v, PyClass):
                        o, v2 = self.find_member(v, p)
                        if v2 is None:
                            raise AnalysisError('%s not found' % qual)
                        v = v2
                    else:
                        raise AnalysisError('%s not found' % qual)
                return v
        raise AnalysisError('%s not found' % qual)

    def method(self, o, name, *args, **kw):
        f = self.getattr(o, name)
        return self.call(f, args, kw)


def _is_generator(node):
    for n in _walk_same(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_same(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _has_break(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _strip_vararg(node):
    import copy
    n = copy.copy(node)
    a = copy.copy(node.args)
    a.args = list(a.args) + [a.vararg]
    a.defaults = list(a.defaults)
    a.vararg = None
    n.args = a
    return n


def _replace_atoms(e, m):
    """replace atoms (deep) by terms"""
    cache = {}

    def goE(x):
        if not any(isinstance(s, tuple) for s in x.syms):
            return x
        out = []
        for mo, c in x.t.items():
            p = num(c)
            for a, ex in mo:
                p = T.mul(p, T.power(goA(a), F(ex)))
                if not p.t:
                    break
            out.append(p)
        return T.esum(out)

    def goA(a):
        if a in m:
            return m[a]
        if a in cache:
            return cache[a]
        k = a.kind
        if k in ('sym', 'var', 'unk', 'prime'):
            return A(a)
        if k == 'sum':
            vs, body = a.args
            ren = {}
            nvs = []
            for v in vs:
                nb = goE(subst(v.args[1], ren) if ren else v.args[1])
                nv = fresh_var('b', nb)
                ren[v] = A(nv)
                nvs.append(nv)
            # bound variables inside replaced atoms: rename then replace
            b = subst(body, ren)
            m2 = {}
            b = _replace_rec(b, m, goE)
            for nv in reversed(nvs):
                b = mk_sum(nv, nv.args[1], b)
            r = b
        elif k == 'red':
            op, (v,), body = a.args
            nb = goE(v.args[1])
            nv = fresh_var('b', nb)
            r = T.red(op, nv, nb, goE(subst(body, {v: A(nv)})))
        else:
            na = tuple(goE(x) if isinstance(x, E) else x for x in a.args)
            r = T.rebuild(a, na)
        cache[a] = r
        return r

    def _replace_rec(b, m, goE):
        return goE(b)
    return goE(e)
