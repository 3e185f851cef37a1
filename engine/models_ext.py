"""paramz, scipy.sparse, FFT, logging, multiprocessing models."""
import ast

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    mk_sum, unk, sym, is_int, nonneg, positive)
from .vals import *
from . import models as M
from .models import ext, meth, raw, star, flat_star, same_dim, mismatch
from . import models_np as NP
from .models_np import arr, bad, shape_of


# -------------------------------------------------------------------- paramz
PZ_NODE = ('paramz.Parameterized', 'paramz.Model',
           'paramz.core.parameter_core.Parameterizable',
           'paramz.parameterized.Parameterized', 'paramz.model.Model')
PZ_PARAM = ('paramz.Param', 'paramz.param.Param')
PZ_OPT = ('paramz.optimization.Optimizer',
          'paramz.optimization.optimization.Optimizer')


def setraw(I, o, **kw):
    rec = I.heap[o.id].copy()
    rec.attrs.update(kw)
    I.heap[o.id] = rec


def pz_init(I, args, kw):
    o = args[0]
    nm = kw.get('name', args[1] if len(args) > 1 else None)
    if I.is_param(o):
        return None
    setraw(I, o, name=nm)
    return None


def pz_link(I, args, kw):
    o = args[0]
    ps = list(args[1:])
    if 'param' in kw:
        ps.append(kw['param'])
    for p in ps[:1]:
        I.event('link', obj=o, param=p)
        link_attr(I, o, p)
    return None


def link_attr(I, o, p):
    """paramz exposes linked parameters as attributes of their name"""
    return None


def pz_links(I, args, kw):
    o = args[0]
    for a in args[1:]:
        if isinstance(a, Seq) and a.kind == 'star':
            for s in a.segs:
                I.event('link', obj=o, param=s.v, fam=s)
        else:
            I.event('link', obj=o, param=a)
    return None


def pz_constrain(name):
    def f(I, args, kw):
        I.event('constrain', obj=args[0], how=name, args=args[1:])
        o = args[0]
        if isinstance(o, ORef) and not o.sub:
            setraw(I, o, _constraint=name)
        return None
    return f


def pz_event(name):
    def f(I, args, kw):
        I.event(name, obj=args[0], args=args[1:])
        return None
    return f


def pz_unk(name):
    def f(I, args, kw):
        if 'paramz.' + name in I.stubs:
            return I.stubs['paramz.' + name](I, args, kw)
        I.event('unkcall', what='paramz.' + name, args=args)
        return I.unk('paramz ' + name)
    return f


def pz_removed(I, args, kw):
    I.event('remove_prior', obj=args[0], args=args[1:])
    return I.unk('paramz remove')


def opt_init(I, args, kw):
    o = args[0]
    setraw(I, o, **{k: v for k, v in kw.items() if k != '**'})
    return None


NODE = {
    '__init__': pz_init, 'link_parameter': pz_link,
    'link_parameters': pz_links, 'unlink_parameter': pz_event('unlink'),
    'update_model': pz_event('update_model'),
    'add_index_operation': pz_event('add_index_operation'),
    'parameters_changed': lambda I, a, k: None,
    'trigger_update': pz_event('update_model'),
    'notify_observers': pz_event('update_model'),
    'optimize': pz_unk('optimize'), 'randomize': pz_unk('randomize'),
    '_add_to_index_operations': pz_event('add_prior'),
    '_remove_from_index_operations': pz_removed,
    'grep_param_names': pz_unk('grep'), 'checkgrad': pz_unk('checkgrad'),
    'objective_function': pz_unk('objective'),
    'parameter_names': pz_unk('names'), 'flattened_parameters': pz_unk('f'),
}
for _n in ('constrain_positive', 'constrain_negative', 'constrain_fixed',
           'constrain_bounded', 'fix', 'unfix', 'unconstrain', 'constrain',
           'unconstrain_fixed', 'unconstrain_positive'):
    NODE[_n] = pz_constrain(_n)


def class_member(extname, name):
    if extname in PZ_NODE or extname in PZ_PARAM:
        f = NODE.get(name)
        if f is not None:
            return Native(f, 'paramz.' + name)
    if extname in PZ_OPT:
        if name == '__init__':
            return Native(opt_init, 'paramz.Optimizer.__init__')
    if extname == 'builtins.object' and name == '__init__':
        return Native(lambda I, a, k: None, 'object.__init__')
    if extname.startswith('builtins.') and name == '__init__' and (
            extname.endswith('Error') or extname.endswith('Exception')):
        def f(I, a, k):
            setraw(I, a[0], args=tuple(a[1:]))
            return None
        return Native(f, 'Exception.__init__')
    return None


def make_param(I, cls, args, kw):
    def f(name='?', input_array=None, default_constraint=None, *a, **k):
        v = input_array
        x = arr(I, v) if not isinstance(v, UnkV) else None
        if x is None:
            if isinstance(v, Choice):
                x = arr(I, v)
        if x is None:
            x = I.unk('parameter value', v)
        else:
            if x.ndim == 0:
                x = NP.reshape(I, x, (ONE,))
            x = I.new_arr(x.shape, lambda ix, x=x: I.at(x, ix), 'float')
        o = I.new_obj(cls, {'name': name, '_arr': x,
                            '_constraint0': default_constraint})
        I.event('new', obj=o, cls=cls.qual)
        I.event('new_param', obj=o, name=name, constraint=default_constraint)
        return o
    try:
        return f(*args, **kw)
    except TypeError as e:
        return I.unk('Param arguments %s' % e)


def ext_new(I, cls, extname, args, kwargs):
    if extname in PZ_PARAM:
        return make_param(I, cls, args, kwargs)
    return None


ARRNAMES = set(['shape', 'size', 'ndim', 'T', 'dtype', 'flat', 'real'])


def obj_attr(I, o, name):
    if I.is_param(o):
        if name in ('values', 'param_array', 'view'):
            return I.param_arr(o)
        if name == 'gradient':
            a = I.param_arr(o)
            return I.unk('gradient not set')
        if name in ARRNAMES or ('arr', name) in M.METH:
            _, mem = I.find_member(I.heap[o.id].cls, name)
            if isinstance(mem, PyFunc):
                return NotImplemented
            return M.value_attr(I, I.param_arr(o), name)
        return NotImplemented
    if name == 'param_array':
        ps = registered(I, o)
        if ps:
            return NP.np_copy(I, NP.np_concatenate(I, I.new_list(tuple(
                Item(NP.reshape(I, I.param_arr(p), (-ONE,)))
                for p in ps))))
    return NotImplemented


def registered(I, o):
    """parameters linked below o, in order; None if not enumerable"""
    out = []
    for ev in I.events:
        if ev['kind'] in ('link', 'unlink') and isinstance(
                ev['obj'], ORef) and ev['obj'].same(o):
            p = ev['param']
            if ev['kind'] == 'unlink' or 'fam' in ev or ev['loops'] or \
                    not isinstance(p, ORef) or ev['pc'] != ONE:
                return None
            if I.is_param(p):
                out.append(p)
                continue
            sub = registered(I, p)
            if sub is None:
                return None
            out += sub
    return out


def ext_super(I, obj, cls, name, args, kwargs):
    I.event('unkcall', what='super.' + name, args=args)
    if name == '__init__':
        return None
    if name == '__str__':
        return UnkV('text')
    return I.unk('super().%s' % name)


# ---------------------------------------------------------- generic externals
class ExtObj(Abs):
    """opaque library object (transformations etc.)"""
    _n = [0]

    def __init__(self, name, args=()):
        self.name = name
        self.args = args
        ExtObj._n[0] += 1
        self.n = ExtObj._n[0]

    def getattr(self, I, name):
        return Native(lambda I2, a, k: I2.unk('%s.%s' % (self.name, name)),
                      self.name + '.' + name)

    def key(self):
        return ('extobj', self.name, self.n)

    def isinst(self, I, k):
        nm = k.name if isinstance(k, Ext) else getattr(k, 'qual', '')
        if nm == self.name:
            return ONE
        if nm.endswith('transformations.Transformation') and \
                'transformations.' in self.name:
            return ONE
        return ZERO

    def __repr__(self):
        return '<%s>' % self.name


def call_prefix(I, name, args, kwargs):
    if name.startswith('paramz.transformations.'):
        return ExtObj(name, args)
    if name in PZ_PARAM:
        return I.unk('bare paramz.Param')
    if name.startswith('climin.'):
        I.event('climin', what=name, args=args, kwargs=kwargs)
        return Climin(name, args, kwargs)
    if name.startswith('GPy.'):
        I.event('gpy', what=name, args=args, kwargs=kwargs)
        return ExtObj(name, args)
    return NotImplemented


class Climin(Abs):
    def __init__(self, name, args, kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs

    def getattr(self, I, name):
        return I.unk('climin.' + name)


class Logger(Abs):
    LEV = ('debug', 'info', 'warning', 'error', 'critical', 'exception',
           'warn', 'log')

    def getattr(self, I, name):
        if name in self.LEV:
            def f(I2, a, k):
                I2.event('log', level=name, args=a)
                return None
            return Native(f, 'log.' + name)
        if name == 'isEnabledFor':
            return Native(self.enabled, name)
        if name in ('getEffectiveLevel', 'level'):
            v = I.log_level
            if v is None:
                return I.unk('log level')
            return num(v) if name == 'level' else Native(
                lambda I2, a, k: num(v), name)
        return I.unk('logger.' + name)

    def enabled(self, I, a, k):
        if I.log_level is None or len(a) != 1 or not isinstance(a[0], E):
            return T.truth('log_enabled')
        return ONE - ind('lt', a[0] - I.log_level)

    def key(self):
        return ('logger',)


@ext('logging.getLogger')
def lg_get(I, *a):
    return Logger()


M.ATTR['logging.DEBUG'] = num(10)
M.ATTR['logging.INFO'] = num(20)
M.ATTR['logging.WARNING'] = num(30)


class AttrDict(Abs):
    """the __dict__ of an object: reads see a snapshot, writes go through"""
    cls = None

    def __init__(self, o):
        self.o = o

    def key(self):
        return ('attrdict', self.o.id)

    def subst(self, s):
        return self

    def snap(self, I):
        d = I.new_dict()
        for k, v in I.heap[self.o.id].attrs.items():
            M.dict_set(I, d, k, v)
        return d

    def store(self, I, d):
        """the object's attributes become the entries of d"""
        new = {}
        bad = I.heap[d.id].unk
        for k, v, c in I.dict_items(d):
            if not isinstance(k, str) or c != ONE:
                bad = True
            else:
                new[k] = v
        old = dict(I.heap[self.o.id].attrs)
        if bad:
            I.event('havoc', what='attributes')
            new = {k: I.unk('attributes') for k in {**old, **new}}
        for k in old:
            if k not in new:
                rec = I.heap[self.o.id].copy()
                rec.attrs = {a: b for a, b in rec.attrs.items() if a != k}
                I.heap[self.o.id] = rec
        for k, v in new.items():
            if k not in old or old[k] is not v:
                rec = I.heap[self.o.id].copy()
                rec.attrs = dict(rec.attrs, **{k: v})
                I.heap[self.o.id] = rec
                I.event('setattr', obj=self.o.id, attr=k)
        return None

    def getattr(self, I, name):
        def f(I2, a, k):
            d = self.snap(I2)
            r = I2.call(I2.getattr(d, name), tuple(a), k)
            if name in ('update', 'pop', 'setdefault', 'clear', '__setitem__',
                        '__delitem__', 'popitem'):
                self.store(I2, d)
            return r
        return Native(f, '__dict__.' + name)

    def getitem(self, I, ix):
        return I.models.index(I, self.snap(I), ix)

    def setitem(self, I, ix, v):
        d = self.snap(I)
        I.models.setitem(I, d, ix, v)
        self.store(I, d)

    def contains(self, I, x):
        return I.models.contains(I, self.snap(I), x)

    def iterate(self, I):
        return I.iterate(self.snap(I))


class PoolV(Abs):
    def __init__(self, args):
        self.args = args

    def getattr(self, I, name):
        from .models_builtin import map_over
        if name == '__enter__':
            return Native(lambda I2, a, k: self)
        if name == '__exit__':
            return Native(lambda I2, a, k: I2.event(
                'pool_close') or False)
        if name in ('starmap', 'map', 'imap'):
            def f(I2, a, k):
                fn, xs = a[0], a[1]
                I2.event('pool_map', how=name, ordered=True)
                if name == 'starmap':
                    return map_over(I2, I2.iterate(xs), lambda v: I2.call(
                        fn, tuple(s.v for s in I2.iterate(v)), {}))
                return map_over(I2, I2.iterate(xs), lambda v: I2.call(
                    fn, (v,), {}))
            return Native(f, 'pool.' + name)
        if name in ('imap_unordered',):
            def f(I2, a, k):
                fn, xs = a[0], a[1]
                I2.event('pool_map', how=name, ordered=False)
                r = map_over(I2, list(reversed(I2.iterate(xs))),
                             lambda v: I2.call(fn, (v,), {}))
                return r
            return Native(f, 'pool.' + name)
        if name in ('close', 'join', 'terminate'):
            def f(I2, a, k):
                I2.event('pool_' + name)
                return None
            return Native(f, 'pool.' + name)
        return I.unk('pool.' + name)


@ext('multiprocessing.Pool', 'multiprocessing.pool.ThreadPool',
     'multiprocessing.pool.Pool')
def mp_pool(I, *a, **k):
    I.event('pool_open', args=a, kwargs=k)
    return PoolV(a)


@ext('multiprocessing.cpu_count', 'os.cpu_count')
def mp_cpu(I):
    return sym('cpu_count', 'int', 'ge1', 'pos')


@ext('contextlib.closing')
def cl_closing(I, x):
    return x


@ext('time.time', 'time.perf_counter', 'time.process_time')
def tm(I):
    I.event('clock')
    return I.unkE('clock')


@ext('os.environ.get', 'os.getenv')
def env(I, *a):
    I.event('environ')
    return I.unk('environment')


# ------------------------------------------------------------ LinearOperator
class LinOp(Abs):
    def __init__(self, shape, mv, mm=None):
        self.shape, self.mv, self.mm = shape, mv, mm

    def subst(self, s):
        return LinOp(subst_val(self.shape, s), subst_val(self.mv, s),
                     subst_val(self.mm, s))

    def key(self):
        return ('linop', repr(self.mv))

    def getattr(self, I, name):
        if name == 'shape':
            return self.shape
        if name in ('matvec', 'dot', '__call__', 'matmat'):
            def f(I2, a, k):
                return self.apply(I2, a[0])
            return Native(f, 'LinearOperator.' + name)
        return I.unk('LinearOperator.' + name)

    def apply(self, I, x):
        y = arr(I, x)
        if y is None:
            return bad(I, 'LinearOperator', x)
        if y.ndim == 1:
            return I.call(self.mv, (y,), {})
        if self.mm is not None:
            return I.call(self.mm, (y,), {})
        return I.unk('LinearOperator matmat')

    def binop(self, I, op, y, rev):
        if op in (ast.MatMult, ast.Mult) and not rev:
            return self.apply(I, y)
        return I.unk('LinearOperator arithmetic')


@ext('scipy.sparse.linalg.LinearOperator')
def sp_linop(I, shape=None, matvec=None, rmatvec=None, matmat=None,
             dtype=None):
    return LinOp(shape, matvec, matmat)


@ext('scipy.sparse.linalg.aslinearoperator')
def sp_aslinop(I, a):
    return I.unk('aslinearoperator')


# -------------------------------------------------------------------- sparse
class Csr(Abs):
    """sparse matrix: dense meaning body(i, j) plus optional storage"""

    def __init__(self, vs, body, shape, parts=None, nnz=None):
        self.vs, self.body = vs, body
        self.shape = tuple(shape)
        self.parts = parts
        self.nnz = nnz

    def at(self, i, j):
        return subst(self.body, {self.vs[0]: i, self.vs[1]: j})

    def subst(self, s):
        sh = tuple(subst(x, s) for x in self.shape)
        vs = tuple(fresh_var('c', n) for n in sh)
        ren = {a: A(b) for a, b in zip(self.vs, vs)}
        return Csr(vs, subst(self.body, {**s, **ren}), sh,
                   subst_val(self.parts, s) if self.parts else None,
                   subst(self.nnz, s) if self.nnz is not None else None)

    def key(self):
        vs = tuple(T.atom('var', '#c%d' % d, n)
                   for d, n in enumerate(self.shape))
        return ('csr', self.at(A(vs[0]), A(vs[1])).key,
                tuple(x.key for x in self.shape))

    def isinst(self, I, k):
        nm = k.name if isinstance(k, Ext) else ''
        return ONE if nm.startswith('scipy.sparse') else ZERO

    def dense(self, I):
        return I.new_arr(self.shape, lambda ix: self.at(*ix))

    asarray_ = dense

    def T_(self):
        n, m = self.shape
        vs = (fresh_var('c', m), fresh_var('c', n))
        return Csr(vs, self.at(A(vs[1]), A(vs[0])), (m, n), None, self.nnz)

    def getattr(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return num(2)
        if name == 'T':
            return self.T_()
        if name in ('nnz', 'size'):
            return self.nnz if self.nnz is not None else I.unkE('nnz')
        if name in ('data', 'indices', 'indptr'):
            if self.parts is None:
                return I.unk('sparse storage')
            return self.parts[('data', 'indices', 'indptr').index(name)]
        if name in ('toarray', 'todense'):
            return Native(lambda I2, a, k: self.dense(I2), name)
        if name == 'A':
            return self.dense(I)
        if name in ('tocsr', 'tocsc', 'tocoo', 'tobsr', 'tolil', 'copy',
                    'astype', 'asformat', 'sorted_indices'):
            return Native(lambda I2, a, k: self, name)
        if name in ('sort_indices', 'sum_duplicates', 'eliminate_zeros'):
            return Native(lambda I2, a, k: None, name)
        if name == 'transpose':
            return Native(lambda I2, a, k: self.T_(), name)
        if name in ('dot', '__matmul__', '__mul__', 'matvec', '_mul_vector'):
            return Native(lambda I2, a, k: self.mul(I2, a[0]), name)
        if name == 'multiply':
            return Native(lambda I2, a, k: self.ew(
                I2, a[0], lambda x, y: x * y), name)
        if name == 'power':
            def f(I2, a, k):
                return Csr(self.vs, M.spow(I2, self.body, I2.toE(a[0])),
                           self.shape)
            return Native(f, name)
        if name == 'diagonal':
            return Native(lambda I2, a, k: I2.new_arr(
                (self.shape[0],), lambda ix: self.at(ix[0], ix[0])), name)
        if name == 'sum':
            def f(I2, a, k):
                ax = k.get('axis', a[0] if a else None)
                r = NP.np_sum(I2, self.dense(I2), ax)
                if isinstance(r, Arr):
                    # np.matrix result keeps two dimensions
                    c = I2.toE(ax).const()
                    return NP.reshape(I2, r, (r.shape[0], ONE) if c in (
                        1, -1) else (ONE, r.shape[0]))
                return r
            return Native(f, name)
        if name == 'dtype':
            return Ext('numpy.float64')
        return I.unk('csr.' + name)

    def ew(self, I, o, f):
        if isinstance(o, Csr):
            return Csr(self.vs, f(self.body, o.at(*[A(v) for v in self.vs])),
                       self.shape)
        if isinstance(o, (E, bool)):
            return Csr(self.vs, f(self.body, I.toE(o)), self.shape)
        a = arr(I, o)
        if a is None:
            return bad(I, 'csr elementwise', o)
        rd = M.broadcast_reader(I, a, self.shape)
        return Csr(self.vs, f(self.body, I.toE(rd(tuple(
            A(v) for v in self.vs)))), self.shape)

    def mul(self, I, o):
        if isinstance(o, Choice):
            return I.distribute(o, lambda x: self.mul(I, x))
        if isinstance(o, Csr):
            if not same_dim(self.shape[1], o.shape[0]):
                return mismatch(I, (self.shape, o.shape), 'sparse product')
            k = fresh_var('j', self.shape[1])
            sh = (self.shape[0], o.shape[1])
            vs = tuple(fresh_var('c', n) for n in sh)
            return Csr(vs, mk_sum(k, self.shape[1], self.at(
                A(vs[0]), A(k)) * o.at(A(k), A(vs[1]))), sh)
        a = arr(I, o) if not isinstance(o, UnkV) else None
        if a is None:
            return bad(I, 'sparse product', o)
        if a.ndim == 0:
            return self.ew(I, I.toE(a), lambda x, y: x * y)
        return NP.matmul(I, self.dense(I), a)

    def binop(self, I, op, o, rev):
        if op in (ast.Mult, ast.MatMult):
            if isinstance(o, (E, bool)):
                return self.ew(I, o, lambda x, y: x * y)
            if rev:
                if isinstance(o, Csr):
                    return o.mul(I, self)
                a = arr(I, o)
                if a is None:
                    return bad(I, 'product with sparse', o)
                return NP.matmul(I, a, self.dense(I))
            return self.mul(I, o)
        if op in (ast.Add, ast.Sub):
            s = 1 if op is ast.Add else -1
            if isinstance(o, Csr):
                if not all(map(same_dim, self.shape, o.shape)):
                    return mismatch(I, (self.shape, o.shape), 'sparse sum')
                x, y = (o, self) if rev else (self, o)
                return Csr(x.vs, x.body + s * y.at(*[A(v) for v in x.vs]),
                           x.shape)
            if isinstance(o, E) and not o.t:
                return self
            return bad(I, 'sparse sum', o)
        if op is ast.Div and not rev and isinstance(o, (E, bool)):
            return self.ew(I, o, T.divide)
        return bad(I, 'sparse operator', o)

    def famsum(self, I, ks, cond):
        b = self.body * cond
        for k, n in reversed(ks):
            b = mk_sum(k, n, b)
        return Csr(self.vs, b, self.shape)

    def getitem(self, I, ix):
        r = M.index(I, self.dense(I), ix)
        if isinstance(r, Arr):
            if r.ndim == 1:
                # a row of a sparse matrix stays two dimensional
                r = NP.reshape(I, r, (ONE, r.shape[0]))
            return from_dense(I, r)
        return r

    def length(self, I):
        return self.shape[0]


def from_dense(I, a):
    vs = tuple(fresh_var('c', n) for n in a.shape)
    return Csr(vs, I.at1(a, tuple(A(v) for v in vs)), a.shape)


@ext('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix',
     'scipy.sparse.csr_array')
def sp_csr(I, a, shape=None, dtype=None, copy=None):
    if isinstance(a, Csr):
        return a
    if isinstance(a, tuple) and len(a) == 2 and all(
            isinstance(x, (E, bool)) for x in a):
        sh = tuple(I.toE(x) for x in a)
        vs = tuple(fresh_var('c', n) for n in sh)
        z0 = I.new_arr((ZERO,), lambda ix: ZERO)
        z1 = I.new_arr((ZERO,), lambda ix: ZERO, 'int')
        ip = I.new_arr((sh[0] + 1,), lambda ix: ZERO, 'int')
        return Csr(vs, ZERO, sh, (z0, z1, ip), ZERO)
    if isinstance(a, tuple) and len(a) == 3:
        d, ix, ip = [arr(I, x) for x in a]
        if d is None or ix is None or ip is None:
            return bad(I, 'csr_matrix', *a)
        if shape is None:
            return I.unk('csr_matrix without shape')
        sh = shape_of(I, shape)
        if not same_dim(ip.shape[0], sh[0] + 1):
            return mismatch(I, (ip.shape, sh), 'csr_matrix indptr')
        if not same_dim(d.shape[0], ix.shape[0]):
            return mismatch(I, (d.shape, ix.shape), 'csr_matrix data')
        vs = tuple(fresh_var('c', n) for n in sh)
        lo = I.at1(ip, (A(vs[0]),))
        n = I.at1(ip, (A(vs[0]) + 1,)) - lo
        c = n.const()
        I.event('csr', cols=ix, shape=sh)
        if c is not None and c <= 8:
            body = ZERO
            for t in range(int(c)):
                col = I.at1(ix, (lo + t,))
                body = body + I.at1(d, (lo + t,)) * ind('eq', col - A(vs[1]))
        else:
            t = fresh_var('j', n)
            col = I.at1(ix, (lo + A(t),))
            body = mk_sum(t, n, I.at1(d, (lo + A(t),)) * ind(
                'eq', col - A(vs[1])))
        return Csr(vs, body, sh, (d, ix, ip), d.shape[0])
    x = arr(I, a)
    if x is None or x.ndim != 2:
        return bad(I, 'csr_matrix', a)
    return from_dense(I, x)


def sp_stack(axis):
    def f(I, xs, format=None, dtype=None):
        if isinstance(xs, UnkV):
            return bad(I, 'sparse stack', xs)
        segs = []
        for s in I.iterate(xs):
            v = s.v
            if isinstance(v, Csr):
                v = v.dense(I)
            elif arr(I, v) is None:
                return bad(I, 'sparse stack', v)
            segs.append(Item(v, s.cond) if isinstance(s, Item) else
                        Fam(s.ks, v, s.cond))
        r = NP.concat(I, segs, axis, 'sparse stack')
        return from_dense(I, r) if isinstance(r, Arr) else r
    return f


M.REG['scipy.sparse.vstack'] = raw(sp_stack(0))
M.REG['scipy.sparse.hstack'] = raw(sp_stack(1))


@ext('scipy.sparse.block_diag')
@raw
def sp_block_diag(I, xs, format=None, dtype=None):
    if isinstance(xs, UnkV):
        return bad(I, 'block_diag', xs)
    segs = []
    for s in I.iterate(xs):
        v = s.v.dense(I) if isinstance(s.v, Csr) else s.v
        segs.append(Item(v, s.cond) if isinstance(s, Item) else
                    Fam(s.ks, v, s.cond))
    r = NP.la_block_diag(I, Seq(segs, 'star'))
    return from_dense(I, r) if isinstance(r, Arr) else r


@ext('scipy.sparse.identity', 'scipy.sparse.eye')
def sp_eye(I, n, *a, **k):
    return from_dense(I, NP.np_eye(I, n))


@ext('scipy.sparse.issparse', 'scipy.sparse.isspmatrix')
def sp_is(I, x):
    return ONE if isinstance(x, Csr) else ZERO


@ext('scipy.sparse.linalg.minres', 'scipy.sparse.linalg.cg')
def sp_minres(I, op, y, x0=None, tol=None, maxiter=None, M=None,
              callback=None, **k):
    b = arr(I, y)
    if b is None:
        return I.unk('minres')
    I.event('krylov', op=op, y=y, tol=tol, maxiter=maxiter, M=M,
            callback=callback, x0=x0)
    NP._rng[0] += 1
    nm = T.tensor('krylov%d' % NP._rng[0])
    return (I.new_arr(b.shape, lambda ix: T.el(nm, *ix)),
            sym('krylov_info%d' % NP._rng[0], 'int'))


# ----------------------------------------------------------------------- FFT
class SpecVal(Abs):
    """discrete Fourier transform of the real array body over N"""

    def __init__(self, vs, body, N):
        self.vs, self.body, self.N = vs, body, tuple(N)

    def at(self, ix):
        return subst(self.body, dict(zip(self.vs, ix)))

    def subst(self, s):
        N = tuple(subst(n, s) for n in self.N)
        vs = tuple(fresh_var('w', n) for n in N)
        ren = {a: A(b) for a, b in zip(self.vs, vs)}
        return SpecVal(vs, subst(self.body, {**s, **ren}), N)

    def key(self):
        vs = tuple(T.atom('var', '#c%d' % d, n)
                   for d, n in enumerate(self.N))
        return ('spec', self.at([A(v) for v in vs]).key,
                tuple(n.key for n in self.N))

    def getattr(self, I, name):
        return I.unk('spectrum.' + name)


def spec_arr(I, sv):
    shape = sv.N[:-1] + (T.floordiv(sv.N[-1], num(2)) + 1,)
    return I.new_arr(shape, lambda ix: sv, 'complex')


def spec_of(I, a):
    if isinstance(a, Arr) and a.dtype == 'complex':
        v = I.at(a, tuple(ZERO for _ in a.shape))
        if isinstance(v, (SpecVal, ConvVal)):
            return v
    return None


class ConvVal(Abs):
    """spectrum of the circular convolution of two real arrays, kept as the
    product; elements are computed when read"""

    def __init__(self, a, b):
        self.a, self.b, self.N = a, b, a.N

    def subst(self, s):
        return ConvVal(self.a.subst(s), self.b.subst(s))

    def key(self):
        return ('conv', self.a.key(), self.b.key())

    def getattr(self, I, name):
        return I.unk('spectrum.' + name)

    def at(self, ix):
        a, b = self.a, self.b
        if not isinstance(a, SpecVal) or isinstance(b, SpecVal) and sum(
                x is not None for x in support(b)) > sum(
                    x is not None for x in support(a)):
            a, b = b, a
        sup = support(a) if isinstance(a, SpecVal) else (None,) * len(a.N)
        return self.part(a, b, tuple(ix), sup, (), ())

    def part(self, a, b, ix, sup, js, ks):
        d = len(js)
        if d == len(ix):
            return a.at(js) * b.at(ks)
        n = sup[d] if sup[d] is not None else self.N[d]
        i = ix[d]
        if nonneg(n - 1 - i) and nonneg(i):
            u = fresh_var('j', i + 1)
            w = fresh_var('j', n - 1 - i)
            return mk_sum(u, i + 1, self.part(
                a, b, ix, sup, js + (i - A(u),), ks + (A(u),))) + mk_sum(
                w, n - 1 - i, self.part(
                    a, b, ix, sup, js + (i + 1 + A(w),),
                    ks + (self.N[d] - 1 - A(w),)))
        j = fresh_var('j', n)
        e = i - A(j)
        return mk_sum(j, n, self.part(
            a, b, ix, sup, js + (A(j),),
            ks + (e + self.N[d] * ind('lt', e),)))


def support(sv):
    """per axis, n such that the array is zero from n on (zero padding)"""
    out = []
    for v in sv.vs:
        r = None
        for at in sv.body.atoms():
            if at.kind == 'ind' and at.args[0] == 'lt':
                co = T.lin_coeff(at.args[1], v)
                if co is not None and co[0] == ONE and all(
                        any(x is at for x, _ in m) for m in sv.body.t):
                    r = T.neg(co[1])
        if r is not None and not (nonneg(r) and v not in r.vars):
            r = None
        out.append(r)
    return tuple(out)


def conv(a, b):
    return ConvVal(a, b)


def spec_binop(I, op, a, b):
    sa, sb = spec_of(I, a), spec_of(I, b)
    if sa is not None and sb is not None:
        if len(sa.N) != len(sb.N) or not all(map(same_dim, sa.N, sb.N)):
            return mismatch(I, (sa.N, sb.N), 'spectrum product')
        if op is ast.Mult:
            return spec_arr(I, conv(sa, sb))
        if not isinstance(sa, SpecVal) or not isinstance(sb, SpecVal):
            return I.unk('spectrum arithmetic')
        if op in (ast.Add, ast.Sub):
            s = 1 if op is ast.Add else -1
            return spec_arr(I, SpecVal(sa.vs, sa.body + s * sb.at(
                [A(v) for v in sa.vs]), sa.N))
        return I.unk('spectrum arithmetic')
    s, o, rev = (sa, b, False) if sa is not None else (sb, a, True)
    if isinstance(s, ConvVal) and isinstance(o, (E, bool)) and (
            op is ast.Mult or op is ast.Div and not rev) and isinstance(
                s.a, SpecVal):
        x = I.toE(o)
        return spec_arr(I, ConvVal(SpecVal(
            s.a.vs, s.a.body * x if op is ast.Mult else T.divide(
                s.a.body, x), s.a.N), s.b))
    if isinstance(s, SpecVal) and isinstance(o, (E, bool)):
        if op is ast.Mult:
            return spec_arr(I, SpecVal(s.vs, s.body * I.toE(o), s.N))
        if op is ast.Div and not rev:
            return spec_arr(I, SpecVal(s.vs, T.divide(s.body, I.toE(o)),
                                       s.N))
    return I.unk('spectrum arithmetic')


def rfftn(I, x, s, axes=None):
    a = arr(I, x)
    if a is None or a.dtype in ('complex', 'object') or axes is not None:
        return bad(I, 'rfftn', x)
    N = shape_of(I, s) if s is not None else a.shape
    if N is None or len(N) != a.ndim or any(n.unk for n in N):
        return bad(I, 'rfftn', x)
    vs = tuple(fresh_var('w', n) for n in N)
    c = ONE
    for v, n, m in zip(vs, a.shape, N):
        if not nonneg(n - m):
            c = c * ind('lt', A(v) - n)
    return spec_arr(I, SpecVal(vs, c * I.at1(a, tuple(
        A(v) for v in vs)), N))


def irfftn(I, x, s, axes=None):
    sv = spec_of(I, x)
    if sv is None or axes is not None:
        return bad(I, 'irfftn', x)
    if s is not None:
        N = shape_of(I, s)
        if N is None or len(N) != len(sv.N) or not all(
                map(same_dim, N, sv.N)):
            return bad(I, 'irfftn with another size', x)
    elif not is_int(T.divide(sv.N[-1], num(2))) and not _even(sv.N[-1]):
        return bad(I, 'irfftn: original length not known to be even', x)
    if isinstance(sv, ConvVal):
        return I.new_arr(sv.N, lambda ix: LazyE(sv, ix))
    return I.new_arr(sv.N, lambda ix: sv.at(ix))


def _even(n):
    for m, c in n.t.items():
        if c.denominator == 1 and c % 2 == 0 and all(
                a.kind != 'x' for a, _ in m) and is_int(A1(m)):
            continue
        if c.denominator == 1 and len(m) == 1 and m[0][0].kind == 'uf' and \
                m[0][0].args[0] == 'pow2above' and positive(
                    m[0][0].args[1]):
            continue
        return False
    return True


def A1(m):
    return E({m: T.F(1)})


@ext('numpy.fft.rfft')
def fft_rfft(I, x, n=None, axis=None, norm=None):
    a = arr(I, x)
    if a is None or a.ndim != 1 or norm is not None:
        return bad(I, 'rfft', x)
    return rfftn(I, a, (n,) if n is not None else None)


@ext('numpy.fft.irfft')
def fft_irfft(I, x, n=None, axis=None, norm=None):
    if norm is not None or isinstance(x, Arr) and x.ndim != 1:
        return bad(I, 'irfft', x)
    return irfftn(I, x, (n,) if n is not None else None)


@ext('numpy.fft.rfftn', 'numpy.fft.rfft2')
def fft_rfftn(I, x, s=None, axes=None, norm=None):
    return rfftn(I, x, s, axes) if norm is None else bad(I, 'rfftn', x)


@ext('numpy.fft.irfftn', 'numpy.fft.irfft2')
def fft_irfftn(I, x, s=None, axes=None, norm=None):
    return irfftn(I, x, s, axes) if norm is None else bad(I, 'irfftn', x)


@ext('numpy.fft.fft', 'numpy.fft.ifft', 'numpy.fft.fftn', 'numpy.fft.ifftn')
def fft_unk(I, x, *a, **k):
    return bad(I, 'complex fft', x)
