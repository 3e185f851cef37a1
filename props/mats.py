"""abstract structured matrices: an arbitrary matrix known only by contract
(product with a fitting vector or matrix, dense view, shape)"""
from .common import *


class AMat(Abs):
    """arbitrary matrix with entries name[pre..., i, j]"""
    cls = None

    extra = None

    def __init__(self, name, shape, pre=(), fn=None):
        self.name, self.shape, self.pre = name, tuple(shape), tuple(pre)
        self.fn = fn

    def subst(self, s):
        r = AMat(self.name, [T.subst(x, s) for x in self.shape],
                 [T.subst(x, s) for x in self.pre], None)
        if self.fn is not None:
            f = self.fn
            r.fn = f
        r.extra = self.extra
        return r

    def key(self):
        return ('amat', self.name, tuple(x.key for x in self.pre),
                tuple(x.key for x in self.shape))

    def entry(self, i, j):
        if self.fn is not None:
            return self.fn(self.pre, i, j)
        return el(self.name, *self.pre, i, j)

    def isinst(self, I, k):
        return ONE if isinstance(k, PyClass) and k.qual == \
            'runlmc.linalg.matrix.Matrix' else ZERO

    def dot(self, I, x):
        x = I.as_arr(x)
        if not isinstance(x, Arr) or x.ndim not in (1, 2):
            return I.unk('product with something else')
        n, m = self.shape
        d = T.deep_refresh(x.shape[0] - m)
        if not T.prove_zero(d):
            return I.models.mismatch(I, (self.shape, x.shape), 'matmul')

        def f(ix):
            v = fresh_var('m', m)
            return mk_sum(v, m, self.entry(ix[0], A(v)) * I.toE(
                I.at1(x, (A(v),) + tuple(ix[1:]))))
        return I.new_arr((n,) + tuple(x.shape[1:]), f)

    def dense(self, I):
        return I.new_arr(self.shape, lambda ix: self.entry(*ix))

    def getattr(self, I, name):
        if name == 'shape':
            return self.shape
        if self.extra and name in self.extra:
            return self.extra[name]
        if name == 'dtype':
            return I.getattr(Ext('numpy'), 'float64') if False else Ext(
                'numpy.float64')
        if name in ('matvec', 'matmat'):
            def f(I2, a, k):
                x = I2.as_arr(a[0])
                if not isinstance(x, Arr) or x.ndim != (
                        1 if name == 'matvec' else 2):
                    return I2.unk('%s of an array of another rank' % name)
                return self.dot(I2, x)
            return Native(f, name)
        if name == 'as_numpy':
            return Native(lambda I2, a, k: self.dense(I2), name)
        if name == 'upper_eig_bound':
            return Native(lambda I2, a, k: uf('eigbound', *self.pre), name)
        if name == 'is_square':
            return Native(lambda I2, a, k: ind(
                'eq', self.shape[0] - self.shape[1]), name)
        return I.unk('abstract matrix .' + name)


def products(chk, I, o, tag, a, n, m, entry, cols=True, dtypes=(
        'float', 'int'), dense=True, limit=None):
    """matvec, matmat and as_numpy of o against the defining entries"""
    for dt in dtypes:
        at = ('int',) if dt == 'int' else ()
        x = vector(I, 'x' + dt, m, *at, dtype=dt)
        xt = tensor('x' + dt, *at)

        def want(ix):
            v = fresh_var('m', m)
            return mk_sum(v, m, entry(ix[0], A(v)) * el(xt, A(v)))
        n0 = len(I.raises)
        chk.arr('%s matvec, %s vector' % (tag, dt), a + '.matvec',
                I.method(o, 'matvec', x), (n,), want)
        if len(I.raises) > n0:
            accepted(chk, '%s matvec accepts' % tag, a + '.matvec', n0)
        if not cols:
            continue
        c = sym('c', 'int', 'ge1', 'pos')
        X = array(I, 'X' + dt, (m, c), *at, dtype=dt)
        Xt = tensor('X' + dt, *at)

        def want2(ix):
            v = fresh_var('m', m)
            return mk_sum(v, m, entry(ix[0], A(v)) * el(Xt, A(v), ix[1]))
        n0 = len(I.raises)
        chk.arr('%s matmat, %s matrix' % (tag, dt), a + '.matmat',
                I.method(o, 'matmat', X), (n, c), want2)
        if len(I.raises) > n0:
            accepted(chk, '%s matmat accepts' % tag, a + '.matmat', n0)
    if dense:
        chk.arr('%s dense view' % tag, a + '.as_numpy',
                I.method(o, 'as_numpy'), (n, m), lambda ix: entry(*ix))
    chk.eq('%s row count' % tag, a, shape(I, o)[0], n)
    chk.eq('%s column count' % tag, a, shape(I, o)[1], m)


def shape(I, o):
    s = items(I, I.getattr(o, 'shape'))
    return s if s and len(s) == 2 else (I.unk('shape'),) * 2
