"""C01: caller-owned arrays and arguments are never modified."""
from .components import *

RULE = ('Abstract interpretation of every building block and of whole model '
        'histories on arguments owned by the caller (arrays of arbitrary '
        'values, lists, dictionaries): after construction and every '
        'operation each element of each argument is compared in normal form '
        'with the value it was handed in with.')
BUDGET = 700


def run(chk):
    for c in every(chk.prog):
        with chk.section(c.name, c.anchor, limit=60):
            I = chk.interp(c.stubs)
            A = Args(I)
            try:
                for n, f in c.build(I, A):
                    v = f()
                    if isinstance(v, LRef) or isinstance(v, Abs):
                        items(I, v)
            finally:
                A.intact(chk, c.name, c.anchor)
            accepted(chk, c.name + ' answers', c.anchor, 0)
    ONE1, TWO = Cfg(1, lmc=[1]), Cfg(2, slfm=1)
    SPLIT = Cfg(1, lmc=[1, 1], P=2, active=[[0], [1]])
    for norm, mode, rank, cfg in (
            (False, 'on-the-fly', 1, ONE1), (True, 'on-the-fly', 2, ONE1),
            (False, 'exact', 2, ONE1), (True, 'exact', 1, ONE1),
            (False, 'precompute', 1, ONE1), (True, 'precompute', 2, ONE1),
            (False, 'on-the-fly', 2, SPLIT), (True, 'on-the-fly', 1, TWO)):
        t = 'model (%s, %s, %s, %d-d inputs)' % (
            cfg, mode, 'normalised' if norm else 'raw', rank)
        with chk.section(t, M, limit=120):
            model(chk, t, norm, mode, rank, cfg)


def model(chk, tag, norm, mode, rank, cfg):
    D = cfg.D
    w = World()
    args = []

    class Own(Data):
        """data handed in by the caller"""

        def Xs(self, I, name='X', lens=None):
            A = args[0] if args else args.append(Args(I)) or args[0]
            sh = (self.cfg.P,) if rank == 2 else ()
            return A.lst(name + 's', [A.arr('%s%d' % (name, d), (n,) + sh)
                                      for d, n in enumerate(
                                          lens or self.lens)])

        def Ys(self, I):
            A = args[0]
            return A.lst('Ys', [A.arr('Y%d' % d, (n,)) for d, n in enumerate(
                self.lens)])

    class Mod(Model):
        data = Own

        def column(self, e):
            for p in range(self.cfg.P):
                for d, n in enumerate(self.lens):
                    for i in range(n):
                        if e == el('X%d' % d, num(i), *((
                                num(p),) if rank == 2 else ())):
                            return p
            return None
    m = Mod(chk, cfg, [2] * cfg.P, [2] * D, mode, {'trace_iterations': ONE},
            w.stubs(), normalize=norm, solve=w.solve)
    I, A = m.I, args[0]
    try:
        reparameterise(m)
        write(m, '')
        update(m)
        q = queries(m, [1] * D)
        for n in q:
            if n == 'predict_quantiles':
                I.method(m.o, n, m.da.Xs(I, 'Z', [1] * D), A.lst(
                    'quantiles', [num(60), num(5)]))
            else:
                q[n]()
        update(m)
    finally:
        A.intact(chk, tag, M)
    accepted(chk, tag + ' answers', M, 0, [ONE - ind('eq', el(
        'Y%d' % d, ZERO) - el('Y%d' % d, ONE)) for d in range(D)])
