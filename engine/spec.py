"""Obligations: comparing what the analysis derived with what a property
demands.  Three verdicts: holds (normal forms agree), violated (understood
completely, normal forms differ, and a valuation of the terms separates them),
undecided (anything else; listed in the evidence, never an alarm)."""
import os
import signal
import sys
import time
import traceback
from contextlib import contextmanager

from . import terms as T
from .terms import (E, A, ONE, ZERO, num, lift, ind, ite, subst, fresh_var,
                    sym, tensor, el, uf, mk_sum, compare, Valuation, evaluate,
                    EvalFail)
from .vals import *
from .interp import Interp, Unsupported
from .program import Program, AnalysisError

sys.setrecursionlimit(20000)


class Timeout(BaseException):
    pass


class Skip(Exception):
    """obligation cannot be stated (undecided)"""


class Obl:
    def __init__(self, name, anchor, verdict, detail='', loc=''):
        self.name, self.anchor = name, anchor
        self.verdict, self.detail, self.loc = verdict, detail, loc

    def json(self):
        d = {'obligation': self.name, 'anchor': self.anchor,
             'verdict': self.verdict}
        if self.detail:
            d['detail'] = str(self.detail)[:600]
        if self.loc:
            d['at'] = self.loc
        return d


class Checker:
    def __init__(self, prop, prog, tier='quick', budget=600, only=None):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.obls = []
        self.t0 = time.time()
        self.budget = budget
        self.functions = set()
        self.calls = 0
        self.trace = []
        self.assume = []
        self._Is = []
        self._sec = None
        self.strict = False     # well-formed scenarios: nothing may misfit

    # ---------------------------------------------------------- running
    def interp(self, stubs=None):
        if self.tier == 'debug' and self._sec and os.environ.get(
                'ONLY', '') not in self._sec[0]:
            raise Skip('not selected')
        I = Interp(self.prog, stubs)
        I.chk = self
        self._I = I
        self._Is.append(I)
        return I

    def misfits(self):
        """sizes that do not fit and positions that do not exist, in a
        scenario where every input is well formed"""
        seen = set()
        for I in self._Is:
            for e in I.events:
                if e['kind'] not in ('shape_mismatch', 'index_error') or \
                        e.get('cond') is None:
                    continue
                k = (e['kind'], e.get('loc'), e.get('what'))
                if k in seen:
                    continue
                try:
                    bad = self.satisfiable(e['cond'], live=True)
                except Exception:
                    bad = None
                if bad:
                    seen.add(k)
                    self.holds('%s: sizes and positions fit' % self._sec[0],
                               self._sec[1], False, '%s %s %s' % (
                                   e['kind'], e.get('what'), e.get(
                                       'shapes', e.get('index'))),
                               e.get('loc', ''))

    @contextmanager
    def section(self, name, anchor='', limit=90):
        """one analysed scenario; failures of the analysis are undecided"""
        left = self.budget - (time.time() - self.t0)
        n0 = len(self.obls)
        if left < 1:
            self.add(name, anchor, 'undecided', 'time budget exhausted')
            lim = 0
        lim = max(1, int(min(limit, left)))
        if time.time() - self.t0 > 100 and sum(
                o.verdict == 'violated' for o in self.obls) >= 3:
            lim = 1     # enough is known: the verdict cannot change

        def onalarm(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(lim)
        facts0 = list(T.FACTS) if hasattr(T, 'FACTS') else None
        self._sec = (name, anchor)
        T.DISTINCT[0] = None
        self._Is = []
        try:
            yield self
        except Timeout:
            self.add(name, anchor, 'undecided', 'analysis time limit')
        except Skip as e:
            self.add(name, anchor, 'undecided', str(e))
        except AnalysisError as e:
            self.add(name, anchor, 'undecided', 'anchor: %s' % e)
        except Unsupported as e:
            I = getattr(self, '_I', None)
            self.add(name, anchor, 'undecided', 'not modelled: %s @%s' % (
                e, I.loc() if I else ''))
        except RecursionError:
            self.add(name, anchor, 'undecided', 'analysis depth')
        except Exception as e:   # defect of the analysis: never an alarm
            tb = traceback.extract_tb(e.__traceback__)
            self.add(name, anchor, 'undecided', 'analysis error %s: %s @%s' % (
                type(e).__name__, e, ' < '.join(
                    '%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno)
                    for f in tb[-4:])))
            if self.tier == 'debug':
                if os.environ.get('TB'):
                    traceback.print_exc(limit=-6)
        finally:
            signal.alarm(0)
            if self.tier == 'debug' and os.environ.get('TIMES'):
                print('     %.1f s up to the end of %s' % (
                    time.time() - self.t0, name))
            if self.strict:
                try:
                    signal.alarm(30)
                    self.misfits()
                except Timeout:
                    pass
                finally:
                    signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            if facts0 is not None:
                T.reset_facts(facts0)
            I = getattr(self, '_I', None)
            if I is not None:
                self.functions |= set(I.touched)
                self.calls += sum(I.callcount.values())

    def add(self, name, anchor, verdict, detail='', loc=''):
        self.obls.append(Obl(name, anchor, verdict, detail, loc))
        if self.tier == 'debug':
            print('  [%s] %s %s' % (verdict, name, str(detail)[:700]))

    # -------------------------------------------------------- obligations
    def holds(self, name, anchor, ok, detail='', loc=''):
        """ok: True holds / False violated / None undecided"""
        self.add(name, anchor, {True: 'holds', False: 'violated',
                                None: 'undecided'}[ok], detail, loc)
        return ok

    def cmp(self, got, want, assume=()):
        if not isinstance(got, E):
            return 'unk', 'no number: %r' % (got,)
        return compare(got, want, assume=tuple(assume) + tuple(self.assume))

    def eq(self, name, anchor, got, want, assume=(), loc=''):
        got = self.scalar(got)
        if isinstance(got, UnkV):
            return self.holds(name, anchor, None, got.reason)
        r, info = self.cmp(got, lift(want), assume)
        if r == 'unk' and self.tier == 'debug':
            print('     got :', T.show(got, 900))
            print('     want:', T.show(lift(want), 900))
        return self.holds(name, anchor, {'eq': True, 'ne': False,
                                         'unk': None}[r], info or '', loc)

    def scalar(self, v):
        I = self._I
        if isinstance(v, (E,)):
            return v
        if v is None:
            return UnkV('no value')
        return I.toE(v)

    def arr(self, name, anchor, got, shape, f, assume=(), loc='',
            squeeze=False, _fixed=None):
        """got is an array of the given shape with elements f(ix)"""
        I = self._I
        if got is None:
            return self.holds(name, anchor, None, 'no value')
        a = got if isinstance(got, Arr) else I.as_arr(got)
        if not isinstance(a, Arr):
            r = getattr(got, 'reason', None)
            if isinstance(got, Choice):
                return self.choice(name, anchor, got, shape, f, assume)
            return self.holds(name, anchor, None, r or 'not an array: %r' % (
                got,))
        shape = tuple(lift(s) for s in shape)
        if squeeze and a.ndim != len(shape):
            from .models_np import reshape
            a2 = reshape(I, a, shape)
            if isinstance(a2, Arr):
                a = a2
        if a.ndim != len(shape):
            return self.holds(name, anchor, False,
                              'rank %d instead of %d' % (a.ndim, len(shape)))
        for g, w in zip(a.shape, shape):
            d = T.deep_refresh(g - w)
            if not d.unk and T.prove_zero(d):
                continue
            r, info = self.cmp(g, w, assume)
            if r != 'eq':
                return self.holds(name, anchor, False if r == 'ne' else None,
                                  'shape %r instead of %r; %s' % (
                                      a.shape, shape, info))
        if any(s.const() == 0 for s in shape):
            return self.holds(name, anchor, True, 'no elements')
        consts = [range(int(s.const())) if s.const() is not None and
                  1 < s.const() <= 6 else (None,) for s in shape]
        if any(c != (None,) for c in consts) and not _fixed:
            import itertools
            ok = True
            for fx in itertools.product(*consts):
                r = self.arr(name + ' [%s]' % ','.join(
                    ':' if x is None else str(x) for x in fx), anchor, a,
                    shape, f, assume, loc, _fixed=fx)
                ok = ok and r
            return ok
        vs = [fresh_var('q', s) for s in shape]
        fx = _fixed or (None,) * len(shape)
        ix = tuple(num(c) if c is not None else ZERO if s == ONE else A(v)
                   for v, s, c in zip(vs, shape, fx))
        n0 = len(T.FACTS)
        try:
            for s in shape:      # an element exists, so no axis is empty
                if s.const() is None:
                    T.push_fact(s - 1)
            got = I.at(a, ix)
            if isinstance(got, Choice):
                got = I.toE(got)
            if not isinstance(got, E):
                return self.holds(name, anchor, None, 'element %r' % (got,))
            want = lift(f(ix))
            d = T.deep_refresh(got - want)
            if not d.unk and T.prove_zero(d):
                return self.holds(name, anchor, True)
        finally:
            T.reset_facts(T.FACTS[:n0])
        # look for a separating valuation, index restricted to the range
        sub = {}
        rng = []
        for v, s in zip(vs, shape):
            if s == ONE or s.const() is not None and _fixed:
                continue
            x = sym('ix%d' % len(sub), 'int', 'nn')
            sub[v] = x
            rng.append(ind('lt', x - s))
        g2, w2 = subst(got, sub), subst(want, sub)
        r, info = self.cmp(g2, w2, tuple(assume) + tuple(rng))
        if r == 'unk' and self.tier == 'debug':
            print('     got :', T.show(g2, 900))
            print('     want:', T.show(w2, 900))
            print('     diff:', T.show(g2 - w2, 900))
        return self.holds(name, anchor, {'eq': True, 'ne': False,
                                         'unk': None}[r], info or '', loc)

    def choice(self, name, anchor, got, shape, f, assume=()):
        """alternatives that only apply at out-of-range parameters (condition
        false on every sampled valuation) are set aside"""
        live = [(c, v) for c, v in got.alts if self.satisfiable(
            c, assume) is not False]
        if len(live) == 1:
            return self.arr(name, anchor, live[0][1], shape, f,
                            tuple(assume) + (live[0][0],))
        ok = True
        for c, v in live:
            r = self.arr(name + ' when ' + T.show(c, 80), anchor, v, shape,
                         f, tuple(assume) + (c,))
            ok = ok and r
        return ok

    def satisfiable(self, c, assume=(), trials=40, live=False):
        """True: a valuation makes it true; False: none of the samples;
        None: not understood"""
        if c.const() is not None:
            return bool(c.const())
        if c.unk:
            return None
        tot = 0
        for s in range(trials):
            V = Valuation(s, sizes=(1, 2, 3, 4) if s % 2 else (2, 3),
                          special=s % 3 == 2)
            try:
                if any(evaluate(a, V) < .5 for a in
                       tuple(assume) + tuple(self.assume)):
                    continue
                tot += 1
                if evaluate(c, V) > .5:
                    if not live or all(evaluate(f, V) >= 0
                                       for f in T.FACTS):
                        return True
            except (EvalFail, OverflowError, RecursionError):
                continue
        return False if tot else None

    def quiet(self, name, anchor, n0=0, assume=(), allow=()):
        """a well-formed request raises nothing: raises since index n0"""
        I = self._I
        bad = None
        for r in I.raises[n0:]:
            if r.exc in allow:
                continue
            s = self.satisfiable(r.cond, assume)
            if s:
                return self.holds(name, anchor, False, '%s raised when %s' % (
                    r.exc, T.show(r.cond, 200)), r.loc)
            if s is None:
                bad = r
        return self.holds(name, anchor, True if bad is None else None,
                          '' if bad is None else 'possible %s at %s' % (
                              bad.exc, bad.loc))
