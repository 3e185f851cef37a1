"""Thorough tier: how sensitive and how quiet is the analysis?  The sources of
the analysed functions are varied in memory (parsed, never executed):
  * operator mutants, one at a time -> how many raise an alarm, change the
    verdict to undecided, or stay quiet;
  * neutral edits (renamed locals, a no-op statement, a redundant temporary)
    -> any alarm is recorded as a false alarm of the analysis.
The outcome is evidence only; it never changes the exit code."""
import ast
import copy
import importlib
import os
import random
import time


class _Collect(ast.NodeVisitor):
    def __init__(self):
        self.sites = []

    def generic_visit(self, n):
        if isinstance(n, ast.BinOp):
            self.sites.append((n, 'binop'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            self.sites.append((n, 'cmp'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            self.sites.append((n, 'const'))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not)):
            self.sites.append((n, 'unary'))
        elif isinstance(n, ast.IfExp):
            self.sites.append((n, 'ifexp'))
        elif isinstance(n, ast.AugAssign):
            self.sites.append((n, 'aug'))
        ast.NodeVisitor.generic_visit(self, n)


SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
        ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.MatMult: ast.Mult,
        ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv,
        ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def _mutate(n, kind):
    if kind == 'binop' or kind == 'aug':
        o = type(n.op)
        if o not in SWAP or isinstance(getattr(n, 'left', None),
                                       ast.Constant) and \
                isinstance(n.left.value, str):
            return None
        n.op = SWAP[o]()
        return '%s -> %s' % (o.__name__, SWAP[o].__name__)
    if kind == 'cmp':
        o = type(n.ops[0])
        if o not in SWAP:
            return None
        n.ops = [SWAP[o]()]
        return '%s -> %s' % (o.__name__, SWAP[o].__name__)
    if kind == 'const':
        v = n.value
        n.value = v + 1
        return '%r -> %r' % (v, v + 1)
    if kind == 'unary':
        o = type(n.op).__name__
        if isinstance(n.op, ast.USub):
            n.op = ast.UAdd()
        else:
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
        return 'dropped ' + o
    if kind == 'ifexp':
        n.body, n.orelse = n.orelse, n.body
        return 'branches swapped'
    return None


def _find(tree, qual):
    """qual: dotted path below the module"""
    cur = tree
    for p in qual:
        for n in getattr(cur, 'body', ()):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                cur = n
                break
        else:
            return None
    return cur if isinstance(cur, ast.FunctionDef) else None


class _Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_rn'
        return n


def _neutral(fn, which):
    """in place; returns description or None"""
    if which == 0:
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, ast.parse('_unused = None').body[0])
        return 'no-op statement'
    if which == 1:
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef,
                              ast.Lambda, ast.ClassDef))
               for s in fn.body for x in ast.walk(s)):
            return None
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        names = {x.id for s in fn.body for x in ast.walk(s)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names -= args
        if not names:
            return None
        r = _Rename(names)
        fn.body = [r.visit(s) for s in fn.body]
        return 'locals renamed'
    if which == 2:
        done = [False]

        class R(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n if n is not fn else self.generic_visit(n)

            def visit_Lambda(self, n):
                return n

            def visit_Return(self, n):
                if n.value is None:
                    return n
                done[0] = True
                return [ast.Assign([ast.Name('_res', ast.Store())], n.value),
                        ast.Return(ast.Name('_res', ast.Load()))]
        R().visit(fn)
        return 'result through a temporary' if done[0] else None


def run(prop, root, limit=None):
    from .program import Program, AnalysisError
    from .spec import Checker
    limit = limit or float(os.environ.get('VERIF_SELFTEST_S', '600'))
    mod = importlib.import_module('props.%s' % prop.lower())
    t0 = time.time()
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))

    def verdicts(overlay):
        chk = Checker(prop, Program(root, 'runlmc', overlay), 'quick',
                      budget=min(getattr(mod, 'BUDGET', 600), 120))
        mod.run(chk)
        return chk

    base = verdicts({})
    bv = {o.name: o.verdict for o in base.obls}
    prog = base.prog
    mutants, neutral = [], []
    for q in sorted(base.functions):
        parts = q.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = prog.modules.get('.'.join(parts[:k]))
            if m is not None:
                break
        else:
            continue
        fn = _find(m.tree, parts[k:])
        if fn is None:
            continue
        c = _Collect()
        for s in fn.body:
            c.visit(s)
        for i in range(len(c.sites)):
            mutants.append((m, parts[k:], i, q))
        for w in (0, 1, 2):
            neutral.append((m, parts[k:], w, q))
    rnd.shuffle(mutants)
    rnd.shuffle(neutral)
    out = {'alarm': 0, 'undecided': 0, 'quiet': 0}
    quiet, false_alarms, nneutral = [], [], 0
    for j in range(max(len(mutants), len(neutral))):
        if time.time() - t0 > limit:
            break
        if j < len(mutants):
            m, path, i, q = mutants[j]
            tree = copy.deepcopy(m.tree)
            fn = _find(tree, path)
            c = _Collect()
            for s in fn.body:
                c.visit(s)
            n, kind = c.sites[i]
            line = n.lineno
            d = _mutate(n, kind)
            if d is not None:
                chk = verdicts({m.path: ast.unparse(
                    ast.fix_missing_locations(tree))})
                v = {o.name: o.verdict for o in chk.obls}
                if any(x == 'violated' for x in v.values()):
                    out['alarm'] += 1
                elif v != bv:
                    out['undecided'] += 1
                    quiet.append('U %s:%d %s' % (m.path, line, d))
                else:
                    out['quiet'] += 1
                    quiet.append('Q %s:%d %s' % (m.path, line, d))
        if j < len(neutral):
            m, path, w, q = neutral[j]
            tree = copy.deepcopy(m.tree)
            d = _neutral(_find(tree, path), w)
            if d is not None:
                nneutral += 1
                chk = verdicts({m.path: ast.unparse(
                    ast.fix_missing_locations(tree))})
                if any(o.verdict == 'violated' for o in chk.obls):
                    false_alarms.append('%s %s' % (q, d))
    return {'selftest': {
        'mutation_sites': len(mutants), 'mutants_run': sum(out.values()),
        'mutants': out, 'not_alarmed': quiet[:200],
        'neutral_edits_run': nneutral, 'false_alarms': false_alarms}}
