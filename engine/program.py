"""Parses /repo's package and resolves names, classes and MROs (no import,
no execution of the analysed program)."""
import ast
import os

from .vals import PyClass, PyFunc, Ext, ModV


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.defs = {}        # name -> ('import', target) | node
        self.cache = {}


class AnalysisError(Exception):
    """the analysis cannot say anything (public anchor vanished ...)"""


def _is_test(fn):
    return fn.startswith('test_') or fn == 'testing_utils.py'


class Program:
    def __init__(self, root='/repo', pkg='runlmc', overlay=None):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.overlay = overlay or {}
        base = os.path.join(root, pkg)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if not f.endswith('.py') or _is_test(f):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if rel in self.overlay:
                    src = self.overlay[rel]
                else:
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                try:
                    tree = ast.parse(src, filename=rel)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, rel, tree, src)
        for m in self.modules.values():
            self._index(m, m.tree.body)
        self.loc_module = {m.path: m for m in self.modules.values()}

    def _index(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                m.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.defs[a.asname] = ('import', a.name)
                    else:
                        m.defs[a.name.split('.')[0]] = (
                            'import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self.resolve_from(m, n)
                for a in n.names:
                    m.defs[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = n
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                m.defs[x.id] = n
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    m.defs[n.target.id] = n
            elif isinstance(n, ast.If):
                self._index(m, n.body)
                self._index(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._index(m, n.body)
                self._index(m, n.finalbody)

    def resolve_from(self, m, n):
        if n.level == 0:
            return n.module
        parts = m.name.split('.')
        is_pkg = m.path.endswith('__init__.py')
        up = n.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - up] if up else parts
        return '.'.join(base + ([n.module] if n.module else []))

    def lookup_import(self, d):
        """('import', name) or ('from', mod, name) -> value descriptor"""
        if d[0] == 'import':
            if d[1] in self.modules or d[1] == self.pkg:
                return ModV(self.modules.get(d[1]) or d[1])
            return Ext(d[1])
        _, src, name = d
        full = src + '.' + name
        if full in self.modules:
            return ModV(self.modules[full])
        if src in self.modules:
            return ('member', self.modules[src], name)
        return Ext(full)

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('module %s not found' % name)
        return m
