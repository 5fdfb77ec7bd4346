"""Parsed sources of the package, for syntax level rules."""
import ast
import os
import re
import warnings
from collections import Counter
from .norm import normalise
from .inline import inline, Where


WORD = re.compile(r'\b_[A-Za-z]\w*')


def parse(text, path='<source>', counts=None):
    """syntax tree in normal form; counts: occurrences of private names in the package, to inline helpers used once"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = ast.parse(text, path)
        if counts is not None:
            inline(t, counts)
        return normalise(t)


class Mod:
    def __init__(self, name, path, rel, tree, text):
        self.name, self.path, self.rel, self.tree, self.text = name, path, rel, tree, text
        b = os.path.basename(path)
        self.test = b.startswith('test_') or '/test/' in rel
        self.parents = None
        self.ispkg = b == '__init__.py'


class Sources:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, 'flavio')
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh:
                    text = fh.read()
                self.modules[name] = Mod(name, p, rel, None, text)
        counts, where = Counter(), Where()
        words = {}
        for m in self.modules.values():
            words[m.name] = Counter(WORD.findall(m.text))
            counts.update(words[m.name])
            if not m.test and any(w.startswith('_') and not w.startswith('__') for w in words[m.name]):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    where.add(m.name, ast.parse(m.text))
        for m in self.modules.values():
            m.tree = parse(m.text, m.path, None if m.test else (counts, where, words[m.name]))

    def parents(self, m):
        if m.parents is None:
            m.parents = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    m.parents[c] = n
        return m.parents

    def qual(self, m, node):
        """dotted name of the function or class containing node"""
        ps = self.parents(m)
        out = []
        n = node
        while n in ps:
            n = ps[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.append(n.name)
        return '.'.join([m.name] + out[::-1])

    def resolve(self, m, node):
        """absolute module name of an ImportFrom"""
        if not node.level:
            return node.module or ''
        base = m.name.split('.')
        if not m.ispkg:
            base = base[:-1]
        base = base[:len(base) - (node.level - 1)]
        return '.'.join(base + ([node.module] if node.module else []))

    def imports(self, m):
        """name -> absolute dotted origin, for module-level and nested imports"""
        if getattr(m, 'imps', None) is None:
            m.imps = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        m.imps[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    b = self.resolve(m, n)
                    for a in n.names:
                        m.imps[a.asname or a.name] = b + '.' + a.name
        return m.imps

    def origin(self, m, name):
        return self.imports(m).get(name)

    def module_names(self, m):
        """names bound at module level (imports included)"""
        if getattr(m, 'mnames', None) is None:
            s = set()
            for n in m.tree.body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    s |= {(a.asname or a.name.split('.')[0]) for a in n.names}
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        s |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
            m.mnames = s
        return m.mnames

    def func(self, m, qual):
        """function or class node by dotted name inside module m"""
        body = self.modules[m].tree.body if isinstance(m, str) else m.tree.body
        node = None
        for part in qual.split('.'):
            node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
            if node is None:
                return None
            body = node.body
        return node
