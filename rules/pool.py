"""P28: the result of a computation does not depend on the number of processes it is spread over."""
import ast
from check_result import Result
from . import rule
from .api import flow, at
from sa.norm import leaves

UNKNOWN = ('unknown',)
MAPS = {'map', 'imap', 'starmap', 'map_async', 'imap_unordered', 'starmap_async'}
UNORDERED = {'imap_unordered', 'as_completed'}
RANDOM = {'get_random', 'get_random_all', 'rvs', 'resample', 'multivariate_normal', 'normal', 'uniform', 'standard_normal', 'choice', 'permutation', 'shuffle'}
SAME = {'array', 'asarray', 'list', 'tuple', 'asanyarray'}      # wrappers that keep elements and order


def simple(e):
    return isinstance(e, (ast.Name, ast.Attribute, ast.Constant))


def last(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def nodes(stmts):
    for s in stmts:
        yield from ast.walk(s)


def has(t, what):
    return isinstance(t, tuple) and (t[:1] == (what,) or any(has(x, what) for x in t))


class Side:
    """one of the two ways (serial, parallel) of a function"""

    def __init__(self, fn, branch, other, module):
        self.fn, self.branch, self.module = fn, branch, module
        skip = {id(x) for x in nodes(other)} | {id(x) for x in nodes(branch)}
        self.inside = self.table(nodes(branch))
        self.outside = self.table(x for x in ast.walk(fn) if id(x) not in skip)
        a = fn.args
        self.args = a.vararg.arg if a.vararg else None
        self.kwargs = a.kwarg.arg if a.kwarg else None
        self.grid = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 2 and isinstance(n.value, ast.Call) \
                    and last(n.value.func) == 'meshgrid' and len(n.value.args) == 2 and not n.value.keywords:
                for i, t in enumerate(n.targets[0].elts):
                    if isinstance(t, ast.Name):
                        self.grid[t.id] = (i, n.value.args)
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    @staticmethod
    def table(ns):
        t = {}
        for n in ns:
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        t.setdefault(x.id, []).append(n.value)
                    else:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                t.setdefault(y.id, []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                t.setdefault(n.name, []).append(n)
            elif isinstance(n, (ast.AugAssign, ast.For)):
                for y in ast.walk(n.target):
                    if isinstance(y, ast.Name):
                        t.setdefault(y.id, []).append(None)
        return t

    def lookup(self, name):
        """what a name stands for; itself (None) if it is the same on both sides"""
        if name in self.inside:
            v = self.inside[name]
            return v[0] if len(v) == 1 and v[0] is not None else UNKNOWN
        v = self.outside.get(name)
        if v and len(v) == 1 and name not in self.params:
            return v[0]
        return None

    # ---- forms
    def form(self, e, b, depth=0):
        """canonical form of e; b: forms of bound names"""
        if depth > 12:
            return UNKNOWN
        f = lambda x, bb=b: self.form(x, bb, depth + 1)
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            if e.id in b:
                return b[e.id]
            v = self.lookup(e.id)
            if v is None or isinstance(v, ast.FunctionDef):
                return ('name', e.id)
            if v is UNKNOWN:
                return UNKNOWN
            if e.id in self.inside or simple(v) or isinstance(v, ast.Call) and last(v.func) in ('partial', 'vectorize') or self.mapping(v):
                return f(v, {})
            return ('name', e.id)
        if isinstance(e, (ast.List, ast.Tuple)):
            return ('list',) + tuple(map(f, e.elts))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = f(e.operand)
            return ('const', -v[1]) if v[0] == 'const' and isinstance(v[1], (int, float)) else scaled(-1, v)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            l, r = f(e.left), f(e.right)
            for x, y in ((l, r), (r, l)):
                if x[0] == 'const' and isinstance(x[1], (int, float)):
                    return scaled(x[1], y)
            return ('mul',) + tuple(sorted((l, r), key=repr))
        if isinstance(e, ast.BinOp):
            return (type(e.op).__name__, f(e.left), f(e.right))
        if isinstance(e, ast.Attribute):
            v = f(e.value)
            return ('attr', v, e.attr)
        if isinstance(e, ast.Subscript):
            return ('item', f(e.value), f(e.slice))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) == 2 and not any(g.ifs for g in e.generators) and all(isinstance(g.target, ast.Name) for g in e.generators):
                return self.mapped(f(e.elt, {**b, **self.product(e.generators, b, depth)}))
            if len(e.generators) != 1 or e.generators[0].ifs:
                return UNKNOWN
            g = e.generators[0]
            return self.mapped(f(e.elt, {**b, **self.target(g.target, self.element(g.iter, b, depth))}))
        if isinstance(e, ast.Call):
            return self.call(e, b, depth)
        return UNKNOWN

    def mapping(self, e):
        """does e apply a function to many points?"""
        return any(isinstance(x, ast.Call) and (last(x.func) in MAPS or isinstance(x.func, ast.Name) and self.vectorised(x.func.id) is not None)
                   for x in ast.walk(e))

    def mapped(self, t):
        if t[0] == 'scaled':
            return ('scaled', t[1], ('map', t[2]))
        return ('map', t)

    def product(self, gs, b, depth):
        """two nested loops: the points of a grid, the inner loop varies first"""
        o, i = (self.form(g.iter, b, depth + 1) for g in gs)
        return {gs[0].target.id: ('outer', i, o), gs[1].target.id: ('inner', i, o)}

    def target(self, t, el):
        if isinstance(t, ast.Name):
            return {t.id: el}
        if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
            if el[0] == 'list' and len(el) == len(t.elts) + 1:
                return {x.id: y for x, y in zip(t.elts, el[1:])}
            return {x.id: ('item', el, ('const', i)) for i, x in enumerate(t.elts)}
        return {}

    def element(self, it, b, depth):
        """form of an element of `it`"""
        if isinstance(it, ast.Name) and it.id not in b and it.id in self.grid:
            i, a = self.grid[it.id]
            x, y = (self.form(k, b, depth + 1) for k in a)
            return ('outer' if i else 'inner', x, y)
        if isinstance(it, ast.Name) and it.id not in b:
            v = self.lookup(it.id)
            if v is UNKNOWN:
                return UNKNOWN
            if v is not None and not isinstance(v, ast.FunctionDef) and (it.id in self.inside or simple(v)):
                return self.element(v, {}, depth + 1)
        if isinstance(it, ast.Call) and last(it.func) in SAME and len(it.args) == 1 and isinstance(it.args[0], ast.ListComp):
            return self.element(it.args[0], b, depth + 1)
        if isinstance(it, (ast.ListComp, ast.GeneratorExp)) and len(it.generators) == 2 and not any(g.ifs for g in it.generators) \
                and all(isinstance(g.target, ast.Name) for g in it.generators):
            return self.form(it.elt, {**b, **self.product(it.generators, b, depth)}, depth + 1)
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
            return ('elem', ('part', self.form(it.value, b, depth + 1), ast.unparse(it.slice)))
        if self.mixed(it):
            return ('elem', ('mixed', ast.unparse(it)))
        cols = self.columns(it)
        if cols is not None:
            return ('list',) + tuple(self.element(c, b, depth + 1) for c in cols)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('ravel', 'flatten') and not it.args and not it.keywords:
            return self.element(it.func.value, b, depth + 1)
        if isinstance(it, ast.Call) and last(it.func) in SAME and len(it.args) == 1 and not isinstance(it.args[0], (ast.List, ast.Tuple)):
            return self.element(it.args[0], b, depth + 1)
        if not isinstance(it, (ast.Name, ast.Attribute)):
            return UNKNOWN
        return ('elem', self.form(it, b, depth + 1))

    def mixed(self, e):
        """np.array([X, Y]).reshape(n, 2): neighbours in X, not pairs"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'reshape' and e.args and not e.keywords:
            n = e.args[0].elts if isinstance(e.args[0], ast.Tuple) else e.args
            i = e.func.value
            return len(n) == 2 and isinstance(n[1], ast.Constant) and n[1].value == 2 and isinstance(i, ast.Call) and last(i.func) == 'array' and len(i.args) == 1 \
                and isinstance(i.args[0], (ast.List, ast.Tuple)) and len(i.args[0].elts) == 2
        return False

    def columns(self, e):
        """[X, Y] if the elements of e are (x, y) for x, y in the arrays X, Y"""
        seq = lambda x: list(x.elts) if isinstance(x, (ast.List, ast.Tuple)) else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'zip' and not e.keywords:
            return e.args
        if isinstance(e, ast.Attribute) and e.attr == 'T' or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'transpose' and not e.args:
            i = e.value if isinstance(e, ast.Attribute) else e.func.value
            if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == 'reshape' and not i.keywords and i.args:
                n = i.args[0].elts[0] if isinstance(i.args[0], ast.Tuple) else i.args[0]
                i = i.func.value
                if isinstance(i, ast.Call) and last(i.func) in ('array', 'stack', 'asarray') and len(i.args) == 1 and not i.keywords and seq(i.args[0]):
                    s = seq(i.args[0])
                    return s if isinstance(n, ast.Constant) and n.value == len(s) else None
            if isinstance(i, ast.Call) and last(i.func) in ('vstack', 'array', 'stack') and len(i.args) == 1 and not i.keywords and seq(i.args[0]):
                s = seq(i.args[0])
                return s if all(isinstance(x, ast.Call) and last(x.func) in ('ravel', 'flatten') for x in s) else None
        if isinstance(e, ast.Call) and last(e.func) == 'column_stack' and len(e.args) == 1:
            s = seq(e.args[0])
            return s if s and all(isinstance(x, ast.Call) and last(x.func) in ('ravel', 'flatten') for x in s) else None
        return None

    def vectorised(self, name):
        v = self.lookup(name)
        if isinstance(v, ast.FunctionDef) and any(last(d) == 'vectorize' for d in v.decorator_list):
            return v
        if isinstance(v, ast.Call) and last(v.func) == 'vectorize' and len(v.args) == 1:
            w = v.args[0]
            return self.lookup(w.id) if isinstance(w, ast.Name) else w
        return None

    def call(self, e, b, depth):
        fn = e.func
        if isinstance(fn, ast.Name) and self.vectorised(fn.id) is not None:
            els = [self.element(a, b, depth + 1) for a in e.args]
            return self.mapped(self.apply(self.vectorised(fn.id), els, {}, frozenset(), b, depth + 1)) if not e.keywords else UNKNOWN
        pool = isinstance(fn, ast.Attribute) and fn.attr in MAPS and not isinstance(fn.value, ast.Call)
        if (pool or isinstance(fn, ast.Name) and fn.id == 'map') and len(e.args) >= 2:
            el = self.element(e.args[1], b, depth + 1)
            if fn.attr.startswith('starmap') if pool else False:
                if el[0] != 'list':
                    return UNKNOWN
                els = list(el[1:])
            elif not pool and len(e.args) > 2:
                els = [self.element(a, b, depth + 1) for a in e.args[1:]]
            else:
                els = [el]
            return self.mapped(self.apply(e.args[0], els, {}, frozenset(), b, depth + 1))
        if isinstance(fn, ast.Attribute) and fn.attr in ('reshape', 'get', 'result') and has(self.form(fn.value, b, depth + 1), 'map'):
            v = self.form(fn.value, b, depth + 1)
            o = next((ast.unparse(k.value) for k in e.keywords if k.arg == 'order'), "'C'")
            return v if o == "'C'" else ('order', o, v)
        if last(fn) in SAME and len(e.args) == 1 and not e.keywords:
            return self.form(e.args[0], b, depth + 1)
        pos = [self.form(a, b, depth + 1) for a in e.args if not isinstance(a, ast.Starred)]
        kw = {k.arg: self.form(k.value, b, depth + 1) for k in e.keywords if k.arg}
        rest = self.rest(e)
        if rest is None:
            return UNKNOWN
        return self.apply(fn, pos, kw, rest, b, depth + 1)

    def rest(self, e):
        """where the arguments given by * and ** come from"""
        out = set()
        for a in e.args:
            if isinstance(a, ast.Starred):
                if not (isinstance(a.value, ast.Name) and a.value.id == self.args):
                    return None
                out.add('args')
        for k in e.keywords:
            if k.arg is None:
                s = self.sources(k.value)
                if s is None:
                    return None
                out |= s
        return frozenset(out)

    def sources(self, v):
        if isinstance(v, ast.Name):
            if v.id == self.kwargs and v.id not in self.inside:
                return {'kwargs'}
            if v.id in self.inside or v.id in self.outside:
                return self.built(v.id)
            return None
        if isinstance(v, ast.Call):
            n = last(v.func)
            if n in ('copy', 'deepcopy') and isinstance(v.func, ast.Attribute) and not v.args:
                return self.sources(v.func.value)
            if n in ('dict', 'copy', 'deepcopy') and len(v.args) <= 1:
                out = set()
                for a in list(v.args) + [k.value for k in v.keywords if k.arg is None]:
                    s = self.sources(a)
                    if s is None:
                        return None
                    out |= s
                return out if not any(k.arg for k in v.keywords) else None
            if n == 'zip' and len(v.args) == 2 and isinstance(v.args[1], ast.Name) and v.args[1].id == self.args:
                return {True: {'args'}, False: {'args given to other arguments'}, None: None}[self.argnames(v.args[0])]
            return None
        if isinstance(v, ast.Dict) and all(k is None for k in v.keys):
            out = set()
            for x in v.values:
                s = self.sources(x)
                if s is None:
                    return None
                out |= s
            return out
        if isinstance(v, ast.DictComp) and len(v.generators) == 1 and not v.generators[0].ifs:
            g = v.generators[0]
            return self.pairing(g.target, g.iter, v.key, v.value)
        return None

    def argnames(self, e):
        """names of the arguments of the observable, in their order"""
        while isinstance(e, ast.Name):
            v = self.lookup(e.id)
            if v is None or v is UNKNOWN or isinstance(v, ast.FunctionDef):
                return None
            e = v
        if isinstance(e, ast.Call) and last(e.func) in ('list', 'tuple') and len(e.args) == 1:
            return self.argnames(e.args[0])
        if isinstance(e, ast.Attribute) and e.attr == 'arguments':
            return True
        if isinstance(e, ast.Call) and last(e.func) in ('sorted', 'reversed', 'set') and e.args and self.argnames(e.args[0]) or \
                isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and self.argnames(e.value):
            return False
        return None

    def pairing(self, target, it, key, value):
        """{key: value for target in it} gives every positional argument its name"""
        wrong = {'args given to other arguments'}
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and isinstance(target, ast.Tuple) and len(target.elts) == 2
                and all(isinstance(x, ast.Name) for x in target.elts)):
            return None
        i, a = (x.id for x in target.elts)
        if it.func.id == 'enumerate' and it.args and isinstance(it.args[0], ast.Name) and it.args[0].id == self.args:
            if not (isinstance(value, ast.Name) and value.id == a):
                return None
            if len(it.args) > 1 or it.keywords:
                return None
            if isinstance(key, ast.Subscript):
                k = self.argnames(key.value)
                if k is None:
                    return None
                return {'args'} if k and isinstance(key.slice, ast.Name) and key.slice.id == i else wrong
            return None
        if it.func.id == 'zip' and len(it.args) == 2 and isinstance(it.args[1], ast.Name) and it.args[1].id == self.args \
                and isinstance(key, ast.Name) and key.id == i and isinstance(value, ast.Name) and value.id == a:
            return {True: {'args'}, False: wrong, None: None}[self.argnames(it.args[0])]
        return None

    def built(self, name):
        """sources of a dictionary filled step by step"""
        out, seen = set(), set()
        for n in nodes(self.branch if name in self.inside else [self.fn]):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                s = self.sources(n.value)
                if s is None and not (isinstance(n.value, ast.Dict) and not n.value.keys):
                    return None
                out |= s or set()
            elif isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and len(n.body[0].targets) == 1 \
                    and isinstance(n.body[0].targets[0], ast.Subscript) and isinstance(n.body[0].targets[0].value, ast.Name) and n.body[0].targets[0].value.id == name:
                s = self.pairing(n.target, n.iter, n.body[0].targets[0].slice, n.body[0].value)
                if s is None:
                    return None
                out |= s
                seen.add(id(n.body[0].targets[0]))
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name and id(n) not in seen:
                return None
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                if n.func.attr == 'update' and len(n.args) == 1 and not n.keywords:
                    s = self.sources(n.args[0])
                    if s is None:
                        return None
                    out |= s
                elif n.func.attr in ('pop', 'clear', 'setdefault', 'popitem'):
                    return None
        return out

    def apply(self, fn, pos, kw, rest, b, depth):
        if depth > 14:
            return UNKNOWN
        if isinstance(fn, ast.Name) and fn.id not in b:
            v = self.lookup(fn.id)
            if v is UNKNOWN:
                return UNKNOWN
            if isinstance(v, ast.FunctionDef) or isinstance(v, (ast.Call, ast.Lambda)) or v is not None and simple(v):
                return self.apply(v, pos, kw, rest, {}, depth + 1)
            g = self.module.get(fn.id)
            if g is not None:
                return self.bound(fn.id, g, pos, kw, rest)
        if isinstance(fn, ast.Call) and last(fn.func) == 'partial' and fn.args:
            p = [self.form(a, b, depth + 1) for a in fn.args[1:] if not isinstance(a, ast.Starred)]
            k = {x.arg: self.form(x.value, b, depth + 1) for x in fn.keywords if x.arg}
            r = self.rest(fn)
            if r is None:
                return UNKNOWN
            return self.apply(fn.args[0], p + pos, {**k, **kw}, r | rest, b, depth + 1)
        if isinstance(fn, (ast.Lambda, ast.FunctionDef)):
            a = fn.args
            body = fn.body if isinstance(fn, ast.Lambda) else None
            if body is None:
                st = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                body = st[0].value if len(st) == 1 and isinstance(st[0], ast.Return) else None
            ps = [x.arg for x in a.posonlyargs + a.args]
            if body is None or rest or a.vararg or a.kwarg or a.defaults or len(pos) > len(ps):
                return UNKNOWN
            bb = {**b, **dict(zip(ps, pos)), **kw}
            return self.form(body, bb, depth + 1) if set(ps) <= set(bb) else UNKNOWN
        return ('call', self.form(fn, b, depth + 1), tuple(pos), tuple(sorted(kw.items())), tuple(sorted(rest)))

    def bound(self, name, g, pos, kw, rest):
        ps = [x.arg for x in g.args.posonlyargs + g.args.args]
        d = dict(kw)
        free = [p for p in ps if p not in kw]
        for i, v in enumerate(pos):
            if i < len(free):
                d[free[i]] = v
            else:
                d['*%d' % i] = v
        return ('call', ('name', name), tuple(sorted(d.items())), (), tuple(sorted(rest)))


def scaled(c, t):
    if t[0] == 'scaled':
        return ('scaled', c * t[1], t[2])
    return ('scaled', c, t)


def pool_calls(fn, pools):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MAPS and isinstance(n.func.value, ast.Name) and n.func.value.id in pools:
            yield n


def pool_names(fn):
    out = {x.arg for x in fn.args.args + fn.args.kwonlyargs if 'pool' in x.arg}
    for n in ast.walk(fn):
        v, t = None, None
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            v, t = n.value, n.targets[0]
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            v, t = n.context_expr, n.optional_vars
        if isinstance(t, ast.Name) and v is not None and any(isinstance(x, ast.Call) and (last(x.func) or '').endswith(('Pool', 'PoolExecutor')) for x in ast.walk(v)):
            out.add(t.id)
    return out


def ways(fn, call):
    """(statements with the call, statements run instead of them)"""
    best = None

    def visit(block):
        nonlocal best
        for i, s in enumerate(block):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.If):
                a, b = s.body, s.orelse
                if not b and leaves(a):
                    b = block[i + 1:]
                for x, y in ((a, b), (b, a)):
                    if y and any(n is call for n in nodes(x)):
                        best = (x, y)
            for f in ('body', 'orelse', 'finalbody'):
                c = getattr(s, f, None)
                if isinstance(c, list) and c and isinstance(c[0], ast.stmt):
                    visit(c)
            for h in getattr(s, 'handlers', []):
                visit(h.body)
    visit(fn.body)
    return best


def results(side, other):
    """names both ways assign, or what both return"""
    a, b = side.inside, other.inside
    for n in a:
        if n in b and len(a[n]) == 1 == len(b[n]) and isinstance(a[n][0], ast.expr) and isinstance(b[n][0], ast.expr):
            yield n, a[n][0], b[n][0]
    ra = [s.value for s in nodes(side.branch) if isinstance(s, ast.Return) and s.value is not None]
    rb = [s.value for s in nodes(other.branch) if isinstance(s, ast.Return) and s.value is not None]
    if len(ra) == 1 == len(rb):
        yield 'result', ra[0], rb[0]


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else ''
    if k in ('name', 'const'):
        return str(t[1])
    if k == 'elem':
        return 'each of ' + show(t[1])
    if k == 'scaled':
        return '%s * %s' % (t[1], show(t[2]))
    if k == 'map':
        return show(t[1])
    if k == 'attr':
        return '%s.%s' % (show(t[1]), t[2])
    if k in ('inner', 'outer'):
        return '%s index of %s x %s' % (k, show(t[1]), show(t[2]))
    if k == 'list':
        return '[%s]' % ', '.join(map(show, t[1:]))
    if k == 'call':
        a = ['%s=%s' % (x[0], show(x[1])) if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) else show(x) for x in t[2]]
        return '%s(%s)' % (show(t[1]), ', '.join(a + ['%s=%s' % (x, show(y)) for x, y in t[3]] + list(t[4])))
    return '(%s)' % ' '.join(map(show, t))


@rule('P28')
def p28(ctx):
    r = Result()
    an = flow(ctx)
    module = {}
    for f in an.ix.by_node.values():
        if isinstance(f.node, ast.FunctionDef) and f.cls is None:
            module.setdefault(f.mod.name, {})[f.node.name] = f.node
    for f in list(an.ix.by_node.values()):
        fn = f.node
        if not isinstance(fn, ast.FunctionDef):
            continue
        r.count('functions')
        pools = pool_names(fn)
        if not pools and not any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in UNORDERED for x in ast.walk(fn)):
            continue
        for n in ast.walk(fn):
            if isinstance(n, (ast.Attribute, ast.Name)) and (n.attr if isinstance(n, ast.Attribute) else n.id) in UNORDERED:
                r.find('unordered:%s' % f.qual, '%s collects the results of its processes in the order in which they finish' % f.qual, at(f, n))
        mod = module.get(f.mod.name, {})
        tops = {k: v for k, v in mod.items() if v in f.mod.tree.body}
        for c in pool_calls(fn, pools):
            r.count('parallel_computations')
            # what the processes do draws no random numbers: they share the state of the generator
            todo, seen = [c.args[0]] if c.args else [], set()
            own = Side(fn, fn.body, [], tops)
            while todo:
                for x in ast.walk(todo.pop()):
                    if isinstance(x, ast.Call) and last(x.func) in RANDOM or isinstance(x, ast.Attribute) and x.attr == 'random' and isinstance(x.value, ast.Name) and x.value.id in ('np', 'numpy'):
                        r.find('random:%s' % f.qual, '%s draws random numbers in its processes: they start from the same random state' % f.qual, at(f, c))
                    if isinstance(x, ast.Name) and x.id not in seen:
                        seen.add(x.id)
                        todo += [v for v in own.inside.get(x.id, []) if isinstance(v, ast.FunctionDef) or isinstance(v, ast.Call) and last(v.func) == 'partial' or isinstance(v, ast.Lambda)]
                        if x.id in tops:
                            todo.append(tops[x.id])
            r.count('workers')
            w = ways(fn, c)
            if w is None:
                continue
            par, ser = Side(fn, w[0], w[1], tops), Side(fn, w[1], w[0], tops)
            draws = [any(isinstance(x, ast.Call) and last(x.func) in RANDOM for x in nodes(b)) for b in w]
            if draws[0] != draws[1]:
                r.find('drawn:%s' % f.qual, '%s draws other random numbers in parallel than serially' % f.qual, at(f, c))
            done = False
            for name, ve, se in results(par, ser):
                pf, sf = par.form(ve, {}), ser.form(se, {})
                if not (has(pf, 'map') and has(sf, 'map')) or has(pf, 'unknown') or has(sf, 'unknown'):
                    continue
                done = True
                if pf != sf:
                    r.find('differs:%s' % f.qual, '%s computes another %s in parallel than serially: %s instead of %s' % (f.qual, name, show(pf)[:150], show(sf)[:150]), at(f, c))
            if done:
                r.count('compared')
    r.rule = ('Every computation handed to a pool of processes is compared with the computation done instead of it in a single process: after expanding local '
              'functions, functools.partial, vectorised functions and dictionaries of arguments, the same function is applied to the same points with the same '
              'arguments, and results are scaled alike; results are collected in the order of the points and no random numbers are drawn in the processes.')
    r.need('functions', 300)
    return r
