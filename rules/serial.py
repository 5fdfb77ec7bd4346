"""P18: objects written to YAML, dictionaries or files are read back as the same objects."""
import ast
import re
from check_result import Result
from . import rule
from .bind import modules
from sa.cond import conditions

CONV = {'int', 'float', 'list', 'tuple', 'str', 'bool', 'asarray', 'array', 'asanyarray', 'ascontiguousarray', 'copy', 'deepcopy', 'atleast_1d', 'sorted', 'dict', 'OrderedDict'}
SUMS = {'sorted'}


# ---------------------------------------------------------------------------
# what a constructor stores: small path-joining interpreter over "all options given"
# ---------------------------------------------------------------------------

def par(p):
    return frozenset([('p', p)])


def const(v):
    return frozenset([('c', repr(v))])


def deps(v):
    if isinstance(v, tuple):
        out = frozenset()
        for x in v:
            out |= deps(x)
        return out
    out = set()
    for k, a in v:
        if k == 'p':
            out.add(a)
        elif k == 'd':
            out |= a
    return frozenset(out)


def derived(*vs):
    s = frozenset()
    for v in vs:
        s |= deps(v)
    return frozenset([('d', s)])


def join(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        a = derived(a)
    if isinstance(b, tuple):
        b = derived(b)
    return a | b


class Stop(Exception):
    pass


class Interp:
    """abstract constructor: attribute -> where its value comes from"""

    def __init__(self, cls, classes, funcs):
        self.cls, self.classes, self.funcs = cls, classes, funcs
        self.attrs = {}
        self.depth = 0

    def mro(self, c=None):
        c = c or self.cls
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out or x not in self.classes:
                continue
            out.append(x)
            todo += [b for b in bases(self.classes[x])]
        return out

    def method(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            for s in self.classes[c].body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return c, s
        return None, None

    # -- expressions -------------------------------------------------------
    def test(self, t, env):
        """True/False/None under the assumption that options are given"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.test(t.operand, env)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.test(x, env) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = self.ev(t.left, env)
            if isinstance(v, tuple):
                r = False
            elif all(k == 'p' for k, a in v):
                r = False
            elif all(x == ('c', 'None') for x in v):
                r = True
            elif ('c', 'None') not in v:
                r = False
            else:
                return None
            return r if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not r
        return None

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset([('d', frozenset())]))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, (ast.List, ast.Dict, ast.Set)) and not list(ast.iter_child_nodes(e))[:-1]:
            return const('empty')
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == env.get('', 'self'):
            if e.attr in self.attrs:
                return self.attrs[e.attr]
            c, m = self.method(e.attr)
            if m is not None and any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list):
                return self.call_fn(m, [], {}, c)
            return frozenset([('d', frozenset())])
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env)
            if t is not None:
                return self.ev(e.body if t else e.orelse, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            v = self.ev(e.values[0], env)
            if not isinstance(v, tuple) and all(k == 'p' for k, a in v):
                return v          # the alternative only replaces empty values
            out = None
            for x in e.values:
                out = join(out, self.ev(x, env))
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            f = e.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if n in CONV and isinstance(f, ast.Attribute) and n == 'copy' and not e.args:
                return self.ev(f.value, env)
            if n in CONV and len(e.args) == 1 and not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == env.get('', 'self')):
                return self.ev(e.args[0], env)
            g = None
            if isinstance(f, ast.Name) and f.id in self.funcs and f.id not in env:
                g, off = self.funcs[f.id], None
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in (env.get('', 'self'), self.cls):
                c, m = self.method(f.attr)
                if m is not None:
                    g, off = m, c
            if g is not None and self.depth < 4:
                pos = []
                for a in e.args:
                    if isinstance(a, ast.Starred):
                        v = self.ev(a.value, env)
                        pos += list(v) if isinstance(v, tuple) else [derived(v)]
                    else:
                        pos.append(self.ev(a, env))
                return self.call_fn(g, pos, {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}, off)
            return derived(*[self.ev(x, env) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)], *[self.ev(k.value, env) for k in e.keywords])
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            if isinstance(g.target, ast.Name):
                env2 = dict(env)
                env2[g.target.id] = self.ev(g.iter, env)
                return self.ev(e.elt, env2)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            v = self.ev(e.value, env)
            if isinstance(v, tuple) and -len(v) <= e.slice.value < len(v):
                return v[e.slice.value]
        subs = [self.ev(x, env) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        for x in ast.walk(e):
            if isinstance(x, ast.comprehension):
                subs.append(self.ev(x.iter, env))
        return derived(*subs)

    def bind(self, fn, pos, kw, method):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
        if method and not static and names:
            env[''] = names[0]
            names = names[1:]
        elif method is None or static:
            env[''] = '<none>'
        full = names + [x.arg for x in a.kwonlyargs]
        for n, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(n, d) for n, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            env[n.arg] = self.ev(d, {}) if isinstance(d, ast.Constant) else frozenset([('d', frozenset())])
        for n, v in zip(names, pos):
            env[n] = v
        for k, v in kw.items():
            if k in full:
                env[k] = v
        return env

    def call_fn(self, fn, pos, kw, method):
        self.depth += 1
        try:
            env = self.bind(fn, pos, kw, method)
            rets = []
            self.block(fn.body, env, rets, method)
            out = None
            for v in rets:
                out = join(out, v)
            return out if out is not None else const(None)
        finally:
            self.depth -= 1

    # -- statements --------------------------------------------------------
    def block(self, body, env, rets, owner):
        """False if the end is not reached"""
        for s in body:
            if not self.stmt(s, env, rets, owner):
                return False
        return True

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == env.get('', 'self'):
            self.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, v[i] if isinstance(v, tuple) and len(v) == len(t.elts) else derived(v), env)
        elif isinstance(t, ast.Subscript):
            old = self.ev(t.value, env)
            self.assign_sub(t.value, derived(old, v), env)

    def assign_sub(self, t, v, env):
        if isinstance(t, (ast.Name, ast.Attribute)):
            self.assign(t, v, env)

    def stmt(self, s, env, rets, owner):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.assign(s.target, derived(self.ev(s.target, env), self.ev(s.value, env)), env)
        elif isinstance(s, ast.Return):
            rets.append(self.ev(s.value, env) if s.value is not None else const(None))
            return False
        elif isinstance(s, ast.Raise):
            return False
        elif isinstance(s, ast.If):
            t = self.test(s.test, env)
            if t is not None:
                return self.block(s.body if t else s.orelse, env, rets, owner)
            e1, e2 = dict(env), dict(env)
            a0 = dict(self.attrs)
            r1 = self.block(s.body, e1, rets, owner)
            a1 = self.attrs
            self.attrs = dict(a0)
            r2 = self.block(s.orelse, e2, rets, owner)
            a2 = self.attrs
            if not r1:
                env.clear(), env.update(e2)
                return r2
            if not r2:
                env.clear(), env.update(e1)
                self.attrs = a1
                return r1
            env.clear()
            for k in e1.keys() & e2.keys():
                env[k] = e1[k] if isinstance(e1[k], str) else join(e1[k], e2[k])
            self.attrs = {k: join(a1[k], a2[k]) for k in a1.keys() & a2.keys()}
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.assign(s.target, derived(self.ev(s.iter, env)), env)
            e1, a0 = dict(env), dict(self.attrs)
            self.block(s.body, e1, rets, owner)
            for k in env:
                if k in e1 and not isinstance(env[k], str):
                    env[k] = join(env[k], e1[k])
            for k, v in a0.items():
                self.attrs[k] = join(self.attrs.get(k), v)
        elif isinstance(s, ast.With):
            return self.block(s.body, env, rets, owner)
        elif isinstance(s, ast.Try):
            ok = self.block(s.body + s.orelse, env, rets, owner)
            return self.block(s.finalbody, env, rets, owner) and ok
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            c = s.value
            f = c.func
            sup = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
            expl = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.classes and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == env.get('', 'self')
            if sup or expl:
                if sup:
                    o, m = self.method(f.attr, after=owner)
                else:
                    o, m = self.method(f.attr) if f.value.id == self.cls else next(((x, y) for x in [f.value.id] + self.mro(f.value.id) for y in self.classes[x].body if isinstance(y, ast.FunctionDef) and y.name == f.attr), (None, None))
                if m is not None:
                    self.call_fn(m, [self.ev(a, env) for a in (c.args[1:] if expl else c.args)], {k.arg: self.ev(k.value, env) for k in c.keywords if k.arg}, o)
            elif isinstance(f, ast.Name) and f.id == 'setattr' and len(c.args) == 3 and isinstance(c.args[1], ast.Constant):
                self.attrs[c.args[1].value] = self.ev(c.args[2], env)
            else:
                self.ev(c, env)
        return True

    def construct(self, omit=()):
        owner, init = self.method('__init__')
        if init is None:
            return None
        a = init.args
        ps = [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
        none = {n.arg for n, d in list(zip(reversed(a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, ast.Constant) and d.value is None}
        env = self.bind(init, [], {p: const(None) if p in omit else par(p) for p in ps}, owner)
        rets = []
        self.possible = self.block(init.body, env, rets, owner) or bool(rets)
        self.optional = [p for p in ps if p in none]
        return owner, init, ps


def bases(c):
    return [b.id if isinstance(b, ast.Name) else b.attr for b in c.bases if isinstance(b, (ast.Name, ast.Attribute))]


def fine(p, v, exact, selfdep=False):
    """value v of attribute p: the option itself, a constant replacing it or determined by the options that are stored"""
    if isinstance(v, tuple):
        v = derived(v)
    bad = []
    for k, a in v:
        if k == 'p' and a == p or k == 'c':
            continue
        d = a if k == 'd' else {a}
        if k == 'p' or p in d or not d or not d <= exact:
            bad.append((k, a))
    return bad


# the written value may be a normal form of the given one that is read back unchanged
NORMAL = {
    ('MultivariateNormalDistribution', 'covariance'): 'the lower triangle is filled in if only the upper one is given',
    ('MultivariateNormalDistribution', 'correlation'): 'as for the covariance; a number stands for equal correlations',
    ('GeneralGammaUpperLimit', 'background_std'): 'background_variance is an alias of it and takes precedence if both are given',
    ('MultivariateNumericalDistribution', 'xi'): 'two boundaries are replaced by the grid',
}


def check_ctor(r, cls, classes, funcs, rel, skip=()):
    it = Interp(cls, classes, funcs)
    got = it.construct()
    if got is None:
        return
    owner, init, ps = got
    props = {s.name for c in it.mro() for s in classes[c].body if isinstance(s, ast.FunctionDef) and s.decorator_list}
    exact = {p for p in ps if p in it.attrs and not isinstance(it.attrs[p], tuple) and all((k, a) == ('p', p) or k == 'c' for k, a in it.attrs[p]) and ('p', p) in it.attrs[p]}
    for p in ps:
        if (cls, p) in NORMAL and not isinstance(it.attrs.get(p, ()), tuple) and {('p', p), ('p', 'background_variance')} & it.attrs[p]:
            exact.add(p)
            r.count('options')
            continue
        if p in skip:
            continue
        r.count('options')
        where = '%s:%d' % (rel, init.lineno)
        if p not in it.attrs:
            if p in props:
                continue
            r.find('stored:%s.%s' % (cls, p), 'argument %s of %s is not kept as attribute of the same name, which its dictionary or YAML form is made from' % (p, cls), where)
            continue
        bad = fine(p, it.attrs[p], exact)
        if p in exact and not bad:
            continue
        if bad or not isinstance(it.attrs[p], tuple) and all(k == 'c' for k, a in it.attrs[p]):
            r.find('value:%s.%s' % (cls, p), 'attribute %s of %s, from which it is written, is not the argument %s it is read back as (%s)' % (p, cls, p, show(it.attrs[p])), where)
    # the other ways of constructing it: some of the optional arguments are left out
    import itertools
    for n in range(1, min(len(it.optional), 4) + 1):
        for omit in itertools.combinations(it.optional, n):
            i2 = Interp(cls, classes, funcs)
            i2.construct(omit)
            if not i2.possible:
                continue
            r.count('ways to construct')
            for p in ps:
                if p not in i2.attrs and p not in props:
                    r.find('stored:%s.%s' % (cls, p), 'if %s is not given, attribute %s of %s, which its dictionary or YAML form is made from, is not set' % (', '.join(omit), p, cls), '%s:%d' % (rel, init.lineno))
                elif p in i2.attrs and p not in omit and (cls, p) not in NORMAL:
                    v = i2.attrs[p]
                    ex = {q for q in ps if q in i2.attrs and not isinstance(i2.attrs[q], tuple) and ('p', q) in i2.attrs[q]} | {q for q in omit}
                    if fine(p, v, ex) or not isinstance(v, tuple) and all(k == 'c' for k, a in v):
                        r.find('value:%s.%s' % (cls, p), 'if %s is not given, attribute %s of %s, from which it is written, is not the argument %s it is read back as (%s)' % (', '.join(omit), p, cls, p, show(v)), '%s:%d' % (rel, init.lineno))
    return it, ps


def show(v):
    if isinstance(v, tuple):
        return 'tuple'
    return ' or '.join(sorted('argument %s' % a if k == 'p' else 'constant %s' % a if k == 'c' else 'computed from %s' % (', '.join(sorted(a)) or 'nothing given') for k, a in v))


# ---------------------------------------------------------------------------

def cname(n):
    return n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''


def calls(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            yield n, cname(n)


def reach(fn, table, depth=3):
    """fn and the functions of the same module or class it calls"""
    out, todo = [fn], [(fn, 0)]
    while todo:
        f, d = todo.pop()
        if d >= depth:
            continue
        for c, n in calls(f):
            own = isinstance(c.func, ast.Name) or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('self', 'cls')
            g = table.get(n) if own else None
            if g is not None and all(g is not x for x in out):
                out.append(g)
                todo.append((g, d + 1))
    return out


def keys(fns):
    """constant keys: (stored, certain), (required, optional)"""
    stored, certain, req, opt, tested = {}, set(), {}, {}, set()
    for f in fns:                 # stored next to the creation of the dictionary
        for x in ast.walk(f):
            for b in ('body', 'orelse', 'finalbody'):
                made = set()
                for s in getattr(x, b, []) if isinstance(getattr(x, b, []), list) else []:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name) and isinstance(s.value, (ast.Dict, ast.Call)):
                                made.add(t.id)
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in made and isinstance(t.slice, ast.Constant):
                                certain.add(t.slice.value)
                    elif isinstance(s, ast.Return) and isinstance(s.value, ast.Dict):
                        certain |= {k.value for k in s.value.keys if isinstance(k, ast.Constant)}

    C, rejects = {}, set()
    for f in fns:
        C.update(conditions(f))
        rejects |= {id(x.test) for x in ast.walk(f) if isinstance(x, ast.If) and isinstance(x.body[-1], ast.Raise)}

    def visit(n, cond):
        cond = cond or any(truth or id(t) not in rejects for t, truth in C.get(n, ()))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            k = n.slice.value
            if isinstance(n.ctx, ast.Store):
                stored.setdefault(k, n)
                if not cond:
                    certain.add(k)
            elif isinstance(n.ctx, ast.Load):
                req.setdefault(k, n)
        elif isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    stored.setdefault(k.value, n)
                    if not cond:
                        certain.add(k.value)
        elif isinstance(n, ast.Call):
            nm = cname(n)
            if nm in ('dict', 'OrderedDict') or nm == 'update' and isinstance(n.func, ast.Attribute):
                for k in n.keywords:
                    if k.arg:
                        stored.setdefault(k.arg, n)
                        if not cond:
                            certain.add(k.arg)
                for a in n.args:          # OrderedDict([('key', value), ...])
                    if isinstance(a, (ast.List, ast.Tuple)):
                        for x in a.elts:
                            if isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str):
                                stored.setdefault(x.elts[0].value, n)
                                if not cond:
                                    certain.add(x.elts[0].value)
            if nm in ('get', 'pop') and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                (opt if nm == 'get' or len(n.args) > 1 else req).setdefault(n.args[0].value, n)
        elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            tested.add(n.left.value)
        for x in ast.iter_child_nodes(n):
            visit(x, cond)
    for f in fns:
        for s in f.body:
            visit(s, False)
    return stored, certain, req, opt, tested


def agree(r, name, wfn, rfn, wtab, rtab, rel):
    ws = keys(reach(wfn, wtab))
    rs = keys(reach(rfn, rtab))
    stored, certain = ws[0], ws[1]
    read = dict(rs[2])
    read.update(rs[3])
    for k, n in stored.items():
        r.count('keys')
        if k not in read and k not in rs[4]:
            r.find('unread:%s:%s' % (name, k), '%s: key %r is written by %s but not read by %s' % (name, k, wfn.name, rfn.name), '%s:%d' % (rel, n.lineno))
    for k, n in rs[2].items():
        r.count('keys')
        if k in rs[4]:
            continue
        if k not in stored:
            r.find('unwritten:%s:%s' % (name, k), '%s: key %r is required by %s but not written by %s' % (name, k, rfn.name, wfn.name), '%s:%d' % (rel, n.lineno))
        elif k not in certain:
            r.find('optional:%s:%s' % (name, k), '%s: key %r is only written in some cases by %s but always required by %s' % (name, k, wfn.name, rfn.name), '%s:%d' % (rel, n.lineno))


INVERSE = {'coerce_observable_tuple': 'coerce_observable_dict', 'coerce_par_obj': 'get_par_diff'}
NEUTRAL = {'ensurelist', 'list_deduplicate'}


def schema(node, consts=None):
    """key -> (value node)"""
    out = {}
    if isinstance(node, ast.Dict):
        for k, v in zip(node.keys, node.values):
            if k is None:
                out.update(schema((consts or {}).get(getattr(v, 'id', ''), ast.Constant(value=None)), consts))
            elif isinstance(k, ast.Constant):
                out[k.value] = v
            elif isinstance(k, ast.Call) and k.args and isinstance(k.args[0], ast.Constant):
                out[k.args[0].value] = v
    elif isinstance(node, ast.Call) and cname(node) in ('dict', 'OrderedDict'):
        for a in node.args:
            out.update(schema(a if not isinstance(a, ast.Name) else (consts or {}).get(a.id, a), consts))
        for k in node.keywords:
            if k.arg:
                out[k.arg] = k.value
            else:
                out.update(schema((consts or {}).get(getattr(k.value, 'id', ''), ast.Constant(value=None)), consts))
    elif isinstance(node, ast.Name) and consts and node.id in consts:
        return schema(consts[node.id], consts)
    elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        out.update(schema(node.left, consts))
        out.update(schema(node.right, consts))
    return out


def converters(v, known, consts, inlist=False):
    """[(converter, applied to the elements of a list?)]"""
    out = []
    if isinstance(v, ast.List):
        for x in v.elts:
            out += converters(x, known, consts, True)
    elif isinstance(v, ast.Call):
        for x in v.args:
            out += converters(x, known, consts, inlist)
    elif isinstance(v, (ast.Name, ast.Attribute)):
        n = v.id if isinstance(v, ast.Name) else v.attr
        if n in known:
            out.append((n, inlist))
        elif isinstance(v, ast.Name) and n in consts:
            out += converters(consts[n], known, consts, inlist)
    return out


def dropped(fn, value, same):
    """is a value dropped by the filters of the dumping function? (value: literal; same: attribute equals it)"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.DictComp, ast.ListComp, ast.GeneratorExp)) or isinstance(n, ast.Call):
            for g in getattr(n, 'generators', []):
                for t in g.ifs:
                    vn = g.target.elts[1].id if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(g.target.elts[1], ast.Name) else None
                    if vn and truth(t, vn, value, same) is False:
                        return True
    for n in ast.walk(fn):            # explicit loops: if v is None or v == []: continue / del
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[1], ast.Name):
            vn = n.target.elts[1].id
            stores = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
            if not stores:
                continue
            for s in n.body:
                if isinstance(s, ast.If):
                    t = truth(s.test, vn, value, same)
                    if t is True and any(isinstance(x, ast.Continue) for x in s.body):
                        return True
                    if t is False and any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for b in s.body for x in ast.walk(b)):
                        return True
    return False


def truth(t, vn, value, same):
    """truth of a filter condition for a literal value (None: undecided)"""
    if isinstance(t, ast.BoolOp):
        vs = [truth(x, vn, value, same) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = truth(t.operand, vn, value, same)
        return None if v is None else not v
    if isinstance(t, ast.Name) and t.id == vn:
        return bool(value)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b, op = t.left, t.comparators[0], t.ops[0]

        def lit(x):
            if isinstance(x, ast.Name) and x.id == vn:
                return True, value
            if isinstance(x, ast.Subscript) and (any(isinstance(y, ast.Attribute) and y.attr == '__dict__' for y in ast.walk(x)) or any(isinstance(y, ast.Name) and y.id in ('vars', 'original') for y in ast.walk(x))) or isinstance(x, ast.Call) and cname(x) == 'getattr':
                return (True, value) if same else (False, None)
            try:
                return True, ast.literal_eval(x)
            except Exception:
                return False, None
        (ka, va), (kb, vb) = lit(a), lit(b)
        if ka and kb:
            if isinstance(op, ast.Is):
                return va is vb if vb is None or isinstance(vb, bool) else None
            if isinstance(op, ast.IsNot):
                return va is not vb if vb is None or isinstance(vb, bool) else None
            if isinstance(op, ast.Eq):
                return va == vb
            if isinstance(op, ast.NotEq):
                return va != vb
            if isinstance(op, ast.In):
                return va in vb
            if isinstance(op, ast.NotIn):
                return va not in vb
    return None


INTUSE = {'bins', 'num', 'size', 'range', 'n', 'N'}


@rule('P18')
def p18(ctx):
    r = Result()
    r.rule = ('what a constructor keeps is what its dictionary is written from and read back as; nested and integer values survive; '
              'input and output schemas have the same entries with inverse conversions; readers and writers agree on keys; covariances are permuted consistently')
    src = ctx.src()
    mods = list(modules(ctx))
    classes, rels, funcs, modof = {}, {}, {}, {}
    for m in mods:
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                classes[n.name], rels[n.name], modof[n.name] = n, m.rel, m
        funcs[m.name] = {n.name: n for n in m.tree.body if isinstance(n, ast.FunctionDef)}

    def sub(c, base, seen=()):
        return c == base or c in classes and c not in seen and any(sub(b, base, seen + (c,)) for b in bases(classes[c]))

    # --- distributions ------------------------------------------------------
    root = 'ProbabilityDistribution'
    if root not in classes:
        r.broken.append('class ProbabilityDistribution not found')
        return r
    dists = [c for c in classes if sub(c, root)]
    seen = {}
    nested = {}
    ints = {}
    for c in sorted(dists):
        if c == root:
            continue
        r.count('distributions')
        got = check_ctor(r, c, classes, funcs[modof[c].name], rels[c])
        key = re.sub('[^a-z0-9]', '', c.replace('Distribution', '').lower())
        if key in seen:
            r.find('name:%s' % c, '%s and %s have the same name in YAML files' % (c, seen[key]), rels[c])
        seen[key] = c
        if got:
            it, ps = got
            owner, init = it.method('__init__')
            for p in ps:
                for n in ast.walk(init):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ('central_value', 'pdf', 'logpdf', 'get_random', 'support', 'cdf', 'ppf'):
                        nested.setdefault(p, (c, n.lineno))
                    if isinstance(n, ast.Call):
                        for k in n.keywords:
                            if k.arg in ('bins', 'num', 'size') and mentions(k.value, p, init) and not intconv(init, p):
                                ints.setdefault('%s.%s' % (c, p), n.lineno)
                        if cname(n) in ('range', 'zeros', 'ones') and n.args and any(isinstance(x, ast.Name) and x.id == p for x in n.args) and not intconv(init, p):
                            ints.setdefault('%s.%s' % (c, p), n.lineno)
    pm = modof[root]
    ptab = dict(funcs[pm.name])
    ptab.update({s.name: s for s in classes[root].body if isinstance(s, ast.FunctionDef)})
    d2d, gd = funcs[pm.name].get('dict2dist'), ptab.get('get_dict')
    if d2d is None or gd is None:
        r.broken.append('dict2dist or get_dict not found')
        return r
    rfs = reach(d2d, funcs[pm.name])
    rec = any(n == 'dict2dist' for f in rfs for _, n in calls(f)) or any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == 'class_from_string' for f in rfs[1:] for x in ast.walk(f))
    isd = any(n == 'isinstance' and len(c.args) == 2 and 'dict' in ast.dump(c.args[1]).lower() for f in rfs for c, n in calls(f) if not (c.args and isinstance(c.args[0], ast.Name) and d2d.args.args and c.args[0].id == d2d.args.args[0].arg))
    for p, (c, ln) in nested.items():
        r.count('nested distributions')
        if not (rec and isd):
            r.find('nested:%s' % p, 'dict2dist does not convert the distribution given as argument %s of %s' % (p, c), '%s:%d' % (pm.rel, d2d.lineno))
    floats = any(n == 'float' for f in rfs for _, n in calls(f))
    keepint = any(n == 'isinstance' and any(isinstance(x, ast.Name) and x.id == 'int' for x in ast.walk(c.args[1])) for f in rfs for c, n in calls(f) if len(c.args) == 2)
    for k, ln in ints.items():
        if floats and not keepint:
            r.find('integer:%s' % k, 'dict2dist turns the integer argument %s into a float, which the constructor does not accept' % k, '%s:%d' % (pm.rel, ln))
    # get_dict: every option of the class; nested ones by their own dictionary including their name
    gfs = reach(gd, ptab)
    txt = ' '.join(ast.dump(f) for f in gfs)
    if not ("attr='signature'" in txt or "attr='getfullargspec'" in txt):
        r.find('options:get_dict', 'get_dict does not list the arguments of the class', '%s:%d' % (pm.rel, gd.lineno))
    for f in gfs:
        for c, n in calls(f):
            if n == 'get_dict':
                kw = {k.arg: k.value for k in c.keywords}
                pos = c.args
                want = ['distribution', 'iterate', 'arraytolist']
                for i, w in enumerate(want):
                    v = kw.get(w, pos[i] if len(pos) > i else None)
                    ok = isinstance(v, ast.Constant) and v.value is True or w != 'distribution' and isinstance(v, ast.Name) and v.id == w
                    if not ok and None not in kw:
                        r.find('nestedopt:%s' % w, 'get_dict does not pass %s on to the distributions among the arguments' % w, '%s:%d' % (pm.rel, c.lineno))
    if "attr='tolist'" not in txt:
        r.find('arrays:get_dict', 'get_dict does not convert numpy arrays to lists', '%s:%d' % (pm.rel, gd.lineno))
    if "id='generic'" not in txt and "attr='generic'" not in txt and "attr='item'" not in txt and "attr='number'" not in txt:
        r.find('numbers:get_dict', 'get_dict does not convert numpy numbers, which YAML files cannot contain', '%s:%d' % (pm.rel, gd.lineno))
    # key naming the class
    wk = keys(gfs)
    rk = keys(rfs)
    for k in wk[0]:
        if k not in rk[2] and k not in rk[3]:
            r.find('unread:distribution:%s' % k, 'get_dict writes the key %r, which dict2dist does not read' % k, '%s:%d' % (pm.rel, gd.lineno))
    for k in rk[2]:
        if k not in wk[0]:
            r.find('unwritten:distribution:%s' % k, 'dict2dist requires the key %r, which get_dict does not write' % k, '%s:%d' % (pm.rel, d2d.lineno))
    for nm, tab, rel, top in [(c + '.' + s.name, s, rels[c], c) for c in classes for s in classes[c].body if isinstance(s, ast.FunctionDef) and s.name in ('get_yaml', 'get_yaml_dict', 'dump')]:
        t2 = dict(funcs[modof[top].name])
        t2.update({s.name: s for s in classes[top].body if isinstance(s, ast.FunctionDef)})
        for f in reach(tab, t2):
            for c, n in calls(f):
                if n == 'get_dict' and f.name != 'get_dict':
                    r.count('dictionaries written')
                    kw = {k.arg: k.value for k in c.keywords}
                    for i, w in enumerate(('distribution', 'iterate', 'arraytolist')):
                        v = kw.get(w, c.args[i] if len(c.args) > i else None)
                        if not (isinstance(v, ast.Constant) and v.value is True) and None not in kw:
                            r.find('yamlopt:%s:%s' % (nm, w), '%s writes distributions without %s=True, so that they cannot be read back' % (nm, w), '%s:%d' % (rel, c.lineno))

    # --- YAMLLoadable -------------------------------------------------------
    loadable(r, classes, rels, funcs, modof, sub)

    # --- constraints --------------------------------------------------------
    for c, k in classes.items():
        own = {s.name: s for s in k.body if isinstance(s, ast.FunctionDef)}
        tab = dict(funcs[modof[c].name])
        tab.update(own)
        if 'get_yaml_dict' in own and 'from_yaml_dict' in own:
            r.count('writer/reader pairs')
            agree(r, c, own['get_yaml_dict'], own['from_yaml_dict'], tab, tab, rels[c])
            w = reach(own['get_yaml_dict'], tab)
            rd = reach(own['from_yaml_dict'], tab)
            if not any(n == 'list' or False for f in w for _, n in calls(f)) and not any(isinstance(x, ast.List) and any(isinstance(y, ast.Starred) for y in x.elts) for f in w for x in ast.walk(f)):
                r.find('tuples:%s:write' % c, '%s.get_yaml_dict does not turn the tuples of observables with arguments into lists' % c, '%s:%d' % (rels[c], own['get_yaml_dict'].lineno))
            if not any(n == 'tuple' for f in rd for _, n in calls(f)):
                r.find('tuples:%s:read' % c, '%s.from_yaml_dict does not turn lists into the tuples of observables with arguments' % c, '%s:%d' % (rels[c], own['from_yaml_dict'].lineno))
            metadata(r, c, w, rels[c])
            for fns, conv, vals, what in ((w, 'list', (('O', 1.0), ('O', 1.0, 6.0)), 'get_yaml_dict does not turn every tuple into a list'),
                                          (rd, 'tuple', (['O', 1.0], ['O', 1.0, 6.0]), 'from_yaml_dict does not turn every list into a tuple')):
                for f in fns:
                    C = conditions(f)
                    for call, n in calls(f):
                        if n == conv and len(call.args) == 1 and isinstance(call.args[0], ast.Name):
                            r.count('conversions')
                            if any(tv(t, {call.args[0].id: v}) is (not tr) for v in vals for t, tr in C.get(call, ()) if call.args[0].id in {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}):
                                r.find('tuples:%s:%s:some' % (c, conv), '%s.%s' % (c, what), '%s:%d' % (rels[c], call.lineno))
            for f in rd:
                restored(r, c, f, rels[c])
            wp = pkey(own['get_yaml_dict'])
            rp = pkey(own['from_yaml_dict'])
            if wp is not None and rp is not None and wp != rp:
                r.find('pname:%s' % c, 'the default name of the list of quantities is %r when written and %r when read' % (wp, rp), '%s:%d' % (rels[c], own['get_yaml_dict'].lineno))
        if 'save' in own and ('load' in own or 'load_dict' in own):
            r.count('writer/reader pairs')
            agree(r, c, own['save'], own.get('load_dict') or own['load'], tab, tab, rels[c])
            permuted(r, c, own.get('load_dict') or own['load'], rels[c], tab)
            positions(r, c, own['save'], own.get('load_dict') or own['load'], rels[c])
    for m in mods:
        t = funcs[m.name]
        if 'write_file' in t and 'read_file' in t:
            r.count('writer/reader pairs')

            def pn(fn, name):
                out = set()
                for f in reach(fn, t):
                    for c, n in calls(f):
                        if n == name:
                            v = [k.value for k in c.keywords if k.arg == 'pname']
                            out.add(v[0].value if v and isinstance(v[0], ast.Constant) else None if not v else '?')
                return out
            a, b = pn(t['write_file'], 'get_yaml_dict') | pn(t['write_file'], 'get_yaml'), pn(t['read_file'], 'from_yaml_dict') | pn(t['read_file'], 'from_yaml')
            if not a or not b:
                r.broken.append('%s: writer or reader not understood' % m.name)
            elif not a <= b:
                r.find('pname:%s' % m.name, '%s.write_file names the list of quantities %s, read_file expects %s' % (m.name, sorted(map(str, a)), sorted(map(str, b))), '%s:%d' % (m.rel, t['write_file'].lineno))
    r.need('distributions', 15)
    r.need('options', 40)
    r.need('schemas', 4)
    r.need('writer/reader pairs', 5)
    r.assumptions.append('yaml, pickle and voluptuous do what they document; values are compared up to rounding of derived quantities')
    return r


def mentions(e, p, init):
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id == p:
            return True
        if isinstance(x, ast.Attribute) and x.attr == p and isinstance(x.value, ast.Name) and x.value.id == 'self':
            return True
    return False


def intconv(init, p):
    return any(n in ('int', 'round') and len(c.args) >= 1 and mentions(c.args[0], p, init) for c, n in calls(init))


def pkey(fn):
    a = fn.args
    for n, d in list(zip(reversed(a.args), reversed(a.defaults))) + [(n, d) for n, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if n.arg == 'pname' and isinstance(d, ast.Constant):
            return d.value
    return None


def class_const(c, name, classes):
    todo, seen = [c], set()
    while todo:
        x = todo.pop(0)
        if x in seen or x not in classes:
            continue
        seen.add(x)
        for s in classes[x].body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return s.value
        todo += bases(classes[x])
    return None


def loadable(r, classes, rels, funcs, modof, sub):
    base = next((c for c in classes if any(isinstance(s, ast.FunctionDef) and s.name == 'load_dict' for s in classes[c].body) and any(isinstance(s, ast.FunctionDef) and s.name == 'get_yaml_dict' for s in classes[c].body)), None)
    if base is None:
        r.broken.append('base class of loadable objects not found')
        return
    bc = {s.name: s for s in classes[base].body if isinstance(s, ast.FunctionDef)}
    known = set(funcs[modof[base].name]) | {x for t in funcs.values() for x in t}
    # which class attribute each direction uses
    tab = dict(funcs[modof[base].name])
    tab.update(bc)

    def used(fn):
        return {x.attr for f in reach(fn, tab) for x in ast.walk(f) if isinstance(x, ast.Attribute) and 'schema_dict' in x.attr}
    iin, iout = used(bc['load_dict']), used(bc['get_yaml_dict'])
    if len(iin) != 1 or len(iout) != 1 or iin == iout:
        r.find('schemas:%s' % base, 'reading uses the schema %s and writing the schema %s' % (sorted(iin), sorted(iout)), '%s:%d' % (rels[base], bc['load_dict'].lineno))
        return
    iin, iout = iin.pop(), iout.pop()
    if 'in' not in iin.split('_')[1] or 'out' not in iout:
        if 'out' in iin or 'in' in re.sub('_?schema_?dict_?', '', iout):
            r.find('schemas:%s' % base, 'reading uses the schema %s and writing the schema %s' % (iin, iout), '%s:%d' % (rels[base], bc['load_dict'].lineno))
            return
    table = {}
    for c in sorted(classes):
        if c == base or not sub(c, base):
            continue
        consts = {t.id: s.value for s in list(modof[c].tree.body) + list(classes[c].body) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        a, b = class_const(c, iin, classes), class_const(c, iout, classes)
        if a is None or b is None:
            continue
        a, b = schema(a, consts), schema(b, consts)
        r.count('schemas')
        it, ps = check_ctor(r, c, classes, funcs[modof[c].name], rels[c]) or (None, [])
        rel = '%s:%d' % (rels[c], classes[c].lineno)
        for p in ps:
            if p not in b:
                r.find('notwritten:%s.%s' % (c, p), 'option %s of %s is not part of what is written' % (p, c), rel)
            if p not in a:
                r.find('notread:%s.%s' % (c, p), 'option %s of %s is not part of what is read' % (p, c), rel)
        for k in sorted(set(a) | set(b)):
            if ps and k not in ps:
                r.find('unknown:%s.%s' % (c, k), 'schema of %s contains %s, which is no argument of it' % (c, k), rel)
            if k in a and k in b:
                ca = {x for x in converters(a[k], known, consts) if x[0] not in NEUTRAL}
                cb = {x for x in converters(b[k], known, consts) if x[0] not in NEUTRAL}
                table.setdefault(k, []).append((c, ca, cb))
                if {(INVERSE.get(n, '?' + n), l) for n, l in ca} != cb:
                    r.find('conversion:%s.%s' % (c, k), 'conversion of %s of %s when written (%s) is not the inverse of the one when read (%s)' % (
                        k, c, ', '.join(n for n, _ in sorted(cb)) or 'none', ', '.join(n for n, _ in sorted(ca)) or 'none'), rel)
        # values that are not written must be the default
        dump = next((s for x in [c, base] for s in classes[x].body if isinstance(s, ast.FunctionDef) and s.name == 'get_yaml_dict'), None)
        own, init = it.method('__init__')
        dfl = {}
        ar = init.args
        for n, d in list(zip(reversed(ar.args), reversed(ar.defaults))) + [(n, d) for n, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None]:
            dfl[n.arg] = d
        for p in ps:
            for w in ([], None, False, 0, ''):
                if w is None and p in b and any(x == 'ensurelist' for x, _ in converters(b[p], known, consts)):
                    continue
                d = any(dropped(f, w, True) for f in reach(dump, tab))
                if not d:
                    continue
                dv = dfl.get(p)
                r.count('dropped values')
                if isinstance(dv, ast.Constant) and dv.value or isinstance(dv, ast.Constant) and isinstance(w, (bool, int)) and not isinstance(dv.value, type(w)):
                    if isinstance(w, list) or type(dv.value) is type(w):
                        r.find('dropped:%s.%s:%r' % (c, p, w), '%s=%r of %s is not written, so that reading it back gives the default %r' % (p, w, c, dv.value), '%s:%d' % (rels[base], dump.lineno))
    for k, l in table.items():
        for what in (1, 2):
            sets = {frozenset(x[what]) for x in l}
            if len(sets) > 1:
                big = max(sets, key=lambda s: sum(frozenset(x[what]) == s for x in l))
                for x in l:
                    if frozenset(x[what]) != big:
                        r.find('sibling:%s.%s' % (x[0], k), '%s of %s is converted differently from other classes' % (k, x[0]), rels[x[0]])
    difference(r, funcs[modof[base].name], rels[base])
    # functions inverse to each other exist
    for a, b in INVERSE.items():
        if a not in known or b not in known:
            r.broken.append('conversion %s or %s not found' % (a, b))


SCALAR = {'isscalar', 'ndim', 'shape', 'size', 'len'}


def permuted(r, c, fn, rel, tab):
    """entries are reordered by position in the file, all axes alike"""
    d = fn.args.args[1].arg if len(fn.args.args) > 1 else None
    file_, own, perms = set(), set(), {}
    if d:
        file_.add(d)
    for f in reach(fn, tab):
        sl = f.args.args[0].arg if f.args.args else 'self'
        own.add(sl)
    for _ in range(3):
        for f in [fn]:
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    ns = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    perm = [x for x in ast.walk(n.value) if isinstance(x, (ast.ListComp, ast.GeneratorExp))]
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                if perm and ns & file_ and ns & own:
                                    perms.setdefault(x.id, (perm[0], n))
                                elif ns & file_ and x.id not in perms and not ns & set(perms):
                                    file_.add(x.id)
                                elif ns & own and x.id not in perms and x.id not in file_:
                                    own.add(x.id)
    if not perms:
        r.find('order:%s' % c, '%s.%s does not look up the position of the observables in the file' % (c, fn.name), '%s:%d' % (rel, fn.lineno))
        return
    for p, (comp, n) in perms.items():
        it = {x.id for x in ast.walk(comp.generators[0].iter) if isinstance(x, ast.Name)}
        r.count('permutations')
        if it & file_ and not it & own:
            r.find('inverse:%s' % c, '%s.%s reorders with the inverse permutation (it runs over the observables of the file)' % (c, fn.name), '%s:%d' % (rel, n.lineno))
        if comp.generators[0].ifs:
            r.find('skip:%s' % c, '%s.%s silently skips observables that are missing in the file' % (c, fn.name), '%s:%d' % (rel, n.lineno))

    C = conditions(fn)

    def one(s):
        """a single observable: nothing to reorder"""
        for t, truth in C.get(s, ()):
            neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
            if any(isinstance(x, ast.Attribute) and x.attr in SCALAR or isinstance(x, ast.Name) and x.id in SCALAR for x in ast.walk(t)) \
                    and not any(isinstance(x, ast.Name) and x.id == 'len' for x in ast.walk(t)) and neg != truth:
                return True
        return False

    def visit():
        for s in ast.walk(fn):
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                for e in ast.walk(s.value):
                    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value in ('covariance', 'central', 'cov'):
                        check(s, e, one(s))

    def check(s, e, scalar):
        k = e.slice.value
        # chain of subscripts around e
        axes = []
        par_ = {}
        for x in ast.walk(s.value):
            for y in ast.iter_child_nodes(x):
                par_[y] = x
        x = e
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Subscript, ast.Call)) and not any(isinstance(y, ast.Name) and y.id in perms for y in ast.walk(s.value)):
            # kept under a name: follow its uses
            nm = s.targets[0].id
            for y in ast.walk(fn):
                if isinstance(y, ast.Assign) and y is not s and any(isinstance(z, ast.Name) and z.id == nm and isinstance(z.ctx, ast.Load) for z in ast.walk(y.value)) and isinstance(y.targets[0], ast.Attribute):
                    r.count('reordered arrays')
            return
        while x in par_:
            q = par_[x]
            if isinstance(q, ast.Subscript) and q.value is x:
                sl = q.slice
                if isinstance(sl, ast.Name) and sl.id in perms:
                    axes.append((0, sl.id))
                elif isinstance(sl, ast.Tuple):
                    for i, z in enumerate(sl.elts):
                        if isinstance(z, ast.Name) and z.id in perms:
                            axes.append((i, z.id))
                        elif any(isinstance(w, ast.Name) and w.id in perms for w in ast.walk(z)):
                            axes.append((i, '+'))
                elif isinstance(sl, ast.Call) and cname(sl) == 'ix_':
                    for i, z in enumerate(sl.args):
                        axes.append((i, getattr(z, 'id', '?')))
            elif isinstance(q, ast.Attribute) and q.attr == 'shape':
                return
            elif isinstance(q, ast.Call) and cname(q) == 'take':
                axes.append((len(axes), 'p'))
            x = q
        if scalar:
            return
        r.count('reordered arrays')
        want = {0} if k == 'central' else {0, 1}
        if {i for i, _ in axes} != want or len(axes) != len(want):
            r.find('axes:%s:%s' % (c, k), '%s.%s does not reorder %s of the array %r by the observables' % (c, fn.name, 'the axis' if k == 'central' else 'both axes (once each)', k), '%s:%d' % (rel, s.lineno))
    visit()


def aliases(fn):
    """local name -> expression it is assigned once"""
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            if isinstance(t, ast.Name):
                out[t.id] = None if t.id in out else n.value
            elif isinstance(t, ast.Tuple):
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Name):
                        out[x.id] = None if x.id in out else ast.Subscript(value=n.value, slice=ast.Constant(value=i), ctx=ast.Load())
    return out


def entries(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and cname(n) in ('dict', 'OrderedDict'):
            for k in n.keywords:
                if k.arg:
                    yield k.arg, k.value, n
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant):
                    yield k.value, v, n
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and isinstance(n.targets[0].slice.value, str):
            yield n.targets[0].slice.value, n.value, n


def positions(r, c, wfn, rfn, rel):
    """what is stored under a key goes back to the place it was taken from"""
    al = aliases(wfn)
    sl = wfn.args.args[0].arg
    place = {}
    for k, v, n in entries(wfn):
        for _ in range(3):
            if isinstance(v, ast.Name) and al.get(v.id) is not None:
                v = al[v.id]
            elif isinstance(v, ast.Call) and cname(v) in ('list', 'array', 'asarray', 'copy', 'deepcopy', 'tuple') and len(v.args) == 1:
                v = v.args[0]
        r.count('saved entries')
        bad = [x for x in ast.walk(v) if isinstance(x, (ast.Call, ast.BinOp, ast.UnaryOp, ast.ListComp)) and not (isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant))]
        if bad or any(isinstance(x, ast.Slice) for x in ast.walk(v)):
            r.find('saved:%s:%s' % (c, k), '%s.%s changes the entry %r when writing it' % (c, wfn.name, k), '%s:%d' % (rel, n.lineno))
            continue
        if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant) and isinstance(v.value, ast.Attribute):
            place[k] = (v.value.attr, v.slice.value)
        elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == sl:
            place[k] = (v.attr, None)
    al = {}
    for n in ast.walk(rfn):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            al.setdefault(n.targets[0].id, []).append(n.value)

    def parts(e):
        """sub-expressions, not those used as positions or conditions"""
        yield e
        for f, v in ast.iter_fields(e):
            if isinstance(e, ast.Subscript) and f == 'slice' or isinstance(e, ast.IfExp) and f == 'test':
                continue
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.Call) and cname(x) == 'ix_':
                    continue
                if isinstance(x, ast.AST):
                    yield from parts(x)

    def used(e, seen=()):
        out = set()
        for x in parts(e):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                out.add(x.slice.value)
            elif isinstance(x, ast.Call) and cname(x) == 'get' and x.args and isinstance(x.args[0], ast.Constant):
                out.add(x.args[0].value)
            elif isinstance(x, ast.Name) and x.id in al and x.id not in seen:
                for v in al[x.id]:
                    out |= used(v, seen + (x.id,))
        return out & set(place)
    for n in ast.walk(rfn):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            a = n.targets[0].attr
            vs = [n.value]
            if isinstance(n.value, ast.Name):
                vs = al.get(n.value.id, vs)
            for v in vs:
                if isinstance(v, ast.Tuple):
                    for i, e in enumerate(v.elts):
                        for k in used(e):
                            if place[k] != (a, i):
                                r.find('place:%s:%s' % (c, k), 'entry %r is read back as component %d of %s, but written from %s' % (k, i, a, show_place(place[k])), '%s:%d' % (rel, n.lineno))
                else:
                    for k in used(v):
                        if place[k][0] != a:
                            r.find('place:%s:%s' % (c, k), 'entry %r is read back as %s, but written from %s' % (k, a, show_place(place[k])), '%s:%d' % (rel, n.lineno))


def show_place(p):
    return p[0] if p[1] is None else 'component %s of %s' % (p[1], p[0])


def restored(r, c, f, rel):
    """all metadata are set, also attributes that do not exist yet"""
    for n in ast.walk(f):
        if not isinstance(n, ast.For):
            continue
        tn = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for x in ast.walk(n):
            st = isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == '__dict__' \
                and isinstance(x.slice, ast.Name) and x.slice.id in tn or \
                isinstance(x, ast.Call) and cname(x) == 'setattr' and len(x.args) == 3 and isinstance(x.args[1], ast.Name) and x.args[1].id in tn
            if not st:
                continue
            r.count('attributes restored')
            for t, _ in conditions(f).get(x, ()):
                if any(isinstance(y, ast.Call) and cname(y) in ('hasattr', 'dir', 'vars') or isinstance(y, ast.Attribute) and y.attr == '__dict__' for y in ast.walk(t)):
                    r.find('metaread:%s' % c, '%s.%s sets only attributes that exist already: others written as metadata are lost' % (c, f.name), '%s:%d' % (rel, x.lineno))


def metadata(r, c, fns, rel):
    """public attributes other than the arguments are written as metadata"""
    for f in fns:
        for n in ast.walk(f):
            if isinstance(n, ast.DictComp) and any(isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(n.generators[0].iter)):
                g = n.generators[0]
                if not (isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts)):
                    continue
                kn, vn = (x.id for x in g.target.elts)
                for key, val, want in (('experiment', 'x', True), ('experiment', 3, True), ('experiment', ['a', 'b'], True), ('_private', 'x', False)):
                    res = True
                    for t in g.ifs:
                        v = tv(t, {kn: key, vn: val})
                        res = False if v is False or res is False else None if v is None or res is None else True
                    r.count('metadata filters')
                    if res is not None and res != want:
                        r.find('metadata:%s:%s' % (c, want), '%s.%s %s' % (c, f.name, 'leaves out public attributes such as the experiment' if want else 'writes private attributes'), '%s:%d' % (rel, n.lineno))


def tv(t, env):
    """truth of a filter for one attribute that is no constructor argument (None: undecided)"""
    if isinstance(t, ast.BoolOp):
        vs = [tv(x, env) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = tv(t.operand, env)
        return None if v is None else not v
    if isinstance(t, ast.Name) and t.id in env:
        return bool(env[t.id])
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 \
            and isinstance(t.args[0], ast.Name) and t.args[0].id in env:
        tp = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
        known = {'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'int': int, 'float': float, 'bool': bool}
        if all(isinstance(x, ast.Name) and x.id in known for x in tp):
            return isinstance(env[t.args[0].id], tuple(known[x.id] for x in tp))
        return None
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'startswith' and isinstance(t.func.value, ast.Name) and t.func.value.id in env and isinstance(t.args[0], ast.Constant):
        return env[t.func.value.id].startswith(t.args[0].value)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, ast.Name) and a.id in env and isinstance(b, (ast.Name, ast.Attribute, ast.Call)):
            return isinstance(op, ast.NotIn)

        def lit(x):
            if isinstance(x, ast.Name) and x.id in env:
                return env[x.id]
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in env and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int):
                return env[x.value.id][x.slice.value]
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1:
                return len(lit(x.args[0]))
            return ast.literal_eval(x)
        try:
            a, b = lit(a), lit(b)
        except Exception:
            return None
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return a != b
        if isinstance(op, ast.In):
            return a in b
        if isinstance(op, ast.NotIn):
            return a not in b
        if isinstance(op, ast.IsNot):
            return a is not b if b is None else None
        if isinstance(op, ast.Is):
            return a is b if b is None else None
        try:
            for k, f in ((ast.Gt, a.__gt__), (ast.Lt, a.__lt__), (ast.GtE, a.__ge__), (ast.LtE, a.__le__)):
                if isinstance(op, k):
                    v = f(b)
                    return None if v is NotImplemented else v
        except Exception:
            return None
    return None


def difference(r, tab, rel):
    """parameters are written as their difference to the defaults and read on top of a copy of the defaults"""
    w, rd = tab.get('get_par_diff'), tab.get('coerce_par_obj')
    if w is None or rd is None:
        return
    arg, dfl = {w.args.args[0].arg}, set()

    def isd(e):
        return any(isinstance(x, ast.Attribute) and x.attr == 'default_parameters' or isinstance(x, ast.Name) and (x.id in dfl or x.id == 'default_parameters') for x in ast.walk(e))

    def isa(e):
        return any(isinstance(x, ast.Name) and x.id in arg for x in ast.walk(e))
    for _ in range(3):
        for n in ast.walk(w):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                if isd(n.value):
                    dfl.add(n.targets[0].id)
                elif isa(n.value):
                    arg.add(n.targets[0].id)
    n = 0
    for x in ast.walk(w):
        if isinstance(x, (ast.comprehension, ast.For)):
            n += 1
            if isd(x.iter) and not isa(x.iter):
                r.find('difference:source', 'get_par_diff lists default constraints instead of those of the parameters given', '%s:%d' % (rel, w.lineno))
            neg = None
            for t in (x.ifs if isinstance(x, ast.comprehension) else [s.test for s in x.body if isinstance(s, ast.If)]):
                inv = False
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    inv, t = not inv, t.operand
                if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isd(t.comparators[0]):
                    neg = isinstance(t.ops[0], ast.NotIn) != inv
            if isinstance(x, ast.comprehension) and neg is False:
                r.find('difference:sign', 'get_par_diff lists the constraints that equal the default ones', '%s:%d' % (rel, w.lineno))
    if not n:
        r.broken.append('get_par_diff not understood')
    base = False
    al = aliases(rd)
    for c, nm in calls(rd):
        if nm in ('from_yaml_dict', 'from_yaml'):
            inst = [k.value for k in c.keywords if k.arg == 'instance'] or list(c.args[2:3])
            if inst:
                v = inst[0]
                if isinstance(v, ast.Name) and al.get(v.id) is not None:
                    v = al[v.id]
                base = isinstance(v, ast.Call) and cname(v) in ('copy', 'deepcopy') and isd(v)
    if not base:
        r.find('difference:base', 'coerce_par_obj does not start from a copy of the default parameters', '%s:%d' % (rel, rd.lineno))
