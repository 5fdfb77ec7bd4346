"""Definite assignment of local variables, path sensitive on repeated tests.

States are sets of (assigned names, facts); facts remember the outcome of tests so
that correlated conditions (`if a: x = ...` ... `if a: use(x)`) are understood.
Loops are taken to run at least once.
"""
import ast
import builtins
import symtable
import warnings

CAP = 96


class State:
    __slots__ = ('names', 'facts')

    def __init__(self, names, facts):
        self.names, self.facts = names, facts

    def key(self):
        return (self.names, frozenset(self.facts.items()))

    def bind(self, name):
        f = self.facts
        if any(name in k[1] for k in f):
            f = {k: v for k, v in f.items() if name not in k[1]}
        return State(self.names | {name}, f)

    def kill(self, names):
        if any(k[1] & names for k in self.facts):
            return State(self.names, {k: v for k, v in self.facts.items() if not k[1] & names})
        return self


def names_in(e):
    return frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name))


def subject(t):
    """what `x == 'a'` or `isinstance(x, T)` tests"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)) \
            and isinstance(t.comparators[0], (ast.Constant, ast.List, ast.Tuple)):
        return ast.dump(t.left)
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and t.args:
        return ast.dump(t.args[0])
    return None


def chain_of_alternatives(n):
    s = subject(n.test)
    if s is None or not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
        return False
    while n.orelse:
        if not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return False
        n = n.orelse[0]
        if subject(n.test) != s:
            return False
    return True


class Flow:
    def __init__(self, fn, locals_, report):
        self.fn, self.locals, self.report = fn, locals_, report
        self.breaks, self.conts = [], []
        self.steps = 0

    def run(self):
        a = self.fn.args
        init = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                init.add(x.arg)
        return self.block(self.fn.body, [State(frozenset(init), {})])

    def merge(self, sts):
        out = {}
        for s in sts:
            out.setdefault(s.key(), s)
        sts = list(out.values())
        if len(sts) > CAP:
            # forget facts; keep distinct sets of names
            by = {}
            for s in sts:
                if s.names in by:
                    f = by[s.names]
                    by[s.names] = {k: v for k, v in f.items() if s.facts.get(k) == v}
                else:
                    by[s.names] = dict(s.facts)
            sts = [State(n, f) for n, f in by.items()]
        return sts

    def block(self, body, sts):
        for st in body:
            if not sts:
                break
            sts = self.stmt(st, sts)
        return sts

    # ---- expressions -----------------------------------------------------------
    def use(self, e, sts, bound=frozenset()):
        if e is None or not sts:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in bound:
                bad = [s for s in sts if e.id not in s.names]
                if bad:
                    self.report(e, len(bad) == len(sts))
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = bound
            for g in e.generators:
                self.use(g.iter, sts, b)
                b = b | names_in(g.target)
                for c in g.ifs:
                    self.use(c, sts, b)
            for x in (getattr(e, 'elt', None), getattr(e, 'key', None), getattr(e, 'value', None)):
                self.use(x, sts, b)
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, sts, bound)
            self.use(e.body, self.assume(e.test, True, sts), bound)
            self.use(e.orelse, self.assume(e.test, False, sts), bound)
            return
        if isinstance(e, ast.BoolOp):
            cur = sts
            for v in e.values:
                self.use(v, cur, bound)
                cur = self.assume(v, isinstance(e.op, ast.And), cur)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Starred)):
                self.use(c.value if isinstance(c, ast.keyword) else c, sts, bound)

    def walrus(self, e, sts):
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                sts = [s.bind(x.target.id) for s in sts]
        return sts

    # ---- tests -------------------------------------------------------------------
    def atom(self, t):
        """(key, polarity): key identifies the proposition"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            o, l, r = t.ops[0], t.left, t.comparators[0]
            if isinstance(o, (ast.Eq, ast.NotEq)):
                if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                    l, r = r, l
                return (('==', ast.dump(l), ast.dump(r)), names_in(t)), isinstance(o, ast.Eq)
            if isinstance(o, (ast.Is, ast.IsNot)):
                return (('is', ast.dump(l), ast.dump(r)), names_in(t)), isinstance(o, ast.Is)
            if isinstance(o, (ast.In, ast.NotIn)):
                return (('in', ast.dump(l), ast.dump(r)), names_in(t)), isinstance(o, ast.In)
            if isinstance(o, (ast.Gt, ast.LtE)):
                return (('>', ast.dump(l), ast.dump(r)), names_in(t)), isinstance(o, ast.Gt)
            if isinstance(o, (ast.Lt, ast.GtE)):
                return (('<', ast.dump(l), ast.dump(r)), names_in(t)), isinstance(o, ast.Lt)
        return (('t', ast.dump(t)), names_in(t)), True

    def assume(self, t, val, sts):
        out = []
        for s in sts:
            out += self.assume1(t, val, s)
        return out

    def assume1(self, t, val, s):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume1(t.operand, not val, s)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                cur = [s]
                for v in t.values:
                    cur = [y for x in cur for y in self.assume1(v, val, x)]
                return cur
            # one of them: enumerate which is the first
            out, cur = [], [s]
            for v in t.values:
                out += [y for x in cur for y in self.assume1(v, val, x)]
                cur = [y for x in cur for y in self.assume1(v, not val, x)]
            return out
        if isinstance(t, ast.Constant):
            return [s] if bool(t.value) == val else []
        (k, ns), pos = self.atom(t)
        v = val == pos
        f = s.facts
        if (k, ns) in f:
            return [s] if f[k, ns] == v else []
        # `x in ['a', 'b']`: split into the alternatives
        if k[0] == 'in' and isinstance(t.comparators[0], (ast.List, ast.Tuple, ast.Set)) and t.comparators[0].elts \
                and all(isinstance(e, ast.Constant) for e in t.comparators[0].elts):
            eqs = [ast.Compare(left=t.left, ops=[ast.Eq()], comparators=[e]) for e in t.comparators[0].elts]
            if v:
                return [y for e in eqs for y in self.assume1(e, True, s)]
            cur = [s]
            for e in eqs:
                cur = [y for x in cur for y in self.assume1(e, False, x)]
            return cur
        if v and k[0] in ('==', 'is'):
            # equal to another constant already: contradiction
            for (k2, n2), v2 in f.items():
                if k2[0] in ('==', 'is') and v2 and k2[1] == k[1] and k2[2] != k[2] and 'Constant' in k2[2][:9] \
                        and 'Constant' in k[2][:9]:
                    return []
        if not v and k[0] == '==':
            pass
        # truth of a name and of `name is None` / `name is not None`
        if k[0] == 't':
            none = (('is', k[1], ast.dump(ast.Constant(value=None))), ns)
            if v and f.get(none) is True:
                return []
        if k[0] == 'is' and v and k[2] == ast.dump(ast.Constant(value=None)) and f.get((('t', k[1]), ns)) is True:
            return []
        if k[0] == '==' and v and 'Constant' in k[2][:9]:
            # equal to a constant decides its truth
            tr = f.get((('t', k[1]), ns))
            c = bool(t.comparators[0].value if isinstance(t.comparators[0], ast.Constant) else t.left.value)
            if tr is not None and tr != c:
                return []
        g = dict(f)
        g[k, ns] = v
        return [State(s.names, g)]

    # ---- statements ----------------------------------------------------------------
    def stmt(self, n, sts):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m:
            return self.merge(m(n, sts))
        return sts

    def target(self, t, sts):
        if isinstance(t, ast.Name):
            return [s.bind(t.id) for s in sts]
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                sts = self.target(e, sts)
            return sts
        if isinstance(t, ast.Starred):
            return self.target(t.value, sts)
        self.use(t.value, sts)
        if isinstance(t, ast.Subscript):
            self.use(t.slice, sts)
        # facts about the changed object
        d = ast.dump(t.value)[:-1]
        return [State(s.names, {k: v for k, v in s.facts.items() if not any(d in str(x) for x in k[0][1:])}) for s in sts] \
            if any(s.facts for s in sts) else sts

    def s_Expr(self, n, sts):
        self.use(n.value, sts)
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
            x = v.func.value
            sts = [s.kill(frozenset([x.id])) for s in sts]
            if v.func.attr in ('append', 'add', 'insert', 'setdefault'):
                sts = self.assume(x, True, sts)
        return self.walrus(n.value, sts)

    def s_Assign(self, n, sts):
        self.use(n.value, sts)
        sts = self.walrus(n.value, sts)
        for t in n.targets:
            sts = self.target(t, sts)
        # remember constants: flag = True ... if flag:
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            x = ast.Name(id=n.targets[0].id, ctx=ast.Load())
            v = n.value
            test = ast.Compare(left=x, ops=[ast.Is() if v.value is None else ast.Eq()], comparators=[v])
            sts = self.assume(test, True, sts)
            sts = self.assume(x, bool(v.value), sts) or sts
        elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.List, ast.Dict, ast.Tuple)):
            x = ast.Name(id=n.targets[0].id, ctx=ast.Load())
            sts = self.assume(x, bool(n.value.keys if isinstance(n.value, ast.Dict) else n.value.elts), sts)
        return sts

    def s_AnnAssign(self, n, sts):
        if n.value is not None:
            self.use(n.value, sts)
            return self.target(n.target, sts)
        return sts

    def s_AugAssign(self, n, sts):
        self.use(n.value, sts)
        if isinstance(n.target, ast.Name):
            self.use(ast.copy_location(ast.Name(id=n.target.id, ctx=ast.Load()), n.target), sts)
        return self.target(n.target, sts)

    def s_Return(self, n, sts):
        self.use(n.value, sts)
        return []

    def s_Raise(self, n, sts):
        self.use(n.exc, sts)
        return []

    def s_Delete(self, n, sts):
        for t in n.targets:
            if isinstance(t, ast.Name):
                sts = [State(s.names - {t.id}, s.facts) for s in sts]
        return sts

    def s_Assert(self, n, sts):
        self.use(n.test, sts)
        return self.assume(n.test, True, sts)

    def s_If(self, n, sts):
        self.use(n.test, sts)
        sts = self.walrus(n.test, sts)
        if chain_of_alternatives(n):
            # `if x == 'a': ... elif x == 'b': ...` without else: one of them is meant to apply
            out, cur = [], sts
            while True:
                out += self.block(n.body, self.assume(n.test, True, cur))
                cur = self.assume(n.test, False, cur)
                if not n.orelse:
                    return out
                n = n.orelse[0]
                self.use(n.test, cur)
        return self.block(n.body, self.assume(n.test, True, sts)) + self.block(n.orelse, self.assume(n.test, False, sts))

    def loop(self, n, sts, bind):
        changed = frozenset(x.id for st in n.body for x in ast.walk(st) if isinstance(x, ast.Name)
                            and isinstance(x.ctx, (ast.Store, ast.Del)))
        sts = [s.kill(changed) for s in sts]
        self.breaks.append([])
        self.conts.append([])
        out = self.block(n.body, self.merge(bind(sts)))
        out += self.conts.pop()
        out = [s.kill(changed) for s in out]
        out = self.block(n.orelse, self.merge(out))
        br = self.breaks.pop()
        if br and not n.orelse:
            return br           # `for ...: if found: ...; break`: something is found
        return out + br

    def s_For(self, n, sts):
        self.use(n.iter, sts)
        return self.loop(n, sts, lambda x: self.target(n.target, x))

    def s_While(self, n, sts):
        self.use(n.test, sts)
        out = self.loop(n, sts, lambda x: self.assume(n.test, True, x))
        return out

    def s_Break(self, n, sts):
        if self.breaks:
            self.breaks[-1] += sts
        return []

    def s_Continue(self, n, sts):
        if self.conts:
            self.conts[-1] += sts
        return []

    def s_With(self, n, sts):
        for i in n.items:
            self.use(i.context_expr, sts)
            if i.optional_vars is not None:
                sts = self.target(i.optional_vars, sts)
        return self.block(n.body, sts)

    def s_Try(self, n, sts):
        changed = frozenset(x.id for st in n.body for x in ast.walk(st) if isinstance(x, ast.Name)
                            and isinstance(x.ctx, (ast.Store, ast.Del)))
        body = self.block(n.body, sts)
        out = self.block(n.orelse, body)
        # assignments before the statement that failed may or may not have happened
        entry = [s.kill(changed) for s in sts]
        if len(n.body) > 1:
            pass
        for h in n.handlers:
            e = [s.bind(h.name) for s in entry] if h.name else entry
            out = out + self.block(h.body, e)
        if n.finalbody:
            out = self.block(n.finalbody, self.merge(out))
        return out

    def s_FunctionDef(self, n, sts):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x] + n.decorator_list:
            self.use(d, sts)
        return [s.bind(n.name) for s in sts]

    def s_ClassDef(self, n, sts):
        return [s.bind(n.name) for s in sts]

    def s_Import(self, n, sts):
        for a in n.names:
            sts = [s.bind(a.asname or a.name.split('.')[0]) for s in sts]
        return sts

    s_ImportFrom = s_Import


def scopes(text, path):
    """all scopes with line numbers: [(name, line, symtable)]"""
    out = []

    def walk(t):
        out.append(t)
        for c in t.get_children():
            walk(c)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        walk(symtable.symtable(text, path, 'exec'))
    return out


BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', '__spec__'}
