"""Normal form of the syntax trees, so that rules judge what the code does and not how it is written.

Only rewritings that keep the meaning of every program:
* `if not c: A else: B`, `if a != b: A else: B` (also `is not`, `not in`; conditional expressions too)
  become the positive test with the branches exchanged; `not (a and b)` is pushed inwards for tests without else;
* `if c: return/raise ... else: B` becomes `if c: return/raise ...` followed by B;
* nested tests without else are merged, loops that only fill a list or dictionary become comprehensions;
* comparisons have their fixed side on the right, else `>` is written `<` and equal sides are ordered;
* `x = e; return x` becomes `return e`.
"""
import ast

FLIP = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def negative(t):
    """`not a`, `a != b`, and conjunctions and disjunctions of such tests only"""
    if isinstance(t, ast.BoolOp):
        return all(negative(v) for v in t.values)
    return isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or \
        isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in FLIP


def positive(t, neg=False):
    """negation normal form of t (of `not t` if neg); comparisons of order are kept as they are under `not`"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return positive(t.operand, not neg)
    if isinstance(t, ast.BoolOp):
        op = t.op
        if neg:
            op = ast.And() if isinstance(op, ast.Or) else ast.Or()
        return ast.copy_location(ast.BoolOp(op, [positive(v, neg) for v in t.values]), t)
    if not neg:
        return t
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
        return ast.copy_location(ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def exchanged(t):
    return negative(t) or isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and any(negative(v) for v in t.values)


def leaves(b):
    """control never runs past the end of block b"""
    s = b[-1]
    return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or \
        isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(s.orelse)


SIDES = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def fixed(n):
    """a constant, signed constant or display of constants"""
    if isinstance(n, ast.UnaryOp):
        n = n.operand
    return isinstance(n, ast.Constant) or isinstance(n, (ast.Tuple, ast.List, ast.Set)) and all(map(fixed, n.elts)) or \
        isinstance(n, ast.Dict) and all(k is not None and fixed(k) for k in n.keys) and all(map(fixed, n.values))


class Norm(ast.NodeTransformer):
    def visit_Compare(self, n):
        """one side fixed: it is on the right; else orders are written < and <=, equal sides in the order of their text"""
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SIDES:
            a, b, op = n.left, n.comparators[0], type(n.ops[0])
            if fixed(a) != fixed(b):
                swap = fixed(a)
            elif op in (ast.Eq, ast.NotEq):
                swap = ast.dump(a) > ast.dump(b)
            else:
                swap = op in (ast.Gt, ast.GtE)
            if swap:
                n.left, n.comparators[0], n.ops[0] = b, a, SIDES[op]()
        return n

    def test(self, n):
        """normalise the test of n, exchanging the branches if it is negative"""
        n.test = positive(n.test)
        if n.orelse and exchanged(n.test):
            n.test, n.body, n.orelse = positive(n.test, True), n.orelse, n.body

    def visit_If(self, n):
        self.generic_visit(n)
        # an else consisting of `pass` only is no else
        if n.orelse and all(isinstance(s, ast.Pass) for s in n.orelse):
            n.orelse = []
        self.test(n)
        # if a: if b: X  is  if a and b: X
        while not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            vals = [v for t in (n.test, i.test) for v in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t])]
            n.test = ast.copy_location(ast.BoolOp(ast.And(), vals), n.test)
            n.body = i.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.test(n)
        return n

    def block(self, b):
        i = 0
        while i < len(b):
            # if c: <leaves> else: B  is  if c: <leaves>, then B
            s = b[i]
            if isinstance(s, ast.If) and s.orelse:
                if not leaves(s.body) and leaves(s.orelse):
                    s.test, s.body, s.orelse = positive(s.test, True), s.orelse, s.body
                if leaves(s.body):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
            i += 1
        # both ways leave: an exception is raised first, otherwise the positive test comes first
        for i in range(len(b) - 2, -1, -1):
            s, rest = b[i], b[i + 1:]
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and leaves(rest):
                first, second = (len(x) == 1 and isinstance(x[0], ast.Raise) for x in (s.body, rest))
                if second and not first or first == second and exchanged(s.test):
                    s.test, s.body, b[i + 1:] = positive(s.test, True), rest, s.body
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and isinstance(t, ast.Return) and isinstance(t.value, ast.Name) and t.value.id == s.targets[0].id:
                t.value = s.value
                ast.copy_location(t, s)
                del b[i]
                i = max(i - 1, 0)
                continue
            i += 1

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                self.block(b)
        return n


def names(*nodes):
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name)}


SCOPED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


class Loops:
    """`x = []` followed by `for t in it: x.append(e)` becomes `x = [e for t in it]` (same for dictionaries filled by
    assignment), and a name that only carries such a value to the next statement is dropped"""

    def __init__(self, fn):
        self.fn = fn
        self.loads = {}
        self.outer = set()
        self.bound = set()        # loads inside a loop or comprehension that binds the name
        for x in ast.walk(fn):
            if isinstance(x, ast.For):
                tn = names(x.target)
                self.bound |= {id(k) for b in x.body for k in ast.walk(b) if isinstance(k, ast.Name) and k.id in tn}
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                tn = names(*[g.target for g in x.generators])
                self.bound |= {id(k) for k in ast.walk(x) if isinstance(k, ast.Name) and k.id in tn}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.loads.setdefault(x.id, []).append(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.outer |= set(x.names)

    def comp(self, p, s):
        """the comprehension equivalent to statement p (empty container) and loop s, or None"""
        if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name)):
            return None
        if not (isinstance(s, ast.For) and not s.orelse and len(s.body) == 1):
            return None
        x = p.targets[0].id
        st, ifs = s.body[0], []
        while isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
            ifs.append(st.test)
            st = st.body[0]
        islist = isinstance(p.value, ast.List) and not p.value.elts or isinstance(p.value, ast.Call) and isinstance(p.value.func, ast.Name) \
            and p.value.func.id == 'list' and not p.value.args and not p.value.keywords
        isdict = isinstance(p.value, ast.Dict) and not p.value.keys or isinstance(p.value, ast.Call) and isinstance(p.value.func, ast.Name) \
            and p.value.func.id == 'dict' and not p.value.args and not p.value.keywords
        if islist and isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and st.value.func.attr == 'append' and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == x \
                and len(st.value.args) == 1 and not st.value.keywords:
            parts = [st.value.args[0]]
            new = ast.ListComp(parts[0], [])
        elif isdict and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                and isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == x:
            parts = [st.targets[0].slice, st.value]
            new = ast.DictComp(parts[0], parts[1], [])
        else:
            return None
        if x in names(s.iter, s.target, *parts, *ifs) or x in self.outer:
            return None
        for e in [s.iter] + parts + ifs:
            if any(isinstance(k, SCOPED + (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for k in ast.walk(e)):
                return None
        tn = names(s.target)
        if not all(isinstance(k, (ast.Name, ast.Tuple, ast.List, ast.expr_context)) for k in ast.walk(s.target)) or tn & self.outer:
            return None
        # the loop variables are not read anywhere else (they would survive the loop)
        inside = {id(k) for k in ast.walk(s)}
        if any(id(k) not in inside and id(k) not in self.bound for t in tn for k in self.loads.get(t, ())):
            return None
        new.generators = [ast.comprehension(s.target, s.iter, ifs, 0)]
        return ast.copy_location(new, s)

    def block(self, b):
        for n in b:
            if isinstance(n, SCOPED):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                c = getattr(n, f, None)
                if isinstance(c, list) and c and isinstance(c[0], ast.stmt):
                    self.block(c)
            for h in getattr(n, 'handlers', []):
                self.block(h.body)
        i = 0
        while i + 1 < len(b):
            c = self.comp(b[i], b[i + 1])
            if c is not None:
                b[i].value = c
                ast.copy_location(b[i], b[i + 1])
                del b[i + 1]
                continue
            i += 1

    def carried(self):
        """x = [..comprehension..]; y = x, with no other use of x"""
        pairs = {}
        for n in ast.walk(self.fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    for s, t in zip(b, b[1:]):
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                                and isinstance(s.value, (ast.ListComp, ast.DictComp)) and isinstance(t, ast.Assign) \
                                and isinstance(t.value, ast.Name) and t.value.id == s.targets[0].id:
                            pairs.setdefault(t.value.id, []).append((b, s, t))
        for x, l in pairs.items():
            loads = self.loads.get(x, ())
            if x not in self.outer and len([k for k in loads if k.id == x]) == len(l):
                for b, s, t in l:
                    t.value = s.value
                    b.remove(s)


def uncounted(fn):
    """`for i, x in enumerate(it)` without use of i is `for x in it`"""
    loads = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)):
            it, t = n.iter, n.target
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(t, ast.Tuple) \
                    and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and t.elts[0].id not in loads:
                it, t = n.iter, n.target = it.args[0], t.elts[1]


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            uncounted(n)
            L = Loops(n)
            L.block(n.body)
    for _ in range(2):
        Norm().visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Loops(n).carried()
    return tree
