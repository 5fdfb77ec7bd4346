"""P17: bookkeeping of constraints (which quantity is described by which component of which distribution)."""
import ast
from check_result import Result
from . import rule
from .bind import modules
from sa.cond import conditions

LST, MAP = '_constraints', '_parameters'
MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'move_to_end', '__setitem__', '__delitem__'}


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def attrs(e, a):
    return any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(e))


def tnames(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


class Fn:
    """what the names of one function stand for"""

    def __init__(self, fn, helpers):
        self.fn = fn
        self.con, self.names, self.num, self.mapcon, self.pairs, self.params = set(), set(), set(), set(), set(), set()
        self.lists, self.maps, self.mapitem = set(), set(), set()
        self.listloops = []
        self.helpers = helpers
        self.assigns = []      # (names, value)
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.comprehension)):
                self.assigns.append(('loop', n.target, n.iter, n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self.assigns.append(('set', t, n.value, n))
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                self.assigns.append(('set', n.target, n.value, n))
        for _ in range(3):
            for kind, t, v, n in self.assigns:
                self.bind(kind, t, v, n)
        # everything computed from distributions / component numbers
        self.dcon = self.closure(self.con | self.mapcon)
        self.dnum = self.closure(self.num, names_of=lambda t: set() if isinstance(t, ast.Subscript) else tnames(t))
        self.dpar = self.closure(self.params, lambda v: not self.maps_mentioned(v))

    def passed(self, tn):
        """is one of the names used other than for counting and testing?"""
        light = set()
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'any', 'all', 'bool'):
                light |= {id(x) for a in n.args for x in ast.walk(a)}
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                light |= {id(x) for x in ast.walk(n.test)}
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in tn and id(x) not in light for x in ast.walk(self.fn))

    def islist(self, e):
        """expression standing for the list of constraints"""
        return isinstance(e, ast.Attribute) and e.attr == LST or isinstance(e, ast.Name) and e.id in self.lists or \
            isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'reversed', 'enumerate') and self.islist(e.args[0])

    def ismap(self, e):
        return isinstance(e, ast.Attribute) and e.attr == MAP or isinstance(e, ast.Name) and e.id in self.maps

    def islookup(self, e):
        """_parameters[p], _parameters.get(p)"""
        return isinstance(e, ast.Subscript) and self.ismap(e.value) or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and self.ismap(e.func.value)

    def bind(self, kind, t, v, n):
        if kind == 'loop':
            if self.islist(v):
                if isinstance(v, ast.Call) and v.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    t = t.elts[1]
                self.pairtarget(t, n)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('items', 'values') and self.ismap(v.func.value):
                if v.func.attr == 'items' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    self.params |= tnames(t.elts[0])
                    t = t.elts[1]
                self.maptarget(t)
            return
        if isinstance(v, ast.Name) and v.id in self.pairs and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            self.con |= tnames(t.elts[0])
            self.names |= tnames(t.elts[1])
            for k, (l, nm) in enumerate(self.listloops):
                if v.id in nm:
                    self.listloops[k] = (l, nm | tnames(t.elts[1]))
        if self.islist(v) and isinstance(t, ast.Name):
            self.lists.add(t.id)
        elif self.ismap(v) and isinstance(t, ast.Name):
            self.maps.add(t.id)
        elif self.islookup(v) or isinstance(v, ast.Name) and v.id in self.mapitem:
            if self.islookup(v):
                k = v.slice if isinstance(v, ast.Subscript) else v.args[0] if v.args else None
                if k is not None:
                    self.params |= names(k)
            self.maptarget(t)
        elif isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant) and (self.islookup(v.value) or isinstance(v.value, ast.Name) and v.value.id in self.mapitem):
            if isinstance(t, ast.Name):
                (self.num if v.slice.value in (0, -2) else self.mapcon).add(t.id)

    def pairtarget(self, t, n):
        if isinstance(t, ast.Tuple) and len(t.elts) == 2:
            self.con |= tnames(t.elts[0])
            nm = tnames(t.elts[1])
            self.names |= nm
            if n not in [x for x, _ in self.listloops]:
                self.listloops.append((n, nm))
        elif isinstance(t, ast.Name):
            self.pairs.add(t.id)
            if n not in [x for x, _ in self.listloops]:
                self.listloops.append((n, {t.id}))

    def maptarget(self, t):
        if isinstance(t, ast.Tuple) and len(t.elts) == 2:
            self.num |= tnames(t.elts[0])
            self.mapcon |= tnames(t.elts[1])
        elif isinstance(t, ast.Name):
            self.mapitem.add(t.id)

    def closure(self, s, ok=lambda v: True, names_of=tnames):
        s = set(s)
        while True:
            k = len(s)
            for kind, t, v, n in self.assigns:
                if names(v) & s and ok(v):
                    s |= names_of(t)
            if len(s) == k:
                return s

    def maps_mentioned(self, e):
        return attrs(e, MAP) or bool(names(e) & (self.maps | self.mapcon | self.mapitem))

    def has_guard(self):
        """some comparison relates an entry of the list to what the quantity is currently mapped to"""
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in n.ops):
                if self.maps_mentioned(n) and (names(n) & (self.con | self.pairs)):
                    return True
        return False


def calls(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = n.func
            yield n, f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def scalar_guard(cs, F):
    """the distribution has one component here: num == 0, len(names) == 1, isscalar(..), ndim"""
    for t, truth in cs:
        parts = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and truth else [t]
        for c in parts:
            neg = not truth
            while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                c, neg = c.operand, not neg
            if isinstance(c, ast.Name):
                vs = [a[2] for a in F.assigns if a[0] == 'set' and isinstance(a[1], ast.Name) and a[1].id == c.id]
                if len(vs) == 1 and c.id not in F.num and scalar_guard([(vs[0], not neg)], F):
                    return True
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.comparators[0], ast.Constant):
                eq = isinstance(c.ops[0], ast.Eq) and not neg or isinstance(c.ops[0], ast.NotEq) and neg
                if eq and c.comparators[0].value == 0 and names(c.left) & F.num:
                    return True
                if eq and c.comparators[0].value == 1 and isinstance(c.left, ast.Call) and isinstance(c.left.func, ast.Name) and c.left.func.id == 'len':
                    return True
                if neg and isinstance(c.ops[0], (ast.Gt,)) and c.comparators[0].value == 1 and isinstance(c.left, ast.Call) and isinstance(c.left.func, ast.Name) and c.left.func.id == 'len':
                    return True
                if neg and names(c.left) & F.num and isinstance(c.ops[0], ast.Gt) and c.comparators[0].value == 0:
                    return True
            if isinstance(c, ast.UnaryOp):
                continue
            if isinstance(c, ast.Name) and neg and c.id in F.num:
                return True
            if isinstance(c, ast.Call) and not neg:
                f = c.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                if nm in ('isscalar', 'is_scalar', 'isreal'):
                    return True
    return False


def last_index(e):
    s = e.slice
    return s.elts[-1] if isinstance(s, ast.Tuple) and s.elts else s


def component(e, F):
    """True: picks the component of the quantity; False: some other component; None: no component picked"""
    res = None
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript) and names(x.value) & F.dcon:
            i = last_index(x)
            if names(i) & F.dnum:
                return True
            if names(i) & (F.con | F.mapcon) or F.islookup(x) or attrs(x.value, MAP):
                continue
            if names(i) & F.dcon and not isinstance(i, ast.Slice):
                continue          # index of the distribution in a list of distributions
            if isinstance(i, ast.Slice):
                continue
            res = False
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            a = list(x.args) + [k.value for k in x.keywords]
            if any(names(y) & F.dnum for y in a):
                return True
            if any(isinstance(y, ast.Name) and y.id in F.dpar and not names(y) & F.dcon for y in a) and any(k.arg == 'exclude' for k in x.keywords):
                return True
            if any(k.arg == 'exclude' and names(k.value) & (F.dpar | F.dnum) for k in x.keywords):
                return True
    return res


@rule('P17')
def bookkeeping(ctx):
    r = Result()
    r.rule = ('structural data-flow analysis of the list of (distribution, quantities) pairs and the map quantity -> (component, distribution): both are '
              'only written together and in their class; entries of the list are used only after comparison with the current map; every per-quantity value '
              'taken from a distribution is its own component; positions are positions in the stored list; copies are deep')
    S = ctx.src()
    owners = set()
    for m in modules(ctx):
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                w = {x.attr for f in c.body if isinstance(f, ast.FunctionDef) and f.name == '__init__' for x in ast.walk(f)
                     if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
                if LST in w and MAP in w:
                    owners.add((m.name, c.name))
                    check_class(r, S, m, c)
    r.counts['classes'] = len(owners)
    own = {n for _, n in owners}
    for m in modules(ctx):
        helpers = {f.name: f for f in functions(m.tree)}
        for fn in functions(m.tree):
            if not (attrs(fn, LST) or attrs(fn, MAP)):
                continue
            q = S.qual(m, fn) + '.' + fn.name
            loc = lambda n: '%s:%s' % (m.rel, n.lineno)
            F = Fn(fn, helpers)
            r.count('functions')
            inown = any('%s.%s.' % o in q + '.' for o in owners)
            # writes outside the class
            if not inown:
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and n.attr in (LST, MAP) and isinstance(n.ctx, (ast.Store, ast.Del)) or \
                       isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr in (LST, MAP) or \
                       isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in (LST, MAP):
                        r.find('write:%s' % q, '%s changes the bookkeeping of constraints from outside its class' % q, loc(n))
            check_lists(r, fn, F, q, loc, helpers)
            check_components(r, fn, F, q, loc)
            check_exclude(r, fn, F, q, loc)
            check_spaces(r, fn, F, q, loc)
    r.need('functions', 8)
    if not owners:
        r.broken.append('class keeping the constraints not found')
    return r


def check_lists(r, fn, F, q, loc, helpers):
    """a list entry whose quantities are used must be compared with the current map"""
    for n, nm in F.listloops:
        used = False
        scope = n if isinstance(n, ast.For) else fn
        if isinstance(n, ast.comprehension):
            scope = next((x for x in ast.walk(fn) if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and n in x.generators), fn)
        nm = {x for x in nm if x != '_'}
        body = [x for x in ast.walk(scope) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in nm]
        r.count('list_iterations')
        if not body:
            continue
        if F.has_guard():
            r.count('guarded')
            continue
        ok = False
        for c, name in calls(scope):
            h = helpers.get(name)
            if h is not None and h is not fn and any(names(a) & nm for a in list(c.args) + [k.value for k in c.keywords]):
                H = Fn(h, helpers)
                ps = [a.arg for a in h.args.posonlyargs + h.args.args]
                for x in ast.walk(h):
                    if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in x.ops) and H.maps_mentioned(x) and names(x) & set(ps):
                        ok = True
        if not ok:
            r.find('inactive:%s' % q, '%s uses the quantities of every stored constraint without checking which constraint is the current one; removed or replaced constraints take part' % q, loc(n if hasattr(n, 'lineno') else scope))


def outputs(fn, F):
    for n in ast.walk(fn):
        if isinstance(n, ast.Return) and n.value is not None:
            yield n.value, n
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and not names(t.slice) & F.con for t in n.targets):
            yield n.value, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append':
            for a in n.args:
                yield a, n
        elif isinstance(n, ast.DictComp) and not names(n.key) & F.con:
            yield n.value, n


def check_components(r, fn, F, q, loc):
    if not F.num and not F.mapcon:
        return
    C = conditions(fn)
    for e, n in outputs(fn, F):
        vals = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        for v in vals:
            if isinstance(v, ast.Tuple) or isinstance(v, (ast.ListComp, ast.DictComp)):
                continue
            # values of the distribution the quantity is mapped to
            if not (names(v) & (F.closure(F.mapcon))):
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('id', 'hash', 'type', 'isinstance', 'len'):
                continue
            if isinstance(v, ast.Compare):
                continue
            if isinstance(v, ast.Name) and not (v.id in F.closure(F.mapcon)):
                continue
            r.count('component_uses')
            k = component(v, F)
            if k is None and isinstance(v, ast.Name):
                # the name may be assigned from an expression that picks the component
                ks = [component(a[2], F) for a in F.assigns if v.id in tnames(a[1])]
                if any(x is True for x in ks):
                    k = True
                elif any(x is False for x in ks):
                    k = False
            if k is True:
                continue
            if scalar_guard(C.get(v, []) or C.get(n, []), F):
                continue
            if k is False:
                r.find('component:%s' % q, '%s takes another component of a multivariate distribution than that of the quantity' % q, loc(v))
            else:
                r.find('component:%s' % q, '%s returns a value of the distribution without selecting the component of the quantity' % q, loc(v))


def check_exclude(r, fn, F, q, loc):
    """components to leave out are exactly those not used"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)) and len(n.generators) == 1 and isinstance(n.elt, ast.Name):
            g = n.generators[0]
            it = g.iter
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2):
                continue
            i, p = g.target.elts
            if not (isinstance(i, ast.Name) and isinstance(p, ast.Name) and n.elt.id == i.id) or not g.ifs:
                continue
            if not (names(it) & (F.names | F.dcon | F.closure(F.names | F.con | F.mapcon))):
                continue
            r.count('index_lists')
            if len(it.args) > 1 and not (isinstance(it.args[1], ast.Constant) and it.args[1].value == 0):
                r.find('index:%s' % q, '%s counts components from %s' % (q, ast.unparse(it.args[1])), loc(n))
            # where the list goes: exclude=..., (directly or by name)
            tn = next((tnames(a[1]) for a in F.assigns if any(x is n for x in ast.walk(a[2]))), set())
            excl = any(k.arg == 'exclude' and (any(x is n for x in ast.walk(k.value)) or names(k.value) & tn) for c, _ in calls(fn) for k in c.keywords)
            if not excl:
                # found out what to leave out, but only counted it
                if tn and F.maps_mentioned(n) and not F.passed(tn):
                    r.find('reduce:%s' % q, '%s determines which components were removed or replaced, but leaves none of them out' % q, loc(n))
                continue
            for c in g.ifs:
                neg = False
                while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
                    c, neg = c.operand, not neg
                if isinstance(c, ast.Compare) and len(c.ops) == 1:
                    o = c.ops[0]
                    out = isinstance(o, (ast.NotIn, ast.NotEq, ast.IsNot)) != neg
                    if not out and isinstance(o, (ast.In, ast.Eq, ast.Is, ast.NotIn, ast.NotEq, ast.IsNot)) and not attrs(c, 'exclude') and 'exclude' not in ast.unparse(c):
                        r.find('exclude:%s' % q, '%s excludes the components it should keep' % q, loc(n))


def check_spaces(r, fn, F, q, loc):
    """a list made for every entry of one structure is not indexed by positions in another"""
    def space(it):
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'enumerate') and it.args:
            it = it.args[0]
        if F.islist(it):
            return LST
        if F.ismap(it) or isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values') and F.ismap(it.func.value):
            return MAP
        return None

    def made(e):
        if isinstance(e, ast.Name):
            return made_of.get(e.id)
        if isinstance(e, ast.ListComp) and len(e.generators) == 1:
            return space(e.generators[0].iter)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'list' and e.args:
            return space(e.args[0])
        return None
    made_of, at = {}, {}
    for kind, t, v, n in F.assigns:
        if kind == 'set' and isinstance(t, ast.Name):
            if made(v):
                made_of[t.id] = made(v)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'index' and made(v.func.value):
                at[t.id] = made(v.func.value)
        elif kind == 'loop' and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'enumerate' and isinstance(t, ast.Tuple) \
                and isinstance(t.elts[0], ast.Name) and space(v):
            at[t.elts[0].id] = space(v)
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in made_of and isinstance(n.slice, ast.Name) and n.slice.id in at:
            r.count('positions')
            if made_of[n.value.id] != at[n.slice.id]:
                r.find('space:%s' % q, '%s looks up the entry of %s at a position in %s' % (q, made_of[n.value.id], at[n.slice.id]), loc(n))


def check_class(r, S, m, cls):
    own = {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef)}
    q0 = '%s.%s' % (m.name, cls.name)
    loc = lambda n: '%s:%s' % (m.rel, n.lineno)

    def stores(f):
        return [n for n in ast.walk(f) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and attrs(n.value, MAP)]

    def appends(f):
        return [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert', 'extend') and attrs(n.func.value, LST)]

    def removes(f):
        out = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem') and attrs(n.func.value, MAP)]
        out += [n for n in ast.walk(f) if isinstance(n, ast.Delete) and attrs(n, MAP)]
        return out
    removers = {n for n, f in own.items() if removes(f) and not stores(f)}
    if not removers:
        r.find('noremove:%s' % q0, 'no method removes a constraint', loc(cls))
    nadd = 0
    for name, f in own.items():
        st, ap = stores(f), appends(f)
        q = q0 + '.' + name
        if not st and not ap:
            continue
        nadd += 1
        callees = {c for _, c in calls(f)}
        if st and not ap and not any(c in own and appends(own[c]) for c in callees):
            if not any(name in {c for _, c in calls(g)} and (appends(g)) for g in own.values()):
                r.find('pair:%s' % q, '%s sets the map of quantities but does not store the distribution' % q, loc(f))
        if ap and not st and not any(c in own and stores(own[c]) for c in callees):
            if not any(name in {c for _, c in calls(g)} and stores(g) for g in own.values()):
                r.find('pair:%s' % q, '%s stores a distribution without setting the map of quantities' % q, loc(f))
        if not (st and ap):
            continue
        asg = [(t, n.value) for n in ast.walk(f) if isinstance(n, ast.Assign) for t in n.targets]
        params = {a.arg for a in f.args.args}
        for a in ap:
            if not a.args or a.func.attr != 'append' or not (isinstance(a.args[0], ast.Tuple) and len(a.args[0].elts) == 2):
                continue
            con, ps = a.args[0].elts
            # the stored list is not the caller's
            fresh = isinstance(ps, (ast.Call, ast.List, ast.ListComp))
            if isinstance(ps, ast.Name):
                vs = [v for t, v in asg if isinstance(t, ast.Name) and t.id == ps.id]
                fresh = bool(vs) and all(isinstance(v, (ast.Call, ast.List, ast.ListComp)) or isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) for v in vs) or ps.id not in params and not vs
            if not fresh:
                r.find('alias:%s' % q, '%s stores the list of quantities it is given without copying it: later changes of the list by the caller change the constraint' % q, loc(a))
            for s in st:
                v = next((n.value for n in ast.walk(f) if isinstance(n, ast.Assign) and s in n.targets), None)
                if isinstance(v, ast.Name):
                    v = next((x for t, x in asg if isinstance(t, ast.Name) and t.id == v.id), v)
                if not (isinstance(v, ast.Tuple) and len(v.elts) == 2):
                    continue
                r.count('stores')
                if ast.dump(v.elts[1]).replace('Store', 'Load') != ast.dump(con):
                    r.find('other:%s' % q, '%s maps quantities to another distribution than the one it stores' % q, loc(s))
                # position in the stored list
                idx = v.elts[0]
                loop = next((n for n in ast.walk(f) if isinstance(n, ast.For) and any(x is s for x in ast.walk(n))), None)
                if loop is not None:
                    it = loop.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args:
                        src = ast.dump(it.args[0]) == ast.dump(ps)
                        start = len(it.args) > 1 and not (isinstance(it.args[1], ast.Constant) and it.args[1].value == 0) or any(k.arg == 'start' and not (isinstance(k.value, ast.Constant) and k.value.value == 0) for k in it.keywords)
                        good = isinstance(loop.target, ast.Tuple) and isinstance(idx, ast.Name) and isinstance(loop.target.elts[0], ast.Name) and loop.target.elts[0].id == idx.id
                        if not (src and good) or start:
                            r.find('position:%s' % q, '%s does not map a quantity to its position in the stored list' % q, loc(s))
                    elif isinstance(idx, ast.Constant):
                        r.find('position:%s' % q, '%s maps every quantity to component %r' % (q, idx.value), loc(s))
                    # every quantity is mapped
                    if skips(loop, s):
                        r.find('skipped:%s' % q, '%s leaves out some of the quantities it is given: their old constraint stays' % q, loc(s))
                    # removal of the old constraint comes first
                    order_check(r, loop, s, removers, q, loc)
    if not nadd:
        r.broken.append('no method adding constraints found')
    # identity of distributions: entries are told apart by the distribution object
    for name, f in own.items():
        if appends(f) and stores(f):
            ok = False
            C = conditions(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq)) for o in n.ops) and any(attrs(x, LST) and not part(x) for x in ast.walk(f) if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.For)) and any(y is n for y in ast.walk(x))):
                    ok = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') and n.args and not attrs(n, LST) and \
                        not any(isinstance(x, (ast.GeneratorExp, ast.ListComp)) and part(x) for t, _ in C.get(n, []) for x in ast.walk(t)):
                    ok = True
            if not ok and identity_keyed(own):
                r.find('identity:%s.%s' % (q0, name), '%s.%s stores a distribution object that may already be stored for other quantities, although results are looked up by distribution' % (q0, name), loc(f))
    for name, f in own.items():
        if name in ('copy', '__copy__'):
            deep = any(c in ('deepcopy', 'from_yaml', 'from_yaml_dict', 'loads') for _, c in calls(f))
            if not deep:
                r.find('copy:%s' % q0, 'copies of %s share the bookkeeping with the original' % q0, loc(f))


def part(x):
    """does the loop run over some entries of the list only?"""
    its = [x.iter] if isinstance(x, ast.For) else [g.iter for g in x.generators]
    return any(isinstance(y, ast.Subscript) and attrs(y.value, LST) for i in its for y in ast.walk(i))


def identity_keyed(own):
    for f in own.values():
        F = Fn(f, {})
        for n in ast.walk(f):
            if isinstance(n, ast.DictComp) and names(n.key) & F.con or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Name) and n.slice.id in F.con:
                return True
    return False


def skips(loop, store):
    """can an iteration of the loop end without reaching the store?"""
    def reach(b):
        """(every path that goes on has stored, some path ends the iteration before)"""
        for s in b:
            if isinstance(s, (ast.Continue, ast.Break, ast.Return)):
                return False, True
            if isinstance(s, ast.Raise):
                return True, False
            if isinstance(s, ast.If):
                a, b1 = reach(s.body)
                c, d = reach(s.orelse) if s.orelse else (False, False)
                if b1 or d:
                    return False, True
                if a and c:
                    return True, False
            elif isinstance(s, ast.Try):
                a, b1 = reach(s.body + s.orelse)
                hs = [reach(h.body) for h in s.handlers]
                if b1 or any(h[1] for h in hs):
                    return False, True
                if a and all(h[0] for h in hs):
                    return True, False
                a, b1 = reach(s.finalbody)
                if a or b1:
                    return a, b1
            elif isinstance(s, ast.With):
                a, b1 = reach(s.body)
                if a or b1:
                    return a, b1
            elif isinstance(s, (ast.For, ast.While)):
                continue
            elif any(x is store for x in ast.walk(s)):
                return True, False
        return False, False
    return not reach(loop.body)[0]


def order_check(r, loop, store, removers, q, loc):
    """the removal of an old constraint of a quantity happens before the new one is set"""
    seen = False

    def visit(ss):
        nonlocal seen
        for s in ss:
            if any(x is store for x in ast.walk(s)) and not isinstance(s, (ast.For, ast.If, ast.Try, ast.With, ast.While)):
                seen = True
                continue
            if seen:
                for c, n in calls(s):
                    if n in removers:
                        r.find('order:%s' % q, '%s removes the constraint it has just set' % q, loc(c))
            for f in ('body', 'orelse', 'handlers', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    visit([x for x in b if isinstance(x, ast.stmt)] + [y for x in b if isinstance(x, ast.ExceptHandler) for y in x.body])
    visit(loop.body)
