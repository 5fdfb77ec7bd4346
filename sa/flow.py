"""Alias, dependence and ordering analysis of single functions, with call summaries.

Used for the parts of the package that are ordinary Python (statistics,
likelihoods, input/output, plots), where the abstract interpreter of the
predictions is not needed. A value is described by

  top    tokens of outside objects it may *be*
  inner  tokens of outside objects it may *contain or be part of*
  deps   tokens it was computed from (data and control)
  unord  it is a set (or a mapping filled in the order of one): where that came from
  scr    its order, or the choice of it, follows the arbitrary iteration order of
         these sets; order tokens are ('o', index) for a construction site and, inside
         summaries, ('ps'/'pu', parameter) and ('ss'/'su', attribute of self) for
         "scrambled / unordered if that value is"

Tokens: ('p', name) a parameter, ('s', attr) an attribute of self, ('g', dotted)
a module level object, each with an optional trailing '*' for "something
reachable from it".
"""
import ast

E = frozenset()

# methods of builtin containers that change the receiver
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault',
            'sort', 'reverse', 'add', 'discard', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'fill', 'itemset', 'resize', 'put', 'partition',
            '__setitem__', '__delitem__', 'move_to_end', 'appendleft', 'popleft', 'set_initial',
            'set_initial_wcxf', 'set_option', 'set_constraint', 'add_constraint', 'remove_constraint',
            'read_default', 'set_prediction', 'set_description', 'add_taxonomy'}
# calls that hand back (a view of) their first argument
VIEWS = {'asarray', 'ravel', 'reshape', 'atleast_1d', 'atleast_2d', 'squeeze', 'transpose', 'asanyarray',
         'iter', 'reversed', 'swapaxes', 'diagonal', 'view', 'flat', 'broadcast_to'}
VIEW_METHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'view', 'swapaxes', 'items', 'values', 'keys',
                'get', '__getitem__', 'setdefault', 'pop', 'popitem', 'diagonal'}
# calls that build a new container around the same elements
SHALLOW = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'OrderedDict', 'zip', 'enumerate',
           'map', 'filter', 'copy', 'chain', 'defaultdict', 'fromkeys', 'partial', 'Counter'}
NP_INPLACE = {'fill_diagonal', 'put', 'copyto', 'place', 'putmask', 'shuffle', 'put_along_axis'}
SETOPS = (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)
SETMETHODS = {'union', 'intersection', 'difference', 'symmetric_difference'}
ORDER_FREE = {'sorted', 'len', 'min', 'max', 'any', 'all', 'set', 'frozenset', 'isdisjoint', 'issubset',
              'issuperset', 'update', 'bool', 'intersection', 'union', 'difference'}
# attribute / method names too common to be resolved by name only
COMMON = {'get', 'update', 'append', 'items', 'keys', 'values', 'copy', 'pop', 'index', 'count', 'split',
          'dot', 'format', 'join', 'sum', 'min', 'max', 'mean', 'std', 'sort', 'add', 'remove', 'clear',
          'load', 'dump', 'string', 'set', 'reset', 'compute', 'save', 'find', 'close', 'read', 'write',
          'map', 'pdf', 'T', 'real', 'imag', 'flatten', 'conj', 'conjugate', 'replace', 'strip', 'insert',
          'extend', 'setdefault', 'match', 'search', 'group', 'groups', 'union', 'difference'}


class Val:
    __slots__ = ('top', 'inner', 'deps', 'unord', 'lossy', 'inst', 'elem', 'scr')

    def __init__(self, top=E, inner=E, deps=E, unord=E, lossy=E, inst=(), elem=None, scr=E):
        self.top, self.inner, self.deps, self.unord, self.lossy = top, inner, deps, unord or E, lossy
        self.scr = scr
        self.inst = inst        # ((ClassInfo, {parameter: Val}), ...): instances it may be
        self.elem = elem        # what the elements of a container built here may be

    def __or__(self, o):
        if o is None or o is self:
            return self
        inst = self.inst + tuple(x for x in o.inst if x not in self.inst)
        inner = self.inner | o.inner
        if len(inst) > 6:
            inner = inner | held(inst)
            inst = ()
        elem = self.elem | o.elem if self.elem is not None and o.elem is not None else self.elem or o.elem
        return Val(self.top | o.top, inner, self.deps | o.deps, self.unord | o.unord,
                   self.lossy | o.lossy, inst, elem, self.scr | o.scr)

    def __bool__(self):
        return True

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Val(**d)

    def with_deps(self, d):
        if not d or d <= self.deps:
            return self
        return self.but(deps=self.deps | d)

    @property
    def all(self):
        """every token reachable from this value"""
        return self.top | self.inner | held(self.inst) | (self.elem.all if self.elem is not None else E)

    @property
    def part(self):
        """an element or attribute of this value"""
        i = self.inner | frozenset(star(t) for t in self.top) | held(self.inst)
        v = Val(i, i, self.deps, E, self.lossy)
        return v | self.elem.with_deps(self.deps) if self.elem is not None else v

    @property
    def order(self):
        """tokens the order of iterating over it depends on"""
        return self.unord | self.scr

    @property
    def orders(self):
        """tokens any order visible in it depends on (sets inside are fine)"""
        out = self.scr
        if self.elem is not None:
            out |= self.elem.orders
        return out

    def scrambled(self, o):
        return self.but(scr=self.scr | o) if o - self.scr else self

    def shallow(self, unord=E, scr=E):
        """a new container with the same elements"""
        return box(self.part, self.deps, unord, self.lossy, scr)

    def depth(self):
        return 0 if self.elem is None else 1 + self.elem.depth()

    def __repr__(self):
        return 'Val(top=%s inner=%s deps=%s%s%s)' % (
            sorted(self.top), sorted(self.inner), sorted(self.deps), ' unord' if self.unord else '',
            ' inst=%s' % [c.qual for c, _ in self.inst] if self.inst else '')


def box(elem, deps=E, unord=E, lossy=E, scr=E):
    """a new container holding elem"""
    if elem is None or not (elem.top or elem.inner or elem.inst or elem.elem is not None or elem.scr or elem.unord):
        return Val(E, E, deps, unord, lossy, (), Val() if elem is not None else None, scr)
    if elem.depth() >= 3:
        return Val(E, elem.all, deps, unord, lossy, (), None, scr | elem.orders)
    return Val(E, E, deps, unord, lossy, (), elem, scr)


def insert(x, depth, v):
    """x after v was put into the container `depth` levels below it"""
    if depth <= 0:
        if v.depth() >= 3:
            return x.but(inner=x.inner | v.all)
        return x.but(elem=v if x.elem is None else x.elem | v)
    return x.but(elem=insert(x.elem if x.elem is not None else Val(), depth - 1, v)) if depth <= 3 \
        else x.but(inner=x.inner | v.all)


def reorder(x, depth, un, sc):
    """x after the container `depth` levels below it was filled in the given order"""
    if not un and not sc or depth > 3:
        return x
    if depth <= 0:
        return x.but(unord=x.unord | un, scr=x.scr | sc)
    return x.but(elem=reorder(x.elem if x.elem is not None else Val(), depth - 1, un, sc))


def held(inst):
    out = E
    for _, vals in inst:
        for v in vals.values():
            out |= v.all
    return out


def star(t):
    return t if t[-1] == '*' else t + ('*',)


NONE = Val()


class FuncInfo:
    def __init__(self, mod, node, cls=None, qual=None):
        self.mod, self.node, self.cls, self.qual = mod, node, cls, qual
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        decos = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else
                 (d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else
                  d.func.attr if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) else '')
                 for d in getattr(node, 'decorator_list', [])]
        self.decos = decos
        self.static = 'staticmethod' in decos
        self.classm = 'classmethod' in decos
        self.prop = 'property' in decos or 'cached_property' in decos
        self.method = cls is not None and not self.static

    @property
    def params(self):
        return self.pos + self.kwonly

    @property
    def self_name(self):
        return self.pos[0] if self.method and self.pos else None

    @property
    def name(self):
        return self.mod.name + '.' + self.qual


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.methods = {}
        self.bases = []
        self.subs = []

    @property
    def name(self):
        return self.mod.name + '.' + self.qual


class Index:
    """functions and classes of the package, and how names resolve to them"""

    def __init__(self, src):
        self.src = src
        self.funcs = {}       # (mod, qual) -> FuncInfo
        self.classes = {}     # (mod, qual) -> ClassInfo
        self.by_node = {}
        self.methods = {}     # name -> [FuncInfo]
        for m in src.modules.values():
            if m.test:
                continue
            self._scan(m, m.tree.body, '', None)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                    r.subs.append(c)

        # attributes that only ever hold a newly computed array of numbers
        self.own_attrs, other = set(), set()
        for m in src.modules.values():
            if m.test:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                own = isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Div, ast.Pow)) and x is t
                                (self.own_attrs if own else other).add(x.attr)
                elif isinstance(n, ast.ClassDef):
                    other |= {x.name for x in n.body if hasattr(x, 'name')} | {y.id for x in n.body if isinstance(x, ast.Assign) for y in x.targets if isinstance(y, ast.Name)}
        self.own_attrs -= other

    def _scan(self, m, body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(m, n, cls, pre + n.name)
                self.funcs[m.name, f.qual] = f
                self.by_node[n] = f
                if cls is not None:
                    cls.methods[n.name] = f
                    self.methods.setdefault(n.name, []).append(f)
                self._scan_inner(m, n, pre + n.name + '.')
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo(m, n, pre + n.name)
                self.classes[m.name, c.qual] = c
                self._scan(m, n.body, pre + n.name + '.', c)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scan(m, getattr(n, fld, []), pre, cls)
                for h in getattr(n, 'handlers', []):
                    self._scan(m, h.body, pre, cls)

    def _scan_inner(self, m, fn, pre):
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, ast.FunctionDef) and n not in self.by_node:
                self.by_node[n] = FuncInfo(m, n, None, pre + n.name)

    # ---- names -------------------------------------------------------------
    def resolve_dotted(self, dotted, seen=()):
        """'flavio.a.b.name' -> FuncInfo | ClassInfo | ('mod', name) | None"""
        if dotted in seen:
            return None
        mods = self.src.modules
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in mods:
                rest = parts[i:]
                if not rest:
                    return ('mod', mn)
                r = self.module_attr(mn, rest[0], seen + (dotted,))
                for p in rest[1:]:
                    if isinstance(r, tuple) and r[0] == 'mod':
                        r = self.module_attr(r[1], p, seen + (dotted,))
                    elif isinstance(r, ClassInfo):
                        r = self.method(r, p)
                    else:
                        return None
                return r
        return None

    def module_attr(self, mn, name, seen=()):
        if (mn, name) in self.funcs:
            return self.funcs[mn, name]
        if (mn, name) in self.classes:
            return self.classes[mn, name]
        if mn + '.' + name in self.src.modules:
            return ('mod', mn + '.' + name)
        m = self.src.modules[mn]
        for n in m.tree.body:
            if isinstance(n, ast.ImportFrom):
                b = self.src.resolve(m, n)
                for a in n.names:
                    if a.name == '*':
                        if b in self.src.modules and b not in seen:
                            r = self.module_attr(b, name, seen + (mn, b))
                            if r is not None:
                                return r
                    elif (a.asname or a.name) == name:
                        return self.resolve_dotted(b + '.' + a.name, seen)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        return self.resolve_dotted(a.name if a.asname else a.name.split('.')[0], seen)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and n.targets[0].id == name and isinstance(n.value, (ast.Name, ast.Attribute)):
                return self.resolve_expr(m, n.value, seen + (mn + '.' + name,))
        return None

    def instance_class(self, mn, name, seen=()):
        m = self.src.modules.get(mn)
        if m is None or (mn, name) in seen:
            return None
        seen = seen + ((mn, name),)
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
                    and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                r = self.resolve_expr(m, n.value.func)
                return r if isinstance(r, ClassInfo) else None
            if isinstance(n, ast.ImportFrom):
                b = self.src.resolve(m, n)
                for a in n.names:
                    if a.name == '*' or (a.asname or a.name) == name:
                        r = self.instance_class(b, name if a.name == '*' else a.name, seen)
                        if r is not None:
                            return r
        return None

    def dotted(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            return [n.id] + parts[::-1]
        return None

    def resolve_expr(self, m, n, seen=()):
        d = self.dotted(n)
        if not d:
            return None
        o = self.src.origin(m, d[0])
        if o is not None:
            return self.resolve_dotted('.'.join([o] + d[1:]), seen)
        r = self.module_attr(m.name, d[0], seen)
        for p in d[1:]:
            if isinstance(r, tuple) and r[0] == 'mod':
                r = self.module_attr(r[1], p, seen)
            elif isinstance(r, ClassInfo):
                r = self.method(r, p)
            else:
                return None
        return r

    def mro(self, c, seen=None):
        out = [c]
        for b in c.bases:
            for x in self.mro(b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            ms = ms[1:]
        for x in ms:
            if name in x.methods:
                return x.methods[name]
        return None

    def all_subs(self, c):
        out = []
        for s in c.subs:
            out.append(s)
            out += self.all_subs(s)
        return out

    def targets(self, f, call, env=None):
        """(list of FuncInfo, offset of bound arguments) a call may reach inside the package"""
        fn = call.func
        if isinstance(fn, ast.Name):
            if env is not None and fn.id in env:
                return []
            r = self.resolve_expr(f.mod, fn)
            if isinstance(r, FuncInfo):
                return [r]
            if isinstance(r, ClassInfo):
                i = self.method(r, '__init__')
                return [i] if i else []
            if fn.id == 'cls' and f.classm and f.cls is not None:
                i = self.method(f.cls, '__init__')
                return [i] if i else []
            return []
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls:
                r = self.method(f.cls, fn.attr, after=True)
                return [r] if r else []
            if isinstance(v, ast.Name) and f.self_name == v.id and f.cls is not None:
                r = self.method(f.cls, fn.attr)
                out = [r] if r else []
                for s in self.all_subs(f.cls):
                    if fn.attr in s.methods:
                        out.append(s.methods[fn.attr])
                return out
            r = self.resolve_expr(f.mod, fn)
            if isinstance(r, FuncInfo):
                return [r]
            if isinstance(r, ClassInfo):
                i = self.method(r, '__init__')
                return [i] if i else []
            d = self.dotted(fn)
            if d and env is not None and d[0] not in env and self.src.origin(f.mod, d[0]) is not None \
                    and not self.src.origin(f.mod, d[0]).startswith('flavio'):
                return []       # external library
            if fn.attr in COMMON:
                return []
            return [g for g in self.methods.get(fn.attr, []) if self.fits(g, call)]
        return []

    def fits(self, g, call):
        """can the call bind to g as a method (right number and names of arguments)?"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return True
        pos = g.pos[1:] if g.method else g.pos
        if len(call.args) > len(pos) and not g.vararg:
            return False
        kws = [k.arg for k in call.keywords]
        if not g.kwarg and any(k not in pos and k not in g.kwonly for k in kws):
            return False
        given = set(pos[:len(call.args)]) | set(kws)
        return all(p in given or p in g.defaults for p in pos + g.kwonly)

    def bind(self, g, call, bound=None, mod=None):
        """argument expressions by parameter name: {param: expr}, list of * / ** expressions"""
        pos = list(g.pos)
        if bound is None:
            bound = g.method and not self._unbound(g, call, mod)
        if bound and pos:
            pos = pos[1:]
        out, stars = {}, []
        i = 0
        extra = []
        for a in call.args:
            if isinstance(a, ast.Starred):
                stars.append(a.value)
                i = len(pos)
                continue
            if i < len(pos):
                out[pos[i]] = a
            else:
                extra.append(a)
            i += 1
        for k in call.keywords:
            if k.arg is None:
                stars.append(k.value)
            elif k.arg in g.params:
                out[k.arg] = k.value
            else:
                extra.append(k.value)
        return out, stars, extra

    def _unbound(self, g, call, mod=None):
        # Class.method(self, ...): the receiver is passed explicitly
        fn = call.func
        if isinstance(fn, ast.Attribute) and not g.classm and mod is not None:
            return isinstance(self.resolve_expr(mod, fn.value), ClassInfo) \
                and not isinstance(self.resolve_expr(mod, fn), ClassInfo)
        return False


class Summary:
    def __init__(self):
        self.mut = {}       # (token, id of the modifying node) -> (node, how, (function, node, how) of origin)
        self.ret = NONE
        self.rets = []
        self.draws = []     # random numbers drawn in a loop: (node, order tokens of the loop)
        self.vals = {}      # id of an expression -> its value
        self.writes = []    # values written out: (node, order tokens)
        self.calls = []     # (node, FuncInfo, binding)
        self.stores = []    # (node, path string, Val, control deps)
        self.selfattrs = {} # attribute of self -> Val assigned to it


class Analyzer:
    def constant(self, mod, name):
        """is the module level name only ever bound to numbers or strings?"""
        if mod.name not in self.consts:
            good, bad = set(), set()
            simple = {id(t): n.value for n in ast.walk(mod.tree) if isinstance(n, ast.Assign) for t in n.targets}
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    (good if id(n) in simple and immutable(simple[id(n)]) else bad).add(n.id)
                elif isinstance(n, ast.Global):
                    bad |= set(n.names)
            self.consts[mod.name] = good - bad
        return name in self.consts[mod.name]

    def __init__(self, src):
        self.ix = src.index() if hasattr(src, 'index') else Index(src)
        self.src = src
        self.memo = {}
        self.consts = {}
        self.gclass = {}
        self.busy = set()
        self.origins = []       # order tokens ('o', i) -> (FuncInfo, node, text)
        self.origin_of = {}
        self.modenvs = {}
        self.attr_order = {}    # (class, attribute) -> [order tokens as a set, as a sequence]

    def origin(self, f, node, text):
        k = id(node)
        if k not in self.origin_of:
            self.origin_of[k] = ('o', len(self.origins))
            self.origins.append((f, node, text))
        return frozenset([self.origin_of[k]])

    def attr_orders(self):
        """(module, class, attribute) -> order tokens of the values stored there, as [sets, sequences]"""
        if not self.attr_order:
            for f in self.ix.by_node.values():
                if f.cls is None:
                    continue
                for a, v in self.summary(f).selfattrs.items():
                    o = self.attr_order.setdefault((f.cls.mod.name, f.cls.qual, a), [set(), set()])
                    o[0] |= v.unord
                    o[1] |= v.orders
        return self.attr_order

    def resolve_order(self, toks, cls=None, seen=frozenset()):
        """construction sites behind order tokens"""
        out = set()
        for t in toks:
            if t[0] == 'o':
                out.add(t)
                continue
            if t[0] in ('ss', 'su') and cls is not None:
                t = (t[0][1], cls.mod.name, cls.qual, t[1])
            if t[0] not in ('s', 'u') or t in seen:
                continue
            c = self.ix.classes.get(t[1:3])
            if c is None:
                continue
            for k in self.ix.mro(c) + self.ix.all_subs(c):
                o = self.attr_orders().get((k.mod.name, k.qual, t[3]))
                if o:
                    out |= self.resolve_order(o[0] if t[0] == 'u' else o[1], k, seen | {t})
        return out

    def modenv(self, m):
        """values of the module level names"""
        if m.name not in self.modenvs:
            self.modenvs[m.name] = {}
            nd = ast.parse('def _module(): pass').body[0]
            nd.body = [x for x in m.tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                                                    ast.ImportFrom))]
            f = FuncInfo(m, nd, None, '<module>')
            r = Run(self, f, Summary())
            r.run()
            self.modenvs[m.name] = r.env
        return self.modenvs[m.name]

    def switches(self, g):
        """parameters of g that are never changed and that it compares with constants"""
        if not hasattr(g, 'switch'):
            ps = set(g.pos + g.kwonly)
            stored = {x.id for x in ast.walk(g.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
            g.switch = set()
            for x in ast.walk(g.node):
                if isinstance(x, (ast.If, ast.IfExp)):
                    for y in ast.walk(x.test):
                        if isinstance(y, ast.Name) and y.id in ps and y.id not in stored:
                            g.switch.add(y.id)
        return g.switch

    def summary(self, f, consts=()):
        k = (id(f.node), consts)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return Summary()
        self.busy.add(k)
        s = Summary()
        Run(self, f, s, dict(consts)).run()
        self.busy.discard(k)
        self.memo[k] = s
        return s


def immutable(e):
    """number or string (or a tuple of them)"""
    return all(isinstance(x, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.operator, ast.unaryop, ast.expr_context)) for x in ast.walk(e))


class Run:
    def __init__(self, an, f, s, consts={}):
        self.an, self.ix, self.f, self.s = an, an.ix, f, s
        self.consts = consts    # parameters known to have a constant value
        self.env = {}
        self.ctrl = [E]
        self.loops = []     # order tokens of the enclosing loops
        self.nested = {}
        self.inlining = []

    def run(self):
        f = self.f
        for p in f.pos + f.kwonly:
            t = ('s',) if p == f.self_name and not f.classm else ('p', p)
            self.env[p] = Val(frozenset([t]), frozenset([star(t)]), frozenset([t]),
                              frozenset([('pu', p)]), scr=frozenset([('ps', p)]))
        if f.vararg:
            t = ('p', f.vararg, '*')
            self.env[f.vararg] = Val(E, frozenset([t]), frozenset([('p', f.vararg)]))
        if f.kwarg:
            t = ('p', f.kwarg, '*')
            self.env[f.kwarg] = Val(E, frozenset([t]), frozenset([('p', f.kwarg)]))
        self.block(f.node.body if isinstance(f.node.body, list) else [ast.Return(value=f.node.body)])
        r = NONE
        for v in self.s.rets:
            r = r | v
        self.s.ret = r

    # ---- statements ----------------------------------------------------------
    def block(self, body):
        for st in body:
            self.stmt(st)
            if self.consts and isinstance(st, ast.If) and self.decide(st.test) is not None \
                    and ends(st.body if self.decide(st.test) else st.orelse):
                break

    def cdeps(self):
        return self.ctrl[-1]

    def push(self, d):
        self.ctrl.append(self.ctrl[-1] | d)

    def stmt(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m:
            m(n)

    def s_Expr(self, n):
        self.ev(n.value)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v, n)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value), n)

    def s_AugAssign(self, n):
        v = self.ev(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            o = self.env.get(t.id, NONE)
            # += on a list or array changes the object; on numbers and strings it does not
            if o.top and isinstance(n.value, (ast.List, ast.ListComp, ast.Tuple)):
                self.mutate(o, n, '%s= on' % opname(n.op))
            elif o.top and not isinstance(n.value, ast.Constant) and not stringy(n.value):
                # an argument may be a plain number unless it is used as an array somewhere
                arr = {base_name(x.value) for x in ast.walk(self.f.node) if isinstance(x, ast.Subscript) or isinstance(x, ast.Attribute)} \
                    | {base_name(x.iter) for x in ast.walk(self.f.node) if isinstance(x, (ast.For, ast.comprehension))}
                self.mutate(o.but(top=frozenset(t for t in o.top if t[0] != 'p' or len(t) > 2 or t[1] in arr)), n, '%s= on' % opname(n.op))
            x = (o | v).with_deps(self.cdeps())
            if self.loops and (o.elem is not None or v.elem is not None or stringy(n.value)):
                x = x.scrambled(self.loop_order())
            self.env[t.id] = x
        else:
            o = self.ev(t.value)
            self.mutate(o, n, 'augmented assignment to an element of')
            self.store_path(t, o | v, n)

    def s_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        if self.loops and n.value is not None:
            v = v.scrambled(self.loop_pick(n.value))
        self.s.rets.append(v.with_deps(self.cdeps()))

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                self.mutate(self.ev(t.value), n, 'del on')

    def decide(self, t):
        """truth of a test on parameters with constant values (None if open)"""
        if not self.consts:
            return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.decide(t.operand)
            return None if x is None else not x
        if isinstance(t, ast.Name) and t.id in self.consts:
            return bool(self.consts[t.id])
        if isinstance(t, ast.BoolOp):
            xs = [self.decide(x) for x in t.values]
            stop = isinstance(t.op, ast.Or)
            return stop if stop in xs else None if None in xs else not stop
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.consts:
            v, c = self.consts[t.left.id], t.comparators[0]
            if isinstance(c, ast.Constant) and isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return v == c.value
            if isinstance(c, ast.Constant) and isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return v != c.value
            if isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts) \
                    and isinstance(t.ops[0], (ast.In, ast.NotIn)):
                return (v in [x.value for x in c.elts]) == isinstance(t.ops[0], ast.In)
        return None

    def constants(self, g, b, stars):
        """the constants a call gives to the parameters g tests"""
        out = []
        for p in sorted(self.an.switches(g)):
            e = b.get(p)
            if e is None and not stars:
                e = g.defaults.get(p) if isinstance(g.defaults, dict) else None
            if isinstance(e, ast.Name) and e.id in self.consts:
                out.append((p, self.consts[e.id]))
            elif isinstance(e, ast.Constant) and (e.value is None or isinstance(e.value, (str, bool, int))):
                out.append((p, e.value))
        return tuple(out)

    def s_If(self, n):
        dec = self.decide(n.test)
        if dec is not None:
            self.ev(n.test)
            self.narrow(n.test, dec)
            self.block(n.body if dec else n.orelse)
            return
        t = self.ev(n.test)
        self.push(t.deps)
        e0 = dict(self.env)
        self.narrow(n.test, True)
        self.block(n.body)
        e1 = self.env
        self.env = dict(e0)
        self.narrow(n.test, False)
        self.block(n.orelse)
        e2 = self.env
        self.ctrl.pop()
        t1, t2 = ends(n.body), ends(n.orelse)
        if t1 and t2:
            pass
        elif t1:
            self.env = e2
        elif t2:
            self.env = e1
        else:
            self.env = join(e1, e2)

    def narrow(self, test, pos):
        """`if x is None` / `if isinstance(x, ...)`: x is None has no identity to share"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not pos)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is) == pos
            if isnone and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and test.left.id in self.env:
                o = self.env[test.left.id]
                self.env[test.left.id] = Val(E, E, o.deps)
        if pos and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' \
                and len(test.args) == 2 and isinstance(test.args[0], ast.Name) and test.args[0].id in self.env:
            t = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if t and all(isinstance(x, ast.Name) and x.id in ('str', 'int', 'float', 'bool', 'complex', 'bytes') for x in t):
                o = self.env[test.args[0].id]
                self.env[test.args[0].id] = Val(E, E, o.deps)       # nothing in it can be changed
        if pos and isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for x in test.values:
                self.narrow(x, True)

    def s_For(self, n):
        it = self.ev(n.iter)
        self.push(it.deps)
        self.loops.append((it.order, assigned(n)))
        for _ in range(2):
            e0 = dict(self.env)
            self.assign(n.target, self.elem_of(n.iter, it), n)
            self.counted(n)
            self.block(n.body)
            self.env = join(e0, self.env)
        self.loops.pop()
        if it.order and any(isinstance(x, ast.Break) for st in n.body for x in ast.walk(st)):
            # which element the loop stopped at depends on the order
            names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            for st in n.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names
                                                         for y in ast.walk(x.value)):
                        names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            for k in names:
                if k in self.env:
                    self.env[k] = self.env[k].scrambled(it.order)
        self.block(n.orelse)
        self.ctrl.pop()

    def counted(self, n):
        """for i, x in enumerate(<unordered>): which i belongs to which x is arbitrary"""
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and n.iter.args \
                and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            o = self.ev(n.iter.args[0]).order
            k = n.target.elts[0].id
            if o and k in self.env:
                self.env[k] = self.env[k].scrambled(o)

    def loop_order(self):
        out = E
        for o, _ in self.loops:
            out |= o
        return out

    def loop_pick(self, expr):
        """order tokens of the loops whose variables the expression mentions"""
        used = {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}
        out = E
        for o, names in self.loops:
            if used & names:
                out |= o
        return out

    def elem_of(self, expr, it):
        return it.part.with_deps(self.cdeps())

    def s_While(self, n):
        t = self.ev(n.test)
        self.push(t.deps)
        for _ in range(2):
            e0 = dict(self.env)
            self.block(n.body)
            self.env = join(e0, self.env)
        self.block(n.orelse)
        self.ctrl.pop()

    def s_With(self, n):
        for i in n.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, n)
        self.block(n.body)

    def s_Try(self, n):
        e0 = dict(self.env)
        self.block(n.body)
        e1 = self.env
        self.block(n.orelse)
        e1 = self.env
        out = e1
        for h in n.handlers:
            self.env = join(dict(e0), e1)
            if h.name:
                self.env[h.name] = NONE
            self.block(h.body)
            if not ends(h.body):
                out = join(out, self.env)
        self.env = out
        self.block(n.finalbody)

    def s_FunctionDef(self, n):
        # closures: analyse the body in the present environment
        self.nested[n.name] = n
        self.env[n.name] = NONE
        self.closure(n)

    def closure(self, n, vals=None):
        vals = vals or {}
        save, srets, sctrl = self.env, self.s.rets, self.ctrl
        self.env = dict(save)
        self.s.rets = []
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = vals.get(x.arg, NONE)
        for x in (a.vararg, a.kwarg):
            if x:
                self.env[x.arg] = NONE
        if isinstance(n, ast.Lambda):
            r = self.ev(n.body)
        else:
            self.block(n.body)
            r = NONE
            for v in self.s.rets:
                r = r | v
        self.env, self.s.rets, self.ctrl = save, srets, sctrl
        if not isinstance(n, ast.Lambda) and not vals and n.name in save:
            self.env[n.name] = Val(E, E, r.deps)
        return r

    def s_ClassDef(self, n):
        pass

    def s_Raise(self, n):
        for x in (n.exc, n.cause):
            if x is not None:
                self.ev(x)

    def s_Assert(self, n):
        self.ev(n.test)

    def s_Global(self, n):
        for x in n.names:
            self.env[x] = self.glob(x)

    # ---- assignment ------------------------------------------------------------
    def assign(self, t, v, n):
        if isinstance(t, ast.Name):
            self.env[t.id] = v.with_deps(self.cdeps())
            for k in [k for k in self.env if k.startswith(t.id + '[') or k.endswith('[@%s]' % t.id)]:
                del self.env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            src = n.value if isinstance(n, ast.Assign) else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                    self.assign(e, self.ev(src.elts[i]), ast.Pass())
                else:
                    self.assign(e, v.part, ast.Pass())
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, n)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            o = self.ev(t.value)
            if isinstance(t, ast.Subscript):
                self.ev(t.slice)
            self.mutate(o, t, 'assignment to an element of' if isinstance(t, ast.Subscript)
                        else 'assignment to attribute %s of' % t.attr)
            self.store_path(t, v, n)
            # the container now holds the value
            b = base_name(t)
            if b in self.env:
                x = self.env[b]
                x = insert(x, levels(t) - 1, v)
                ks = self.ev(t.slice).orders if isinstance(t, ast.Subscript) else E
                self.env[b] = x.but(deps=x.deps | v.deps | self.cdeps(), lossy=x.lossy | v.lossy,
                                    unord=x.unord | self.loop_order() if isinstance(t, ast.Subscript) else x.unord,
                                    scr=x.scr | ks)
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    for k in [k for k in self.env if k.startswith(b + '[') and ('[@' in k or field(t) is None or '[@' in field(t))]:
                        del self.env[k]     # may be the same entry
                    if field(t):
                        self.env[field(t)] = v.with_deps(self.cdeps())
                elif field(t.value) in self.env:
                    self.env[field(t.value)] = insert(self.env[field(t.value)], 0, v)

    def store_path(self, t, v, n):
        p = path(t)
        if p:
            self.s.stores.append((t, p, v, self.cdeps()))
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                and self.env.get(t.value.id, NONE).top == frozenset([('s',)]):
            a = self.s.selfattrs
            a[t.attr] = a[t.attr] | v if t.attr in a else v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) \
                and isinstance(t.value.value, ast.Name) \
                and self.env.get(t.value.value.id, NONE).top == frozenset([('s',)]):
            a = self.s.selfattrs
            x = box(v, v.deps, self.loop_order(), E, self.ev(t.slice).orders)
            k = t.value.attr
            a[k] = a[k] | x if k in a else x

    def mutate(self, o, node, how):
        for t in o.top:
            self.s.mut.setdefault((t, id(node)), (node, how, (self.f, node, how)))

    # ---- expressions -----------------------------------------------------------
    def ev(self, n):
        if n is None:
            return NONE
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m:
            v = m(n)
            self.s.vals[id(n)] = v
            return v
        v = NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                x = self.ev(c)
                v = Val(E, E, v.deps | x.deps, E, v.lossy | x.lossy, scr=v.scr | x.orders)
        return v

    def e_JoinedStr(self, n):
        v = NONE
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                y = self.ev(x.value)
                v = Val(E, E, v.deps | y.deps, E, v.lossy | y.lossy, scr=v.scr | y.orders | y.unord)
        return v

    def glob(self, name):
        o = self.an.src.origin(self.f.mod, name)
        d = o if o else self.f.mod.name + '.' + name
        if o is not None and not o.startswith('flavio'):
            return NONE
        r = self.ix.resolve_expr(self.f.mod, ast.Name(id=name, ctx=ast.Load()))
        if isinstance(r, FuncInfo):
            return NONE
        if name in __builtins__ if isinstance(__builtins__, dict) else hasattr(__builtins__, name):
            if o is None and name not in self.an.src.module_names(self.f.mod):
                return NONE
        t = ('g', d)
        un = sc = E
        if o is None and self.an.constant(self.f.mod, name):
            return Val(E, E, frozenset([t]))
        if o is None and self.f.qual != '<module>':
            v = self.an.modenv(self.f.mod).get(name, NONE)
            un, sc = v.unord, v.scr
        return Val(frozenset([t]), frozenset([star(t)]), frozenset([t]), un, scr=sc)

    def e_Name(self, n):
        if n.id in self.env:
            v = self.env[n.id]
            if self.f.self_name == n.id and self.f.cls is not None and self.f.node.name != '__iter__':
                g = self.ix.method(self.f.cls, '__iter__')
                if g is not None:
                    v = v.but(unord=v.unord | self.an.summary(g).ret.orders)
            return v
        return self.glob(n.id)

    def e_Constant(self, n):
        return NONE

    def e_Attribute(self, n):
        o = self.ev(n.value)
        if o.inst and not o.top:
            v = NONE
            for c, vals in o.inst:
                g = self.ix.method(c, n.attr)
                if g is not None and g.prop:
                    v = v | self.apply(g, {g.pos[0]: o}, NONE, n)
            return (v | self.attr_of(o, n.attr)).with_deps(o.deps)
        # modules: keep the dotted name
        if len(o.top) == 1:
            (t,) = o.top
            if t[0] == 'g' and len(t) == 2:
                d = t[1] + '.' + n.attr
                r = self.ix.resolve_dotted(d)
                if isinstance(r, FuncInfo):
                    return NONE
                if self.is_mod(t[1]):
                    t2 = ('g', d)
                    return Val(frozenset([t2]), frozenset([star(t2)]), frozenset([t2]))
            if t == ('s',):
                # a property of the same class is a computed value
                if self.f.cls is not None:
                    g = self.ix.method(self.f.cls, n.attr)
                    if g is not None and g.prop:
                        return self.apply(g, {g.pos[0]: o}, NONE, n)
                t2 = ('s', n.attr)
                v = Val(frozenset([t2]), frozenset([star(t2)]), frozenset([t2]),
                        frozenset([('su', n.attr)]), scr=frozenset([('ss', n.attr)]))
                if n.attr in self.s.selfattrs:
                    v = v | self.s.selfattrs[n.attr]
                return v
            if t[0] == 'p' and len(t) == 2:
                t2 = ('p', t[1], '*')
                gs = [g for g in self.ix.methods.get(n.attr, []) if g.prop]
                if gs and n.attr not in COMMON:
                    v = NONE
                    for g in gs:
                        v = v | self.apply(g, {g.pos[0]: o}, NONE, n)
                    return v.with_deps(o.deps)
                return Val(frozenset([t2]), frozenset([t2]), o.deps)
        gs = [g for g in self.ix.methods.get(n.attr, []) if g.prop]
        if gs and n.attr not in COMMON:
            v = NONE
            for g in gs:
                v = v | self.apply(g, {g.pos[0]: o}, NONE, n)
            return v.with_deps(o.deps)
        if n.attr == 'T':
            return o
        if not o.top and n.attr in self.ix.own_attrs:
            return Val(E, E, o.deps)    # part of a new object
        return o.part

    def is_mod(self, d):
        r = self.ix.resolve_dotted(d)
        return isinstance(r, tuple) and r[0] == 'mod'

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = field(n)
        if k in self.env and not o.top:
            return self.env[k]
        i = self.ev(n.slice)
        r = o.part
        if isinstance(n.slice, ast.Slice):
            r = r | Val(E, o.inner, E, o.unord, E, (), o.elem, o.scr)
        elif not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
            r = r.scrambled(o.scr)
        return r.but(deps=r.deps | i.deps, lossy=r.lossy | i.lossy)

    def e_Slice(self, n):
        v = NONE
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                v = v | self.ev(x)
        return Val(E, E, v.deps)

    def coll(self, elts, unord=E):
        x, d, l, sc = Val(), E, E, E
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                sc |= v.order
                v = v.part
            else:
                v = self.ev(e)
            x = x | v
            d |= v.deps
            l |= v.lossy
        return box(x, d, unord, l, E if unord else sc)

    def e_List(self, n):
        return self.coll(n.elts)

    def e_Tuple(self, n):
        return self.coll(n.elts)

    def e_Set(self, n):
        return self.coll(n.elts, self.an.origin(self.f, n, 'a set'))

    def e_Dict(self, n):
        y, d, l, un, sc = Val(), E, E, E, E
        for k, v in zip(n.keys, n.values):
            x = self.ev(v)
            if k is None:
                un |= x.order
                x = x.part
            else:
                kd = self.ev(k)
                d |= kd.deps
                sc |= kd.orders
            y = y | x
            d |= x.deps
            l |= x.lossy
        return box(y, d, un, l, sc)

    def comp(self, n, leaf):
        save = dict(self.env)
        d = E
        un = E
        for g in n.generators:
            it = self.ev(g.iter)
            un |= it.order
            self.loops.append((it.order, assigned(g)))
            d |= it.deps
            self.assign(g.target, self.elem_of(g.iter, it), n)
            self.counted(g)
            for c in g.ifs:
                d |= self.ev(c).deps
        v = leaf()
        del self.loops[len(self.loops) - len(n.generators):]
        self.env = save
        return v, d, un

    def e_ListComp(self, n):
        v, d, un = self.comp(n, lambda: self.ev(n.elt))
        return box(v, v.deps | d, E, v.lossy, un)

    def e_GeneratorExp(self, n):
        v, d, un = self.comp(n, lambda: self.ev(n.elt))
        return box(v, v.deps | d, E, v.lossy, un)

    def e_SetComp(self, n):
        v, d, un = self.comp(n, lambda: self.ev(n.elt))
        return box(v, v.deps | d, self.an.origin(self.f, n, 'a set'), v.lossy)

    def e_DictComp(self, n):
        def leaf():
            k = self.ev(n.key)
            v = self.ev(n.value)
            keys.append(k.orders)
            return v.with_deps(k.deps)
        keys = []
        v, d, un = self.comp(n, leaf)
        return box(v, v.deps | d, un, v.lossy, keys[0])

    def e_Lambda(self, n):
        r = self.closure(n)
        return Val(E, E, r.deps)

    def e_IfExp(self, n):
        dec = self.decide(n.test)
        if dec is not None:
            return self.ev(n.body if dec else n.orelse)
        t = self.ev(n.test)
        e0 = dict(self.env)
        self.narrow(n.test, True)
        a = self.ev(n.body)
        self.env = dict(e0)
        self.narrow(n.test, False)
        b = self.ev(n.orelse)
        self.env = e0
        return (a | b).with_deps(t.deps)

    def e_BoolOp(self, n):
        v = NONE
        for x in n.values:
            v = v | self.ev(x)
        return v

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        un = E
        sc = a.scr | b.scr
        if isinstance(n.op, SETOPS):
            un = a.unord | b.unord
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items')
                   and not x.args for x in (n.left, n.right)):
                un = un | self.an.origin(self.f, n, 'a set')
                sc = E
        if isinstance(n.op, ast.Mod) and stringy(n.left):
            sc = sc | a.orders | b.orders | b.unord
        if any(t[0] == 'o' for t in un) or a.elem is not None or b.elem is not None:
            return box(a.part | b.part, a.deps | b.deps, un, a.lossy | b.lossy, sc)
        return Val(E, E, a.deps | b.deps, un, a.lossy | b.lossy, scr=sc)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        return Val(E, E, v.deps, E, v.lossy, scr=v.scr)

    def e_Compare(self, n):
        d = self.ev(n.left).deps
        for c in n.comparators:
            d |= self.ev(c).deps
        return Val(E, E, d)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value)
        self.s.rets.append(box(v, v.deps | self.cdeps(), scr=self.loop_order()))
        return NONE

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        self.s.rets.append(v)
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    # ---- calls -------------------------------------------------------------------
    def e_Call(self, n):
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in n.args]
        kws = [(k.arg, self.ev(k.value)) for k in n.keywords]
        alld, alll = E, E
        for v in args + [v for _, v in kws]:
            alld |= v.deps
            alll |= v.lossy
        fn = n.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
        recv = self.ev(fn.value) if isinstance(fn, ast.Attribute) else NONE
        if not isinstance(fn, (ast.Name, ast.Attribute)):
            recv = self.ev(fn)
            alld |= recv.deps
        argn = NONE
        for v in args + [v for _, v in kws]:
            argn = argn | v
        # sets, and what is made of their order
        if name.startswith('get_random') or '.random.' in '.'.join(self.ix.dotted(fn) or ()) or name == 'rvs':
            if self.loops:
                self.s.draws.append((n, self.loop_order()))
        if name in ('write', 'writelines', 'dump', 'savetxt', 'to_csv') and (argn.orders or argn.unord and name != 'dump'):
            self.s.writes.append((n, argn.orders))
        if name in ('set', 'frozenset') and isinstance(fn, ast.Name):
            return box(argn.part, alld, self.an.origin(self.f, n, 'a set'), alll)
        if name in SETMETHODS and (recv.unord or 'set' in (base_call(fn),)):
            return box(argn.part | recv.part, alld | recv.deps, recv.unord, alll | recv.lossy)
        if isinstance(fn, ast.Attribute) and name in ('listdir', 'scandir', 'glob', 'iglob', 'iterdir', 'rglob') and \
                (self.external(fn) or name in ('iterdir', 'rglob')) or name in ('imap_unordered', 'as_completed'):
            return Val(E, E, alld, E, alll, scr=self.an.origin(self.f, n, name + '()'))
        order = self.call_order(n, fn, name, recv, args, kws, argn)
        r = self.call(n, fn, name, recv, args, kws, argn, alld, alll)
        if isinstance(r, tuple):
            return r[1]         # a function of the package: from its summary
        if order is None:
            return r
        un, sc, keep = order
        e = r.elem
        if e is not None and keep:
            e = e.but(scr=e.scr | keep)
        elif e is None and keep:
            e = Val(scr=keep)
        return r.but(unord=un, scr=sc, elem=e)

    def call_order(self, n, fn, name, recv, args, kws, argn):
        """(is a set, order, order of its elements) of the result of a call to something outside the package"""
        if name in ('sum', 'prod', 'mean', 'min', 'max', 'any', 'all', 'std', 'var') and any(
                k.arg == 'axis' and not (isinstance(k.value, ast.Constant) and k.value.value in (0, None)) for k in n.keywords):
            return E, argn.scr | recv.scr, E        # the first axis remains
        if name in ('sorted', 'len', 'min', 'max', 'any', 'all', 'bool', 'isinstance', 'sum', 'prod', 'mean',
                    'isdisjoint', 'issubset', 'issuperset', 'callable', 'hash', 'int', 'float', 'count', 'type',
                    'deepcopy', 'copy', 'sort', 'has_key', 'startswith', 'endswith', 'hasattr', 'lexsort', 'argsort'):
            if name in ('deepcopy', 'copy'):
                x = args[0] if args else recv
                return x.unord, x.scr, E
            if name == 'sort' and isinstance(fn, ast.Attribute):
                b = base_name(fn.value)
                if b in self.env and isinstance(fn.value, ast.Name):
                    self.env[b] = self.env[b].but(scr=E, unord=E)
            return E, E, E
        if isinstance(fn, ast.Name):
            if name in ('list', 'tuple', 'iter', 'reversed', 'map', 'filter', 'array'):
                o = E
                for a in args:
                    o |= a.order
                return E, o, E
            if name == 'next' and args:
                return E, args[0].order, E
            if name == 'enumerate' and args:
                return E, args[0].order, args[0].order
            if name == 'zip':
                os = [a.order for a in args]
                o = frozenset().union(*os) if os else E
                common = frozenset.intersection(*os) if os else E
                return E, o, E if common or len(os) < 2 else o
            if name in ('dict', 'OrderedDict', 'defaultdict', 'Counter'):
                return argn.order, E, E
            if name in ('str', 'repr', 'format'):
                o = E
                for e, a in zip(n.args, args):
                    own = self.own_text(e, a)
                    o |= a.orders | a.unord if own is None else own
                return E, o, E
        if isinstance(fn, ast.Attribute):
            if name in ('items', 'keys', 'values') and not args:
                return recv.unord, recv.scr, E
            if name in ('join', 'format'):
                return E, argn.order | argn.orders | recv.scr, E
            if name in ('array', 'asarray', 'fromiter', 'map', 'imap', 'starmap', 'chain', 'from_iterable', 'concatenate'):
                return E, argn.order | argn.orders, E
            if name in ('OrderedDict', 'defaultdict', 'Counter'):
                return argn.order, E, E
            if name == 'pop' and not args:
                return E, recv.order, E
            if name in ('get', 'setdefault', 'pop'):
                return None
        if argn.scr or recv.scr:
            return E, argn.scr | recv.scr, E
        return None

    def own_text(self, e, a):
        """order visible in str() of an object of a class of the package that defines __str__"""
        out = None
        cs = [self.f.cls] if isinstance(e, ast.Name) and e.id == self.f.self_name and self.f.cls is not None \
            else [c for c, _ in a.inst] if not a.top else []
        for c in cs:
            g = self.ix.method(c, '__str__') or self.ix.method(c, '__repr__')
            if g is None:
                return None
            out = (out or E) | self.sub_order(self.an.summary(g).ret.orders, g, {g.pos[0]: a} if g.pos else {})
        return out

    def call(self, n, fn, name, recv, args, kws, argn, alld, alll):
        # dict.keys() of something behaves like an ordered view; set operators on it give sets
        tg = []
        if not (isinstance(fn, ast.Name) and fn.id in self.env and fn.id not in ('cls',)):
            tg = self.ix.targets(self.f, n, self.env)
        if isinstance(fn, ast.Attribute) and not tg and len(recv.top) == 1:
            c = self.global_class(next(iter(recv.top)))
            g = self.ix.method(c, name) if c is not None else None
            tg = [g] if g is not None else []
        if isinstance(fn, ast.Attribute) and recv.inst and not recv.top:
            tg = [g for g in (self.ix.method(c, name) for c, _ in recv.inst) if g is not None]
        ismod = isinstance(fn, ast.Attribute) and len(recv.top) == 1 and next(iter(recv.top))[0] == 'g' \
            and self.is_mod(next(iter(recv.top))[1])
        if tg:
            v = NONE
            for g in tg:
                b, stars, extra = self.ix.bind(g, n, mod=self.f.mod)
                vals = {p: self.ev_cached(e, n, args, kws) for p, e in b.items()}
                if g.method and not g.static and g.pos and g.pos[0] not in vals:
                    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) \
                            and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                        vals[g.pos[0]] = self.env.get(self.f.self_name, NONE)
                    elif g.node.name == '__init__' and name != '__init__':
                        vals[g.pos[0]] = Val(frozenset([('new',)]), frozenset([('new', '*')]))
                    else:
                        vals[g.pos[0]] = recv
                xs = NONE
                for e in stars:
                    xs = xs | self.ev(e)
                for e in extra:
                    x = self.ev(e)
                    xs = xs | x
                self.s.calls.append((n, g, b, stars))
                r = self.apply(g, vals, xs, n, self.constants(g, b, stars))
                if g.node.name == '__init__' and name != '__init__':
                    # a new instance: holds what was passed
                    held_by = {p: x for p, x in vals.items() if p != g.pos[0]}
                    if xs is not NONE:
                        held_by['*'] = xs
                    c = self.newclass(n) or g.cls
                    r = Val(E, E, alld, False, E, ((c, held_by),))
                v = v | r
            return 'package', v.with_deps(alld | recv.deps)
        # functions handed to map, partial, sorted, Pool.map ... are called by them
        for i, a in enumerate(n.args):
            if isinstance(a, (ast.Name, ast.Attribute, ast.Lambda)) and self.callable_of(a) is not None:
                if name == 'partial' and i == 0:
                    self.invoke(a, args[1:], dict(kws), n)
                elif name in ('map', 'imap', 'starmap', 'filter', 'apply_along_axis') and i == 0:
                    self.invoke(a, [x.part for x in args[1:]], {}, n)
                else:
                    self.invoke(a, [], {}, n)
        if isinstance(fn, ast.Name) and self.callable_of(fn) is not None:
            return 'package', self.invoke(fn, args, dict(kws), n).with_deps(alld)
        # external or unknown callee
        if isinstance(fn, ast.Attribute) and not ismod:
            if name in MUTATORS and isinstance(fn.value, ast.Name):
                for k in [k for k in self.env if k.startswith(fn.value.id + '[')]:
                    del self.env[k]
            if name in MUTATORS and recv.top and not self.external(fn):
                self.mutate(recv, n, '.%s() on' % name)
                if name in ('append', 'insert', 'extend') and len(recv.top) == 1:
                    (t,) = recv.top
                    if t[0] == 's' and len(t) == 2:
                        x = box(argn, argn.deps, E, E, self.loop_order() | (argn.order if name == 'extend' else E))
                        a = self.s.selfattrs
                        a[t[1]] = a[t[1]] | x if t[1] in a else x
                b = base_name(fn.value)
                if b in self.env and name in ('append', 'extend', 'insert', 'update', 'add', 'setdefault'):
                    self.put(b, fn, argn, name, alld, alll)
            elif name in MUTATORS:
                b = base_name(fn.value)
                if b in self.env and name in ('append', 'extend', 'insert', 'update', 'add', 'setdefault'):
                    self.put(b, fn, argn, name, alld, alll)
            if self.external(fn):
                if name in NP_INPLACE and args:
                    self.mutate(args[0], n, '%s() on' % name)
                if name in VIEWS and args:
                    return args[0].but(deps=alld, lossy=alll)
                if name == 'deepcopy':
                    return Val(E, E, alld, E, alll)
                if name in ('copy', 'chain', 'partial', 'from_iterable', 'OrderedDict', 'defaultdict', 'Counter'):
                    return box(argn.part, alld, E, alll)
                if name in ('array', 'zeros', 'insert', 'delete', 'sort', 'concatenate', 'append'):
                    return Val(E, E, alld, E, alll)
                return Val(E, E, alld, E, alll | self.lossy(name, n, args))
            if name in VIEW_METHODS:
                r = recv.part if name in ('get', 'pop', 'setdefault', '__getitem__', 'popitem') else recv
                l = recv.lossy | alll
                if name in ('keys', 'values') and any(t[0] == 'p' for t in recv.top):
                    l = l | frozenset([name + '()'])
                if name in ('items', 'keys', 'values'):
                    r = recv
                    if name == 'items':
                        r = box(box(recv.part))
                    elif name == 'values':
                        r = box(recv.part)
                elif name in ('get', 'pop', 'setdefault'):
                    r = r | argn
                return r.but(deps=recv.deps | alld, lossy=l)
            if name in ('copy', '__copy__'):
                return recv.shallow(recv.unord)
            return Val(E, E, recv.deps | alld, E, recv.lossy | alll)
        if name == 'deepcopy':
            return Val(E, E, alld, E, alll)
        if name in ('getattr',) and args:
            return args[0].part.with_deps(alld)
        if name in ('setattr', 'delattr') and args:
            self.mutate(args[0], n, '%s() on' % name)
            return NONE
        if name in ('vars',) and args:
            return args[0]
        if name in SHALLOW and args:
            l = alll | self.lossy(name, n, args)
            e = argn.part
            if name in ('dict', 'OrderedDict', 'defaultdict') and e.elem is not None and not e.top \
                    and any(isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.List, ast.Tuple)) for a in n.args):
                e = e.elem      # pairs
            return box(box(e) if name in ('zip', 'enumerate') else e, alld, E, l)
        if name in VIEWS and args:
            return args[0].but(deps=alld, lossy=alll)
        if isinstance(fn, ast.Name) and fn.id in self.env:
            alld = alld | self.env[fn.id].deps
        return Val(E, E, alld, E, alll | self.lossy(name, n, args))

    def callable_of(self, e):
        """the function an expression stands for: nested def, lambda or package function"""
        if isinstance(e, ast.Lambda):
            return e
        if isinstance(e, ast.Name) and e.id in self.nested:
            return self.nested[e.id]
        if isinstance(e, ast.Name) and e.id in self.env:
            return None
        r = self.ix.resolve_expr(self.f.mod, e)
        return r if isinstance(r, FuncInfo) else None

    def invoke(self, e, pos, kw, node):
        g = self.callable_of(e)
        if isinstance(g, FuncInfo):
            ps = g.pos[1:] if g.method else g.pos
            vals = dict(zip(ps, pos))
            vals.update({k: v for k, v in kw.items() if k in g.params})
            xs = NONE
            for v in pos[len(ps):]:
                xs = xs | v
            return self.apply(g, vals, xs, node)
        if len(self.inlining) > 3 or g in self.inlining:
            return NONE
        self.inlining.append(g)
        a = g.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(ps, pos))
        vals.update({k: v for k, v in kw.items() if k})
        r = self.closure(g, vals)
        self.inlining.pop()
        return r

    def put(self, b, fn, argn, name, alld, alll):
        x = self.env[b]
        x = insert(x, levels(fn.value), argn.part if name in ('extend', 'update') else argn)
        un = sc = E
        if name in ('append', 'insert', 'extend'):
            sc = self.loop_order()
            if name == 'extend':
                sc = sc | argn.order
        elif name in ('update', 'setdefault'):
            un = self.loop_order() | argn.order
        x = reorder(x, levels(fn.value), un, sc)
        self.env[b] = x.but(deps=x.deps | alld | self.cdeps(), lossy=x.lossy | alll)
        k = field(fn.value)
        if k in self.env:
            self.env[k] = insert(self.env[k], 0, argn)

    def counting(self, n):
        a = n.args[0]
        return isinstance(a, ast.GeneratorExp) and isinstance(a.elt, ast.Constant)

    def lossy(self, name, n, args):
        if name in ('hash', 'id', 'len', 'round', 'int', 'str', 'repr', 'type', 'bool', 'format', 'sum', 'any',
                    'all', 'min', 'max', 'around', 'rint', 'float32', 'mean'):
            return frozenset([name + '()'])
        if name in ('list', 'tuple', 'sorted', 'set', 'frozenset') and n.args and isinstance(n.args[0], ast.Name) \
                and ('p', n.args[0].id) in args[0].top:
            return frozenset(['%s(%s)' % (name, n.args[0].id)])
        return E

    def external(self, fn):
        """attribute of an imported third-party module"""
        d = self.ix.dotted(fn)
        if not d or d[0] in self.env:
            return False
        o = self.an.src.origin(self.f.mod, d[0])
        return o is not None and not o.startswith('flavio')

    def ev_cached(self, e, n, args, kws):
        for a, v in zip(n.args, args):
            if a is e:
                return v
        for k, (nm, v) in zip(n.keywords, kws):
            if k.value is e:
                return v
        return self.ev(e)

    def apply(self, g, vals, xs, node, consts=()):
        """effect of calling g with argument values vals (by parameter)"""
        s = self.an.summary(g, consts)
        for (t, i), (nd, how, root) in s.mut.items():
            for r in self.subst(t, g, vals, xs):
                self.s.mut.setdefault((r, i), (node, 'call of %s' % g.name, root))
        me = vals.get(g.pos[0]) if g.pos else None
        if me is not None and me.top == frozenset([('s',)]) and g.method:
            for a, x in s.selfattrs.items():
                x = self.sub_val(x, g, vals, xs)
                self.s.selfattrs[a] = self.s.selfattrs[a] | x if a in self.s.selfattrs else x
        return self.sub_val(s.ret, g, vals, xs)

    def subst(self, t, g, vals, xs):
        if t[0] == 'g' or t[0] == 'new':
            return frozenset([t]) if t[0] == 'g' else E
        if t[0] == 's':
            v = vals.get(g.pos[0], NONE) if g.pos else NONE
            if ('new',) in v.top:
                return E
            if t == ('s',):
                return v.top
            if v.top == frozenset([('s',)]):
                return frozenset([t])
            if v.inst and not v.top:
                return self.attr_of(v, t[1], t[-1] == '*').all
            return v.part.top
        p = t[1]
        if p == g.vararg or p == g.kwarg:
            return xs.all
        v = vals.get(p)
        if v is None:
            return xs.all if xs is not NONE else E
        if t[-1] == '*':
            return v.part.top
        return v.top

    def global_class(self, t):
        """class of a module level object built by calling its class"""
        if t[0] != 'g' or len(t) != 2:
            return None
        k = t[1]
        memo = self.an.gclass
        if k not in memo:
            memo[k] = None
            mn, _, nm = k.rpartition('.')
            memo[k] = self.ix.instance_class(mn, nm)
        return memo[k]

    def newclass(self, call):
        r = self.ix.resolve_expr(self.f.mod, call.func)
        if isinstance(r, ClassInfo):
            return r
        if isinstance(call.func, ast.Name) and call.func.id == 'cls' and self.f.classm:
            return self.f.cls
        return None

    def attr_of(self, v, attr, deep=False):
        """value of an attribute of a known new instance"""
        out = Val(E, E, v.deps)
        for c, vals in v.inst:
            init = self.ix.method(c, '__init__')
            if init is None:
                continue
            s = self.an.summary(init)
            a = s.selfattrs.get(attr)
            if a is None:
                if attr == '__dict__':
                    out = out | Val(E, held(((c, vals),)))
                continue
            xs = vals.get('*', NONE)
            vv = dict(vals)
            vv[init.pos[0]] = Val(frozenset([('new',)]), E)
            out = out | self.sub_val(a, init, vv, xs)
        return out.part if deep else out

    def sub_order(self, toks, g, vals):
        """order tokens of a summary of g in terms of the caller"""
        if not toks:
            return E
        out = E
        for t in toks:
            if t[0] in ('ps', 'pu'):
                v = vals.get(t[1])
                if v is not None:
                    out |= v.scr if t[0] == 'ps' else v.unord
            elif t[0] in ('ss', 'su'):
                v = vals.get(g.pos[0]) if g.pos else None
                if v is not None and v.top == frozenset([('s',)]):
                    out |= frozenset([t])
                elif v is not None and v.inst:
                    x = self.attr_of(v, t[1])
                    out |= x.scr if t[0] == 'ss' else x.unord
                elif g.cls is not None:
                    out |= frozenset([(t[0][1], g.cls.mod.name, g.cls.qual, t[1])])
            else:
                out |= frozenset([t])
        return out

    def sub_val(self, r, g, vals, xs):
        def sub(tokens):
            out = E
            for t in tokens:
                out |= self.subst(t, g, vals, xs)
            return out
        inst = tuple((c, {p: self.sub_val(x, g, vals, xs) for p, x in vs.items()}) for c, vs in r.inst)
        for t in r.top:
            if t[0] == 'p' and len(t) == 2 and t[1] in vals:
                inst = inst + vals[t[1]].inst
            elif t == ('s',) and g.pos and g.pos[0] in vals:
                inst = inst + vals[g.pos[0]].inst
        elem = self.sub_val(r.elem, g, vals, xs) if r.elem is not None else None
        v = Val(sub(r.top), sub(r.inner), sub(r.deps), self.sub_order(r.unord, g, vals), r.lossy, inst[:6], elem,
                self.sub_order(r.scr, g, vals))
        for t in r.top:
            # the argument itself, or something in it: keep what is known of it
            if t[0] == 'p' and t[1] in vals:
                x = vals[t[1]] if len(t) == 2 else vals[t[1]].part
                v = v | x.but(deps=E)
        return v


def field(t):
    """name of the entry of a local dictionary under a constant key or the value of a variable"""
    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant) \
            and isinstance(t.slice.value, str):
        return '%s[%r]' % (t.value.id, t.slice.value)
    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name):
        return '%s[@%s]' % (t.value.id, t.slice.id)
    return None


def levels(t):
    """how many attribute / element steps an expression is below its base name"""
    n = 0
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        n += 1
        t = t.value
    return n


def assigned(loop):
    """names a loop (or comprehension) gives values to"""
    out = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    for st in getattr(loop, 'body', ()):
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def stringy(e):
    if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str):
        return True
    if isinstance(e, ast.BinOp):
        return stringy(e.left) or stringy(e.right)
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr')
                                        or isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join'))


def base_call(fn):
    """'set' for set(...).union"""
    v = fn.value if isinstance(fn, ast.Attribute) else None
    return v.id if isinstance(v, ast.Name) else None


def opname(op):
    return {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}.get(type(op), '?')


def join(a, b):
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if '[' in k and (x is None or y is None):
            continue        # known on one path only
        out[k] = x if y is None else y if x is None else x | y
    return out


def ends(body):
    """does the block always leave (return / raise / continue / break)?"""
    for st in body:
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(st, ast.If) and st.orelse and ends(st.body) and ends(st.orelse):
            return True
    return False


def base_name(t):
    while isinstance(t, (ast.Attribute, ast.Subscript, ast.Call)):
        t = t.func if isinstance(t, ast.Call) else t.value
    return t.id if isinstance(t, ast.Name) else None


def path(t):
    """'self.x', 'w._cache[]' ... for attribute/subscript chains rooted in a name"""
    parts = []
    while True:
        if isinstance(t, ast.Attribute):
            parts.append('.' + t.attr)
            t = t.value
        elif isinstance(t, ast.Subscript):
            parts.append('[]')
            t = t.value
        elif isinstance(t, ast.Name):
            return t.id + ''.join(reversed(parts))
        else:
            return None
