"""Abstract interpreter for the flavio sources (standard library `ast` only).

It never imports or runs flavio: it walks the syntax trees of /repo's current
sources over an abstract domain (constants, known-shape containers, and `Num`
for every run-time number), joining at merges and analysing both branches of
every condition it cannot decide from constants.
"""
import ast
import builtins
import os
import re
from .values import *
from .src import parse as src_parse


class AbsRaise(Exception):
    def __init__(self, exc, value=None, loc=None):
        Exception.__init__(self, exc)
        self.exc = exc          # exception class name, e.g. 'KeyError'
        self.value = value
        self.loc = loc


TRACE = None


class Budget(Exception):
    pass


EXC_PARENTS = {
    'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
    'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError', 'Exception'),
    'UnboundLocalError': ('NameError', 'Exception'),
    'FileNotFoundError': ('OSError', 'Exception'),
    'ZeroDivisionError': ('ArithmeticError', 'Exception'),
    'NotImplementedError': ('RuntimeError', 'Exception'),
}


class Scope:
    __slots__ = ('vars', 'parent', 'mod', 'func', 'iscls', 'born')

    def __init__(self, parent, mod, func=None, iscls=False):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.func = func
        self.iscls = iscls
        Obj.counter += 1
        self.born = Obj.counter


class Frame:
    __slots__ = ('scope', 'mod', 'func', 'cls', 'self_', 'returns', 'loops', 'line',
                 'qual', 'yields', 'facts', 'retfacts')

    def __init__(self, scope, mod, qual, func=None, cls=None, self_=None):
        self.scope = scope
        self.mod = mod
        self.qual = qual
        self.func = func
        self.cls = cls
        self.self_ = self_
        self.returns = []
        self.loops = []
        self.line = 0
        self.yields = None
        self.facts = []
        self.retfacts = []


class Summary:
    __slots__ = ('ev', 'kids', 'ret', 'key', 'func', 'exc', 'nomemo')

    def __init__(self, func=None):
        self.ev = set()
        self.kids = []
        self.ret = None
        self.func = func
        self.exc = None
        self.nomemo = False

    def flatten(self):
        seen = set()
        out = set()
        stack = [self]
        while stack:
            s = stack.pop()
            if id(s) in seen:
                continue
            seen.add(id(s))
            out |= s.ev
            stack.extend(s.kids)
        return out

    def uncached_cites(self):
        """citations registered on every evaluation, i.e. not only when a
        memoised function is evaluated for the first time"""
        seen = set()
        out = set()
        stack = [self]
        while stack:
            s = stack.pop()
            if id(s) in seen or s.func is not None and s.func.cached:
                continue
            seen.add(id(s))
            out |= {e[1] for e in s.ev if e[0] == 'cite'}
            stack.extend(s.kids)
        return out

    def funcs(self):
        seen = set()
        out = set()
        stack = [self]
        while stack:
            s = stack.pop()
            if id(s) in seen:
                continue
            seen.add(id(s))
            if s.func is not None:
                out.add((s.func.mod.name, s.func.qual))
            stack.extend(s.kids)
        return out


class TryCtx:
    __slots__ = ('raised', 'unknown', 'handlers')

    def __init__(self, handlers=()):
        self.handlers = handlers
        self.raised = []
        self.unknown = False


def _locals_of(node):
    """names local to a function body"""
    names, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                targets(c.target)
            elif isinstance(c, (ast.For, ast.AsyncFor)):
                targets(c.target)
            elif isinstance(c, (ast.With, ast.AsyncWith)):
                for it in c.items:
                    if it.optional_vars is not None:
                        targets(it.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split('.')[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            walk(c)
    if not isinstance(node, ast.Lambda):
        walk(node)
    return names - glob - nonl, glob, nonl


def unscaled(v):
    """what a function returns is one quantity, whatever factors it contains"""
    if isinstance(v, Num) and type(v.av) is tuple:
        r = v.owned(v.own)
        r.av = None
        return r
    return v


class Interp:
    MAXDEPTH = 70
    UNROLL = 1500

    def __init__(self, repo, ext):
        self.repo = repo
        self.modules = {}
        self.override = {}
        self.phase = 'world'
        self.frames = []
        self.weak = []
        self.trys = []
        self.world_ceiling = None
        self.sum = Summary()
        self.memo = {}
        self.nmemo = 0
        self.ncalls = 0
        self.keep = []
        self.ext = ext
        ext.bind(self)
        self.depth = 0
        self.hooks = {}          # qualified function -> python hook
        self.prehooks = {}       # same, called before the normal analysis
        self.track_dims = True
        self.assume_bound = False
        self.unknown_iter = 2
        self.skip_calls = set()
        self.stats = {}
        self._ex = {
            ast.Constant: self.e_Constant, ast.Name: self.e_Name, ast.Attribute: self.e_Attribute,
            ast.Call: self.e_Call, ast.BinOp: self.e_BinOp, ast.UnaryOp: self.e_UnaryOp,
            ast.Compare: self.e_Compare, ast.BoolOp: self.e_BoolOp, ast.IfExp: self.e_IfExp,
            ast.Subscript: self.e_Subscript, ast.Tuple: self.e_Tuple, ast.List: self.e_List,
            ast.Dict: self.e_Dict, ast.Set: self.e_Set, ast.Lambda: self.e_Lambda,
            ast.ListComp: self.e_ListComp, ast.GeneratorExp: self.e_ListComp,
            ast.SetComp: self.e_SetComp, ast.DictComp: self.e_DictComp,
            ast.JoinedStr: self.e_JoinedStr, ast.FormattedValue: self.e_FormattedValue,
            ast.Starred: self.e_Starred, ast.Slice: self.e_Slice, ast.Yield: self.e_Yield,
            ast.NamedExpr: self.e_NamedExpr, ast.YieldFrom: self.e_YieldFrom,
        }
        self._st = {
            ast.Expr: self.s_Expr, ast.Assign: self.s_Assign, ast.AugAssign: self.s_AugAssign,
            ast.AnnAssign: self.s_AnnAssign, ast.Return: self.s_Return, ast.If: self.s_If,
            ast.For: self.s_For, ast.While: self.s_While, ast.FunctionDef: self.s_FunctionDef,
            ast.ClassDef: self.s_ClassDef, ast.Import: self.s_Import,
            ast.ImportFrom: self.s_ImportFrom, ast.Pass: lambda n: True,
            ast.Break: self.s_Break, ast.Continue: self.s_Continue, ast.Raise: self.s_Raise,
            ast.Try: self.s_Try, ast.With: self.s_With, ast.Delete: self.s_Delete,
            ast.Global: lambda n: True, ast.Nonlocal: lambda n: True, ast.Assert: self.s_Assert,
        }

    # ------------------------------------------------------------ bookkeeping
    @property
    def frame(self):
        return self.frames[-1]

    def loc(self):
        f = self.frames[-1] if self.frames else None
        return (f.mod.name, f.qual, f.line) if f else ('?', '?', 0)

    CAUGHT = {'keyerror': 'KeyError', 'parkey': 'KeyError', 'unbound': 'UnboundLocalError',
              'maybe-unbound': 'UnboundLocalError', 'undefined': 'NameError', 'noattr': 'AttributeError',
              'arity': 'TypeError', 'badsector': 'KeyError', 'badbasis': 'KeyError',
              'unpack': 'ValueError', 'nofile': 'FileNotFoundError'}

    def emit(self, *ev):
        x = self.CAUGHT.get(ev[0])
        if x is not None and self.trys:
            e = AbsRaise(x)
            if any(t.handlers and self.find_handler(t.handlers, e) is not None for t in self.trys):
                ev = ('caught',) + ev
        self.sum.ev.add(ev + (self.loc(),))

    def may_raise(self):
        if self.trys:
            self.trys[-1].unknown = True

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def parse(self, path):
        with open(path, encoding='utf-8') as f:
            return src_parse(f.read(), path)

    def import_module(self, name):
        if name in self.override:
            return self.override[name]
        if name in self.modules:
            return self.modules[name]
        if not name.split('.')[0] == 'flavio':
            return Ext(name)
        parent = None
        if '.' in name:
            pname = name.rsplit('.', 1)[0]
            parent = self.import_module(pname)
            if name in self.override:
                return self.override[name]
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.mod_path(name)
        if path is None:
            raise AbsRaise('ModuleNotFoundError', None, self.loc())
        m = AModule(name, path, is_pkg)
        self.modules[name] = m
        m.vars['__name__'] = name
        m.vars['__file__'] = path
        if name == 'flavio._version':
            m.vars['__version__'] = '0'
        m.tree = self.parse(path)
        saved = (self.weak, self.trys)
        self.weak, self.trys = [], []
        sc = Scope(None, m)
        sc.vars = m.vars
        fr = Frame(sc, m, '<module>')
        self.frames.append(fr)
        try:
            self.block(m.tree.body)
        finally:
            self.frames.pop()
            self.weak, self.trys = saved
        m.done = True
        if name == 'flavio.config' and isinstance(m.vars.get('config'), ADict):
            self.ext.mark_cfg(m.vars['config'])
        res = self.override.get(name, m)
        if isinstance(parent, AModule):
            parent.vars[name.rsplit('.', 1)[1]] = res
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.frames[-1].line = s.lineno
            h = self._st.get(type(s))
            if h is None:
                self.emit('unsupported', type(s).__name__)
                continue
            nfr = len(self.frames)
            try:
                if not h(s):
                    return False
            except (AbsRaise, Budget):
                raise
            except Exception as ex:
                if self.debug:
                    raise
                del self.frames[nfr:]
                self.emit('internal', type(ex).__name__ + ': ' + str(ex)[:80])
        return True

    def s_Expr(self, n):
        self.ev(n.value)
        return True

    def s_Assign(self, n):
        v = self.ev(n.value)
        if type(v) in (int, float) and all(isinstance(t, ast.Name) for t in n.targets):
            v = soften(v, n.targets[0].id)
        for t in n.targets:
            self.store(t, v)
        return True

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.store(n.target, self.ev(n.value))
        return True

    def s_AugAssign(self, n):
        t = n.target
        cur = self.ev(t, load=True)
        rhs = self.ev(n.value)
        # in place on mutable containers
        if isinstance(cur, AList) and isinstance(n.op, (ast.Add, ast.BitOr)):
            self.mutated(cur, 'augmented assignment')
            if cur.kind == 'array':
                cur.elem = self.binop_num(n.op, num_of(cur), num_of(rhs))
                cur.items = None
                return True
            its, el = self.iterate(rhs)
            if its is not None and cur.items is not None and not self.is_weak(cur):
                cur.items = cur.items + its
            else:
                e = cur.elem if cur.items is None else self.joinall(cur.items)
                e2 = el if its is None else self.joinall(its)
                cur.items = None
                cur.elem = e2 if e is None else (e if e2 is None else self.join(e, e2))
            return True
        if isinstance(cur, AList) and cur.kind == 'array':
            self.mutated(cur, 'augmented assignment')
            cur.elem = self.binop_num(n.op, num_of(cur), num_of(rhs))
            cur.items = None
            return True
        v = self.binop(n.op, cur, rhs, n)
        if isinstance(cur, Num) and cur.own is not None and isinstance(t, ast.Name) and self.is_array_name(t.id):
            self.mutated_num(cur, 'augmented assignment')
            if isinstance(v, Num):
                v = v.owned(cur.own)
        self.store(t, v)
        return True

    def is_array_name(self, name):
        """the running function subscripts the variable, so it is no plain number"""
        f = self.frame.func
        return f is not None and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name
                                     for x in ast.walk(f.node))

    def s_Return(self, n):
        v = self.ev(n.value) if n.value is not None else None
        if isinstance(v, (ADict, Par)):
            v = self.ext.norm_par(v)
        v = unscaled(v)
        f = self.frame
        f.returns.append(v)
        f.retfacts.append((v, tuple(f.facts), n.lineno))
        return False

    def s_Pass(self, n):
        return True

    def s_Break(self, n):
        self.frame.loops[-1][0].append(dict(self.frame.scope.vars))
        return False

    def s_Continue(self, n):
        self.frame.loops[-1][1].append(dict(self.frame.scope.vars))
        return False

    def s_Assert(self, n):
        self.ev(n.test)
        return True

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.frame.scope.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, AInst):
                    self.mutated(o, 'attribute deletion ' + t.attr)
                    if not self.is_weak(o):
                        o.attrs.pop(t.attr, None)
        return True

    def s_Raise(self, n):
        exc = 'Exception'
        val = None
        if n.exc is None:
            exc = 'reraise'
        else:
            v = self.ev(n.exc)
            if isinstance(v, Ext):
                exc = v.path.split('.')[-1]
                val = v
            elif isinstance(v, AInst):
                exc = v.cls.cname
                val = v
            elif isinstance(v, AClass):
                exc = v.cname
        raise AbsRaise(exc, val, self.loc())

    def weak_region(self, fn):
        """run fn as possibly-not-executed; returns (terminated?, AbsRaise or None)"""
        self.weak.append(Obj.counter)
        try:
            return fn(), None
        except AbsRaise as e:
            if self.trys:
                self.trys[-1].raised.append((e, dict(self.frames[-1].scope.vars)))
            self.emit('raise', e.exc)
            return False, e
        finally:
            self.weak.pop()

    def branch(self, alts):
        """alts: list of (callable, facts).  Exactly one runs; join the outcome."""
        vars_ = self.frame.scope.vars
        saved = dict(vars_)
        nfr = len(self.frames)
        outs = []
        excs = []
        nf = len(self.frame.facts)
        for fn, facts in alts:
            vars_.clear()
            vars_.update(saved)
            self.frame.facts.extend(facts)
            t, e = self.weak_region(fn)
            del self.frame.facts[nf:]
            del self.frames[nfr:]
            if t:
                outs.append(dict(vars_))
            elif e is not None:
                excs.append(e)
        vars_.clear()
        if not outs:
            vars_.update(saved)
            if excs and len(excs) == len(alts):
                raise excs[0]
            return False
        self.merge(vars_, outs)
        return True

    def merge(self, dst, outs):
        first = outs[0]
        if len(outs) == 1:
            dst.update(first)
            return
        keys = set()
        for o in outs:
            keys.update(o)
        for k in keys:
            v = None
            missing = False
            got = False
            for o in outs:
                if k in o:
                    x = o[k]
                    if not got:
                        v = x
                        got = True
                    elif v is not x:
                        v = self.join(v, x)
                else:
                    missing = True
            if missing and not isinstance(v, Maybe):
                v = Maybe(v)
            dst[k] = v

    def s_If(self, n):
        c = self.ev(n.test)
        t = self.truth(c)
        if t is True:
            return self.block(n.body)
        if t is False:
            return self.block(n.orelse)
        pos, neg = self.facts_of(c)
        refine = self.refine_none(n.test)

        def a():
            if refine:
                self.apply_refine(refine, True)
            return self.block(n.body)

        def b():
            if refine:
                self.apply_refine(refine, False)
            return self.block(n.orelse)
        r = self.branch([(a, pos), (b, neg)])
        # facts of a terminating branch hold afterwards (negated)
        if r and self._terminates(n.body) and not n.orelse:
            self.frame.facts.extend(neg)
        elif r and n.orelse and self._terminates(n.orelse):
            self.frame.facts.extend(pos)
        return r

    def _terminates(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def refine_none(self, test):
        """x is None / x is not None on a plain name"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is):
                return (test.left.id, True)
            if isinstance(test.ops[0], ast.IsNot):
                return (test.left.id, False)
        return None

    def apply_refine(self, r, branch):
        name, isnone_true = r
        v = self.frame.scope.vars.get(name)
        isnone = (isnone_true == branch)
        if isinstance(v, AUnion):
            vals = [x for x in v.vals if (x is None) == isnone]
            if vals:
                self.frame.scope.vars[name] = vals[0] if len(vals) == 1 else AUnion(vals)

    def facts_of(self, c):
        if isinstance(c, Num) and c.facts:
            return c.facts
        return (), ()

    def s_For(self, n):
        it = self.ev(n.iter)
        items, elem = self.iterate(it)
        fr = self.frame
        fr.loops.append(([], []))
        try:
            if items is not None and len(items) <= self.UNROLL:
                alive = True
                for x in items:
                    fr.line = n.lineno
                    fr.loops[-1][1].clear()
                    self.store(n.target, x)
                    alive = self.block(n.body)
                    conts = fr.loops[-1][1]
                    if conts:
                        outs = list(conts)
                        if alive:
                            outs.append(dict(fr.scope.vars))
                        vs = fr.scope.vars
                        vs.clear()
                        self.merge(vs, outs)
                        alive = True
                    if not alive:
                        break
                brk = fr.loops[-1][0]
                if alive and n.orelse and not brk:
                    alive = self.block(n.orelse)
                elif alive and n.orelse:
                    alive = self.block(n.orelse)
                if brk:
                    outs = list(brk)
                    if alive:
                        outs.append(dict(fr.scope.vars))
                    fr.scope.vars.clear()
                    self.merge(fr.scope.vars, outs)
                    alive = True
                return alive
            # unknown iteration count
            if items is not None:
                elem = self.joinall(items)
            if elem is None:
                elem = Unk(why='iter')
            base_keys = set(fr.scope.vars)
            for _ in range(self.unknown_iter):
                saved = dict(fr.scope.vars)
                fr.loops[-1][1].clear()

                def body():
                    self.store(n.target, elem)
                    return self.block(n.body)
                ok, e = self.weak_region(body)
                outs = [saved] + list(fr.loops[-1][1])
                if ok:
                    outs.append(dict(fr.scope.vars))
                fr.scope.vars.clear()
                self.merge(fr.scope.vars, outs)
            outs = [dict(fr.scope.vars)] + list(fr.loops[-1][0])
            fr.scope.vars.clear()
            self.merge(fr.scope.vars, outs)
            for k, v in list(fr.scope.vars.items()):
                # variables bound by the loop are assumed bound (non-empty loop)
                if k not in base_keys and isinstance(v, Maybe):
                    fr.scope.vars[k] = v.v
            if n.orelse:
                self.block(n.orelse)
            return True
        finally:
            fr.loops.pop()

    def s_While(self, n):
        fr = self.frame
        fr.loops.append(([], []))
        try:
            cnt = 0
            while True:
                c = self.truth(self.ev(n.test))
                if c is False:
                    return self.block(n.orelse) if n.orelse else True
                if c is True and cnt < 200:
                    cnt += 1
                    fr.loops[-1][1].clear()
                    alive = self.block(n.body)
                    conts = fr.loops[-1][1]
                    outs = list(conts) + ([dict(fr.scope.vars)] if alive else [])
                    brk = fr.loops[-1][0]
                    if not outs:
                        if brk:
                            fr.scope.vars.clear()
                            self.merge(fr.scope.vars, brk)
                            return True
                        return False
                    if brk:
                        # may leave or stay: one more weak round, then out
                        outs = outs + list(brk)
                        fr.scope.vars.clear()
                        self.merge(fr.scope.vars, outs)
                        c = None
                    else:
                        fr.scope.vars.clear()
                        self.merge(fr.scope.vars, outs)
                        continue
                base_keys = set(fr.scope.vars)
                for _ in range(3):
                    saved = dict(fr.scope.vars)
                    fr.loops[-1][1].clear()
                    ok, e = self.weak_region(lambda: self.block(n.body))
                    outs = [saved] + list(fr.loops[-1][1])
                    if ok:
                        outs.append(dict(fr.scope.vars))
                    fr.scope.vars.clear()
                    self.merge(fr.scope.vars, outs)
                outs = [dict(fr.scope.vars)] + list(fr.loops[-1][0])
                fr.scope.vars.clear()
                self.merge(fr.scope.vars, outs)
                for k, v in list(fr.scope.vars.items()):
                    if k not in base_keys and isinstance(v, Maybe):
                        fr.scope.vars[k] = v.v
                return True
        finally:
            fr.loops.pop()

    def make_func(self, node, name, cls=None):
        fr = self.frame
        f = AFunc()
        f.node = node
        f.mod = fr.mod
        f.scope = fr.scope
        f.name = name
        pre = fr.qual if fr.qual != '<module>' else ''
        f.qual = (pre + '.' if pre else '') + name
        f.cls = cls
        a = node.args
        f.defaults = [self.ev(d) for d in a.defaults]
        f.kwdefaults = [self.ev(d) if d is not None else None for d in a.kw_defaults]
        f.cached = False
        f.vectorized = False
        f.decos = []
        f.attrs = {}
        f.toplevel = fr.qual == '<module>' or fr.scope.iscls
        Obj.counter += 1
        f.born = Obj.counter
        f.is_gen = False
        if not isinstance(node, ast.Lambda):
            f.is_gen = _is_gen(node)
        c = getattr(node, '_sa_locals', None)
        if c is None:
            c = node._sa_locals = _locals_of(node)
        f.locals_, f.globals_, f.nonlocals_ = c
        self.keep.append(f)
        return f

    def s_FunctionDef(self, n):
        fr = self.frame
        cls = fr.cls if fr.scope.iscls else None
        f = self.make_func(n, n.name, cls)
        v = f
        for d in reversed(n.decorator_list):
            dv = self.ev(d)
            v = self.decorate(dv, v, f)
        self.store_name(n.name, v)
        return True

    def decorate(self, dv, v, f):
        if isinstance(dv, Ext):
            p = dv.path
            f.decos.append(p)
            if p in ('functools.lru_cache', 'functools.cache') or p == 'functools.lru_cache()':
                f.cached = True
                return v
            if p == 'numpy.vectorize':
                f.vectorized = True
                return v
            if p in ('builtins.staticmethod', 'builtins.classmethod', 'builtins.property'):
                return AProp(p.split('.')[1], v)
            if p == 'contextlib.contextmanager':
                return v
            return v
        if isinstance(dv, BuiltinM) and isinstance(dv.obj, AProp):
            return dv.obj     # @x.setter
        if isinstance(dv, (AFunc, ABound, AClass)):
            return self.call(dv, [v], {})
        return v

    def s_ClassDef(self, n):
        bases = [self.ev(b) for b in n.bases]
        meta = None
        for k in n.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value)
        if meta is None:
            for b in bases:
                if isinstance(b, AClass) and b.meta is not None:
                    meta = b.meta
        fr = self.frame
        cls = AClass(n.name, bases, {}, fr.mod, n, meta)
        cls.qual = (fr.qual + '.' if fr.qual != '<module>' else '') + n.name
        sc = Scope(fr.scope, fr.mod, iscls=True)
        cf = Frame(sc, fr.mod, cls.qual, cls=cls)
        self.frames.append(cf)
        try:
            self.block(n.body)
        finally:
            self.frames.pop()
        cls.attrs = sc.vars
        v = cls
        for d in reversed(n.decorator_list):
            self.ev(d)
        self.store_name(n.name, v)
        return True

    def s_Import(self, n):
        for al in n.names:
            try:
                m = self.import_module(al.name)
            except AbsRaise:
                self.emit('badimport', al.name)
                raise
            if al.asname:
                self.store_name(al.asname, m)
            else:
                top = al.name.split('.')[0]
                self.store_name(top, self.import_module(top) if top == 'flavio' else Ext(top))
        return True

    def s_ImportFrom(self, n):
        fr = self.frame
        if n.level:
            base = fr.mod.name.split('.')
            if not fr.mod.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            name = '.'.join(base + ([n.module] if n.module else []))
        else:
            name = n.module
        m = self.import_module(name)
        for al in n.names:
            if al.name == '*':
                if isinstance(m, AModule):
                    allv = m.vars.get('__all__')
                    if isinstance(allv, AList) and allv.items is not None:
                        for k in allv.items:
                            if k in m.vars:
                                self.store_name(k, m.vars[k])
                    else:
                        for k, v in list(m.vars.items()):
                            if not k.startswith('_'):
                                self.store_name(k, v)
                continue
            v = self.import_from(m, al.name)
            self.store_name(al.asname or al.name, v)
        return True

    def import_from(self, m, name):
        if isinstance(m, AModule):
            if name in m.vars:
                return m.vars[name]
            sub = m.name + '.' + name
            if m.is_pkg and self.mod_path(sub)[0]:
                return self.import_module(sub)
            if m.name == 'flavio._version':
                return '0'
            self.emit('badimport', m.name + '.' + name)
            raise AbsRaise('ImportError', None, self.loc())
        return self.getattr(m, name)

    def s_With(self, n):
        for it in n.items:
            v = self.ev(it.context_expr)
            ent = v
            if isinstance(v, AInst):
                f = self.class_lookup(v.cls, '__enter__')
                if f is not None:
                    ent = self.call(self.bind(f, v), [], {})
            if it.optional_vars is not None:
                self.store(it.optional_vars, ent)
        r = self.block(n.body)
        for it in reversed(n.items):
            v = None
        return r

    def s_Try(self, n):
        fr = self.frame
        ctx = TryCtx(n.handlers)
        self.trys.append(ctx)
        vars_ = fr.scope.vars
        saved = dict(vars_)
        nfr = len(self.frames)
        exc = None
        alive = True
        nweak = len(self.weak)
        sm = self.sum
        try:
            alive = self.block(n.body)
        except AbsRaise as e:
            exc = e
            alive = False
            del self.frames[nfr:]
            del self.weak[nweak:]
            self.sum = sm
        finally:
            self.trys.pop()
        result = alive
        if exc is not None:
            h = self.find_handler(n.handlers, exc)
            if h is None:
                if n.finalbody:
                    self.block(n.finalbody)
                raise exc
            if h.name:
                vars_[h.name] = exc.value if exc.value is not None else Ext('builtins.' + exc.exc)
            result = self.block(h.body)
        else:
            alts = []
            if n.handlers and (ctx.raised or ctx.unknown):
                hs = []
                if ctx.unknown:
                    hs = list(n.handlers)
                else:
                    for e, _ in ctx.raised:
                        h = self.find_handler(n.handlers, e)
                        if h is not None and h not in hs:
                            hs.append(h)
                after = dict(vars_)
                outs = []

                def okpath():
                    if not alive:
                        return False
                    return self.block(n.orelse) if n.orelse else True
                alts.append((okpath, after))
                results = []
                for h in hs:
                    start = dict(saved)
                    for k, v in after.items():
                        if k in start and start[k] is not v:
                            start[k] = self.join(start[k], v)
                        elif k not in start:
                            start[k] = v if isinstance(v, Maybe) else Maybe(v)
                    if h.name:
                        start[h.name] = Ext('builtins.Exception')
                    alts.append(((lambda h=h: self.block(h.body)), start))
                for fn, st in alts:
                    vars_.clear()
                    vars_.update(st)
                    t, e = self.weak_region(fn)
                    if t:
                        outs.append(dict(vars_))
                    del self.frames[nfr:]
                vars_.clear()
                if outs:
                    self.merge(vars_, outs)
                    result = True
                else:
                    vars_.update(after)
                    result = False
            elif alive and n.orelse:
                result = self.block(n.orelse)
        if n.finalbody:
            if not self.block(n.finalbody):
                return False
        return result

    def find_handler(self, handlers, exc):
        names = {exc.exc, 'BaseException', 'Exception'} | set(EXC_PARENTS.get(exc.exc, ()))
        if isinstance(exc.value, AInst):
            for c in exc.value.cls.mro():
                names.add(c.cname if isinstance(c, AClass) else getattr(c, 'path', '').split('.')[-1])
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.id if isinstance(t, ast.Name) else (t.attr if isinstance(t, ast.Attribute) else '')
                if nm in names:
                    return h
        return None

    # ------------------------------------------------------------ stores
    def store_name(self, name, v):
        fr = self.frame
        f = fr.func
        if f is not None and name in f.globals_:
            self.mutate_global(fr.mod, name)
            fr.mod.vars[name] = v
            return
        if f is not None and name in f.nonlocals_:
            sc = fr.scope.parent
            while sc is not None:
                if name in sc.vars and not sc.iscls:
                    sc.vars[name] = v
                    return
                sc = sc.parent
        fr.scope.vars[name] = v
        if fr.qual == '<module>' and isinstance(v, Obj) and v.name is None:
            v.name = fr.mod.name + '.' + name

    def mutate_global(self, mod, name):
        if self.phase == 'analysis':
            self.emit('mut', 'global', mod.name + '.' + name, 'rebinding')
            self.undo.setdefault((id(mod), name), (mod.vars, name, mod.vars.get(name, self)))
            self.sum.nomemo = True

    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            if isinstance(o, Num) and isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)):
                # an array of unknown shape is a plain value here: the store changes the value its name stands for
                self.mutated_num(o, 'item assignment')
                n = num_of(v)
                if isinstance(n, Num):
                    r = join_num(o, n)
                    if r.d is None and o.d is not None and n.soft:
                        r.d = o.d
                    r.own = o.own
                    self.store(t.value, r)
                    return
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v)

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items, elem = self.iterate(v)
        if items is not None:
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if len(items) >= len(elts) - 1:
                    for e, x in zip(elts[:i], items[:i]):
                        self.store(e, x)
                    mid = items[i:len(items) - after]
                    self.store(elts[i].value, AList(list(mid)))
                    for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                        self.store(e, x)
                    return
            elif len(items) == len(elts):
                for e, x in zip(elts, items):
                    self.store(e, x)
                return
            else:
                self.emit('unpack', len(elts), len(items))
                raise AbsRaise('ValueError', None, self.loc())
        if elem is None:
            elem = Unk(why='unpack')
        for e in elts:
            if isinstance(e, ast.Starred):
                self.store(e.value, AList(None, elem))
            else:
                self.store(e, elem)

    # ------------------------------------------------------------ mutation
    def is_weak(self, o):
        return bool(self.weak) and o.born <= self.weak[-1]

    undo = {}

    def restore(self):
        """undo the writes one analysed call made to module-level objects"""
        for k, u in list(self.undo.items()):
            if len(u) == 3:
                vars_, name, old = u
                if old is self:
                    vars_.pop(name, None)
                else:
                    vars_[name] = old
            else:
                o, snap = u
                for a, x in snap.items():
                    setattr(o, a, x)
        self.undo.clear()

    def snapshot(self, o):
        if id(o) in self.undo:
            return
        if isinstance(o, ADict):
            snap = {'d': dict(o.d), 'rest': o.rest, 'maybe': o.maybe, 'restk': o.restk}
        elif isinstance(o, AList):
            snap = {'items': None if o.items is None else list(o.items), 'elem': o.elem}
        elif isinstance(o, (AInst, AClass)):
            snap = {'attrs': dict(o.attrs)}
        else:
            return
        self.undo[id(o)] = (o, snap)

    def mutated(self, o, how, key=None, val=None):
        """record a write to a heap object"""
        if self.phase == 'analysis':
            if o.owner is not None:
                self.emit('mut', o.owner[0], o.owner[1], how)
                self.sum.nomemo = True
            elif o.held is not None:
                # the object has been stored in a table that outlives the evaluation
                self.sum.nomemo = True
                hk = self.hkey(key) if key is not None else None
                if isinstance(o, ADict) and key is not None and (hk is None or hk[0] not in o.d):
                    extra = self.deps(val) & ~(self.deps(key) | o.held[1])
                    if extra:
                        self.emit('memo', o.held[0], ', '.join(sorted(map(str, tokens(extra)))[:4]))
                else:
                    self.emit('mut', 'cache', o.held[0], how)
            elif o.born <= self.world_ceiling:
                self.snapshot(o)
                self.sum.nomemo = True
                snap = self.undo.get(id(o), (0, {}))[1]
                if isinstance(o, ADict) and val is not None and not snap.get('d') and snap.get('rest') is None:
                    # a memo table: sound when its key determines the stored value
                    extra = self.deps(val) & ~self.deps(key)
                    if extra:
                        self.emit('memo', o.name or repr(o), ', '.join(sorted(map(str, tokens(extra)))[:4]))
                    else:
                        self.emit('memo-ok', o.name or repr(o))
                else:
                    self.emit('mut', 'global', o.name or repr(o), how)
            self.mark_nomemo(o)

    def mutated_num(self, o, how):
        """an array of unknown shape changes in place"""
        if self.phase == 'analysis' and o.own is not None:
            self.emit('mut', o.own[0], o.own[1], how)

    def mark_nomemo(self, o):
        # any summary under construction that started after o was born sees an argument mutation
        for s, start in self.sumstack:
            if o.born <= start:
                s.nomemo = True

    def setattr(self, o, attr, v):
        if isinstance(o, AInst):
            self.mutated(o, 'attribute ' + attr)
            p = self.class_lookup(o.cls, '__setattr__') if o.cls is not None else None
            if self.is_weak(o) and attr in o.attrs:
                o.attrs[attr] = self.join(o.attrs[attr], v)
            else:
                o.attrs[attr] = v
        elif isinstance(o, AClass):
            self.mutated(o, 'class attribute ' + attr)
            o.attrs[attr] = v
            if isinstance(v, Obj) and v.name is None:
                v.name = o.cname + '.' + attr
        elif isinstance(o, AModule):
            if self.phase == 'analysis':
                self.emit('mut', 'global', o.name + '.' + attr, 'module attribute')
                self.undo.setdefault((id(o), attr), (o.vars, attr, o.vars.get(attr, self)))
                self.sum.nomemo = True
            o.vars[attr] = v
        elif isinstance(o, AFunc):
            if self.phase == 'analysis':
                self.emit('mut', 'global', o.qual + '.' + attr, 'function attribute')
                self.undo.setdefault((id(o), attr), (o.attrs, attr, o.attrs.get(attr, self)))
                self.sum.nomemo = True
            o.attrs[attr] = v
        elif isinstance(o, Ext):
            if self.phase == 'analysis':
                self.emit('extset', o.path + '.' + attr)
        elif isinstance(o, AUnion):
            for x in o.vals:
                self.setattr(x, attr, v)

    def hkey(self, k):
        """hashable constant key, or None when unknown"""
        if is_const(k) and not isinstance(k, slice):
            return (k,)
        if isinstance(k, (AFunc, AInst, AClass, Ext, ABound)):
            return (k,)
        if isinstance(k, tuple) and all(self.hkey(x) is not None for x in k):
            return (k,)
        return None

    def hold(self, o, k, v):
        if self.phase == 'analysis' and isinstance(v, (ADict, AList)) and v.owner is None and v.held is None \
                and v.born > (self.world_ceiling or 0):
            h = None
            if o.held is not None:
                h = (o.held[0], o.held[1] | self.deps(k))
            elif o.owner is not None or o.born <= (self.world_ceiling or 0):
                h = (o.name or 'module-level table', self.deps(k))
            if h is not None:
                v.held = h

    def setitem(self, o, k, v):
        if isinstance(o, ADict):
            self.mutated(o, 'item assignment', k, v)
            self.hold(o, k, v)
            hk = self.hkey(k)
            if hk is None:
                o.rest = v if o.rest is None else self.join(o.rest, v)
                if o.restk is None:
                    o.restk = k
                return
            if self.is_weak(o):
                if hk[0] in o.d:
                    o.d[hk[0]] = self.join(o.d[hk[0]], v)
                else:
                    o.d[hk[0]] = v
                    o.maybe = (o.maybe or frozenset()) | {hk[0]}
            else:
                o.d[hk[0]] = v
                if o.maybe and hk[0] in o.maybe:
                    o.maybe = o.maybe - {hk[0]}
        elif isinstance(o, AList):
            self.mutated(o, 'item assignment')
            if o.items is not None and isinstance(k, int) and not isinstance(k, bool) \
                    and -len(o.items) <= k < len(o.items):
                if self.is_weak(o):
                    o.items[k] = self.join(o.items[k], v)
                else:
                    o.items = list(o.items)
                    o.items[k] = v
            elif o.items is not None and isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) \
                    and -len(o.items) <= k[0] < len(o.items) and isinstance(o.items[k[0]], AList):
                self.setitem(o.items[k[0]], k[1], v)
            else:
                if o.kind == 'array':
                    n = join_num(num_of(o), num_of(v))
                    if o.items is not None:
                        o.items = [self.spread(x, num_of(v)) for x in o.items]
                    else:
                        o.elem = n
                else:
                    e = self.joinall(o.items) if o.items is not None else o.elem
                    o.items = None
                    o.elem = v if e is None else self.join(e, v)
        elif isinstance(o, Par):
            self.emit('mut', o.owner, 'parameter dictionary', 'item assignment')
            if o.owner == 'copy' and isinstance(k, str):
                o.over[k] = v
            else:
                self.sum.nomemo = True
        elif isinstance(o, AInst):
            f = self.class_lookup(o.cls, '__setitem__')
            if f is not None:
                self.call(self.bind(f, o), [k, v], {})
            elif self.ext_base(o.cls) == 'dict':
                self.setitem(self.dict_of(o), k, v)
        elif isinstance(o, Ext):
            if o.path == 'sys.modules' and isinstance(k, str):
                self.override[k] = v
                return
            if self.phase == 'analysis':
                self.emit('extset', o.path + '[]')
        elif isinstance(o, AUnion):
            for x in o.vals:
                self.setitem(x, k, v)

    def spread(self, x, n):
        if isinstance(x, AList):
            y = AList([self.spread(z, n) for z in x.items] if x.items is not None else None,
                      join_num(num_of(x.elem), n) if x.items is None else None, x.kind)
            return y
        return join_num(num_of(x), n)

    def delitem(self, o, k):
        if isinstance(o, ADict):
            self.mutated(o, 'item deletion')
            hk = self.hkey(k)
            if hk is not None and not self.is_weak(o):
                if hk[0] in o.d:
                    del o.d[hk[0]]
                elif o.rest is None:
                    raise AbsRaise('KeyError', k, self.loc())
        elif isinstance(o, AClass):
            f = self.meta_lookup(o, '__delitem__')
            if f is not None:
                self.call(self.bind(f, o), [k], {})
        elif isinstance(o, Par):
            self.emit('mut', o.owner, 'parameter dictionary', 'item deletion')
        elif isinstance(o, AList):
            self.mutated(o, 'item deletion')
            if o.items is not None and isinstance(k, int) and not self.is_weak(o):
                o.items = list(o.items)
                del o.items[k]
            elif o.items is not None:
                o.elem = self.joinall(o.items)
                o.items = None

    # ------------------------------------------------------------ joins
    def joinall(self, vals):
        v = None
        first = True
        for x in vals:
            if first:
                v = x
                first = False
            else:
                v = self.join(v, x)
        return v if not first else None

    def join(self, a, b, depth=0):
        if a is b:
            return a
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            return Maybe(self.join(a.v if isinstance(a, Maybe) else a,
                                   b.v if isinstance(b, Maybe) else b))
        ta, tb = type(a), type(b)
        if is_host(a) and is_host(b):
            if ta is tb and a == b:
                return a
            if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
                if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, bool):
                    return AUnion([a, b]) if not isinstance(a, bool) or not isinstance(b, bool) else Num(0)
                # small constant alternatives stay apart (e.g. nf)
                return AUnion([a, b])
        if ta is Num and tb is Num:
            return join_num(a, b)
        if ta is Unk or tb is Unk:
            d = (self.deps(a) | self.deps(b))
            return Unk(d, why='join')
        if ta is Num and isinstance(b, (int, float, complex)):
            return join_num(a, num_of(b))
        if tb is Num and isinstance(a, (int, float, complex)):
            return join_num(num_of(a), b)
        if depth < 6:
            if ta is ADict and tb is ADict:
                d = ADict(kind=a.kind, factory=a.factory)
                mb = set(a.maybe or ()) | set(b.maybe or ())
                for k, v in a.d.items():
                    if k in b.d:
                        w = b.d[k]
                        d.d[k] = v if v is w else self.join(v, w, depth + 1)
                    else:
                        d.d[k] = v if b.rest is None else self.join(v, b.rest)
                        mb.add(k)
                for k, v in b.d.items():
                    if k not in a.d:
                        d.d[k] = v if a.rest is None else self.join(v, a.rest)
                        mb.add(k)
                d.maybe = frozenset(mb) if mb else None
                if a.rest is not None or b.rest is not None:
                    d.rest = a.rest if b.rest is None else (b.rest if a.rest is None else self.join(a.rest, b.rest, depth + 1))
                d.owner = a.owner or b.owner
                d.cfg = a.cfg if a.cfg == b.cfg else None
                d.born = min(a.born, b.born)
                return d
            if ta is AList and tb is AList:
                kind = a.kind if a.kind == b.kind else ('array' if 'array' in (a.kind, b.kind) else 'list')
                if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                    r = AList([x if x is y else self.join(x, y, depth + 1) for x, y in zip(a.items, b.items)], None, kind)
                else:
                    ea = self.joinall(a.items) if a.items is not None else a.elem
                    eb = self.joinall(b.items) if b.items is not None else b.elem
                    e = eb if ea is None else (ea if eb is None else self.join(ea, eb, depth + 1))
                    r = AList(None, e, kind)
                r.owner = a.owner or b.owner
                r.born = min(a.born, b.born)
                return r
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (is_const(a) and is_const(b)):
                return tuple(self.join(x, y, depth + 1) for x, y in zip(a, b))
            if ta is Par and tb is Par and a.conj == b.conj and not a.over and not b.over:
                return a if a.owner == 'input' else b
            if ta is AInst and tb is AInst and a.cls is b.cls and a.born > (self.world_ceiling or 0) \
                    and b.born > (self.world_ceiling or 0):
                r = AInst(a.cls)
                for k in set(a.attrs) | set(b.attrs):
                    if k in a.attrs and k in b.attrs:
                        r.attrs[k] = a.attrs[k] if a.attrs[k] is b.attrs[k] else self.join(a.attrs[k], b.attrs[k], depth + 1)
                    else:
                        r.attrs[k] = a.attrs.get(k, b.attrs.get(k))
                r.owner = a.owner or b.owner
                return r
        if (ta is AList and a.kind == 'array' and tb in (Num, int, float, complex)) or \
                (tb is AList and b.kind == 'array' and ta in (Num, int, float, complex)):
            return join_num(num_of(a), num_of(b))
        va = list(a.vals) if ta is AUnion else [a]
        vb = list(b.vals) if tb is AUnion else [b]
        out = list(va)
        nums = [i for i, x in enumerate(out) if isinstance(x, Num)]
        for y in vb:
            if any(self.same(x, y) for x in out):
                continue
            if isinstance(y, Num) and nums:
                out[nums[0]] = join_num(out[nums[0]], y)
                continue
            if isinstance(y, (ADict, AList)) and depth < 6:
                for i, x in enumerate(out):
                    if type(x) is type(y):
                        out[i] = self.join(x, y, depth + 1)
                        break
                else:
                    out.append(y)
                continue
            out.append(y)
        if len(out) == 1:
            return out[0]
        if len(out) > 12:
            if all(isinstance(x, (Num, int, float, complex)) for x in out):
                n = num_of(out[0])
                for x in out[1:]:
                    n = join_num(n, num_of(x))
                return n
            d = 0
            for x in out:
                d |= self.deps(x)
            return Unk(d, why='union overflow')
        return AUnion(out)

    def same(self, x, y):
        if x is y:
            return True
        if is_const(x) and is_const(y):
            return x == y
        if isinstance(x, Num) and isinstance(y, Num):
            return x.key() == y.key()
        if isinstance(x, Ext) and isinstance(y, Ext):
            return x.path == y.path
        if isinstance(x, ABound) and isinstance(y, ABound):
            return x.func is y.func and x.self is y.self
        return False

    def deps(self, v, depth=0):
        if isinstance(v, (Num, Unk, Ext)):
            return v.deps
        if depth > 4:
            return 0
        d = 0
        if isinstance(v, tuple):
            for x in v:
                d |= self.deps(x, depth + 1)
        elif isinstance(v, AList):
            for x in (v.items if v.items is not None else [v.elem]):
                d |= self.deps(x, depth + 1)
        elif isinstance(v, ADict):
            for x in v.d.values():
                d |= self.deps(x, depth + 1)
            if v.rest is not None:
                d |= self.deps(v.rest, depth + 1)
        elif isinstance(v, AUnion):
            for x in v.vals:
                d |= self.deps(x, depth + 1)
        elif isinstance(v, Maybe):
            return self.deps(v.v, depth)
        elif isinstance(v, AInst) and v.born > (self.world_ceiling or 0):
            for x in v.attrs.values():
                d |= self.deps(x, depth + 1)
        return d

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return False
        if is_host(v):
            try:
                return bool(v)
            except Exception:
                return None
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, AList):
            if v.kind == 'array':
                return None
            if v.items is not None:
                return len(v.items) > 0
            return None
        if isinstance(v, ADict):
            if v.rest is None and not v.maybe:
                return len(v.d) > 0
            if v.d and len(v.maybe or ()) < len(v.d):
                return True
            return None
        if isinstance(v, (AFunc, ABound, AClass, AModule, APartial, BuiltinM)):
            return True
        if isinstance(v, AInst):
            if v.opaque:
                return None
            f = self.class_lookup(v.cls, '__len__') or self.class_lookup(v.cls, '__bool__')
            return None if f is not None else True
        if isinstance(v, AUnion):
            ts = {self.truth(x) for x in v.vals}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(v, Par):
            return True
        if isinstance(v, Ext) and v.path.startswith('flavio.') is False and v.data == 'module':
            return True
        return None

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """-> (items, None) with known items, or (None, elem)"""
        if isinstance(v, tuple):
            return list(v), None
        if isinstance(v, str):
            return list(v), None
        if isinstance(v, range):
            return (list(v), None) if len(v) <= 5000 else (None, Num(0))
        if isinstance(v, AList):
            if v.items is not None:
                return list(v.items), None
            e = v.elem
            if v.kind == 'array' and e is not None:
                return None, e
            return None, e if e is not None else Unk(why='empty?')
        if isinstance(v, ADict):
            if v.rest is None:
                return list(v.d), None
            e = self.joinall(list(v.d)) if v.d else None
            k = v.restk if v.restk is not None else Unk(why='key')
            return None, (k if e is None else self.join(e, k))
        if isinstance(v, AUnion):
            es = []
            for x in v.vals:
                if x is None:
                    continue
                it, e = self.iterate(x)
                if it is not None:
                    es.extend(it)
                elif e is not None:
                    es.append(e)
            return None, self.joinall(es) if es else None
        if isinstance(v, Num):
            return None, v.like()
        if isinstance(v, Par):
            return self.par_keys(), None
        if isinstance(v, AInst):
            f = self.class_lookup(v.cls, '__iter__')
            if f is not None:
                return self.iterate(self.call(self.bind(f, v), [], {}))
            if self.ext_base(v.cls) == 'dict':
                return self.iterate(self.dict_of(v))
        if isinstance(v, Ext):
            return None, Unk(v.deps, why='iter ' + v.path)
        return None, Unk(self.deps(v), why='iter')

    def par_keys(self):
        return list(self.ext.par_names)

    # ------------------------------------------------------------ expressions
    def ev(self, n, load=False):
        if load:
            # evaluate an assignment target as an expression
            return self._ex[type(n)](n)
        h = self._ex.get(type(n))
        if h is None:
            self.emit('unsupported', type(n).__name__)
            return Unk(why=type(n).__name__)
        nfr = len(self.frames)
        try:
            return h(n)
        except (AbsRaise, Budget):
            raise
        except Exception as ex:      # the analysis does not know this construct: unknown value
            if self.debug:
                raise
            del self.frames[nfr:]
            self.emit('internal', type(ex).__name__ + ': ' + str(ex)[:80])
            return Unk(why='internal')

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        name = n.id
        fr = self.frame
        sc = fr.scope
        first = True
        while sc is not None:
            if (first or not sc.iscls) and name in sc.vars:
                v = sc.vars[name]
                if isinstance(v, Maybe):
                    fr.line = n.lineno
                    self.emit('maybe-unbound', name)
                    return v.v
                return v
            if sc.func is not None and name in sc.func.locals_ and first:
                fr.line = n.lineno
                self.emit('unbound', name)
                raise AbsRaise('UnboundLocalError', name, self.loc())
            first = False
            sc = sc.parent
        m = fr.mod.vars
        if name in m:
            return m[name]
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        fr.line = n.lineno
        self.emit('undefined', name)
        raise AbsRaise('NameError', name, self.loc())

    def e_Attribute(self, n):
        o = self.ev(n.value)
        self.frame.line = n.lineno
        return self.getattr(o, n.attr)

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                it, el = self.iterate(self.ev(e.value))
                if it is None:
                    return AList(None, el, 'tuple')
                out.extend(it)
            else:
                out.append(self.ev(e))
        return tuple(out)

    def e_List(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                it, el = self.iterate(self.ev(e.value))
                if it is None:
                    rest = [self.ev(x) for x in n.elts if not isinstance(x, ast.Starred)]
                    return AList(None, self.joinall(rest + [el]))
                out.extend(it)
            else:
                out.append(self.ev(e))
        return AList(out)

    def e_Set(self, n):
        vals = [self.ev(e) for e in n.elts]
        return self.make_set(vals)

    def make_set(self, vals):
        out = []
        for v in vals:
            if not any(self.same(v, x) for x in out):
                out.append(v)
        return AList(out, None, 'set')

    def e_Dict(self, n):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v)
                self.dict_update(d, src)
            else:
                kv = self.ev(k)
                self.setitem(d, kv, soften(self.ev(v), kv if isinstance(kv, str) else ''))
        return d

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Slice(self, n):
        lo = self.ev(n.lower) if n.lower else None
        hi = self.ev(n.upper) if n.upper else None
        st = self.ev(n.step) if n.step else None
        if is_const(lo) and is_const(hi) and is_const(st):
            return slice(lo, hi, st)
        return Unk(why='slice', ty='slice')

    def e_Lambda(self, n):
        return self.make_func(n, '<lambda>')

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        fr = self.frame
        if fr.yields is None:
            fr.yields = []
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, n):
        it, e = self.iterate(self.ev(n.value))
        fr = self.frame
        if fr.yields is None:
            fr.yields = []
        fr.yields.extend(it if it is not None else [e])
        return None

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store(n.target, v)
        return v

    def e_JoinedStr(self, n):
        parts = []
        ok = True
        d = 0
        for v in n.values:
            x = self.ev(v)
            if isinstance(x, str):
                parts.append(x)
            else:
                ok = False
                d |= self.deps(x)
        if ok:
            return ''.join(parts)
        return Unk(d, why='fstring', ty='str')

    def e_FormattedValue(self, n):
        v = self.ev(n.value)
        spec = self.ev(n.format_spec) if n.format_spec is not None else ''
        if is_const(v) and isinstance(spec, str):
            try:
                if n.conversion == 114:
                    v = repr(v)
                elif n.conversion == 115:
                    v = str(v)
                return format(v, spec)
            except Exception:
                return Unk(why='format', ty='str')
        return Unk(self.deps(v), why='format', ty='str')

    def comp(self, n, leaf):
        """run the comprehension generators; leaf() evaluates the element.
        returns True if the number of iterations was known"""
        fr = self.frame
        sc = Scope(fr.scope, fr.mod)
        # comprehension scope nested in the function's scope
        if fr.scope.iscls:
            sc.parent = fr.scope.parent
            sc.vars.update(fr.scope.vars)
        nf = Frame(sc, fr.mod, fr.qual, fr.func, fr.cls, fr.self_)
        nf.line = fr.line
        nf.facts = fr.facts
        first_iter = self.ev(n.generators[0].iter)
        self.frames.append(nf)
        known = [True]

        def run(i):
            if i == len(n.generators):
                leaf()
                return
            g = n.generators[i]
            it = first_iter if i == 0 else self.ev(g.iter)
            items, el = self.iterate(it)
            if items is None:
                known[0] = False
                items = [el if el is not None else Unk(why='iter')]
            for x in items:
                self.store(g.target, x)
                ok = True
                pushed = 0
                for c in g.ifs:
                    cv = self.ev(c)
                    t = self.truth(cv)
                    if t is False:
                        ok = False
                        break
                    if t is None:
                        known[0] = False
                        pos, _ = self.facts_of(cv)
                        nf.facts = nf.facts + list(pos)
                if ok:
                    run(i + 1)
        try:
            run(0)
        finally:
            self.frames.pop()
        return known[0]

    def e_ListComp(self, n):
        out = []
        known = self.comp(n, lambda: out.append(self.ev(n.elt)))
        if known:
            return AList(out)
        return AList(None, self.joinall(out)) if out else AList(None, Unk(why='comp'))

    def e_SetComp(self, n):
        out = []
        known = self.comp(n, lambda: out.append(self.ev(n.elt)))
        if known:
            return self.make_set(out)
        return AList(None, self.joinall(out) if out else Unk(why='comp'), 'set')

    def e_DictComp(self, n):
        d = ADict()
        bad = []

        def leaf():
            k = self.ev(n.key)
            v = self.ev(n.value)
            hk = self.hkey(k)
            if hk is None:
                d.rest = v if d.rest is None else self.join(d.rest, v)
                d.restk = k
            else:
                d.d[hk[0]] = v
        known = self.comp(n, leaf)
        if not known and d.d:
            d.maybe = frozenset(d.d)
        p = self.ext.as_par(d)
        return p if p is not None else d

    def e_IfExp(self, n):
        c = self.ev(n.test)
        t = self.truth(c)
        if t is True:
            return self.ev(n.body)
        if t is False:
            return self.ev(n.orelse)
        pos, neg = self.facts_of(c)
        res = []
        excs = []
        nf = len(self.frame.facts)
        fr = self.frame
        for e, facts in ((n.body, pos), (n.orelse, neg)):
            fr.facts = fr.facts[:nf] + list(facts)
            r = []
            nfr = len(self.frames)
            t, ex = self.weak_region(lambda: (r.append(self.ev(e)), True)[1])
            del self.frames[nfr:]
            fr.facts = fr.facts[:nf]
            if r:
                res.append(r[0])
            elif ex:
                excs.append(ex)
        if not res:
            raise excs[0]
        return self.joinall(res)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        out = []
        facts_pos, facts_neg = [], []
        unknown = False
        for e in n.values:
            try:
                v = self.ev(e)
            except AbsRaise:
                if unknown:
                    break
                raise
            t = self.truth(v)
            if t is not None and not unknown:
                if isand and not t:
                    return v
                if not isand and t:
                    return v
                out = [v]
                continue
            if t is not None:
                if (isand and t) or (not isand and not t):
                    continue      # neutral for the condition's truth
                # absorbing: value may be this one
                out.append(v)
                break
            if not unknown:
                out = []
            unknown = True
            out.append(v)
            p, q = self.facts_of(v)
            facts_pos.extend(p)
            facts_neg.extend(q)
        if not unknown:
            return out[0] if out else None
        if isand:
            facts = (tuple(facts_pos), tuple(facts_neg) if len(out) == 1 else ())
        else:
            # a or b: when false both negations hold; when true: one of them
            facts = (tuple(('or', f) for f in facts_pos) if len(out) > 1 else tuple(facts_pos), tuple(facts_neg))
        r = out[0] if len(out) == 1 else self.joinall(out)
        if isinstance(r, Num):
            return Num(r.d, r.deps, r.soft, r.o, None, facts, cx=r.cx)
        if all(isinstance(x, (Num, Unk, bool)) for x in out):
            d = 0
            for x in out:
                d |= self.deps(x)
            return Num(0, d, facts=facts)
        return r

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        self.frame.line = n.lineno
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return not t
            p, q = self.facts_of(v)
            return Num(0, self.deps(v), facts=(q, p))
        if is_host(v) and v is not None and not isinstance(v, (str, bytes)):
            try:
                if isinstance(n.op, ast.USub):
                    return -v
                if isinstance(n.op, ast.UAdd):
                    return +v
                if isinstance(n.op, ast.Invert):
                    return ~v
            except Exception:
                return Unk(why='unary')
        return self.neg(v, n.op)

    def neg(self, v, op=None):
        if isinstance(v, Num):
            sym = v.sym
            if sym is not None and isinstance(op, ast.USub):
                sym = (sym[0], sym[1], -sym[2])
            r = Num(v.d, v.deps, v.soft, v.o, sym, cx=v.cx)
            if v.iv is not None and isinstance(op, ast.USub):
                r.iv = (-v.iv[1], -v.iv[0])
            return r
        if isinstance(v, AList) and v.kind == 'array':
            r = AList([self.neg(x, op) if not is_host(x) else -x for x in v.items] if v.items is not None else None,
                      self.neg(v.elem, op) if v.items is None and v.elem is not None else None, 'array')
            return r
        if isinstance(v, AUnion):
            return self.joinall([self.neg(x, op) if not is_host(x) else (-x if isinstance(x, (int, float, complex)) else Unk())
                                 for x in v.vals])
        if isinstance(v, AInst):
            f = self.class_lookup(v.cls, '__neg__')
            if f is not None:
                return self.call(self.bind(f, v), [], {})
        n = num_of(v)
        return n.like()

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        facts = [[], []]
        d = 0
        unknown = False
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            self.frame.line = n.lineno
            r = self.compare(op, left, right)
            t = self.truth(r)
            if t is False:
                return False
            if t is None:
                unknown = True
                d |= self.deps(r)
                if type(op) in (ast.Eq, ast.In):
                    self.discrete(self.deps(left))
                if type(op) is ast.Eq:
                    self.discrete(self.deps(right))
                p, q = self.facts_of(r)
                facts[0].extend(p)
                facts[1].extend(q)
                if len(n.ops) > 1:
                    facts[1] = []
                if isinstance(r, (AList,)) and len(n.ops) == 1:
                    return r
            left = right
        if unknown:
            return Num(0, d, facts=(tuple(facts[0]), tuple(facts[1])))
        return True

    ARGS = 0        # mask of the observable's arguments
    BINS = ()       # masks of (lower, upper) bin boundaries

    def discrete(self, d):
        for x in tokens(d & self.ARGS):
            self.emit('discrete', x[1])

    intervals = False
    OPN = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
    NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}

    def compare(self, op, a, b):
        t = type(op)
        if isinstance(a, AUnion) or isinstance(b, AUnion):
            rs = [self.compare(op, x, y)
                  for x in (a.vals if isinstance(a, AUnion) else [a])
                  for y in (b.vals if isinstance(b, AUnion) else [b])]
            ts = {self.truth(r) for r in rs}
            if ts == {True}:
                return True
            if ts == {False}:
                return False
            dd = 0
            for r in rs:
                dd |= self.deps(r)
            return Num(0, dd | self.deps(a) | self.deps(b))
        if t in (ast.Is, ast.IsNot):
            pos = t is ast.Is
            if a is None and b is None:
                return pos
            if a is None or b is None:
                o = b if a is None else a
                if isinstance(o, (Unk,)) or (isinstance(o, Ext) and o.data is None and '()' in o.path):
                    return Num(0, self.deps(o))
                return not pos
            if isinstance(a, bool) and isinstance(b, bool):
                return (a is b) == pos
            if isinstance(a, (AClass, AFunc, AInst, AModule, Obj)) and isinstance(b, (AClass, AFunc, AInst, AModule, Obj)):
                return (a is b) == pos
            if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path:
                return pos
            return Num(0, self.deps(a) | self.deps(b))
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if r is None:
                return Num(0, self.deps(a))
            return r if t is ast.In else (not r)
        if is_const(a) and is_const(b):
            try:
                if t is ast.Eq:
                    return a == b
                if t is ast.NotEq:
                    return a != b
                if t is ast.Lt:
                    return a < b
                if t is ast.LtE:
                    return a <= b
                if t is ast.Gt:
                    return a > b
                if t is ast.GtE:
                    return a >= b
            except TypeError:
                raise AbsRaise('TypeError', None, self.loc())
        if t in (ast.Eq, ast.NotEq):
            # different kinds never equal
            if isinstance(a, Num) and (b is None or isinstance(b, (str, ADict))) or \
                    isinstance(b, Num) and (a is None or isinstance(a, (str, ADict))):
                return t is ast.NotEq
            if isinstance(a, (AClass, AFunc)) and isinstance(b, (AClass, AFunc)):
                return (a is b) == (t is ast.Eq)
            if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path and not a.deps:
                return t is ast.Eq
            if isinstance(a, AList) and isinstance(b, AList) and a.kind != 'array' and b.kind != 'array' \
                    and a.items is not None and b.items is not None:
                if all(is_const(x) for x in a.items) and all(is_const(x) for x in b.items):
                    return (a.items == b.items) == (t is ast.Eq)
            if a is None or b is None:
                o = b if a is None else a
                if isinstance(o, (AList, ADict, tuple, AInst, AFunc, str)):
                    return t is ast.NotEq
        if isinstance(a, AInst) and t in (ast.Eq, ast.NotEq):
            f = self.class_lookup(a.cls, '__eq__')
            if f is not None and isinstance(f, AFunc):
                return self.call(self.bind(f, a), [b], {})
            if a is b:
                return t is ast.Eq
        na, nb = num_of(a), num_of(b)
        d = na.deps | nb.deps
        if t in self.OPN:
            o = self.OPN[t]
            if self.intervals:
                ia, ib = iv_of(a), iv_of(b)
                if ia and ib:
                    c = iv_cmp(o, ia, ib)
                    if c is not None:
                        return c
            self.dimcheck('compare', na, nb, a, b)
            if o in ('==', '!='):
                ident = None
            fact = (o, na.deps, nb.deps, self.const_of(a), self.const_of(b))
            nfact = (self.NEG[o], na.deps, nb.deps, self.const_of(a), self.const_of(b))
            arr = isinstance(a, AList) and a.kind == 'array' or isinstance(b, AList) and b.kind == 'array'
            if arr:
                return AList(None, Num(0, d), 'array')
            return Num(0, d, facts=((fact,), (nfact,)))
        return Num(0, d)

    def const_of(self, v):
        return v if isinstance(v, (int, float, str, bool)) else None

    def contains(self, c, x):
        if isinstance(c, ADict):
            hk = self.hkey(x)
            if hk is None:
                return False if (not c.d and c.rest is None) else None
            if hk[0] in c.d:
                return None if (c.maybe and hk[0] in c.maybe) else True
            return False if c.rest is None else None
        if isinstance(c, (tuple, AList)):
            items = list(c) if isinstance(c, tuple) else c.items
            if items is None:
                return None
            unk = False
            for y in items:
                if self.same(x, y):
                    return True
                if is_const(x) and is_const(y):
                    if x == y:
                        return True
                    continue
                if isinstance(x, (AInst, AClass, AFunc)) and isinstance(y, (AInst, AClass, AFunc, str)):
                    continue
                if isinstance(x, str) and isinstance(y, (Num, AInst, tuple)) or \
                        isinstance(y, str) and isinstance(x, (Num, AInst, tuple)):
                    continue
                unk = True
            return None if unk else False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Par):
            if isinstance(x, str):
                return x in self.ext.par_names or x in c.over
            return None
        if isinstance(c, AInst):
            f = self.class_lookup(c.cls, '__contains__')
            if f is not None:
                return self.truth(self.call(self.bind(f, c), [x], {}))
            if self.ext_base(c.cls) == 'dict':
                return self.contains(self.dict_of(c), x)
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        return None

    # ------------------------------------------------------------ arithmetic
    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.frame.line = n.lineno
        if TRACE is not None:
            r = self.binop(n.op, a, b, n)
            if num_of(r).d is None and (num_of(a).d is not None and num_of(b).d is not None):
                TRACE[(self.loc(), 'op')] += 1
            elif num_of(r).d is None:
                for x, y in ((a, n.left), (b, n.right)):
                    if num_of(x).d is None and not isinstance(y, ast.BinOp) :
                        TRACE[(self.loc(), ast.unparse(y)[:60])] += 1
            return r
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n=None):
        ta, tb = type(a), type(b)
        t = type(op)
        if ta is Num and tb is Num:
            return self.binop_num(op, a, b)
        if is_host(a) and is_host(b):
            try:
                r = None
                if t is ast.Add:
                    r = a + b
                elif t is ast.Sub:
                    r = a - b
                elif t is ast.Mult:
                    r = a * b
                elif t is ast.Div:
                    r = a / b
                elif t is ast.Pow:
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(b) > 400:
                        return Num(0, soft=True)
                    r = a ** b
                    if isinstance(r, int) and abs(r) > 10**30:
                        r = float(r)
                if r is not None:
                    if isinstance(a, (SoftI, SoftF)) or isinstance(b, (SoftI, SoftF)):
                        return soften(r, 'm')
                    if isinstance(r, (float, complex)) and is_simple_lit(a) and is_simple_lit(b):
                        return purify(r)
                    return r
                if t is ast.Mod:
                    return a % b
                if t is ast.FloorDiv:
                    return a // b
                if t is ast.BitOr:
                    return a | b
                if t is ast.BitAnd:
                    return a & b
            except ZeroDivisionError:
                raise AbsRaise('ZeroDivisionError', None, self.loc())
            except TypeError:
                raise AbsRaise('TypeError', None, self.loc())
            except Exception:
                return Num(None)
        if ta is AUnion or tb is AUnion:
            rs = []
            excs = []
            for x in (a.vals if ta is AUnion else (a,)):
                for y in (b.vals if tb is AUnion else (b,)):
                    try:
                        rs.append(self.binop(op, x, y, n))
                    except AbsRaise as e:
                        excs.append(e)
            if not rs:
                raise excs[0]
            return self.joinall(rs)
        if isinstance(a, str) or isinstance(b, str):
            if t is ast.Mod and isinstance(a, str):
                if is_const(b):
                    try:
                        return a % b
                    except Exception:
                        raise AbsRaise('TypeError', None, self.loc())
                return Unk(self.deps(b), why='str%', ty='str')
            if isinstance(a, Unk) or isinstance(b, Unk) or t is ast.Mult:
                return Unk(self.deps(a) | self.deps(b), why='str+', ty='str')
            if t is ast.Add:
                if isinstance(a, (Num, AInst, ADict, AList, tuple, int, float)) or isinstance(b, (Num, AInst, ADict, AList, tuple, int, float)):
                    raise AbsRaise('TypeError', None, self.loc())
                return Unk(self.deps(a) | self.deps(b), why='str+', ty='str')
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if isinstance(a, tuple) and t is ast.Mult and isinstance(b, int):
            return a * b
        if ta is AList or tb is AList:
            if (ta is AList and a.kind == 'array') or (tb is AList and b.kind == 'array'):
                return self.arr_binop(op, a, b)
            if ta is AList and tb is AList:
                if t is ast.Add:
                    if a.items is not None and b.items is not None:
                        return AList(a.items + b.items, None, a.kind)
                    ea = self.joinall(a.items) if a.items is not None else a.elem
                    eb = self.joinall(b.items) if b.items is not None else b.elem
                    return AList(None, eb if ea is None else (ea if eb is None else self.join(ea, eb)), a.kind)
                if t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                    return self.set_op(t, a, b)
            if t is ast.Mult:
                l, k = (a, b) if ta is AList else (b, a)
                if isinstance(k, int) and l.items is not None:
                    return AList(l.items * k, None, l.kind)
                return AList(None, self.joinall(l.items) if l.items is not None else l.elem, l.kind)
        if ta is ADict and tb is ADict and t in (ast.BitOr, ast.Add):
            r = ADict(dict(a.d), a.rest, a.kind)
            self.dict_update(r, b)
            return r
        for x, y, nm in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, AInst):
                f = self.class_lookup(x.cls, '__%s%s__' % (nm, _OPNAME.get(t, 'x')))
                if f is not None:
                    return self.call(self.bind(f, x), [y], {})
        if t is ast.Div and isinstance(a, Ext) and isinstance(b, str):
            return Ext(a.path + '/' + b)      # pathlib
        return self.binop_num(op, num_of(a), num_of(b), b, a)

    def set_op(self, t, a, b):
        if a.items is None or b.items is None:
            e = [x for x in (a.elem, b.elem) if x is not None]
            for q in (a, b):
                if q.items:
                    e.extend(q.items)
            return AList(None, self.joinall(e) if e else None, 'set')
        if t is ast.BitOr:
            return self.make_set(a.items + b.items)
        inb = lambda x: any(self.same(x, y) for y in b.items)
        if t is ast.BitAnd:
            return self.make_set([x for x in a.items if inb(x)])
        return self.make_set([x for x in a.items if not inb(x)])

    def arr_binop(self, op, a, b):
        def items(v):
            if isinstance(v, AList):
                return v.items
            return None
        ia, ib = items(a), items(b)
        if ia is not None and ib is not None and len(ia) == len(ib):
            return AList([self.binop(op, x, y) for x, y in zip(ia, ib)], None, 'array')
        if ia is not None and not isinstance(b, (AList, tuple)):
            return AList([self.binop(op, x, b) for x in ia], None, 'array')
        if ib is not None and not isinstance(a, (AList, tuple)):
            return AList([self.binop(op, a, y) for y in ib], None, 'array')
        return AList(None, self.binop_num(op, num_of(a), num_of(b), b, a), 'array')

    def dimcheck(self, what, a, b, ra=None, rb=None):
        """both operands must have the same dimension"""
        if a.d is None or b.d is None or a.d == b.d or a.d == ZERO or b.d == ZERO:
            return True
        if a.soft or b.soft:
            return True
        if what == 'compare' and (isinstance(ra, (int, float)) or isinstance(rb, (int, float))):
            return True
        if self.track_dims:
            self.emit('dim', what, str(a.d), str(b.d))
        return False

    def binop_num(self, op, a, b, rawb=None, rawa=None):
        t = type(op)
        r = self.binop_num_(t, a, b, rawb)
        r.cx = join_cx(a.cx, b.cx)
        if t in (ast.Add, ast.Sub) and a.cx != 0 and b.cx != 0 and self.phase == 'analysis':
            x = self.cp_side(a.deps), self.cp_side(b.deps)
            P, C = self.SIDES[False], self.SIDES[True]
            y = (1 if a.deps & P else 0) | (2 if a.deps & C else 0), (1 if b.deps & P else 0) | (2 if b.deps & C else 0)
            if a.cx == b.cx == 1 and x in ((1, 2), (2, 1)) and (a.o, b.o) == x or y in ((1, 2), (2, 1)):
                self.emit('cpadd', *x)
        if (a.deps | b.deps) & self.ARGS and (t is ast.Sub or t is ast.Div):
            for lo, hi in self.BINS:
                x, y = (a.deps & lo != 0) + 2 * (a.deps & hi != 0), (b.deps & lo != 0) + 2 * (b.deps & hi != 0)
                if t is ast.Sub and x == 1 and y == 2:
                    self.emit('binorder', *(v[1] for v in tokens(lo | hi)))
                elif t is ast.Div and x == 3 and y in (1, 2):
                    self.emit('binnorm', *(v[1] for v in tokens(lo if y == 1 else hi)))
        if self.intervals and t in IVOPS:
            ia, ib = iv_of(a if rawa is None else rawa), iv_of(b if rawb is None else rawb)
            if ia and ib:
                r.iv = iv_op(IVOPS[t], ia, ib)
        if t is ast.Div and self.phase == 'analysis':
            x, y = (tuple(l for l, m in self.RATIO if p.deps & m and not q.deps & m) for p, q in ((a, b), (b, a)))
            if x and y or (x or y) and any(l.startswith('phi') for l in x + y):
                self.emit('ratio', x, y)
        if self.phase == 'analysis':
            self.weigh(t, a, b, rawa, rawb, r)
        if t is ast.Div:
            r.rt = a.rt or b.rt or (not is_const(rawa) if rawa is not None else True) and (not is_const(rawb) if rawb is not None else True)
        elif t in (ast.Mult, ast.Pow):
            r.rt = a.rt or b.rt
        elif t in (ast.Add, ast.Sub):
            r.rt = a.rt and b.rt
        return r

    def weigh(self, t, a, b, rawa, rawb, r):
        """r.av: (factor,) of a quantity scaled by a number where it is used ((None,) if its parts are scaled differently), the weight (float) of
        both in a sum of an electron and a muon quantity (0 if the weights differ), or minus the factor of a quotient by such a sum"""
        (_, e), (_, mu), _ = self.LEPTONS
        m = e | mu
        fa, fb = type(a.av) is float, type(b.av) is float
        scale = lambda v: v.av[0] if type(v.av) is tuple else 1.
        side = lambda v: (v.deps & e != 0) + 2 * (v.deps & mu != 0)
        if t is ast.Add:
            if isinstance(rawa, (int, float)) and not rawa:
                r.av = b.av
            elif isinstance(rawb, (int, float)) and not rawb:
                r.av = a.av
            elif fa or fb:
                if fa and fb and a.av == b.av:
                    r.av = a.av
            else:
                p, q = side(a), side(b)
                x, y = scale(a), scale(b)
                if (p, q) in ((1, 2), (2, 1)):
                    if x is not None and y is not None:
                        r.av = x if abs(x - y) < 1e-9 else 0.
                elif x is None or y is None or abs(x - y) > 1e-9 or p != q:
                    r.av = (None,) if p | q != 3 else None
                else:
                    r.av = a.av
        elif t in (ast.Mult, ast.Div):
            for v, c in ((a, rawb), (b, rawa)):
                if isinstance(c, (int, float)) and not isinstance(c, bool) and c and (t is ast.Mult or v is a):
                    w = v.av if type(v.av) is float else scale(v)
                    if w is not None:
                        w = w * abs(c) if t is ast.Mult else w / abs(c)
                        r.av = w if type(v.av) is float else (w,)
                    else:
                        r.av = v.av
                    return
            if t is ast.Div and fb and b.av >= 0:
                if fa:
                    if a.av >= 0:
                        self.emit('lquot', a.av / b.av if a.av and b.av else 0.)
                elif scale(a) is not None:
                    if b.av:
                        r.av = -scale(a) / b.av
                    else:
                        self.emit('lquot', 0.)
                return
            if fa or fb:
                v, o = (a, b) if fa else (b, a)
                if (t is ast.Mult or fa) and not o.deps & m and scale(o) is not None:
                    r.av = v.av * scale(o) if t is ast.Mult else v.av / scale(o)
                return
            x, y = scale(a), scale(b)
            if x is None or y is None:
                r.av = (None,)
            elif x != 1 or y != 1:
                r.av = (x * y if t is ast.Mult else x / y,)

    def binop_num_(self, t, a, b, rawb=None):
        deps = a.deps | b.deps
        o = a.o | b.o
        if t in (ast.Add, ast.Sub):
            d, conf = join_dim(a.d, b.d)
            if conf:
                if self.dimcheck('add', a, b):
                    # soft: trust the hard one
                    if a.soft and not b.soft:
                        d = b.d
                    elif b.soft and not a.soft:
                        d = a.d
            if d is None and not conf:
                # unknown + known: by homogeneity the sum has the known dimension
                if a.d is None and b.d not in (None, ZERO) and not b.soft:
                    d = b.d
                elif b.d is None and a.d not in (None, ZERO) and not a.soft:
                    d = a.d
            soft = a.soft and b.soft
            return Num(d, deps, soft, o)
        if t in (ast.Mult, ast.MatMult):
            if a.d == ZERO or b.d == ZERO:
                return Num(ZERO, deps, False, o)
            if a.d is None or b.d is None:
                return Num(None, deps, True, o)
            return Num(a.d + b.d, deps, a.soft or b.soft, o)
        if t in (ast.Div, ast.FloorDiv):
            if a.d == ZERO:
                return Num(ZERO, deps, False, o)
            if a.d is None or b.d is None or b.d == ZERO:
                return Num(None, deps, True, o)
            return Num(a.d - b.d, deps, a.soft or b.soft, o)
        if t is ast.Pow:
            if a.d == ZERO:
                return Num(ZERO, deps, False, o)
            if a.d == 0 and not a.soft:
                if b.d not in (None, 0, ZERO) and not b.soft:
                    self.emit('dim', 'exponent', str(a.d), str(b.d))
                return Num(0, deps, False, o)
            if isinstance(rawb, (int, float)):
                if a.d is None:
                    return Num(None, deps, True, o)
                x = a.d * Fraction(rawb).limit_denominator(1000)
                return Num(x, deps, a.soft, o)
            if a.d == 0:
                return Num(0, deps, True, o)
            return Num(None, deps, True, o)
        if t is ast.Mod:
            return Num(a.d, deps, a.soft, o)
        return Num(0, deps, False, o)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev(n.slice)
        self.frame.line = n.lineno
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, Par):
            return self.ext.par_get(o, k)
        if isinstance(o, ADict):
            hk = self.hkey(k)
            if o.cfg is not None:
                return self.ext.cfg_get(o, k)
            if hk is None:
                self.discrete(self.deps(k))
            if hk is not None:
                if hk[0] in o.d:
                    if o.maybe and hk[0] in o.maybe:
                        self.may_raise()
                    return self.held(o, o.d[hk[0]])
                if o.factory is not None:
                    v = self.call(o.factory, [], {})
                    if not self.is_weak(o):
                        o.d[hk[0]] = v
                    return v
                if o.rest is not None:
                    self.may_raise()
                    return self.held(o, o.rest)
                if o.kind == 'Counter':
                    if isinstance(hk[0], str):
                        self.emit('missing', hk[0])
                    return 0
                self.emit('keyerror', o.tag or o.name or 'dict', repr(hk[0]))
                raise AbsRaise('KeyError', k, self.loc())
            self.may_raise()
            if isinstance(k, AUnion):
                return self.joinall([self.getitem(o, x) for x in k.vals])
            vals = list(o.d.values())
            if o.rest is not None:
                vals.append(o.rest)
            if not vals:
                raise AbsRaise('KeyError', k, self.loc())
            return self.held(o, self.joinall(vals))
        if isinstance(o, tuple) or isinstance(o, str) or isinstance(o, range) or isinstance(o, bytes):
            if isinstance(k, (int, slice)):
                try:
                    return o[k]
                except IndexError:
                    raise AbsRaise('IndexError', k, self.loc())
                except TypeError:
                    raise AbsRaise('TypeError', k, self.loc())
            if isinstance(o, tuple):
                if not o:
                    raise AbsRaise('IndexError', k, self.loc())
                return self.joinall(list(o))
            return Unk(self.deps(k), why='index', ty='str')
        if isinstance(o, AList):
            if o.items is not None:
                if isinstance(k, int):
                    if -len(o.items) <= k < len(o.items):
                        return o.items[k]
                    raise AbsRaise('IndexError', k, self.loc())
                if isinstance(k, slice):
                    try:
                        r = AList(o.items[k], None, o.kind)
                    except Exception:
                        return Unk(why='slice')
                    if o.kind == 'array':
                        r.owner = o.owner
                        r.born = o.born
                    return r
                if isinstance(k, tuple) and k and isinstance(k[0], int):
                    x = self.getitem(o, k[0])
                    return self.getitem(x, k[1] if len(k) == 2 else k[1:])
                if isinstance(k, tuple) and k and isinstance(k[0], slice):
                    sub = self.getitem(o, k[0])
                    if isinstance(sub, AList) and sub.items is not None:
                        return AList([self.getitem(x, k[1] if len(k) == 2 else k[1:]) for x in sub.items], None, 'array')
                return self.flat_elem(o)
            e = o.elem if o.elem is not None else Unk(why='elem')
            if o.kind == 'array' or isinstance(k, (slice,)) or isinstance(k, Unk):
                if isinstance(k, slice) and o.kind != 'array':
                    return AList(None, e, o.kind)
                return e
            return e
        if isinstance(o, AClass):
            f = self.meta_lookup(o, '__getitem__')
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            f = self.class_lookup(o, '__class_getitem__')
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            return Unk(why='class[]')
        if isinstance(o, AInst):
            f = self.class_lookup(o.cls, '__getitem__')
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            if o.cls is not None and o.cls.cname == 'WC' and isinstance(o.attrs.get('dict'), ADict):
                d = o.attrs['dict']
                hk = self.hkey(k)
                if hk is not None and hk[0] not in d.d and d.rest is None:
                    if d.d:
                        self.emit('wcname', str(o.attrs.get('eft')), str(o.attrs.get('basis')), str(hk[0]))
                    return 0
                return self.getitem(d, k)
            if self.ext_base(o.cls) == 'dict':
                d = self.dict_of(o)
                hk = self.hkey(k)
                if hk is not None and hk[0] not in d.d:
                    m = self.class_lookup(o.cls, '__missing__')
                    if m is not None:
                        return self.call(self.bind(m, o), [k], {})
                return self.getitem(d, k)
            return Unk(why='inst[]')
        if isinstance(o, AUnion):
            rs = []
            excs = []
            for x in o.vals:
                if x is None:
                    continue
                try:
                    rs.append(self.getitem(x, k))
                except AbsRaise as e:
                    excs.append(e)
            if not rs:
                if excs:
                    raise excs[0]
                raise AbsRaise('TypeError', None, self.loc())
            return self.joinall(rs)
        if isinstance(o, Num):
            return o.like()
        if isinstance(o, Ext):
            return self.ext.getitem(o, k)
        if o is None or isinstance(o, (int, float)):
            raise AbsRaise('TypeError', None, self.loc())
        return Unk(self.deps(o), why='item')

    def flat_elem(self, o):
        """join of all scalar elements"""
        if isinstance(o, AList):
            its = o.items if o.items is not None else [o.elem]
            vals = [self.flat_elem(x) for x in its if x is not None]
            return self.joinall(vals) if vals else Unk(why='elem')
        return o

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        if not isinstance(cls, AClass):
            return None
        for c in cls.mro():
            if isinstance(c, AClass) and name in c.attrs:
                return c.attrs[name]
        return None

    def meta_lookup(self, cls, name):
        if isinstance(cls.meta, AClass):
            return self.class_lookup(cls.meta, name)
        return None

    def ext_bases(self, cls):
        return [c for c in cls.mro() if isinstance(c, Ext)]

    def ext_base(self, cls):
        if cls is None:
            return None
        for c in self.ext_bases(cls):
            if c.path in ('builtins.dict', 'collections.OrderedDict', 'collections.Counter', 'collections.UserDict'):
                return 'dict'
            if c.path == 'builtins.list':
                return 'list'
        return None

    def dict_of(self, inst):
        d = inst.attrs.get('__dictdata__')
        if d is None:
            d = ADict()
            d.born = inst.born
            inst.attrs['__dictdata__'] = d
        return d

    def bind(self, f, obj):
        if isinstance(f, AProp):
            if f.kind == 'staticmethod':
                return f.func
            if f.kind == 'classmethod':
                return ABound(f.func, obj if isinstance(obj, AClass) else obj.cls)
            return ABound(f.func, obj)
        if isinstance(f, AFunc):
            return ABound(f, obj)
        return f

    def getattr(self, o, attr):
        if isinstance(o, AModule):
            if attr in o.vars:
                return o.vars[attr]
            sub = o.name + '.' + attr
            if sub in self.override:
                return self.override[sub]
            if sub in self.modules:
                return self.modules[sub]
            self.emit('noattr', o.name, attr)
            raise AbsRaise('AttributeError', attr, self.loc())
        if isinstance(o, AInst):
            return self.inst_attr(o, attr)
        if isinstance(o, AClass):
            v = self.class_lookup(o, attr)
            if v is not None or any(isinstance(c, AClass) and attr in c.attrs for c in o.mro()):
                if isinstance(v, AProp):
                    if v.kind == 'property':
                        return v
                    return self.bind(v, o)
                return v
            if attr == '__name__':
                return o.cname
            if attr == '__dict__':
                return ADict(dict(o.attrs))
            if attr == '__mro__':
                return tuple(o.mro())
            if attr == '__subclasses__':
                return BuiltinM(o, '__subclasses__')
            for b in self.ext_bases(o):
                if b.path not in ('builtins.object',):
                    return self.ext.class_attr(o, b, attr)
            if attr in ('__init__', '__new__', '__class__', '__module__', '__doc__', '__qualname__', 'mro'):
                return Ext('builtins.object.' + attr)
            self.emit('noattr', o.cname, attr)
            raise AbsRaise('AttributeError', attr, self.loc())
        if isinstance(o, ASuper):
            cls = o.self.cls if isinstance(o.self, AInst) else o.self
            mro = cls.mro() if isinstance(cls, AClass) else []
            try:
                i = next(j for j, c in enumerate(mro) if c is o.cls) + 1
            except StopIteration:
                i = 0
            for c in mro[i:]:
                if isinstance(c, AClass) and attr in c.attrs:
                    v = c.attrs[attr]
                    if isinstance(v, AProp) and v.kind == 'property':
                        return self.call(v.func, [o.self], {})
                    return self.bind(v, o.self)
                if isinstance(c, Ext) and c.path != 'builtins.object':
                    return self.ext.super_attr(o.self, c, attr)
            return Ext('builtins.object.' + attr)
        if isinstance(o, Ext):
            return self.ext.getattr(o, attr)
        if isinstance(o, AUnion):
            rs = []
            excs = []
            for x in o.vals:
                if x is None:
                    continue
                try:
                    rs.append(self.getattr(x, attr))
                except AbsRaise as e:
                    excs.append(e)
            if not rs:
                raise excs[0] if excs else AbsRaise('AttributeError', attr, self.loc())
            return self.joinall(rs)
        if isinstance(o, Num):
            if attr in ('real', 'imag'):
                return Num(o.d, o.deps, o.soft, o.o, cx=0)
            if attr in ('T', 'flat', 'H'):
                return o.like()
            if attr in ('shape', 'ndim', 'size', 'dtype'):
                return Unk(0, why=attr)
            return BuiltinM(o, attr)
        if isinstance(o, AList):
            if o.kind == 'array':
                if attr in ('real', 'imag'):
                    x = num_of(o).like()
                    x.cx = 0
                    return AList(None, x, 'array')
                if attr == 'T':
                    return self.transpose(o)
                if attr in ('shape', 'ndim', 'size', 'dtype', 'flat'):
                    if attr == 'shape' and o.items is not None and all(not isinstance(x, AList) for x in o.items):
                        return (len(o.items),)
                    return Unk(0, why=attr)
            return BuiltinM(o, attr)
        if isinstance(o, AFunc):
            if attr in o.attrs:
                return o.attrs[attr]
            if attr == '__name__':
                return o.name
            if attr in ('cache_clear', 'cache_info'):
                return Ext('functools.' + attr)
            return Unk(why='func attr ' + attr)
        if isinstance(o, Par) or isinstance(o, (ADict, tuple, str, bytes, int, float, complex, AProp)):
            if isinstance(o, (int, float, complex)) and not isinstance(o, bool):
                if attr == 'real':
                    return o.real
                if attr == 'imag':
                    return o.imag
            return BuiltinM(o, attr)
        if isinstance(o, ABound):
            if attr == '__self__':
                return o.self
            if attr == '__func__':
                return o.func
            return self.getattr(o.func, attr)
        if isinstance(o, APartial):
            return {'func': o.func, 'args': tuple(o.args), 'keywords': ADict(dict(o.kwargs))}.get(attr, Unk())
        if o is None:
            self.emit('noattr', 'None', attr)
            raise AbsRaise('AttributeError', attr, self.loc())
        return Unk(self.deps(o), why='attr ' + attr)

    def transpose(self, o):
        if o.items is not None and o.items and all(isinstance(r, AList) and r.items is not None for r in o.items):
            w = {len(r.items) for r in o.items}
            if len(w) == 1:
                w = w.pop()
                return AList([AList([r.items[j] for r in o.items], None, 'array') for j in range(w)], None, 'array')
        return o

    def inst_attr(self, o, attr):
        cv = self.class_lookup(o.cls, attr)
        if isinstance(cv, AProp) and cv.kind == 'property':
            if attr in o.attrs and o.opaque:
                return o.attrs[attr]
            return self.call(cv.func, [o], {})
        if attr in o.attrs:
            v = o.attrs[attr]
            if isinstance(v, Maybe):
                return v.v
            return v
        if cv is not None or (o.cls is not None and any(isinstance(c, AClass) and attr in c.attrs for c in o.cls.mro())):
            return self.bind(cv, o) if cv is not None else None
        if attr == '__class__':
            return o.cls
        if attr == '__dict__':
            d = ADict({k: v for k, v in o.attrs.items()})
            d.tag = '__dict__'
            d.born = o.born
            return d
        g = self.class_lookup(o.cls, '__getattr__')
        if g is not None:
            return self.call(self.bind(g, o), [attr], {})
        if o.opaque:
            return Unk(why='opaque attr ' + attr)
        if self.ext_base(o.cls) == 'dict':
            return BuiltinM(self.dict_of(o), attr)
        bs = [b for b in self.ext_bases(o.cls) if b.path != 'builtins.object']
        if bs:
            return self.ext.inst_attr(o, bs[0], attr)
        if attr in ('__init__', '__doc__', '__module__', '__str__', '__repr__', '__hash__', '__eq__'):
            return Ext('builtins.object.' + attr)
        self.emit('noattr', o.cls.cname if o.cls else '?', attr)
        raise AbsRaise('AttributeError', attr, self.loc())

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        f = self.ev(n.func)
        args = []
        kwargs = {}
        star_unknown = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                it, el = self.iterate(self.ev(a.value))
                if it is None:
                    star_unknown = el if el is not None else Unk(why='*')
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a))
        kw_unknown = None
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, ADict):
                    for kk, vv in v.d.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                    if v.rest is not None:
                        kw_unknown = v.rest
                elif isinstance(v, Par):
                    for kk in self.par_keys():
                        kwargs[kk] = self.ext.par_get(v, kk)
                else:
                    kw_unknown = Unk(self.deps(v), why='**')
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.frame.line = n.lineno
        return self.call(f, args, kwargs, star_unknown, kw_unknown, n)

    def call(self, f, args, kwargs, star=None, kwstar=None, node=None):
        if isinstance(f, ABound):
            return self.call(f.func, [f.self] + list(args), kwargs, star, kwstar, node)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kwargs, star, kwstar)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kwargs, star, kwstar)
        if isinstance(f, APartial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, star, kwstar, node)
        if isinstance(f, BuiltinM):
            if isinstance(f.obj, AClass) and f.name == '__subclasses__':
                return AList(list(f.obj.subs), None, 'list')
            return self.ext.method(f.obj, f.name, args, kwargs)
        if isinstance(f, Ext):
            return self.ext.call(f, args, kwargs, star, kwstar, node)
        if isinstance(f, AProp):
            return self.call(f.func, args, kwargs, star, kwstar, node)
        if isinstance(f, AInst):
            c = self.class_lookup(f.cls, '__call__')
            if c is not None:
                return self.call(self.bind(c, f), args, kwargs, star, kwstar, node)
            return self.ext.call_unknown(f, args, kwargs)
        if isinstance(f, AUnion):
            rs = []
            excs = []
            for x in f.vals:
                if x is None:
                    continue
                try:
                    self.weak.append(Obj.counter)
                    try:
                        rs.append(self.call(x, args, kwargs, star, kwstar, node))
                    finally:
                        self.weak.pop()
                except AbsRaise as e:
                    excs.append(e)
            if not rs:
                raise excs[0] if excs else AbsRaise('TypeError', None, self.loc())
            return self.joinall(rs)
        if f is None or is_host(f):
            self.emit('notcallable', repr(f))
            raise AbsRaise('TypeError', None, self.loc())
        return self.ext.call_unknown(f, args, kwargs)

    def instantiate(self, cls, args, kwargs, star=None, kwstar=None):
        mc = self.meta_lookup(cls, '__call__')
        if mc is not None:
            return self.call(self.bind(mc, cls), args, kwargs)
        r = self.ext.new(cls, args, kwargs)
        if r is not None:
            return r
        inst = AInst(cls)
        init = self.class_lookup(cls, '__init__')
        if init is not None:
            self.call(ABound(init, inst) if isinstance(init, AFunc) else init, args, kwargs, star, kwstar)
        return inst

    def vkey(self, v, depth=0):
        """hashable structural key for memoisation; raises TypeError when none exists"""
        if v is None or isinstance(v, (str, bool)):
            return v if not isinstance(v, bool) else ('b', v)
        if isinstance(v, (int, float, complex, bytes)):
            return (type(v).__name__, repr(v))
        if isinstance(v, Num):
            return v.key()
        if isinstance(v, tuple):
            return ('t',) + tuple(self.vkey(x, depth + 1) for x in v)
        if isinstance(v, Par):
            if v.owner != 'input':
                # a private copy that the callee may change
                return ('P', id(v), v.conj)
            return ('P', v.conj, tuple(sorted((k, self.vkey(x)) for k, x in v.over.items())))
        if isinstance(v, (AFunc, AClass, AModule)):
            return ('F', id(v))
        if isinstance(v, ABound):
            return ('B', id(v.func), self.vkey(v.self, depth + 1))
        if isinstance(v, Ext):
            return ('E', v.path, v.deps, None if v.data is None else self.vkey(v.data, depth + 1))
        if isinstance(v, Unk):
            return v.key()
        if isinstance(v, AInst):
            if v.owner is not None or v.born <= (self.world_ceiling or 0):
                return ('I', id(v))
            raise TypeError
        if isinstance(v, (ADict, AList)):
            if v.born <= (self.world_ceiling or 0):
                return ('O', id(v))
            if depth > 2:
                raise TypeError
            if isinstance(v, ADict):
                if len(v.d) > 200:
                    raise TypeError
                return ('D', v.kind, v.owner, tuple((self.vkey(k) if not isinstance(k, (AFunc, AInst)) else id(k), self.vkey(x, depth + 1)) for k, x in v.d.items()),
                        self.vkey(v.rest, depth + 1), v.maybe)
            if v.items is not None:
                if len(v.items) > 60:
                    raise TypeError
                return ('L', v.kind, v.owner) + tuple(self.vkey(x, depth + 1) for x in v.items)
            return ('l', v.kind, v.owner, self.vkey(v.elem, depth + 1))
        if isinstance(v, AUnion):
            return ('AU',) + tuple(self.vkey(x, depth + 1) for x in v.vals)
        if isinstance(v, range):
            return ('r', repr(v))
        if isinstance(v, BuiltinM):
            return ('bm', self.vkey(v.obj, depth + 1), v.name)
        raise TypeError

    sumstack = ()
    debug = False

    def call_func(self, f, args, kwargs, star=None, kwstar=None):
        self.ncalls += 1
        hook = self.hooks.get((f.mod.name, f.qual))
        if hook is not None:
            r = hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        hook = self.prehooks.get((f.mod.name, f.qual))
        if hook is not None:
            hook(self, f, args, kwargs)
        if self.depth > self.MAXDEPTH:
            self.emit('depth')
            return Unk(why='depth')
        if self.phase == 'analysis':
            self.ext.on_call(f, args, kwargs)
        key = None
        if self.phase == 'analysis' and f.toplevel and star is None and kwstar is None:
            try:
                key = (id(f.node), id(f.scope), any(t.handlers for t in self.trys), tuple(self.vkey(a) for a in args),
                       tuple((k, self.vkey(v)) for k, v in sorted(kwargs.items())))
                s = self.memo.get(key)
                if s is not None:
                    self.nmemo += 1
                    self.sum.kids.append(s)
                    if s.exc is not None:
                        raise s.exc
                    return self.refresh(s.ret)
            except TypeError:
                key = None
        s = Summary(f)
        outer = self.sum
        self.sum = s
        self.sumstack = self.sumstack + ((s, Obj.counter),)
        self.depth += 1
        nfr = len(self.frames)
        try:
            r = self.run_func(f, args, kwargs, star, kwstar)
            if self.phase == 'analysis':
                r = self.cp_side_of(f, args, kwargs, r)
            s.ret = r
            if self.phase == 'analysis':
                self.cp_check(r)
                if f.cached:
                    self.cached_check(f, s, r, args, kwargs)
            return self.refresh(r) if key is not None and not s.nomemo else r
        except AbsRaise as e:
            s.exc = e
            del self.frames[nfr:]
            raise
        finally:
            self.depth -= 1
            self.sumstack = self.sumstack[:-1]
            self.sum = outer
            outer.kids.append(s)
            if s.nomemo:
                pass
            elif key is not None:
                self.memo[key] = s
                self.keep.append((f, args, kwargs))

    def cached_check(self, f, s, r, args, kwargs):
        """effects and hidden inputs of a memoised function"""
        name = f.mod.name + '.' + f.qual
        self.emit('cached', name)
        d = 0
        for x in list(args) + list(kwargs.values()):
            d |= self.deps(x)
        extra = self.deps(r) & ~d
        if extra:
            self.emit('cached-hidden', name, ', '.join(sorted(map(str, tokens(extra)))[:6]))
        for ev in s.flatten():
            if ev[0] in ('cfg', 'cite', 'random', 'write', 'io', 'extset', 'par') or ev[0] == 'mut' and ev[1] != 'copy':
                self.emit('cached-effect', name, ev[0], str(ev[1]))

    CPK = bit(('par', 'gamma')) | bit(('par', 'delta'))
    CPC = bit(('parc', 'gamma')) | bit(('parc', 'delta'))

    def cp_check(self, r):
        n = None
        if isinstance(r, (Num, tuple)) or isinstance(r, AList) and r.kind in ('array', 'tuple', 'list'):
            n = num_of(r)
        elif isinstance(r, ADict):
            for v in r.d.values():
                if isinstance(v, (Num, AList)):
                    m = num_of(v)
                    n = m if n is None else join_num(n, m)
        if n is None:
            return
        k = (1 if n.deps & self.CPK else 0) | (2 if n.deps & self.CPC else 0)
        if k in (1, 2) and n.o in (1, 2):
            self.emit('cp', k, n.o)

    RATIO = tuple((l, bit(('par', l))) for l in ('m_e', 'm_mu', 'm_tau', 'm_B0', 'm_Bs', 'm_K+', 'm_pi+')) + \
        tuple((l, bit(('wc', l))) for l in ('phil3_12', 'phil3_13', 'phil3_23', 'phie_11', 'phie_22', 'phie_33', 'phiq1_11', 'phid_11', 'phid_33'))
    LEPTONS = tuple((l, bit(('par', 'm_' + l))) for l in ('e', 'mu', 'tau'))
    SIDES = {False: bit(('cpside', 'plain')), True: bit(('cpside', 'conjugate'))}

    def cp_side_of(self, f, args, kwargs, r):
        """the result of a function with an argument cp_conjugate belongs to that member of the CP-conjugate pair"""
        if not isinstance(r, (Num, ADict)):
            return r
        names = [a.arg for a in f.node.args.args]
        v = kwargs.get('cp_conjugate')
        if 'cp_conjugate' in names and names.index('cp_conjugate') < len(args):
            v = args[names.index('cp_conjugate')]
        t = self.SIDES.get(v) if isinstance(v, bool) else None
        if t is None:
            return r
        if isinstance(r, Num):
            return r.with_deps(t)
        if r.rest is not None or r.born <= (self.world_ceiling or 0) or not all(isinstance(x, (Num, int, float, complex)) for x in r.d.values()):
            return r
        c = ADict({k: num_of(x).with_deps(t) if isinstance(x, Num) else x for k, x in r.d.items()}, None, r.kind, r.factory)
        c.maybe, c.restk, c.owner, c.cfg, c.tag = r.maybe, r.restk, r.owner, r.cfg, r.tag
        return c

    def cp_side(self, d):
        return (1 if d & self.CPK else 0) | (2 if d & self.CPC else 0)

    def cp_pairs(self, vars_):
        """a local called x_bar next to x is the CP conjugate of x: it must not be built from the same side"""
        for k, v in vars_.items():
            if k.endswith('bar') or k.endswith('_conj'):
                b = k[:-5] if k.endswith('_conj') else k[:-4] if k.endswith('_bar') else k[:-3]
                if b in vars_:
                    x, y = self.cp_side(self.deps(vars_[b])), self.cp_side(self.deps(v))
                    if x == y and x in (1, 2):
                        self.emit('cppair', b, k, x)

    def refresh(self, v, depth=0):
        """copy of a memoised mutable result, so callers cannot alias it"""
        if isinstance(v, AList) and v.born > (self.world_ceiling or 0):
            r = AList([self.refresh(x, depth + 1) for x in v.items] if v.items is not None and depth < 3 else v.items, v.elem, v.kind)
            r.owner = v.owner
            return r
        if isinstance(v, ADict) and v.born > (self.world_ceiling or 0):
            r = ADict({k: (self.refresh(x, depth + 1) if depth < 3 else x) for k, x in v.d.items()}, v.rest, v.kind, v.factory)
            r.maybe, r.restk, r.owner, r.cfg, r.tag = v.maybe, v.restk, v.owner, v.cfg, v.tag
            return r
        if isinstance(v, tuple) and not is_const(v):
            return tuple(self.refresh(x, depth + 1) for x in v)
        return v

    def bind_args(self, f, args, kwargs, star=None, kwstar=None):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars_ = {}
        kwargs = dict(kwargs)
        n = len(pos)
        for p, v in zip(pos, args):
            vars_[p.arg] = soften(v, p.arg)
        extra = list(args[n:])
        if a.vararg:
            if star is not None:
                vars_[a.vararg.arg] = AList(None, self.joinall(extra + [star]), 'tuple')
            else:
                vars_[a.vararg.arg] = tuple(extra)
        elif extra:
            self.emit('arity', f.mod.name + '.' + f.qual, 'too many positional arguments')
            raise AbsRaise('TypeError', None, self.loc())
        ndef = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg in kwargs and p not in a.posonlyargs:
                if p.arg in vars_:
                    self.emit('arity', f.mod.name + '.' + f.qual, 'multiple values for ' + p.arg)
                    raise AbsRaise('TypeError', None, self.loc())
                vars_[p.arg] = soften(kwargs.pop(p.arg), p.arg)
            elif p.arg not in vars_:
                j = i - (n - ndef)
                if star is not None:
                    vars_[p.arg] = star if j < 0 else self.join(star, f.defaults[j])
                elif kwstar is not None and j < 0:
                    vars_[p.arg] = kwstar
                elif j >= 0:
                    vars_[p.arg] = soften(f.defaults[j], p.arg) if kwstar is None else self.join(f.defaults[j], kwstar)
                else:
                    self.emit('arity', f.mod.name + '.' + f.qual, 'missing argument ' + p.arg)
                    raise AbsRaise('TypeError', None, self.loc())
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kwargs:
                vars_[p.arg] = kwargs.pop(p.arg)
            else:
                vars_[p.arg] = d
        if a.kwarg:
            dd = ADict(kwargs)
            if kwstar is not None:
                dd.rest = kwstar
            vars_[a.kwarg.arg] = dd
        elif kwargs:
            self.emit('arity', f.mod.name + '.' + f.qual, 'unexpected keyword ' + ','.join(sorted(kwargs)))
            raise AbsRaise('TypeError', None, self.loc())
        return vars_

    def run_func(self, f, args, kwargs, star=None, kwstar=None):
        sc = Scope(f.scope if not f.scope.iscls else f.scope.parent, f.mod, f)
        if sc.parent is not None and sc.parent.func is None and sc.parent.parent is None and sc.parent.vars is f.mod.vars:
            sc.parent = None
        sc.vars = {k: unscaled(v) for k, v in self.bind_args(f, args, kwargs, star, kwstar).items()}
        selfv = args[0] if (f.cls is not None and args) else None
        fr = Frame(sc, f.mod, f.qual, f, f.cls, selfv)
        fr.line = f.node.lineno
        if f.cls is None:
            # closures inside methods still see super()
            s2 = f.scope
            while s2 is not None:
                if s2.func is not None and s2.func.cls is not None:
                    fr.cls = s2.func.cls
                    a0 = s2.func.node.args.args
                    if a0:
                        fr.self_ = s2.vars.get(a0[0].arg)
                    break
                s2 = s2.parent
        saved_weak = self.weak
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                r = unscaled(self.ev(f.node.body))
                if self.phase == 'analysis':
                    fr.retfacts.append((r, (), fr.line))
                    self.ext.on_return(f, fr)
            else:
                nw, nt = len(self.weak), len(self.trys)
                try:
                    alive = self.block(f.node.body)
                except AbsRaise as e:
                    if not fr.returns or f.is_gen:
                        raise
                    # some paths have returned: the function returns or raises
                    del self.frames[self.frames.index(fr) + 1:]
                    del self.weak[nw:]
                    del self.trys[nt:]
                    self.emit('raise', e.exc)
                    alive = False
                if alive:
                    fr.returns.append(None)
                if self.phase == 'analysis':
                    self.cp_pairs(sc.vars)
                if fr.yields is not None or f.is_gen:
                    r = AList(fr.yields or [], None, 'iter')
                else:
                    r = self.joinall(fr.returns)
                if self.phase == 'analysis':
                    self.ext.on_return(f, fr)
        finally:
            self.frames.pop()
        if f.cached:
            r = self.own(r, ('cache', f.mod.name + '.' + f.qual))
        return r

    def own(self, v, owner):
        if isinstance(v, (AList, ADict)):
            v.owner = owner
            for x in (v.items or []) if isinstance(v, AList) else v.d.values():
                self.own(x, owner)
            return v
        if isinstance(v, tuple):
            return tuple(self.own(x, owner) for x in v)
        if isinstance(v, Num):
            return v.owned(owner)
        return v

    def held(self, o, v):
        """a value read from a table that outlives the evaluation"""
        if isinstance(v, Num) and self.phase == 'analysis' and v.own is None and o.held is not None:
            return v.owned(('cache', o.held[0]))
        if isinstance(v, Num) and self.phase == 'analysis' and v.own is None \
                and (o.owner is not None or o.born <= (self.world_ceiling or 0)):
            return v.owned(o.owner or ('global', o.name or 'module-level table'))
        return v

    def dict_update(self, d, src):
        self.mutated(d, 'update')
        if isinstance(src, ADict):
            for k, v in src.d.items():
                if src.maybe and k in src.maybe and k in d.d:
                    d.d[k] = self.join(d.d[k], v)
                elif d.kind == 'Counter' and k in d.d:
                    d.d[k] = self.binop(ast.Add(), d.d[k], v)
                elif self.is_weak(d) and k in d.d:
                    d.d[k] = self.join(d.d[k], v)
                else:
                    d.d[k] = v
                    if src.maybe and k in src.maybe:
                        d.maybe = (d.maybe or frozenset()) | {k}
            if src.rest is not None:
                d.rest = src.rest if d.rest is None else self.join(d.rest, src.rest)
                for k in d.d:
                    d.d[k] = self.join(d.d[k], src.rest)
        elif isinstance(src, (AList, tuple)):
            items, el = self.iterate(src)
            if items is not None:
                for p in items:
                    it, e = self.iterate(p)
                    if it is not None and len(it) == 2:
                        hk = self.hkey(it[0])
                        if hk is not None:
                            d.d[hk[0]] = it[1]
                        else:
                            d.rest = it[1] if d.rest is None else self.join(d.rest, it[1])
                            d.restk = it[0]
                    else:
                        d.rest = Unk(why='pair')
            elif isinstance(el, tuple) and len(el) == 2:
                d.rest = el[1] if d.rest is None else self.join(d.rest, el[1])
                d.restk = el[0]
            else:
                d.rest = Unk(why='pairs')
        elif isinstance(src, Par):
            for k in self.par_keys():
                d.d[k] = self.ext.par_get(src, k)
        elif isinstance(src, AInst) and self.ext_base(src.cls) == 'dict':
            self.dict_update(d, self.dict_of(src))
        elif src is None:
            pass
        else:
            u = Unk(self.deps(src), why='update')
            d.rest = u if d.rest is None else self.join(d.rest, u)


IVOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}
_OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow',
           ast.Mod: 'mod', ast.BitOr: 'or', ast.BitAnd: 'and', ast.FloorDiv: 'floordiv', ast.MatMult: 'matmul'}


def _is_gen(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
