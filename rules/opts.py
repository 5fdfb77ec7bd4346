"""P26: every parameter of a function has an effect, and functions pass on the options they share with
the functions they call."""
import ast
from check_result import Result
from . import rule
from .api import flow, at
from .bind import modules
from sa.cond import conditions, chains

# accepted: parameters without effect, and options deliberately not passed on
ASSUMED = {
    'noeffect:CitationScope.__exit__': 'the context manager protocol prescribes the parameters',
    'noeffect:_read_yaml_object_metadata:constraints': 'same signature as the function reading the values; private',
    'noeffect:Observable.add_taxonomy:taxonomy_string': 'looking up an entry of the nested default dictionary creates it',
    'noeffect:main:argv': 'script entry point',
    'noeffect:sm_covariance:**kwargs': 'unknown options are accepted',
    'noeffect:nintegrate_fast:**kwargs': 'same interface as nintegrate, whose tolerance does not apply',
    'noeffect:contour:**kwargs': 'obsolete options are accepted',
    'notpassed:FastLikelihood.make_measurement:Likelihood.__init__:exclude_measurements': 'the pseudo measurement is included by name',
    'unread:Prediction.__init__:observable': 'the prediction is registered with the observable',
}
# parameters of an interface: overriding methods may ignore them
PROTOCOL = {'args', 'kwargs'}


def bodyless(fn):
    b = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in b)


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


class Live:
    """names whose values reach a result or an effect of the function (backward slice, flow insensitive)"""

    def __init__(self, fn):
        self.flows = []     # (targets, sources)
        self.live = set()
        self.walk(fn.body, frozenset())
        while True:
            n = len(self.live)
            for t, s in self.flows:
                if t & self.live:
                    self.live |= s
            if len(self.live) == n:
                break

    def sink(self, s, ctx):
        self.live |= s | ctx

    def expr(self, e, ctx):
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                self.flows.append(({x.target.id}, names(x.value) | ctx))
            elif isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None:
                self.sink(names(x.value), ctx)
            elif isinstance(x, ast.comprehension):
                pass

    def target(self, t, src, ctx):
        if isinstance(t, ast.Name):
            self.flows.append(({t.id}, src | ctx))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, src, ctx)
        elif isinstance(t, ast.Starred):
            self.target(t.value, src, ctx)
        else:
            # an element or attribute: of a local container, or of something else
            b = t
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            s = src | names(t) | ctx
            if isinstance(b, ast.Name) and isinstance(t, ast.Subscript):
                self.flows.append(({b.id}, s))
                if b.id not in self.local:
                    self.sink(s, ctx)
            else:
                self.sink(s, ctx)

    local = frozenset()

    def walk(self, body, ctx):
        for st in body:
            self.stmt(st, ctx)

    def stmt(self, st, ctx):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = st.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            src = set()
            for x in st.body + a.defaults + [d for d in a.kw_defaults if d] + st.decorator_list:
                src |= names(x)
            self.flows.append(({st.name}, (src - ps) | ctx))
            return
        if isinstance(st, ast.ClassDef):
            self.flows.append(({st.name}, {y for x in st.body for y in names(x)} | ctx))
            return
        for e in ast.iter_child_nodes(st):
            if isinstance(e, ast.expr):
                self.expr(e, ctx)
        if isinstance(st, ast.Return):
            self.sink(names(st) , ctx)
            if st.value is None:
                self.live |= ctx
        elif isinstance(st, (ast.Raise, ast.Assert, ast.Delete)):
            self.sink(names(st), ctx)
        elif isinstance(st, ast.Expr):
            if not isinstance(st.value, ast.Constant):
                v = st.value
                # filling a local container matters only if the container does
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                        and v.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'setdefault', 'discard', 'remove', 'sort') \
                        and v.func.value.id in self.local:
                    self.flows.append(({v.func.value.id}, names(v) | ctx))
                else:
                    self.sink(names(v), ctx)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                self.target(t, names(st.value), ctx)
        elif isinstance(st, ast.AugAssign):
            self.target(st.target, names(st.value) | names(st.target), ctx)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.target(st.target, names(st.value), ctx)
        elif isinstance(st, (ast.If, ast.While)):
            c = ctx | names(st.test)
            self.walk(st.body, c)
            self.walk(st.orelse, c)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            s = names(st.iter)
            self.target(st.target, s, ctx)
            self.walk(st.body, ctx | s)
            self.walk(st.orelse, ctx | s)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.sink(names(i.context_expr), ctx)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, names(i.context_expr), ctx)
            self.walk(st.body, ctx)
        elif isinstance(st, ast.Try):
            self.walk(st.body, ctx)
            for h in st.handlers:
                self.walk(h.body, ctx)
            self.walk(st.orelse, ctx)
            self.walk(st.finalbody, ctx)
        elif isinstance(st, (ast.Continue, ast.Break)):
            self.live |= ctx    # decides which iterations happen


FRESH = {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'Counter', 'copy', 'deepcopy', 'zeros', 'empty', 'ones', 'full', 'array'}


def fresh(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and (
        isinstance(e.func, ast.Name) and e.func.id in FRESH or isinstance(e.func, ast.Attribute) and e.func.attr in FRESH)


def live_names(fn):
    loc, other = set(), set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    (loc if fresh(x.value) else other).add(t.id)
                    continue
                other |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        elif isinstance(x, (ast.For, ast.comprehension)):
            other |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        elif isinstance(x, (ast.withitem, ast.AnnAssign, ast.NamedExpr)):
            other |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    a = fn.args
    other |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    class L(Live):
        local = frozenset(loc - other)
    return L(fn).live


def overwritten(fn, p):
    """the parameter is replaced before it is looked at"""
    for st in fn.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == p:
            return p not in names(st.value)
        if p in {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}:
            return False
    return False


def tested(fn, p):
    """constants the parameter is compared with; None if its values cannot be enumerated"""
    out, other = set(), False
    if any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
        return None
    inside = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.left, ast.Name) and x.left.id == p:
            c = x.comparators[0]
            if isinstance(x.ops[0], (ast.Eq, ast.NotEq)) and isinstance(c, ast.Constant):
                out.add(c.value)
                inside.add(id(x.left))
            elif isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) \
                    and all(isinstance(y, ast.Constant) for y in c.elts):
                out |= {y.value for y in c.elts}
                inside.add(id(x.left))
            elif isinstance(x.ops[0], (ast.Is, ast.IsNot)):
                inside.add(id(x.left))
    return out


def rejecting(fn, p, memo={}):
    """is every value but some constants answered with an error? -> constants accepted"""
    if (fn, p) in memo:
        return memo[fn, p]
    out = memo[fn, p] = rejecting_(fn, p)
    return out


def rejecting_(fn, p):
    out = None
    conds = conditions(fn)
    for n, cs in conds.items():
        if not isinstance(n, ast.Raise) or not cs:
            continue
        acc = set()
        for t, truth in cs:
            v = values(t, truth, p)
            if v is None:
                acc = None
                break
            acc |= v
        if acc and not handled(conds, n):
            # values handled by an earlier `if p == 'x': ... return`
            acc |= tested(fn, p) or set()
            out = acc if out is None else out & acc
    return out


def values(t, truth, p):
    """the constants p does not equal under the condition"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return values(t.operand, not truth, p)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if truth else ast.Or):
        vs = [values(x, truth, p) for x in t.values]
        return None if None in vs else set().union(*vs)
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == p):
        return None
    c = t.comparators[0]
    if isinstance(t.ops[0], ast.NotEq if truth else ast.Eq) and isinstance(c, ast.Constant):
        return {c.value}
    if isinstance(t.ops[0], ast.NotIn if truth else ast.In) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) \
            and all(isinstance(x, ast.Constant) for x in c.elts):
        return {x.value for x in c.elts}
    if isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(c, ast.Constant) and c.value is None \
            and isinstance(t.ops[0], ast.IsNot) == truth:
        return {None}
    return None


def handled(conds, n):
    """is the statement inside a nested function or the body of a try?"""
    return any(isinstance(m, (ast.Try, ast.FunctionDef, ast.Lambda)) and any(x is n for x in ast.walk(m)) and k
               for k, m in enumerate(conds))


@rule('P26')
def p26(ctx):
    r = Result()
    an = flow(ctx)
    for m in modules(ctx):
        for f in sorted((g for g in an.ix.by_node.values() if g.mod is m), key=lambda g: (g.node.lineno, g.qual)):
            if isinstance(f.node, ast.Lambda) or bodyless(f.node):
                continue
            ps = [p for p in f.pos + f.kwonly if p != f.self_name and p not in ('cls', 'self') and not p.startswith('_')]
            r.count('functions')
            if f.qual + '' not in () and ps:
                live = live_names(f.node)
                for p in ps:
                    r.count('parameters')
                    if 'noeffect:%s' % f.qual in ASSUMED or 'noeffect:%s:%s' % (f.qual, p) in ASSUMED:
                        r.count('assumed')
                        continue
                    if p not in live or overwritten(f.node, p):
                        # a method of an interface may ignore what its siblings use
                        if f.cls is not None and any(p in g.pos + g.kwonly and g is not f and p in live_names(g.node)
                                                     for c in an.ix.mro(f.cls) + an.ix.all_subs(f.cls)
                                                     for g in [c.methods.get(f.node.name)] if g is not None) \
                                and p not in names_all(f.node):
                            continue
                        r.find('noeffect:%s:%s' % (f.qual, p), 'the parameter %s of %s has no effect' % (p, f.qual), at(f, f.node))
            for v, star in ((f.vararg, '*'), (f.kwarg, '**')):
                if v and v not in names_all(f.node) and not f.node.name.startswith('_'):
                    key = 'noeffect:%s:%s%s' % (f.qual, star, v)
                    if key not in ASSUMED and not interface(an, f, v):
                        r.find(key, 'the arguments %s%s of %s are dropped' % (star, v, f.qual), at(f, f.node))
            bypass(r, an, f, ps)
            instance_options(r, an, f, ps)
            workers(r, an, f, ps)
            replaced_default(r, an, f, ps)
            loc = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(ps)
            rf = written(f)
            raw = {(x.lineno, x.col_offset): x for x in ast.walk(rf) if isinstance(x, ast.Call)} if rf is not None else {}
            loc |= {x.id for x in ast.walk(rf) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(ps) if rf is not None else set()
            for n, g, b, stars in an.summary(f).calls:
                for p in g.pos + g.kwonly:
                    if p in loc and p in g.defaults and not filled(f, n, g, p) and p not in b and len(p) > 1:
                        k = 'notpassed:%s:%s:%s' % (f.qual, g.qual, p)
                        if k in ASSUMED or fixed(f.node, n, p) or consumed(f.node, an.summary(f), p, g):
                            continue
                        # the normal form has no variables that are used only once
                        for fn, call in ((f.node, n), (rf, raw.get((n.lineno, n.col_offset)))):
                            if fn is not None and call is not None and before(fn, p, call) and p not in feeding(fn, call):
                                r.find(k, '%s determines %s but does not pass it on to %s' % (f.qual, p, g.qual), at(f, n))
                                break
                if g.mod.name.startswith('flavio.physics') or f.node.name == g.node.name == '__init__' and False:
                    continue
                for p in g.pos + g.kwonly:
                    if p in ps and p in g.defaults and (p in b or not filled(f, n, g, p)):
                        r.count('shared_options')
                        s = an.summary(f)
                        tok = ('p', p)
                        used = p in b and (tok in deps_of(s, b[p]) or p in names(b[p])) or \
                            isinstance(n.func, ast.Attribute) and tok in deps_of(s, n.func.value)
                        # the call happens where the option has a fixed value
                        if used or fixed(f.node, n, p):
                            continue
                        # a different value on purpose: given explicitly and not just a constant
                        if p in b and not isinstance(b[p], ast.Constant):
                            continue
                        if an.ix.by_node.get(g.node) is not g:
                            continue
                        key = 'notpassed:%s:%s:%s' % (f.qual, g.qual, p)
                        if key in ASSUMED:
                            continue
                        r.find(key, '%s does not pass its option %s on to %s' % (f.qual, p, g.qual), at(f, n))
            for p in ps:
                acc = rejecting(f.node, p)
                if acc is None:
                    continue
                r.count('enumerated_options')
                d = f.defaults.get(p)
                if isinstance(d, ast.Constant) and d.value is not None and d.value not in acc:
                    r.find('default:%s:%s' % (f.qual, p), 'the default %r of the option %s of %s is rejected' % (d.value, p, f.qual), at(f, f.node))
    # constants passed to options with enumerated values
    for f in an.ix.by_node.values():
        if f.mod.test or f.mod.name.startswith('flavio.physics'):
            continue
        for n, g, b, stars in an.summary(f).calls:
            for p, e in b.items():
                if isinstance(e, ast.Constant) and isinstance(e.value, str) and not isinstance(g.node, ast.Lambda):
                    acc = rejecting(g.node, p)
                    r.count('constant_options')
                    if acc is not None and e.value not in acc:
                        r.find('value:%s:%s:%s' % (f.qual, g.qual, p), '%s passes %s=%r to %s, which rejects it'
                               % (f.qual, p, e.value, g.qual), at(f, n))
    r.rule = ('For every function outside flavio.physics: each named parameter belongs to the backward slice of the results, stores, raised '
              'errors and effectful calls and is not overwritten before use; in calls of package functions an optional parameter with the '
              'same name is given a value that depends on the own parameter; defaults and constants given to enumerated options are accepted.')
    r.need('parameters', 400)
    r.need('shared_options', 20)
    r.need('enumerated_options', 3)
    return r


def filled(f, call, g, p):
    """may the parameter receive a value from *args or **kwargs of the call?"""
    if p in g.pos and any(isinstance(a, ast.Starred) for a in call.args):
        return True
    for k in call.keywords:
        if k.arg is None:
            e = k.value
            # the own keyword dictionary never contains the own named parameters, unless they are put there
            if isinstance(e, ast.Name) and e.id == f.kwarg and p in f.pos + f.kwonly and not any(
                    isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == e.id
                    or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == e.id
                    or isinstance(x, ast.Attribute) and x.attr in ('update', 'setdefault') and isinstance(x.value, ast.Name) and x.value.id == e.id
                    for x in ast.walk(f.node)):
                continue
            return True
    return False


def feeding(fn, call):
    """names whose values reach an argument of the call"""
    class L(Live):
        def sink(self, s, ctx):
            pass
    x = L(fn)
    x.live = names(call)
    while True:
        n = len(x.live)
        for t, s in x.flows:
            if t & x.live:
                x.live |= s
        if len(x.live) == n:
            return x.live


def written(f):
    """the function as it is written"""
    m = f.mod
    if not hasattr(m, 'functions_as_written'):
        m.functions_as_written = {(x.name, x.lineno): x for x in ast.walk(ast.parse(m.text)) if isinstance(x, ast.FunctionDef)}
    return m.functions_as_written.get((getattr(f.node, 'name', None), f.node.lineno))


def consumed(fn, s, p, g):
    """the value is what another function is called with, or what is checked"""
    if any(isinstance(x, ast.Assert) and p in names(x) for x in ast.walk(fn)):
        return True
    return any(h is not g and isinstance(b.get(p), ast.Name) and b[p].id == p for _, h, b, _ in s.calls)


def before(fn, p, call):
    return any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) and x.lineno < call.lineno for x in ast.walk(fn))


def fallback(st):
    """(target, parameter, default) of `x = p or D`, `x = D if p is None else p`, `if p is None: p = D`"""
    if isinstance(st, ast.Assign) and len(st.targets) == 1:
        v = st.value
        if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) and len(v.values) == 2 and isinstance(v.values[0], ast.Name):
            return st.targets[0], v.values[0].id, v.values[1]
        if isinstance(v, ast.IfExp):
            a = [x for x in (v.body, v.orelse) if isinstance(x, ast.Name) and x.id in names(v.test)]
            o = [x for x in (v.body, v.orelse) if x not in a]
            if len(a) == 1 and len(o) == 1:
                return st.targets[0], a[0].id, o[0]
    if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.ops[0], ast.Is) \
            and isinstance(st.test.left, ast.Name) and len(st.body) == 1 and isinstance(st.body[0], ast.Assign) \
            and isinstance(st.body[0].targets[0], ast.Name) and st.body[0].targets[0].id == st.test.left.id:
        return st.body[0].targets[0], st.test.left.id, st.body[0].value
    return None


def bypass(r, an, f, ps):
    """where an option replaces a shared default object, that object must not be used besides"""
    for st in ast.walk(f.node):
        fb = fallback(st) if isinstance(st, (ast.Assign, ast.If)) else None
        if fb is None or fb[1] not in ps:
            continue
        d = fb[2]
        if not isinstance(d, ast.Attribute) or an.ix.dotted(d) is None:
            continue
        if an.src.origin(f.mod, an.ix.dotted(d)[0]) is None:
            continue
        r.count('replaceable_defaults')
        text = ast.unparse(d)
        own = {id(x) for x in ast.walk(st)}
        scope = [f]
        if isinstance(fb[0], ast.Attribute) and f.cls is not None:
            scope = [g for c in [f.cls] + an.ix.all_subs(f.cls) for g in c.methods.values()]
        for g in scope:
            for y in ast.walk(g.node):
                fb2 = fallback(y) if isinstance(y, (ast.Assign, ast.If)) else None
                if fb2 is not None:
                    own |= {id(x) for x in ast.walk(y)}
            own |= {id(x) for d in g.node.args.defaults + g.node.args.kw_defaults if d is not None for x in ast.walk(d)}
        for g in scope:
            for y in ast.walk(g.node):
                if isinstance(y, ast.Attribute) and id(y) not in own and ast.unparse(y) == text:
                    r.find('bypass:%s:%s' % (g.qual, fb[1]), '%s uses %s although the option %s replaces it' % (g.qual, text, fb[1]), at(g, y))


def interface(an, f, v):
    """a method of a family whose other members use the argument, or that all ignore it"""
    return f.cls is not None and any(g is not f for k in an.ix.mro(f.cls) for c in [k] + an.ix.all_subs(k)
                                     for g in [c.methods.get(f.node.name)] if g is not None)


def options_of(an, c):
    """constructor parameters kept as attributes of the same name"""
    out = {}
    for k in reversed(an.ix.mro(c)):
        i = k.methods.get('__init__')
        if i is None:
            continue
        sm = an.summary(i)
        for p in i.pos + i.kwonly:
            if p != i.self_name and p in sm.selfattrs and ('p', p) in sm.selfattrs[p].deps:
                out[p] = i
    return out


def instance_options(r, an, f, ps):
    """a method passes the options its object was created with on to the functions that know them"""
    if f.cls is None or f.node.name == '__init__' or f.self_name is None:
        return
    opts = options_of(an, f.cls)
    if not opts:
        return
    s = an.summary(f)
    for n, g, b, stars in s.calls:
        if g.mod.name.startswith('flavio.physics') or isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == f.self_name:
            continue
        given = frozenset().union(*[deps_of(s, e) for e in b.values()]) if b else frozenset()
        for p in g.pos + g.kwonly:
            if p not in opts or p not in g.defaults or p in ps or p not in b and filled(f, n, g, p):
                continue
            r.count('instance_options')
            key = 'notpassed:%s:%s:%s' % (f.qual, g.qual, p)
            if p in b:
                if isinstance(b[p], ast.Constant) or ('s', p) in deps_of(s, b[p]) or not isinstance(b[p], ast.Attribute):
                    continue
            elif isinstance(n.func, ast.Attribute) and ('s', p) in deps_of(s, n.func.value) \
                    or any(('p', p) in v.deps for k in an.ix.mro(f.cls) if '__init__' in k.methods
                           for a, v in an.summary(k.methods['__init__']).selfattrs.items() if a != p and ('s', a) in given):
                continue        # another argument carries it
            elif f.node.name.startswith('_') and any(('p', q) in given for q in f.pos + f.kwonly if q != f.self_name):
                continue        # what a helper is given may carry it
            if key not in ASSUMED and not fixed_self(f, n, p):
                r.find(key, '%s does not pass the option %s of its object on to %s' % (f.qual, p, g.qual), at(f, n))


def fixed_self(f, call, p):
    t = '%s.%s' % (f.self_name, p)
    return any(t in {ast.unparse(x) for x in ast.walk(c) if isinstance(x, ast.Attribute)} for c, _ in conditions(f.node).get(call, ()))


def workers(r, an, f, ps):
    """the number of processes is the one that was asked for"""
    if 'threads' not in ps:
        return
    s = an.summary(f)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = an.ix.dotted(n.func)
        if not d or d[-1] not in ('Pool', 'ThreadPool', 'ProcessPoolExecutor', 'ThreadPoolExecutor'):
            continue
        o = an.src.origin(f.mod, d[0]) or ''
        if not o.startswith(('multiprocessing', 'multiprocess', 'concurrent')):
            continue
        r.count('pools')
        a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ('processes', 'max_workers')), None)
        if a is None or 'threads' not in names(a) and ('p', 'threads') not in deps_of(s, a):
            r.find('notpassed:%s:%s:threads' % (f.qual, d[-1]), '%s starts a pool whose size is not its option threads' % f.qual, at(f, n))


def replaced_default(r, an, f, ps):
    """an option whose default is an object of the package replaces it: the object is not used besides"""
    own, fns = {}, []
    if f.cls is not None and f.node.name != '__init__':
        if f.classm or f.static:
            return
        for k in reversed(an.ix.mro(f.cls)):
            i = k.methods.get('__init__')
            if i is not None:
                for p in options_of(an, f.cls):
                    if p in i.defaults and isinstance(i.defaults[p], ast.Attribute):
                        own[ast.unparse(i.defaults[p])] = p
    for p in ps:
        if isinstance(f.defaults.get(p), ast.Attribute):
            own[ast.unparse(f.defaults[p])] = p
    skip = {id(x) for d in f.node.args.defaults + f.node.args.kw_defaults if d is not None for x in ast.walk(d)}
    for st in ast.walk(f.node):
        fb = fallback(st) if isinstance(st, (ast.Assign, ast.If)) else None
        if fb is not None:
            skip |= {id(x) for x in ast.walk(st)}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and id(x) not in skip and ast.unparse(x) in own:
            t = ast.unparse(x)
            if an.ix.dotted(x) and an.src.origin(f.mod, an.ix.dotted(x)[0]) is not None:
                r.find('bypass:%s:%s' % (f.qual, own[t]), '%s uses %s although the option %s replaces it' % (f.qual, t, own[t]), at(f, x))


def names_all(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}


def deps_of(s, e):
    v = s.vals.get(id(e))
    return v.deps if v is not None else frozenset()


def decides(t, p):
    """does the test mention the option, other than in a comparison with another variable?"""
    if isinstance(t, ast.Compare) and not any(isinstance(x, (ast.Constant, ast.Tuple, ast.List, ast.Set)) for y in [t.left] + t.comparators
                                              for x in ast.walk(y)):
        return False
    if isinstance(t, (ast.BoolOp, ast.UnaryOp)):
        return any(decides(x, p) for x in ast.iter_child_nodes(t) if isinstance(x, ast.expr))
    return p in names(t)


def fixed(fn, call, p):
    """the call sits in a branch of a test that compares the option with a constant or None"""
    # `if <not allowed>: raise` says nothing about which of the allowed values it is
    rejects = {id(n.test) for n in ast.walk(fn) if isinstance(n, ast.If) and isinstance(n.body[-1], ast.Raise)}
    return any(decides(t, p) for t, truth in conditions(fn).get(call, ())
               if truth or id(t) not in rejects or isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotEq))
