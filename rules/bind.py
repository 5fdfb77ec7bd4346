"""P20: the layers around the predictions (statistics, likelihoods, input/output, plots, registries)
never fail on a name, an attribute or a call signature, raise the errors they construct and use
the results they compute."""
import ast
import re
import string
import importlib
import types
import warnings
from check_result import Result
from . import rule
from .api import flow, at
from sa.cond import chains
from sa.assign import Flow, scopes, BUILTINS
from sa.flow import FuncInfo, ClassInfo, base_name

EXCEPTIONS = re.compile(r'(Error|Exception|Warning)$')
# methods with effects we cannot see (they act on files, plots, processes): using them as statements is fine
ACTING = {'register', 'clear', 'reset', 'close', 'seek', 'join', 'start', 'run'}


def from_selection(fn, name):
    """every assignment of the name is under `if l:` where l selects the elements of one kind of a list: the list holds
    elements of known kinds and the branch is taken whenever the other kinds do not exhaust it (accepted, counted)"""
    sel = {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.ListComp)
           and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'isinstance' for g in n.value.generators for i in g.ifs for c in ast.walk(i))
           for t in n.targets if isinstance(t, ast.Name)}
    stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name]
    under = {id(k) for n in ast.walk(fn) if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id in sel for s in n.body for k in ast.walk(s)}
    return bool(stores) and all(id(s) in under for s in stores)


def modules(ctx):
    for m in ctx.src().modules.values():
        if not m.test and not m.name.startswith(('flavio.physics', 'flavio.data')):
            yield m


def module_bound(ctx, m):
    """(names bound at module level, complete?)"""
    names, complete = set(BUILTINS), True
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            b = ctx.src().resolve(m, n)
            for a in n.names:
                if a.name == '*':
                    if b in ctx.src().modules:
                        names |= set(ctx.src().module_names(ctx.src().modules[b]))
                        x, c = module_bound(ctx, ctx.src().modules[b])
                        names |= x
                        complete = complete and c
                    else:
                        complete = False
    for sc in scopes(m.text, m.path)[:1]:
        names |= {x.get_name() for x in sc.get_symbols() if x.is_assigned() or x.is_imported() or x.is_namespace()}
    # names declared global and assigned inside functions
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            names |= set(n.names)
    pre = m.name + '.'
    names |= {k[len(pre):] for k in ctx.src().modules if k.startswith(pre) and '.' not in k[len(pre):]}
    return names, complete


def check_names(ctx, r, m):
    names, complete = module_bound(ctx, m)
    fns = {}
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for ln in {n.lineno} | {d.lineno for d in getattr(n, 'decorator_list', [])}:
                fns.setdefault((getattr(n, 'name', 'lambda'), ln), []).append(n)
    an = flow(ctx)
    for sc in scopes(m.text, m.path):
        if complete:
            for x in sc.get_symbols():
                glob = x.is_global() if sc.get_type() != 'module' else not (x.is_assigned() or x.is_imported() or x.is_namespace())
                if x.is_referenced() and glob and x.get_name() not in names and not x.get_name().startswith('.'):
                    r.find('name:%s:%s' % (m.name, x.get_name()), 'name %s used in %s of %s is not defined'
                           % (x.get_name(), sc.get_name(), m.name), '%s:%d' % (m.rel, sc.get_lineno()))
                r.count('names')
        if sc.get_type() != 'function':
            continue
        for fn in fns.get((sc.get_name(), sc.get_lineno()), []):
            if isinstance(fn, ast.Lambda):
                continue
            r.count('functions')
            loc = {x.get_name() for x in sc.get_symbols() if x.is_local() and not x.is_global()}
            q = an.ix.by_node.get(fn)
            q = q.qual if q else fn.name

            def rep(e, always, q=q, fn=fn):
                if from_selection(fn, e.id):
                    r.count('assumed')
                    return
                r.find('unbound:%s:%s' % (q, e.id), '%s may use the local variable %s before it is assigned' % (q, e.id),
                       '%s:%d' % (m.rel, e.lineno))
            Flow(fn, loc, rep).run()


def class_attrs(an, c):
    """attributes instances of the class may have; None if unknown (foreign base class, __getattr__, setattr)"""
    out = set()
    for k in an.ix.mro(c) + an.ix.all_subs(c):
        for b in k.node.bases:
            r = an.ix.resolve_expr(k.mod, b)
            if not isinstance(r, ClassInfo) and not (isinstance(b, ast.Name) and b.id == 'object'):
                return None
        if k.node.keywords:
            return None
        for x in ast.walk(k.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.attr)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
                if x.name in ('__getattr__', '__getattribute__'):
                    return None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'vars'):
                return None
            elif isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.ctx, ast.Store):
                return None
        for st in k.node.body:
            if isinstance(st, ast.Assign):
                out |= {y.id for t in st.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
            elif isinstance(st, ast.ClassDef):
                out.add(st.name)
    return out | {'__class__', '__dict__', '__name__', '__module__', '__doc__'}


def check_attrs(ctx, r, m):
    an = flow(ctx)
    for f in list(an.ix.by_node.values()):
        if f.mod is not m:
            continue
        attrs = class_attrs(an, f.cls) if f.cls is not None and f.self_name else None
        shadow = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(f.params)
        inner = {id(y) for x in ast.walk(f.node) if isinstance(x, ast.Attribute) for y in [x.value]}
        guarded = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Try):
                guarded |= {id(y) for st in x.body for y in ast.walk(st)}
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            if attrs is not None and isinstance(x.value, ast.Name) and x.value.id == f.self_name and not f.classm:
                r.count('attributes')
                if x.attr not in attrs and id(x) not in guarded and not (x.attr.startswith('__') and x.attr.endswith('__')):
                    r.find('attr:%s:%s' % (f.qual, x.attr), '%s uses attribute %s, which no method of the class defines'
                           % (f.qual, x.attr), at(f, x))
                continue
            c = instance_class(an, f, x.value)
            if c is not None and id(x) not in guarded and not x.attr.startswith('__'):
                a = class_attrs(an, c)
                # set from outside
                if a is not None and x.attr not in a and x.attr not in outside(an):
                    r.find('attr:%s:%s.%s' % (f.qual, c.name, x.attr), '%s uses attribute %s of %s, which does not exist' % (f.qual, x.attr, c.name), at(f, x))
                r.count('instance_attributes')
            if id(x) not in inner:
                d = an.ix.dotted(x)
                if d and d[0] not in shadow and id(x) not in guarded:
                    bad = missing_foreign(ctx, f.mod, d)
                    if bad is not None:
                        r.count('foreign_attributes')
                        if bad:
                            r.find('modattr:%s:%s' % (f.qual, bad), '%s uses %s, which does not exist' % (f.qual, bad), at(f, x))
                if d and d[0] not in shadow:
                    bad = missing_module_attr(ctx, an, f, d)
                    if bad is not None:
                        r.count('module_attributes')
                        if bad:
                            r.find('modattr:%s:%s' % (f.qual, bad), '%s uses %s, which does not exist' % (f.qual, bad), at(f, x))


def outside(an):
    """attributes set on objects other than self"""
    if not hasattr(an, '_outside'):
        an._outside = {x.attr for f in an.ix.by_node.values() for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                       and not (isinstance(x.value, ast.Name) and x.value.id == f.self_name)}
    return an._outside


def missing_foreign(ctx, m, d):
    """attribute of a module outside the package (looked up in the installed module); None: not decidable, '' fine"""
    o = ctx.src().origin(m, d[0])
    if not o or o.split('.')[0] in ('flavio', '') or o.startswith('.'):
        return None
    full = o.split('.') + d[1:]
    if full[0] not in FOREIGN:
        return None
    try:
        cur = importlib.import_module(full[0])
    except Exception:
        return None
    for i, p in enumerate(full[1:], 1):
        if not isinstance(cur, types.ModuleType):
            return ''
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                cur = getattr(cur, p)
                continue
            except AttributeError:
                pass
            try:
                cur = importlib.import_module('.'.join(full[:i + 1]))
            except ModuleNotFoundError:
                return '.'.join(full[:i + 1])
            except Exception:
                return None
    return ''


# modules without side effects when imported
FOREIGN = {'math', 'cmath', 'os', 'sys', 're', 'copy', 'errno', 'warnings', 'inspect', 'itertools', 'functools', 'collections', 'json', 'csv', 'io',
           'pickle', 'operator', 'tempfile', 'pkgutil', 'string', 'time', 'logging', 'urllib', 'colorsys', 'multiprocessing', 'numpy', 'scipy', 'yaml'}


def missing_module_attr(ctx, an, f, d):
    """None: not decidable; '' fine; else the missing dotted name"""
    src = ctx.src()
    o = src.origin(f.mod, d[0])
    full = (o.split('.') if o else [f.mod.name, d[0]]) + d[1:]
    if full[0] != 'flavio':
        return None
    cur = 'flavio'
    for i, p in enumerate(full[1:], 1):
        if cur not in src.modules:
            return None
        nxt = cur + '.' + p
        names, complete = module_bound_cached(ctx, src.modules[cur])
        if nxt in src.modules and replaced(src.modules[nxt]):
            return None
        if p in names:
            # a name of the package may be rebound to a submodule or object; follow submodules only
            if nxt in src.modules and an.ix.module_attr(cur, p) == ('mod', nxt):
                cur = nxt
                continue
            return ''
        if nxt in src.modules:
            cur = nxt
            continue
        return '.'.join(full[:i + 1]) if complete else None
    return ''


def replaced(m):
    """does the module put another object in its place (sys.modules[__name__] = ...)?"""
    return any(isinstance(t, ast.Subscript) and ast.unparse(t) == 'sys.modules[__name__]'
               for n in m.tree.body if isinstance(n, ast.Assign) for t in n.targets)


def module_bound_cached(ctx, m):
    if not hasattr(ctx, '_bound'):
        ctx._bound = {}
    if m.name not in ctx._bound:
        ctx._bound[m.name] = module_bound(ctx, m)
    names, complete = ctx._bound[m.name]
    return names - BUILTINS | {'__version__'} & names, complete


def attr_class(an, c, attr):
    """class of the object kept in self.<attr>, if every assignment constructs an object of the same class (or None)"""
    key = (id(an), id(c), attr)
    if key not in _ATTRCLS:
        ks, other = [], False
        for k in an.ix.mro(c) + an.ix.all_subs(c):
            if attr in k.methods:
                other = True
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else []
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store):
                                v = n.value if isinstance(n, ast.Assign) and x is t else None
                                if isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                g = an.ix.resolve_expr(k.mod, v.func) if isinstance(v, ast.Call) else None
                                if isinstance(g, ClassInfo):
                                    ks.append(g)
                                else:
                                    other = True
        _ATTRCLS[key] = ks[0] if ks and not other and all(x is ks[0] for x in ks) else None
    return _ATTRCLS[key]


_ATTRCLS = {}


def local_class(an, f, name):
    """class of a local variable that is assigned once, by constructing an object"""
    if name in f.params:
        return None
    st = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)]
    if len(st) != 1 or any(isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names for n in ast.walk(f.node)):
        return None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is st[0] and isinstance(n.value, ast.Call):
            if base_name(n.value.func) in f.params:
                return None
            g = an.ix.resolve_expr(f.mod, n.value.func)
            return g if isinstance(g, ClassInfo) else None
    return None


def instance_class(an, f, e):
    """class of the object an expression evaluates to (None: unknown)"""
    c = None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.self_name and f.cls is not None and not f.classm:
        c = attr_class(an, f.cls, e.attr)
    elif isinstance(e, ast.Name):
        c = local_class(an, f, e.id)
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in f.params and local_class(an, f, e.func.id) is None \
            and not any(isinstance(n, ast.Name) and n.id == e.func.id and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
        g = an.ix.resolve_expr(f.mod, e.func)
        c = g if isinstance(g, ClassInfo) else None
    if c is None or c.node.keywords or c.node.decorator_list or any('__new__' in k.methods for k in an.ix.mro(c)):
        return None
    return c


def explicit_targets(an, f, call):
    """(target, number of bound leading parameters) of calls whose callee is certain"""
    fn = call.func
    shadow = set(f.params) | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} \
        | {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
    if isinstance(fn, ast.Name):
        if fn.id in shadow:
            return None
        t = an.ix.resolve_expr(f.mod, fn)
    elif isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            t = an.ix.method(f.cls, fn.attr, after=True)
            return (t, 1 if not t.static else 0) if isinstance(t, FuncInfo) else None
        if isinstance(v, ast.Name) and v.id == f.self_name and f.cls is not None:
            ms = [an.ix.method(f.cls, fn.attr)] + [s.methods[fn.attr] for s in an.ix.all_subs(f.cls) if fn.attr in s.methods]
            ms = [x for x in ms if x is not None]
            if len(ms) != 1 or ms[0].prop or f.cls.node.bases and class_attrs(an, f.cls) is None and an.ix.method(f.cls, fn.attr) is None:
                return None
            if any(d not in ('staticmethod', 'classmethod') for d in ms[0].decos):
                return None
            return ms[0], 0 if ms[0].static else 1
        c = instance_class(an, f, v)
        if c is not None:
            t = an.ix.method(c, fn.attr)
            a = class_attrs(an, c)
            if t is None or t.prop or any(d not in ('staticmethod', 'classmethod') for d in t.decos) or \
                    any(isinstance(x, ast.Attribute) and x.attr == fn.attr and isinstance(x.ctx, ast.Store) for k in an.ix.mro(c) for x in ast.walk(k.node)):
                return None
            return t, 0 if t.static else 1
        d = an.ix.dotted(fn)
        if not d or d[0] in shadow:
            return None
        t = an.ix.resolve_expr(f.mod, fn)
        if isinstance(t, FuncInfo) and t.cls is not None:
            return (t, 1) if t.classm else (t, 0)
    else:
        return None
    if isinstance(t, ClassInfo):
        if t.node.keywords or class_attrs_foreign(an, t):
            return None
        i = an.ix.method(t, '__init__')
        return (i, 1) if i is not None else None
    if isinstance(t, FuncInfo):
        if any(d not in ('staticmethod', 'classmethod', 'lru_cache') for d in t.decos):
            return None
        return t, 1 if t.classm else 0
    return None


def class_attrs_foreign(an, c):
    return any(not isinstance(an.ix.resolve_expr(k.mod, b), ClassInfo) and not (isinstance(b, ast.Name) and b.id == 'object')
               for k in an.ix.mro(c) for b in k.node.bases) and '__init__' not in c.methods


def check_calls(ctx, r, m):
    an = flow(ctx)
    for f in list(an.ix.by_node.values()):
        if f.mod is not m:
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            te = explicit_targets(an, f, x)
            if te is None:
                continue
            g, bound = te
            r.count('calls')
            pos = g.pos[bound:]
            star = any(isinstance(a, ast.Starred) for a in x.args)
            dstar = [k for k in x.keywords if k.arg is None]
            npos = sum(not isinstance(a, ast.Starred) for a in x.args)
            why = None
            if npos > len(pos) and not g.vararg:
                why = 'takes %d positional arguments, %d are given' % (len(pos), npos)
            kws = [k.arg for k in x.keywords if k.arg]
            for k in kws:
                if k not in pos and k not in g.kwonly and not g.kwarg:
                    why = 'has no parameter %s' % k
                elif k in pos[:npos]:
                    why = 'gets its parameter %s twice' % k
            if not star and not dstar:
                given = set(pos[:npos]) | set(kws)
                miss = [p for p in pos + g.kwonly if p not in given and p not in g.defaults]
                if miss:
                    why = 'is called without its parameter %s' % ', '.join(miss)
            for k in dstar:
                if isinstance(k.value, ast.Name) and k.value.id == f.kwarg and not g.kwarg \
                        and not [p for p in pos[npos:] + g.kwonly if p not in kws]:
                    why = 'accepts none of the additional arguments passed on as **%s' % f.kwarg
            if why:
                r.find('call:%s:%s' % (f.qual, g.qual), '%s calls %s, which %s' % (f.qual, g.qual, why), at(f, x))


def effectful(an, g, seen=()):
    """may a call of g do anything besides returning a value?"""
    if g in seen:
        return False
    s = an.summary(g)
    if s.mut or s.writes:
        return True
    for x in ast.walk(g.node):
        if isinstance(x, (ast.Global, ast.Nonlocal, ast.Raise, ast.Assert, ast.Yield, ast.YieldFrom, ast.With)):
            return True
        if isinstance(x, ast.Call):
            e = x.func
            if isinstance(e, ast.Name) and e.id in ('print', 'exec', 'eval', 'open', 'setattr', 'input', '__import__'):
                return True
            if isinstance(e, ast.Attribute) and (e.attr in ACTING or e.attr.startswith(('set_', 'add_', 'plot', 'write', 'save',
                                                                                       'warn', 'fill', 'draw', 'axis', 'load', 'dump'))):
                return True
            d = an.ix.dotted(e)
            o = an.src.origin(g.mod, d[0]) if d else None
            if o and o.startswith(('matplotlib', 'warnings', 'pickle', 'os', 'sys', 'yaml', 'multiprocessing', 'urllib')):
                return True
            for h in an.ix.targets(g, x):
                if effectful(an, h, seen + (g,)):
                    return True
    return False


def returns_value(g):
    for x in ast.walk(g.node):
        if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
            return True
    return False


PURE_METHODS = {'copy', 'keys', 'values', 'items', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'replace', 'format', 'encode', 'decode', 'startswith',
                'endswith', 'tolist', 'astype', 'reshape', 'transpose', 'flatten', 'ravel', 'union', 'intersection', 'difference', 'conjugate', 'conj'}
PURE_BUILTINS = {'sorted', 'reversed', 'abs', 'round', 'sum', 'repr', 'zip', 'enumerate', 'isinstance', 'set', 'frozenset'}


def pure_builtin(an, f, v):
    """a call of a builtin function or method that only returns something"""
    if isinstance(v.func, ast.Name):
        return v.func.id in PURE_BUILTINS and an.src.origin(f.mod, v.func.id) is None and v.func.id not in f.params
    if isinstance(v.func, ast.Attribute) and v.func.attr in PURE_METHODS:
        d = an.ix.dotted(v.func)
        if d and an.src.origin(f.mod, d[0]) is not None:
            return False          # function of a module
        return not any(v.func.attr in c.methods and effectful(an, c.methods[v.func.attr]) for c in an.ix.classes.values())
    return False


def tried(fn, st):
    """only executed to see whether it fails"""
    return any(isinstance(t, ast.Try) and any(x is st for b in t.body for x in ast.walk(b)) for t in ast.walk(fn))


def check_results(ctx, r, m):
    an = flow(ctx)
    for f in list(an.ix.by_node.values()):
        if f.mod is not m:
            continue
        for alts, _ in chains(f.node):
            seen = []
            for t, n, _ in alts:
                d = ast.dump(t)
                if d in seen:
                    r.find('deadbranch:%s:%s' % (f.qual, ast.unparse(t)[:40]), '%s tests `%s` twice in one chain of alternatives: '
                           'the second branch is never taken' % (f.qual, ast.unparse(t)[:60]), at(f, n))
                seen.append(d)
                r.count('tests')
        for x in ast.walk(f.node):
            if isinstance(x, ast.Expr):
                v = x.value
                r.count('expression_statements')
                if isinstance(v, ast.Call):
                    nm = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else ''
                    if EXCEPTIONS.search(nm) and isinstance(v.func, ast.Name):
                        r.find('noraise:%s:%s' % (f.qual, nm), '%s constructs %s without raising it' % (f.qual, nm), at(f, x))
                        continue
                    if pure_builtin(an, f, v) and not tried(f.node, x):
                        r.find('discard:%s:%s' % (f.qual, nm), '%s computes `%s` but does not use its result' % (f.qual, ast.unparse(v)[:60]), at(f, x))
                        continue
                    te = explicit_targets(an, f, v)
                    if te is not None and returns_value(te[0]) and not effectful_names(an, te[0]):
                        r.find('discard:%s:%s' % (f.qual, te[0].qual), '%s calls %s but does not use its result' % (f.qual, te[0].qual), at(f, x))
                elif isinstance(v, (ast.Compare, ast.BinOp)) and any(isinstance(y, (ast.Name, ast.Attribute)) for y in ast.walk(v)) \
                        and not any(isinstance(y, (ast.Call, ast.Subscript)) for y in ast.walk(v)):
                    r.find('noeffect:%s' % f.qual, '%s contains the statement `%s`, which does nothing' % (f.qual, ast.unparse(v)[:60]), at(f, x))
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(x, fld, None)
                if isinstance(b, list):
                    for i, st in enumerate(b[:-1]):
                        if isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                            r.find('dead:%s' % f.qual, '%s contains statements that can never be reached' % f.qual, at(f, b[i + 1]))
                            break
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and \
                    isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                check_format(r, f, x)
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) \
                    and isinstance(x.left.value, str) and isinstance(x.right, ast.Tuple):
                n = len(re.findall(r'%[^%(]', x.left.value.replace('%%', '')))
                r.count('format_strings')
                if n != len(x.right.elts) and '%(' not in x.left.value and '*' not in x.left.value:
                    r.find('format:%s' % f.qual, '%s formats %d values into %r' % (f.qual, len(x.right.elts), x.left.value[:40]), at(f, x))


def effectful_names(an, g):
    memo = an.__dict__.setdefault('_effects', {})
    if g not in memo:
        memo[g] = effectful(an, g)
    return memo[g]


def check_format(r, f, x):
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
        return
    r.count('format_strings')
    try:
        fields = [t[1] for t in string.Formatter().parse(x.func.value.value) if t[1] is not None]
    except ValueError:
        r.find('format:%s' % f.qual, '%s uses the malformed format string %r' % (f.qual, x.func.value.value[:40]), at(f, x))
        return
    idx, auto = set(), 0
    kws = {k.arg for k in x.keywords}
    for t in fields:
        b = re.split(r'[.\[]', t)[0]
        if b == '':
            idx.add(auto)
            auto += 1
        elif b.isdigit():
            idx.add(int(b))
        elif b not in kws:
            r.find('format:%s' % f.qual, '%s: the format string %r needs %s, which is not given' % (f.qual, x.func.value.value[:40], b), at(f, x))
    if idx and max(idx) >= len(x.args):
        r.find('format:%s' % f.qual, '%s: the format string %r needs more values than are given' % (f.qual, x.func.value.value[:40]), at(f, x))
    elif len(idx) < len(x.args):
        r.find('format:%s' % f.qual, '%s: the format string %r does not show all the values given' % (f.qual, x.func.value.value[:40]), at(f, x))


@rule('P20')
def p20(ctx):
    r = Result()
    for m in modules(ctx):
        r.count('modules')
        check_names(ctx, r, m)
        check_attrs(ctx, r, m)
        check_calls(ctx, r, m)
        check_results(ctx, r, m)
    r.rule = ('For every function outside flavio.physics: names resolve; local variables are assigned on every path that reaches their use '
              '(path sensitive on repeated tests); attributes of self and of modules exist; calls of package functions bind to their '
              'signatures; constructed exceptions are raised; results of side-effect free functions are used; no branch is dead; '
              'format strings match their values.')
    r.need('functions', 200)
    r.need('calls', 50)
    r.need('attributes', 300)
    return r
