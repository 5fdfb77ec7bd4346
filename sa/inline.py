"""Private helpers used in one place are put back where they are used.

A function or method whose name starts with an underscore and that occurs exactly once besides its definition in the
whole package is part of the function that calls it: whether it was written as a separate function says nothing about
what the code does.  `return _h(a)`, `x = _h(a)` and `_h(a)` are replaced by the body of _h."""
import ast
import copy
from .norm import leaves

DEFS = (ast.FunctionDef, ast.AsyncFunctionDef)


def body_of(fn):
    b = fn.body
    return b[1:] if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else b


def stored(nodes):
    comp = {id(y) for n in nodes for x in ast.walk(n) if isinstance(x, ast.comprehension) for y in ast.walk(x.target)}
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and id(x) not in comp} | \
        {x.name for n in nodes for x in ast.walk(n) if isinstance(x, DEFS + (ast.ClassDef,))}


def plain(fn):
    a = fn.args
    if fn.decorator_list or a.vararg or a.kwarg or isinstance(fn, ast.AsyncFunctionDef) or not body_of(fn):
        return False
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                and x.func.id in ('locals', 'super', 'eval', 'exec', 'vars', 'globals') or isinstance(x, ast.Name) and x.id == fn.name \
                or isinstance(x, ast.Attribute) and x.attr == fn.name:
            return False
    return True


def own_returns(fn):
    out, todo = [], list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            out.append(n)
        if isinstance(n, DEFS + (ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(r), n)
        return ast.copy_location(ast.Name(r.id, n.ctx), n)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def expand(h, call, f, method, kind, target):
    """statements equivalent to the statement with the call, or None"""
    ps = [a.arg for a in h.args.posonlyargs + h.args.args]
    kwo = [a.arg for a in h.args.kwonlyargs]
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    given = dict(zip(ps, ([call.func.value] if method else []) + list(call.args)))
    if len(call.args) + bool(method) > len(ps):
        return None
    for k in call.keywords:
        if k.arg in given or k.arg not in ps + kwo:
            return None
        given[k.arg] = k.value
    dfl = dict(zip(ps[len(ps) - len(h.args.defaults):], h.args.defaults))
    dfl.update({a: d for a, d in zip(kwo, h.args.kw_defaults) if d is not None})
    for p in ps + kwo:
        if p not in given:
            if p not in dfl or not isinstance(dfl[p], ast.Constant):
                return None
            given[p] = dfl[p]
    B = copy.deepcopy(body_of(h))
    bound = {y.id for n in B for x in ast.walk(n) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    rets = own_returns(h)
    if kind != 'return' and not (not rets or len(rets) == 1 and isinstance(B[-1], ast.Return)):
        return None
    if kind == 'assign' and not rets:
        return None
    ret = B[-1].value if kind != 'return' and rets else None
    st = stored(B)
    used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
    m, pre, keep = {}, [], set()
    if kind == 'assign' and ret is not None and ast.dump(ret).replace('Load', '').replace('Store', '') == ast.dump(target).replace('Load', '').replace('Store', ''):
        keep = {x.id for x in ast.walk(ret) if isinstance(x, ast.Name)}
    for p, a in given.items():
        if isinstance(a, ast.Name) and a.id == p and (kind == 'return' or p not in st or p in keep):
            continue
        if simple(a) and p not in st:
            m[p] = a
            continue
        q = p if p not in used else p + '_' + h.name
        if q != p:
            m[p] = ast.Name(q, ast.Load())
        pre.append(ast.copy_location(ast.Assign([ast.Name(q, ast.Store())], a), call))
    for l in st - set(given):
        if l in used and l not in keep and kind != 'return':
            m[l] = ast.Name(l + '_' + h.name, ast.Load())
    # a name used by the helper for something of the module must not be a local of f
    free = {x.id for n in B for x in ast.walk(n) if isinstance(x, ast.Name)} - st - set(given) - bound
    if free & (stored([f]) - {f.name} | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}):
        return None
    if any(isinstance(x, (ast.Lambda,) + DEFS) for n in B for x in ast.walk(n)) and any(
            a.arg in m for n in B for x in ast.walk(n) for a in ([x] if isinstance(x, ast.arg) else [])):
        return None
    if any(isinstance(x, DEFS) and x.name in m for n in B for x in ast.walk(n)):
        return None
    if bound & (set(m) | {x.id for v in m.values() for x in ast.walk(v) if isinstance(x, ast.Name)}):
        return None
    S = Subst(m)
    B = [S.visit(s) for s in B]
    if kind == 'return':
        if not leaves(B):
            B.append(ast.copy_location(ast.Return(None), call))
    elif ret is not None:
        v = B.pop().value
        if kind == 'assign':
            if not keep or keep & set(m):
                B.append(ast.copy_location(ast.Assign([target], v), call))
        elif not isinstance(v, (ast.Name, ast.Constant)):
            B.append(ast.copy_location(ast.Expr(v), call))
    out = pre + B
    for s in out:
        ast.fix_missing_locations(s)
    return out or [ast.copy_location(ast.Pass(), call)]


def inline(tree, counts):
    for _ in range(300):
        if not once(tree, counts):
            break


def private(tree, n, owner, counts):
    """the helper is used exactly once: the only one of its name, or one of several that cannot be confused"""
    c, where, text = counts
    if c.get(n.name) == 2:
        return True
    if owner is tree:
        # other modules that mention the name define a function of their own
        return text.get(n.name) == 2 and all(('', n.name) in defs for defs in where.values() if any(x == n.name for _, x in defs)) and \
            c[n.name] == 2 * sum(('', n.name) in defs for defs in where.values())
    own = [(m, k) for m, defs in where.items() for k, x in defs if x == n.name]
    if c.get(n.name) != 2 * len(own) or any(not k for m, k in own) or len({k for m, k in own}) < len(own):
        return False
    bases = {b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?') for b in owner.bases}
    if bases - {'object', 'Exception', 'ABC'}:
        return False
    used = [x for x in ast.walk(owner) if isinstance(x, ast.Attribute) and x.attr == n.name]
    return len(used) == 1 and all(k == owner.name or owner.name not in where.bases.get(k, ('?',)) and '?' not in where.bases.get(k, ('?',)) for m, k in own)


class Where(dict):
    """module name -> set of (class or '', function name); bases: class name -> names of its bases"""
    def __init__(self):
        self.bases = {}

    def add(self, name, tree):
        s = self[name] = set()
        for o in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
            if o is not tree:
                b = {b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?') for b in o.bases} - {'object'}
                # only classes without bases can be told apart by name
                self.bases[o.name] = self.bases.get(o.name, set()) | ({'?'} if b else set())
            for n in o.body:
                if isinstance(n, DEFS):
                    s.add((o.name if o is not tree else '', n.name))


def once(tree, counts):
    cand = {}
    for owner in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for n in owner.body:
            if isinstance(n, DEFS) and n.name.startswith('_') and not n.name.startswith('__') and private(tree, n, owner, counts) and plain(n):
                cand[n.name] = (n, owner)
    if not cand:
        return False
    for owner in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for f in owner.body:
            if not isinstance(f, DEFS):
                continue
            for x in ast.walk(f):
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(x, fld, None)
                    if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)) or x is not f and isinstance(x, DEFS):
                        continue
                    for i, s in enumerate(b):
                        kind, target = None, None
                        if isinstance(s, ast.Return):
                            kind = 'return'
                        elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                            kind, target = 'assign', s.targets[0]
                        elif isinstance(s, ast.Expr):
                            kind = 'expr'
                        c = s.value if kind else None
                        if not isinstance(c, ast.Call):
                            continue
                        method = False
                        if isinstance(c.func, ast.Name):
                            nm = c.func.id
                        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.args.args and c.func.value.id == f.args.args[0].arg:
                            nm, method = c.func.attr, True
                        else:
                            continue
                        if nm not in cand or cand[nm][0] is f:
                            continue
                        h, ho = cand[nm]
                        if method and (ho is not owner or owner is tree) or not method and ho is not tree:
                            continue
                        new = expand(h, c, f, method, kind, target)
                        if new is None:
                            continue
                        b[i:i + 1] = new
                        ho.body.remove(h)
                        if not ho.body:
                            ho.body.append(ast.Pass())
                        return True
    return False
