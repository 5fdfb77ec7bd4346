"""Context managers that replace a shared object, and state shared between instances (used by P12)."""
import ast
from .common import *

MUTATE = {'add', 'append', 'update', 'extend', 'insert', 'remove', 'discard', 'pop', 'clear', 'popitem', 'setdefault', '__setitem__', '__delitem__',
          'difference_update', 'intersection_update', 'symmetric_difference_update', 'sort', 'reverse', '__ior__'}


def methods(c):
    return {f.name: f for f in c.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))}


def self_of(f):
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


def restores(stmts, goal, ms, me, depth=0):
    """does every normal path through the statements fulfil goal(stmt)?  returns (on fall-through, ok at every earlier exit)"""
    done = False
    ok = True
    for s in stmts:
        if done:
            break
        if goal(s):
            done = True
        elif isinstance(s, ast.If):
            b, o1 = restores(s.body, goal, ms, me, depth)
            e, o2 = restores(s.orelse, goal, ms, me, depth)
            ok = ok and o1 and o2
            done = b and e
        elif isinstance(s, ast.Try):
            f, o1 = restores(s.finalbody, goal, ms, me, depth)
            if f:
                done = True
                continue
            b, o2 = restores(s.body + s.orelse, goal, ms, me, depth)
            hs = [restores(h.body, goal, ms, me, depth) for h in s.handlers]
            ok = ok and o2 and all(h[1] for h in hs)
            done = b and all(h[0] for h in hs)
        elif isinstance(s, ast.With):
            done, o1 = restores(s.body, goal, ms, me, depth)
            ok = ok and o1
        elif isinstance(s, ast.Return):
            c = s.value
            if isinstance(c, ast.Call) and called(c, goal, ms, me, depth):
                return True, ok
            return True, False
        elif isinstance(s, ast.Raise):
            return True, ok
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and called(s.value, goal, ms, me, depth):
            done = True
    return done, ok


def called(c, goal, ms, me, depth):
    f = c.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and f.attr in ms and depth < 3:
        a, b = restores(ms[f.attr].body, goal, ms, self_of(ms[f.attr]), depth + 1)
        return a and b
    return False


def assigned(s):
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                yield from zip(t.elts, s.value.elts)
            else:
                yield t, s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        yield s.target, s.value
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'setattr' and len(s.value.args) == 3:
        o, a, v = s.value.args
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            yield ast.Attribute(o, a.value, ast.Store()), v


def outer_target(t, f, me):
    """text of an attribute of an object other than self, or of a global name"""
    if isinstance(t, ast.Attribute):
        b = t
        while isinstance(b, ast.Attribute):
            b = b.value
        if isinstance(b, ast.Name) and b.id != me:
            return ast.unparse(t)
    if isinstance(t, ast.Name):
        for s in ast.walk(f):
            if isinstance(s, ast.Global) and t.id in s.names:
                return t.id
    return None


def closure(f, ms):
    """statements of a method and of the methods of the same class it calls"""
    out, todo, seen = [], [f], set()
    while todo:
        g = todo.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        for s in ast.walk(g):
            if isinstance(s, ast.stmt):
                out.append((s, g))
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) and s.func.value.id == self_of(g) and s.func.attr in ms:
                todo.append(ms[s.func.attr])
    return out


def managers(r, src):
    for m in src.modules.values():
        if m.test:
            continue
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                ms = methods(c)
                if '__enter__' in ms and '__exit__' in ms:
                    en, ex = ms['__enter__'], ms['__exit__']
                    for s, g in closure(en, ms):
                        for t, v in assigned(s):
                            o = outer_target(t, g, self_of(g))
                            if o is None:
                                continue
                            r.count('replaced_objects')
                            # attributes holding the earlier value
                            saved = {ast.unparse(t2).split('.', 1)[1] for s2, g2 in closure(en, ms) for t2, v2 in assigned(s2)
                                     if ast.unparse(v2) == o and isinstance(t2, ast.Attribute) and ast.unparse(t2.value) == self_of(g2)}
                            saved |= {ast.unparse(t2).split('.', 1)[1] for f2 in ms.values() for s2 in ast.walk(f2) if isinstance(s2, ast.stmt) for t2, v2 in assigned(s2)
                                      if ast.unparse(v2) == o and isinstance(t2, ast.Attribute) and ast.unparse(t2.value) == self_of(f2) and f2.name == '__init__'}

                            def goal(s3):
                                for t3, v3 in assigned(s3):
                                    if ast.unparse(t3) == o:
                                        x = ast.unparse(v3)
                                        return any(x.endswith('.' + a) or x.startswith('self.%s' % a) for a in saved)
                                return False
                            a, ok = restores(ex.body, goal, ms, self_of(ex))
                            if not (a and ok):
                                r.find('restore:%s.%s:%s' % (m.name, c.name, o), '%s, replaced by %s.__enter__, is not restored to its earlier value on every path through __exit__' % (o, c.name), '%s:%d' % (m.rel, ex.lineno))
                    for s in ast.walk(ex):
                        if isinstance(s, ast.Return) and isinstance(s.value, ast.Constant) and s.value.value:
                            r.find('swallow:%s.%s' % (m.name, c.name), '%s.__exit__ suppresses exceptions' % c.name, '%s:%d' % (m.rel, s.lineno))
            if isinstance(c, ast.FunctionDef) and any('contextmanager' in ast.unparse(d) for d in c.decorator_list):
                ps = src.parents(m)
                for y in ast.walk(c):
                    if isinstance(y, ast.Yield):
                        r.count('generator_scopes')
                        n, inside = y, False
                        while n is not c:
                            p = ps[n]
                            if isinstance(p, ast.Try) and p.finalbody and n not in p.finalbody:
                                inside = True
                            n = p
                        after = any(outer_target(t, c, None) for s in ast.walk(c) if isinstance(s, ast.stmt) and s.lineno > y.lineno for t, _ in assigned(s))
                        if not inside and after:
                            r.find('restore:%s.%s' % (m.name, c.name), 'what %s replaces is not restored when the body of the with statement raises' % c.name, '%s:%d' % (m.rel, y.lineno))


def mutable(v):
    if isinstance(v, (ast.Set, ast.List, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)):
        return True
    return isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in ('set', 'list', 'dict', 'OrderedDict', 'defaultdict', 'Counter', 'Array', 'bytearray', 'zeros', 'array', 'empty')


def shared_state(r, src, modname):
    """no method modifies a container stored on the class, which all instances share"""
    m = src.modules.get(modname)
    if m is None:
        return
    for c in ast.walk(m.tree):
        if not isinstance(c, ast.ClassDef):
            continue
        ms = methods(c)
        cls = {t.id for s in c.body for t, v in assigned(s) if isinstance(t, ast.Name) and mutable(v)}
        own = set()     # rebound on the instance in __init__ before any use
        if '__init__' in ms:
            own = {t.attr for s in ms['__init__'].body for t, v in assigned(s) if isinstance(t, ast.Attribute) and ast.unparse(t.value) == self_of(ms['__init__'])}
        r.counts['class_level_containers'] = r.counts.get('class_level_containers', 0) + len(cls)
        for f in ms.values():
            holders = {self_of(f), c.name, 'cls', 'type(%s)' % self_of(f), '%s.__class__' % self_of(f)}
            alias = {t.id: v.attr for s in ast.walk(f) if isinstance(s, ast.stmt) for t, v in assigned(s)
                     if isinstance(t, ast.Name) and isinstance(v, ast.Attribute) and ast.unparse(v.value) in holders and v.attr in cls - own}

            def which(e):
                if isinstance(e, ast.Attribute) and ast.unparse(e.value) in holders and e.attr in cls and (e.attr not in own or ast.unparse(e.value) != self_of(f)):
                    return e.attr
                if isinstance(e, ast.Name) and e.id in alias:
                    return alias[e.id]
            for n in ast.walk(f):
                a = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
                    a = which(n.func.value)
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                        if isinstance(t, ast.Subscript):
                            a = a or which(t.value)
                        elif isinstance(n, ast.AugAssign):
                            a = a or which(t)
                if a:
                    r.find('shared:%s.%s:%s' % (m.name, c.name, a), '%s.%s modifies %s, which is shared by all instances' % (c.name, f.name, a), '%s:%d' % (m.rel, n.lineno))
