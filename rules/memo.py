"""Remembered results outside the predictions: attributes, dictionaries and lru_cache (part of P02).

A memo is a place (attribute or entry of a container) that a function writes under a
test which examines that place, and whose content it hands out. Decided per memo:
  * the test is an equality (or membership) of a key, or "not computed yet"
  * the key determines everything the remembered value is computed from
  * the key is a snapshot: it neither loses information nor aliases the caller's objects
  * the remembered container itself is not handed out
"""
import ast
import re
from sa.flow import path, base_name

COPYING = {'dict', 'list', 'tuple', 'set', 'frozenset', 'deepcopy', 'copy', 'items', 'hash', 'sorted', 'str', 'repr',
           'float', 'int', 'id', 'len', 'keys', 'values', 'round', 'astuple', 'dumps', 'OrderedDict', 'array'}
LOSING = {'hash', 'id', 'len', 'round', 'int', 'str', 'repr', 'bool', 'type', 'sum', 'min', 'max', 'keys', 'values',
          'any', 'all', 'format', 'around', 'rint', 'floor', 'ceil', 'abs', 'mean', 'norm', 'float32', 'set_printoptions'}
# what a Wilson coefficient object is determined by (its hash and the identity of the object are not enough)
WILSON = {'wc', '_options'}
# module level objects that users change (documented interface)
SETTINGS = re.compile(r'(^|\.)(config|default_parameters|instances)$')
# methods of the registry objects whose results depend on the configuration (implementations, scales, ...)
CONFIGURED = {'prediction_par', 'prediction_central', 'prediction'}


def aliases(fn):
    """local name -> expressions assigned to it"""
    out = {}
    for st in ast.walk(fn):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(st.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    els = st.value.elts if isinstance(st.value, (ast.Tuple, ast.List)) and \
                        len(st.value.elts) == len(t.elts) else [st.value] * len(t.elts)
                    for x, v in zip(t.elts, els):
                        if isinstance(x, ast.Name):
                            out.setdefault(x.id, []).append(v)
        elif isinstance(st, ast.NamedExpr):
            out.setdefault(st.target.id, []).append(st.value)
    return out


def places(e, al, seen=()):
    """paths (self._x, _cache[], ...) an expression reads, local names followed"""
    out = set()
    for x in ast.walk(e):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(getattr(x, 'ctx', None), ast.Load):
            p = path(x)
            if p:
                out.add(p)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get':
            p = path(x.func.value)
            if p:
                out.add(p + '[]')
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') \
                and len(x.args) >= 2 and isinstance(x.args[1], ast.Constant):
            p = path(x.args[0])
            if p:
                out.add('%s.%s' % (p, x.args[1].value))
        elif isinstance(x, ast.Compare):
            for o, c in zip(x.ops, x.comparators):
                if isinstance(o, (ast.In, ast.NotIn)):
                    p = path(c)
                    if p:
                        out.add(p + '[]')
        elif isinstance(x, ast.Name) and x.id in al and x.id not in seen:
            for v in al[x.id]:
                out |= places(v, al, seen + (x.id,))
    return out


def leaves(e, al, params, copied=False, lost=(), seen=()):
    """uses of parameters in a key: (parameter, 'whole' | ('attr', a) | ('item', text), copied?, losing functions)"""
    if isinstance(e, ast.Name):
        if e.id in params:
            yield e.id, 'whole', copied, lost
        elif e.id in al and e.id not in seen:
            for v in al[e.id]:
                yield from leaves(v, al, params, copied, lost, seen + (e.id,))
        return
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id in params:
            yield e.value.id, ('attr', e.attr), copied, lost
            return
        yield from leaves(e.value, al, params, copied, lost, seen)
        return
    if isinstance(e, ast.Subscript):
        if isinstance(e.value, ast.Name) and e.value.id in params:
            yield e.value.id, ('item', ast.unparse(e.slice)), True, lost
        else:
            yield from leaves(e.value, al, params, copied, lost, seen)
        yield from leaves(e.slice, al, params, True, lost, seen)
        return
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        l = lost + ((nm,) if nm in LOSING else ())
        # sorted(d), frozenset(d), tuple(d) of a dictionary keep its keys only
        c = copied or nm in COPYING
        if isinstance(e.func, ast.Attribute):
            yield from leaves(e.func.value, al, params, c, l, seen)
        for a in e.args:
            yield from leaves(a.value if isinstance(a, ast.Starred) else a, al, params, c, l, seen)
        for k in e.keywords:
            yield from leaves(k.value, al, params, c, l, seen)
        return
    if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
        tgt = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for x in (getattr(e, 'elt', None), getattr(e, 'key', None), getattr(e, 'value', None)):
            if x is not None:
                l = reduced(x, tgt)
                if l:
                    lost = lost + l
        for g in e.generators:
            if g.ifs:
                lost = lost + ('a filter',)
            # `for k in d` gives the keys; the entries are used as d[k] in the element
            yield from leaves(g.iter, al, params, True, lost, seen)
        for x in (getattr(e, 'elt', None), getattr(e, 'key', None), getattr(e, 'value', None)):
            if x is not None:
                yield from leaves(x, al, params, True, lost, seen)
        return
    if isinstance(e, ast.IfExp):
        # `None if x is None else f(x)`
        yield from leaves(e.body, al, params, copied, lost, seen)
        yield from leaves(e.orelse, al, params, copied, lost, seen)
        return
    if isinstance(e, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp)) and not isinstance(e, ast.BoolOp):
        lost = lost + ('arithmetic',) if isinstance(e, (ast.BinOp, ast.Compare)) else lost
    for c in ast.iter_child_nodes(e):
        if isinstance(c, ast.expr):
            yield from leaves(c, al, params, copied, lost, seen)


def reduced(e, names, inside=()):
    """losing functions applied to loop variables that appear nowhere else"""
    full, lost = set(), {}

    def visit(x, fs):
        if isinstance(x, ast.Name) and x.id in names:
            if fs:
                lost.setdefault(x.id, fs)
            else:
                full.add(x.id)
        if isinstance(x, ast.Call):
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''
            if nm in LOSING:
                fs = fs + (nm,)
        for c in ast.iter_child_nodes(x):
            visit(c, fs)
    visit(e, ())
    return tuple(f for k, fs in lost.items() if k not in full for f in fs)


def bare_settings(e, al, seen=(), copied=False):
    """does a key contain the configuration object itself rather than a copy?"""
    if isinstance(e, ast.Name) and e.id in al and e.id not in seen:
        return any(bare_settings(v, al, seen + (e.id,), copied) for v in al[e.id])
    if isinstance(e, (ast.Name, ast.Attribute)):
        return not copied and (e.id if isinstance(e, ast.Name) else e.attr) == 'config'
    if isinstance(e, ast.Call):
        nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        # a shallow copy still shares the nested dictionaries
        copied = copied or nm in ('deepcopy', 'dumps', 'str', 'repr')
        return any(bare_settings(a, al, seen, copied) for a in e.args)
    return any(bare_settings(c, al, seen, copied) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))


def stores_of(fn):
    """(path, node, value expression or None, subscript slices) of every attribute / element store"""
    for st in ast.walk(fn):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        p = path(x)
                        if p:
                            yield p, st, x


def own_attrs(f):
    """attributes of its object the method itself assigns (lazily filled ones left out)"""
    for p, st, node in stores_of(f.node):
        if f.self_name and p.startswith(f.self_name + '.'):
            a = p.split('.')[1].split('[')[0]
            if not lazily(f, a):
                yield a


def mutable_state(an):
    from .api import attr_chain
    return _mutable_state(an, attr_chain)


def _mutable_state(an, attr_chain):
    """(class qual, attribute) changed by methods other than the constructor"""
    out = {}
    for f in an.ix.by_node.values():
        if f.cls is None or f.node.name in ('__init__', '__new__', '__init_subclass__'):
            continue
        for (t, _), (nd, how, root) in an.summary(f).mut.items():
            if t[0] == 's' and len(t) > 1 and not any(lazily(root[0], a) for a in attr_chain(root[1])[:1] + [t[1]]):
                out.setdefault((f.cls.qual, t[1]), set()).add(f.node.name)
        for a in own_attrs(f):
            out.setdefault((f.cls.qual, a), set()).add(f.node.name)
    return out


def is_state_token(an, t):
    """a module level object that can be changed (not a class, function, module or constant)"""
    if t[0] != 'g':
        return False
    r = an.ix.resolve_dotted(t[1])
    if r is not None:
        return False
    if not hasattr(an, 'changed_globals'):
        an.changed_globals = {x[1] for f in an.ix.by_node.values() for (x, _) in an.summary(f).mut if x[0] == 'g'}
    if t[1] not in an.changed_globals and not SETTINGS.search(t[1]):
        return False
    mn, _, nm = t[1].rpartition('.')
    m = an.src.modules.get(mn)
    if m is None:
        return t[1].startswith('flavio')
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == nm for x in st.targets):
            v = st.value
            return not isinstance(v, (ast.Constant, ast.Tuple)) and not (
                isinstance(v, ast.Call) and an.ix.resolve_expr(m, v.func) is None and isinstance(v.func, ast.Attribute)
                and v.func.attr in ('compile', 'getLogger'))
    return False


def guard_kind(test, place, al):
    """how a test examines a place: ('init',) / ('key', key expression, node) / ('other', node)"""
    kinds = []

    def reads(e):
        return bool({place} & places(e, al)) or any(p.startswith(place + '.') or p == place + '[]' for p in places(e, al))

    def visit(t):
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                visit(v)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            visit(t.operand)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, o = t.left, t.comparators[0], t.ops[0]
            none = [x for x in (l, r) if isinstance(x, ast.Constant) and x.value is None]
            if none and (reads(l) or reads(r)):
                kinds.append(('init', None, t))
            elif isinstance(o, (ast.In, ast.NotIn)) and (path(r) or '') + '[]' == place:
                kinds.append(('key', l, t))
            elif isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                if reads(l) and not reads(r):
                    kinds.append(('key', r, t))
                elif reads(r) and not reads(l):
                    kinds.append(('key', l, t))
            elif reads(t):
                kinds.append(('other', None, t))
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hasattr' and reads(t):
            kinds.append(('init', None, t))
        elif reads(t):
            kinds.append(('init' if isinstance(t, (ast.Attribute, ast.Name)) else 'other', None, t))
    visit(test)
    return kinds


def check_memos(ctx, r, an, at):
    state = mutable_state(an)
    for f in list(an.ix.by_node.values()):
        s = an.summary(f)
        lru(r, an, f, s, at)
        adopted(r, an, f, s, at)
        params = set(f.params + [x for x in (f.vararg, f.kwarg) if x]) - {f.self_name}
        if f.node.name in ('__init__', '__new__') or MUTATING(f):
            continue
        sts = list(stores_of(f.node))
        if not sts:
            continue
        al = aliases(f.node)
        owners = {p.split('.')[0].split('[')[0] for p, _, _ in sts}
        done = set()
        for g in ast.walk(f.node):
            if isinstance(g, ast.If):
                branches = g.body + g.orelse
                leaving = any(isinstance(x, ast.Return) for st in g.body for x in ast.walk(st))
            else:
                continue
            inside = {id(x) for st in branches for x in ast.walk(st)}
            for p, st, node in sts:
                # a leaving guard (`if key == self._k: return self._v`) also protects what follows it
                if id(st) not in inside and not (leaving and st.lineno > g.lineno):
                    continue
                base = node
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                if not isinstance(base, ast.Name) or base.id in al and base.id not in params and base.id != f.self_name:
                    continue
                kinds = guard_kind(g.test, p, al)
                if not kinds or (g.lineno, p) in done:
                    continue
                done.add((g.lineno, p))
                # is what is remembered handed out?
                handed = handed_out(f, p, al)
                group = [(q, st2, n2) for q, st2, n2 in sts if id(st2) in inside or leaving and st2.lineno > g.lineno]
                if not handed and not any(handed_out(f, q, al) for q, _, _ in group):
                    continue
                r.count('object_memos')
                judge(r, an, f, s, g, p, kinds, group, al, params, state, at)


def MUTATING(f):
    from .api import MUTATOR
    return bool(MUTATOR.match(f.node.name))


def handed_out(f, p, al):
    """does the function read the place other than in tests (return it or use it)?"""
    tests = set()
    for x in ast.walk(f.node):
        if isinstance(x, (ast.If, ast.IfExp, ast.While)):
            tests |= {id(y) for y in ast.walk(x.test)}
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load) and id(x) not in tests \
                and path(x) == p:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' \
                and (path(x.func.value) or '') + '[]' == p:
            return True
    return False


def lazily(g, attr):
    """does the method change the attribute only in order to fill it once?"""
    if g is None:
        return False
    for x in ast.walk(g.node):
        if isinstance(x, ast.If) and any(isinstance(y, ast.Attribute) and y.attr == attr for y in ast.walk(x.test)):
            return True
    return False


def judge(r, an, f, s, g, p, kinds, group, al, params, state, at):
    where = at(f, g)
    forced = {x.id for x in ast.walk(g.test) if isinstance(x, ast.Name) and x.id in params}
    keys = [(k, n) for kind, k, n in kinds if kind == 'key']
    if any(kind == 'other' for kind, _, _ in kinds):
        n = [n for kind, _, n in kinds if kind == 'other'][0]
        r.find('memoguard:%s:%s' % (f.qual, p), '%s decides whether to reuse %s by `%s`, which is not an equality of what it was '
               'computed from' % (f.qual, p, ast.unparse(n)[:80]), where)
        return
    # values stored under this guard, keys excluded
    keynames = {x.id for k, _ in keys for x in ast.walk(k) if isinstance(x, ast.Name)}
    values = []
    keystores = []
    for q, st, node in group:
        v = st.value
        if q == p and isinstance(v, ast.Name) and v.id in keynames or \
                any(ast.dump(v) == ast.dump(k) for k, _ in keys):
            keystores.append((q, st))
            continue
        if isinstance(v, ast.Constant):
            continue
        values.append((q, st, v))
    r.count('memoised_stores', len(values))
    need, why = {}, {}
    for q, st, v in values:
        val = s.vals.get(id(v))
        if val is None:
            continue
        d = set(val.deps)
        for t in list(d):
            if t[0] == 'p' and t[1] in params and t[1] != p.split('.')[0].split('[')[0]:
                need.setdefault(t[1], set()).add(q)
        for t in d:
            if t[0] == 's' and len(t) > 1 and f.cls is not None and t[1] not in p and t[1] not in q:
                ms = {m for c in an.ix.mro(f.cls) for m in state.get((c.qual, t[1]), ())} - {f.node.name}
                ms = {m for m in ms if not lazily(an.ix.method(f.cls, m), t[1])}
                resets = {m for m in ms if any(q2.split('.')[-1].split('[')[0] in an.summary(an.ix.method(f.cls, m)).selfattrs
                                               or p.split('.')[-1].split('[')[0] in an.summary(an.ix.method(f.cls, m)).selfattrs
                                               for q2, _, _ in group if an.ix.method(f.cls, m))}
                inkey = any(('s', t[1]) in s.vals[id(k)].deps for k, _ in keys if id(k) in s.vals)
                if ms - resets and not inkey:
                    r.find('memostate:%s:%s' % (f.qual, t[1]), '%s remembers %s, which depends on attribute %s that %s changes'
                           % (f.qual, q, t[1], '/'.join(sorted(ms - resets))), where)
            if is_state_token(an, t) and not f.mod.name.startswith('flavio.physics') and not any(t in s.vals[id(k)].deps for k, _ in keys if id(k) in s.vals):
                r.find('memoglobal:%s:%s' % (f.qual, t[1]), '%s remembers %s, which depends on %s; that is not part of the key'
                       % (f.qual, q, t[1]), where)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CONFIGURED and \
                    (v is x or any(y is x for y in ast.walk(g))):
                if not any(t[0] == 'g' and t[1].endswith('config') for k, _ in keys if id(k) in s.vals
                           for t in s.vals[id(k)].deps):
                    r.find('memoglobal:%s:config' % f.qual, '%s remembers predictions, which depend on the configuration; that is not '
                           'part of the key' % f.qual, where)
    if not keys:
        # computed once: may not depend on the arguments of this call, unless the caller can force it
        if not forced:
            for a in sorted(need):
                r.find('memoarg:%s:%s' % (f.qual, a), '%s computes %s once, but its value depends on the argument %s'
                       % (f.qual, '/'.join(sorted(need[a])), a), where)
        return
    cover = {}
    for k, n in keys:
        for prm, use, copied, lost in leaves(k, al, params):
            cover.setdefault(prm, []).append((use, copied, lost))
    if keystores and any(bare_settings(k, al) for k, _ in keys):
        r.find('memoalias:%s:config' % f.qual, 'the stored key of %s is the configuration object itself (or shares its nested '
               'dictionaries): after a change it still compares equal' % f.qual, where)
    # only what the remembered values (transitively) depend on has to be covered
    for a in sorted(need):
        uses = cover.get(a, [])
        if not uses:
            r.find('memokey:%s:%s' % (f.qual, a), '%s remembers %s, which depends on the argument %s; that is not part of the key'
                   % (f.qual, '/'.join(sorted(need[a])), a), where)
            continue
        good = [u for u in uses if not u[2]]
        if not good:
            r.find('memolossy:%s:%s' % (f.qual, a), 'the key of what %s remembers contains %s only through %s, which maps different '
                   'values to the same key' % (f.qual, a, ', '.join(sorted({x for u in uses for x in u[2]}))), where)
            continue
        wide = used_whole(f, values, a, al)
        if wide and all(u[0] != 'whole' for u in good):
            attrs = {u[0][1] for u in good if u[0][0] == 'attr'}
            items = [u for u in good if u[0][0] == 'item']
            if items and not attrs and not full_iteration(keys, al, a):
                r.find('memopart:%s:%s' % (f.qual, a), 'the key of what %s remembers contains only part of the argument %s'
                       % (f.qual, a), where)
            if attrs and a.startswith('w') and attrs & WILSON and not WILSON <= attrs:
                r.find('memopart:%s:%s' % (f.qual, a), 'the key of what %s remembers contains %s of the Wilson coefficient object %s, '
                       'but not %s' % (f.qual, '/'.join(sorted(attrs)), a, '/'.join(sorted(WILSON - attrs))), where)
        if keys_only(keys, al, a):
            r.find('memolossy:%s:%s' % (f.qual, a), 'the key of what %s remembers contains only the keys of %s' % (f.qual, a), where)
        if keystores and all(not u[1] for u in good) and any(u[0] == 'whole' for u in good):
            r.find('memoalias:%s:%s' % (f.qual, a), 'the stored key of %s is the caller\'s object %s itself: after a modification in '
                   'place it still compares equal' % (f.qual, a), where)
    # the comparison must refer to a key that is stored together with the value
    if any(q2 == p for q2, _ in keystores) is False and not p.endswith('[]') and not any(q2 == p for q2, _, _ in values):
        r.find('memonokey:%s:%s' % (f.qual, p), '%s compares with %s but does not store the key there' % (f.qual, p), where)
    # the key becomes valid only together with the value: what can fail has to come first
    for q, st in keystores:
        after = [x for _, st2, v in values if st2.lineno > st.lineno for x in ast.walk(v) if isinstance(x, ast.Call)]
        body = next((b for b in (g.body, g.orelse) if any(x is st for y in b for x in ast.walk(y))), None)
        if body is None:          # behind a guard that leaves
            body = [x for x in ast.walk(f.node) if isinstance(x, ast.stmt) and x.lineno > g.end_lineno]
        after += [x for b in body if b.lineno > st.lineno for x in ast.walk(b) if isinstance(x, ast.Call)]
        if after and q.split('[')[0] != values[0][0].split('[')[0] if values else False:
            r.find('memoorder:%s:%s' % (f.qual, q), '%s stores the new key before the value is computed (%s): if that fails, the old value '
                   'is returned for the new key' % (f.qual, ast.unparse(after[0])[:60]), at(f, st))
    # handing out the container itself
    for q, st, v in values:
        if q.count('[]'):
            continue
        a = q.split('.')[-1]
        for t in s.ret.top:
            if t[:2] == ('s', a) or t == ('s', a, '*'):
                r.find('memohand:%s:%s' % (f.qual, a), '%s hands out the remembered object %s itself: the caller can change it'
                       % (f.qual, q), where)


def used_whole(f, values, a, al):
    """do the values depend on more than single entries of the argument (is it passed on as a whole)?"""
    # follow the local names the values are built from
    names, todo = set(), [v for _, _, v in values]
    for _ in range(4):
        new = []
        for e in todo:
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id not in names:
                    names.add(x.id)
                    new += al.get(x.id, [])
                    for st in ast.walk(f.node):
                        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Subscript) and base_name(t) == x.id for t in st.targets):
                            new.append(st.value)
        todo = new
    parents = {}
    for x in ast.walk(f.node):
        for c in ast.iter_child_nodes(x):
            parents[c] = x
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and x.id == a and isinstance(x.ctx, ast.Load):
            q = parents.get(x)
            if isinstance(q, ast.Call) and x in q.args or isinstance(q, ast.keyword):
                c = q if isinstance(q, ast.Call) else parents.get(q)
                if isinstance(c.func, ast.Name) and c.func.id in COPYING:
                    continue
                return True
    return False


def full_iteration(keys, al, a):
    """`(k, d[k]) for k in sorted(d)`: every entry is in the key"""
    def exprs(e, seen=()):
        yield e
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in al and x.id not in seen:
                for v in al[x.id]:
                    yield from exprs(v, seen + (x.id,))
    for k, _ in keys:
        for e in exprs(k):
            for x in ast.walk(e):
                if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) and \
                        any(isinstance(y, ast.Name) and y.id == a for g in x.generators for y in ast.walk(g.iter)) \
                        and not any(g.ifs for g in x.generators):
                    return True
    return False


def keys_only(keys, al, a):
    """tuple(d), sorted(d), frozenset(d): a dictionary reduced to its keys"""
    def exprs(e, seen=()):
        yield e
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in al and x.id not in seen:
                for v in al[x.id]:
                    yield from exprs(v, seen + (x.id,))
    if not any(w in a for w in ('dict', 'par', 'options', 'wc_')):
        return False
    good = bad = False
    for k, _ in keys:
        for e in exprs(k):
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.args and isinstance(x.args[0], ast.Name) \
                        and x.args[0].id == a:
                    if x.func.id in ('tuple', 'sorted', 'frozenset', 'list', 'set'):
                        bad = True
                    elif x.func.id in ('dict', 'OrderedDict', 'deepcopy', 'copy'):
                        good = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('items', 'copy') and \
                        isinstance(x.func.value, ast.Name) and x.func.value.id == a:
                    good = True
    return bad and not good


def adopted(r, an, f, s, at):
    """remembered results of one object taken over by another: only under an equality of what they depend on"""
    al = None
    parents = None
    for p, st, node in list(stores_of(f.node)):
        if 'cache' not in p.split('.')[-1] or isinstance(node, ast.Subscript):
            continue
        if al is None:
            al = aliases(f.node)
            parents = {c: x for x in ast.walk(f.node) for c in ast.iter_child_nodes(x)}
        base = p.split('.')[0]
        src = [q for q in places(st.value, al) if 'cache' in q and q.split('.')[0].split('[')[0] != base]
        src = [q for q in src if q.split('.')[0].split('[')[0] in f.params]
        if not src:
            continue
        r.count('caches_taken_over')
        x, ok, sides = st, False, []
        while x in parents and not ok:
            y = parents[x]
            if isinstance(y, ast.If):
                pos = any(z is x for z in y.body)
                tests = y.test.values if isinstance(y.test, ast.BoolOp) and isinstance(y.test.op, ast.And) and pos else [y.test]
                for t in tests:
                    if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                            isinstance(t.ops[0], (ast.Eq,) if pos else (ast.NotEq,)):
                        lost = [l for side in (t.left, t.comparators[0]) for *_, l in leaves(side, al, set(f.params))]
                        ok = not any(lost)
                        sides = [t.left, t.comparators[0]]
            x = y
        # the entries of the arguments that are compared are those that are used
        used = entries(f.node.body, {}, set(f.params))
        compared = entries(sides, al, set(f.params))
        for a, k in sorted(used - compared) if ok else ():
            if any(c == a for c, _ in compared):
                r.find('adoptpart:%s:%s' % (f.qual, k), '%s takes over remembered results (%s) without comparing the entry %r of %s they were '
                       'computed from' % (f.qual, src[0], k, a), at(f, st))
        if not ok:
            r.find('adopt:%s:%s' % (f.qual, p), '%s takes over remembered results (%s) without comparing what they were computed from'
                   % (f.qual, src[0]), at(f, st))


def entries(es, al, params, seen=()):
    """(argument, constant key) of the entries read"""
    out = set()
    for e in es:
        for x in ast.walk(e):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in params and isinstance(x.slice, ast.Constant):
                out.add((x.value.id, x.slice.value))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and x.args \
                    and isinstance(x.func.value, ast.Name) and x.func.value.id in params and isinstance(x.args[0], ast.Constant):
                out.add((x.func.value.id, x.args[0].value))
            elif isinstance(x, (ast.DictComp, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                for g in x.generators:
                    if isinstance(g.target, ast.Name) and isinstance(g.iter, (ast.List, ast.Tuple, ast.Set)) and not g.ifs:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id in params \
                                    and isinstance(y.slice, ast.Name) and y.slice.id == g.target.id:
                                out |= {(y.value.id, c.value) for c in g.iter.elts if isinstance(c, ast.Constant)}
            elif isinstance(x, ast.Name) and x.id in al and x.id not in seen:
                out |= entries(al[x.id], al, params, seen + (x.id,))
    return out


def lru(r, an, f, s, at):
    if not any(d in ('lru_cache', 'cache', 'cached_property') for d in f.decos) or f.mod.name.startswith('flavio.physics'):
        return
    r.count('cached_functions')
    if s.mut:
        (t, _), (nd, how, root) = next(iter(s.mut.items()))
        r.find('lrueffect:%s' % f.qual, 'the memoised function %s modifies %s' % (f.qual, t), at(f, f.node))
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CONFIGURED for x in ast.walk(f.node)):
        r.find('lrustate:%s:config' % f.qual, 'the memoised function %s computes predictions, which depend on the configuration' % f.qual,
               at(f, f.node))
    for t in sorted(s.ret.deps, key=str):
        if is_state_token(an, t):
            r.find('lrustate:%s:%s' % (f.qual, t[1]), 'the memoised function %s depends on %s' % (f.qual, t[1]), at(f, f.node))
        if t[0] == 's' and len(t) > 1:
            ms = {m for (c, a), m in mutable_state(an).items() if a == t[1] for m in m}
            if ms:
                r.find('lrustate:%s:%s' % (f.qual, t[1]), 'the memoised method %s depends on attribute %s' % (f.qual, t[1]), at(f, f.node))
    if s.ret.elem is not None:
        r.find('lruhand:%s' % f.qual, 'the memoised function %s hands out a container that its callers can change' % f.qual, at(f, f.node))
