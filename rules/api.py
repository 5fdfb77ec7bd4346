"""The ordinary Python layer: statistics, likelihoods, input/output, plots, registries.

Decided with the alias/dependence/order analysis of sa/flow.py (summaries of all
functions of the package, resolved calls, no execution).
"""
import ast
import re
from check_result import Result
from . import rule


def flow(ctx):
    """function summaries of the whole package (shared between the rules of one run)"""
    if not hasattr(ctx, '_flow'):
        from sa.flow import Analyzer
        ctx._flow = Analyzer(ctx.src())
        for f in list(ctx._flow.ix.by_node.values()):
            ctx._flow.summary(f)
    return ctx._flow


def at(f, node):
    return '%s:%d' % (f.mod.rel, getattr(node, 'lineno', 0))


def api_functions(an, physics=False):
    """(FuncInfo, is public) of the non-physics part, nested functions left out"""
    for f in an.ix.by_node.values():
        if f.mod.name.startswith('flavio.physics') and not physics:
            continue
        if f.qual.count('.') > (1 if f.cls else 0):
            continue
        nm = f.node.name
        yield f, (not nm.startswith('_')) or (nm.startswith('__') and nm.endswith('__'))


# ---------------------------------------------------------------------------
# P25: queries do not modify what they are given or asked
# ---------------------------------------------------------------------------

# functions whose documented purpose is to change the object they belong to
MUTATOR = re.compile(r'^(set_|add_|remove_|del_|clear|reset$|register|read_|load|make_measurement$|_?read|'
                     r'__init__$|__enter__$|__exit__$|__setitem__$|__delitem__$|__iadd__$|convert|'
                     r'bsz_load|lattice_load|from_yaml)')
# parameters a loader is documented to fill
FILLED = {'constraints', 'instance', 'args', 'kwargs', 'par_obj', 'parameters'}
# classes that exist in order to record how they are used
RECORDERS = {'AwareDict.__getitem__', 'AwareWilson.match_run'}


def attr_chain(node):
    """attribute names on the way to the modified object"""
    out = []
    if isinstance(node, ast.Call):
        node = node.func.value if isinstance(node.func, ast.Attribute) else node
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
        t = node.targets[0] if isinstance(node, (ast.Assign, ast.Delete)) else node.target
        return attr_chain(t)
    while isinstance(node, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(node, ast.Attribute):
            out.append(node.attr)
            node = node.value
        elif isinstance(node, ast.Subscript):
            node = node.value
        else:
            node = node.func
    return out


def base(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            return x.id
    return '-'


def state_attrs(an):
    """attributes that documented mutators assign or change: primary state, never a memo"""
    out = set()
    for f in an.ix.by_node.values():
        if f.cls is None or not re.match(r'^(set_|add_|remove_|register|del_)', f.node.name):
            continue
        for (t, _), (nd, how, root) in an.summary(f).mut.items():
            if t[0] == 's' and len(t) > 1:
                out.add((f.cls.qual, t[1]))
            for a in attr_chain(root[1]):
                out.add((f.cls.qual, a))
    return {a for _, a in out}


def memo_write(an, root, state):
    """the write fills a private attribute whose present content was examined first"""
    f, node, how = root
    if not how.startswith('assignment'):
        return False
    attrs = [a for a in attr_chain(node) if a.startswith('_') and a not in state]
    if not attrs:
        return False
    names = set()
    for st in ast.walk(f.node):
        if isinstance(st, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr in attrs
                                              for x in ast.walk(st.value)):
            for t in st.targets:
                names |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    # attributes filled together with the ones examined: `if key != self._key: self._values = ...; self._key = key`
    for st in ast.walk(f.node):
        if isinstance(st, ast.If) and any(x is node for x in ast.walk(st)):
            inside = {a for x in ast.walk(st) if isinstance(x, ast.Assign) for t in x.targets for a in attr_chain(t)[:1]
                      if a.startswith('_') and a not in state}
            if set(attrs) & inside:
                attrs += sorted(inside)
    for st in ast.walk(f.node):
        if isinstance(st, (ast.If, ast.IfExp, ast.While)):
            for x in ast.walk(st.test):
                if isinstance(x, ast.Attribute) and x.attr in attrs or isinstance(x, ast.Name) and x.id in names:
                    return True
                # a private helper/property of the class that examines the attribute
                if isinstance(x, ast.Attribute) and f.cls is not None:
                    g = an.ix.method(f.cls, x.attr)
                    if g is not None and any(isinstance(y, ast.Attribute) and y.attr in attrs for y in ast.walk(g.node)):
                        return True
        if isinstance(st, ast.Try):
            for x in ast.walk(st):
                if isinstance(x, ast.Attribute) and x.attr in attrs and isinstance(x.ctx, ast.Load):
                    return True
    # the write sits in a helper: accept if a caller in the same class examines the attribute
    if f.cls is not None and f.node.name.startswith('_'):
        for g in f.cls.methods.values():
            if g is not f and any(isinstance(x, ast.Attribute) and x.attr == f.node.name for x in ast.walk(g.node)):
                if memo_write(an, (g, node, how), state):
                    return True
    return False


def token_text(t):
    if t[0] == 'p':
        return 'its argument %s' % t[1] if t[-1] != '*' else 'something inside its argument %s' % t[1]
    if t[0] == 's':
        return 'its object' if t == ('s',) else 'attribute %s of its object' % t[1] if len(t) > 1 else 'its object'
    if t[0] == 'g':
        return 'the module level object %s' % t[1]
    return str(t)


def hands_out_captured(fn, g):
    """(place, name) where the nested function g changes a variable of fn (or a second name of it) and returns it"""
    own = {x.id for x in ast.walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(g) if isinstance(a, ast.arg)}
    outer = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}
    alias = {n: n for n in outer - own}
    for st in ast.walk(g):
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id in outer - own:
            for t in st.targets:
                if isinstance(t, ast.Name) and sum(isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Store) for x in ast.walk(g)) == 1:
                    alias[t.id] = st.value.id
    returned = {x.value.id for x in ast.walk(g) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
    for x in ast.walk(g):
        nm = None
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
            nm = x.value.id
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('update', 'append', 'extend', 'pop', 'setdefault') \
                and isinstance(x.func.value, ast.Name):
            nm = x.func.value.id
        if nm in alias and {k for k in alias if alias[k] == alias[nm]} & returned:
            yield x, alias[nm]
            return


@rule('P25')
def p25(ctx):
    r = Result()
    an = flow(ctx)
    state = state_attrs(an)
    for f, public in api_functions(an):
        r.count('functions')
        if not public:
            continue
        r.count('public_functions')
        nm = f.node.name
        s = an.summary(f)
        for (t, _), (nd, how, root) in s.mut.items():
            r.count('modifications_classified')
            rf, rn, rh = root
            if f.qual in RECORDERS:
                continue
            mutator = bool(MUTATOR.match(nm))
            if mutator and (t[0] in ('s', 'new') or t[:2] == ('p', 'cls')):
                continue
            if mutator and t[0] == 'p' and t[1] in FILLED:
                continue
            # registering a new object in its class, or linking a prediction to its observable
            if MUTATOR.match(rf.node.name) and t[0] == 'g' and (mutator or nm == 'from_function'):
                continue
            if nm in ('__enter__', '__exit__'):
                continue
            if memo_write(an, root, state):
                r.count('memo_writes')
                continue
            key = '%s:%s:%s' % (rf.qual, rh.split(' ')[0] if rh.startswith('.') else 'store', '/'.join(attr_chain(rn)) or base(rn))
            r.find(key, '%s changes %s: %s (in %s)' % (f.qual, token_text(t), rh, rf.qual), at(rf, rn))
    for f in an.ix.by_node.values():
        if isinstance(f.node, ast.Lambda) or f.mod.name.startswith('flavio.physics'):
            continue
        for g in ast.walk(f.node):
            if isinstance(g, ast.FunctionDef) and g is not f.node:
                for x, nm in hands_out_captured(f.node, g):
                    r.find('captured:%s.%s' % (f.qual, g.name), '%s.%s changes %s of the enclosing function and returns it: the results of all its calls '
                           'are one object' % (f.qual, g.name, nm), at(f, x))
                r.count('nested_functions')
    r.rule = ('For every public function and method outside flavio.physics the alias analysis computes which caller-visible '
              'objects (arguments, self, module level objects, and anything reachable from them) it may modify, directly or '
              'through calls. Only methods documented to change their own object, registration of new instances, and guarded '
              'writes of private memo attributes are accepted.')
    r.need('public_functions', 120)
    r.need('modifications_classified', 40)
    return r


# ---------------------------------------------------------------------------
# P24: results are a function of the inputs and of NumPy's random state
# ---------------------------------------------------------------------------

# sources of values that change from run to run
FORBIDDEN = re.compile(r'^(random\.\w+|secrets\.\w+|uuid\.\w+|time\.(time|time_ns|perf_counter|monotonic|process_time)|'
                       r'datetime\.(datetime\.)?(now|utcnow|today)|datetime\.date\.today|os\.(urandom|getpid|getenv)|'
                       r'os\.environ(\.\w+)?|numpy\.random\.(seed|RandomState|default_rng|set_state|SeedSequence|'
                       r'Generator|PCG64|MT19937)|socket\.\w+|platform\.\w+)$')


def ext_name(an, f, node):
    """full dotted name of something imported from outside the package"""
    d = an.ix.dotted(node)
    if not d:
        return None
    o = an.src.origin(f.mod, d[0])
    if o is None or o.startswith('flavio'):
        return None
    return '.'.join([o] + d[1:])


IDENT = {'id', 'hash'}


def identity_order(fn):
    """places of fn where something is put in the order of object identities or hash values"""
    val, vals, keys, elems = set(), set(), set(), set()      # names: identities; dicts of them by value, by key; lists of them

    def isval(e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in IDENT or isinstance(e, ast.Name) and e.id in val or \
            isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in vals

    def method(e, names):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in names and isinstance(e.func.value, ast.Name)

    def iskeys(e):
        return isinstance(e, ast.Name) and e.id in keys or isinstance(e, ast.DictComp) and isval(e.key)

    def iselems(e):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return isval(e.elt) or isinstance(e.elt, ast.Tuple) and e.elt.elts and isval(e.elt.elts[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'set', 'tuple', 'frozenset') and len(e.args) == 1:
            return iskeys(e.args[0]) or iselems(e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'map' and len(e.args) == 2:
            return isinstance(e.args[0], ast.Name) and e.args[0].id in IDENT
        return isinstance(e, ast.Name) and e.id in elems or iskeys(e) or method(e, ('keys', 'items')) and e.func.value.id in keys or \
            method(e, ('values',)) and e.func.value.id in vals

    for _ in range(3):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
                if isinstance(t, ast.Name):
                    if isval(v):
                        val.add(t.id)
                    elif isinstance(v, ast.DictComp):
                        if isval(v.value):
                            vals.add(t.id)
                        if isval(v.key):
                            keys.add(t.id)
                    elif iselems(v):
                        elems.add(t.id)
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    if isval(t.slice):
                        keys.add(t.value.id)
                    if isval(v):
                        vals.add(t.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                f = n.func
                if isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Name) and isval(f.value.slice):
                    keys.add(f.value.value.id)
                if isinstance(f.value, ast.Name) and f.attr == 'setdefault' and n.args and isval(n.args[0]):
                    keys.add(f.value.id)
                if isinstance(f.value, ast.Name) and f.attr in ('append', 'add') and n.args and isval(n.args[0]):
                    elems.add(f.value.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                it, t = n.iter, n.target
                if method(it, ('items',)) and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    for k, s in ((0, keys), (1, vals)):
                        if it.func.value.id in s and isinstance(t.elts[k], ast.Name):
                            val.add(t.elts[k].id)
                elif iselems(it) and isinstance(t, ast.Name):
                    val.add(t.id)
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            srt = isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'min', 'max')
            arg = n.args[0] if srt and n.args else n.func.value if isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' else None
            if arg is None:
                continue
            key = next((k.value for k in n.keywords if k.arg == 'key'), None)
            if key is None and iselems(arg) or isinstance(key, ast.Name) and key.id in IDENT or isinstance(key, ast.Lambda) and isval(key.body):
                yield n


@rule('P24')
def p24(ctx):
    r = Result()
    an = flow(ctx)
    seen = {}

    def report(f, toks, what):
        for t in sorted(an.resolve_order(toks, f.cls)):
            g, nd, text = an.origins[t[1]]
            seen.setdefault((g.name, ast.unparse(nd)), (g, nd, text, []))[3].append(what)

    for f in list(an.ix.by_node.values()):
        s = an.summary(f)
        r.count('functions')
        nm = f.node.name
        public = (not nm.startswith('_') or nm.startswith('__')) and \
            f.qual.count('.') <= (1 if f.cls else 0) and not (f.cls and f.cls.qual.startswith('_'))
        # the protocol method of a set-like class may follow the order of its set
        if public and not (nm == '__iter__' and an.ix.method(f.cls, '__getitem__') is None):
            r.count('results')
            report(f, s.ret.orders, 'the result of %s' % f.qual)
        for nd, o in s.draws:
            r.count('random_draws_in_loops')
            report(f, o, 'which random number belongs to which quantity in %s' % f.qual)
        for nd, o in s.writes:
            r.count('written_values')
            report(f, o, 'what %s writes' % f.qual)
        for a, v in s.selfattrs.items():
            if not a.startswith('_'):
                r.count('public_attributes')
                report(f, v.orders, 'attribute %s set by %s' % (a, f.qual))
    r.count('unordered_sources', len(an.origins))
    for (gn, _), (g, nd, text, what) in sorted(seen.items()):
        what = list(dict.fromkeys(what))
        r.find('order:' + g.qual, '%s depends on the arbitrary iteration order of %s in %s (%s)'
               % ('; '.join(what[:4]), text, gn, ast.unparse(nd)[:80]), at(g, nd))
    for f in list(an.ix.by_node.values()):
        for x in identity_order(f.node):
            r.find('identity:%s' % f.qual, '%s puts something in the order of object identities or hash values: %s' % (f.qual, ast.unparse(x)[:60]), at(f, x))
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                e = ext_name(an, f, x)
                if e and FORBIDDEN.match(e):
                    r.find('source:%s:%s' % (f.qual, e), '%s uses %s: its behaviour is not a function of its inputs and of '
                           'NumPy\'s random state' % (f.qual, e), at(f, x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in ('rvs', 'resample', 'get_random', 'multivariate_normal', 'normal', 'uniform'):
                    r.count('random_calls')
                    for k in x.keywords:
                        if k.arg in ('random_state', 'seed'):
                            r.find('seed:%s' % f.qual, '%s draws with its own %s' % (f.qual, k.arg), at(f, x))
    r.rule = ('Order analysis of all functions: the arbitrary order of every set (and of directory listings) is traced through '
              'lists, generators, comprehensions, strings, tuple keys, attributes and calls; none may reach the result of a '
              'public function, a public attribute, a written file or the pairing of random draws with quantities. Nothing is sorted by object identity or hash value. No clock, '
              'environment, process identity or separately seeded generator is consulted.')
    r.need('results', 200)
    r.need('unordered_sources', 5)
    r.need('random_calls', 5)
    return r
