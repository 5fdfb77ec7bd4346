"""Abstract values of the flavio abstract interpreter.

Host Python constants (str, int, float, complex, bool, None, bytes, tuple, ...)
stand for themselves; everything else is one of the classes below.
"""
import copy
from fractions import Fraction
import math
import re

ZERO = '0'      # polymorphic dimension (0, inf, nan)

_tok = {}
_tokrev = []


def bit(tok):
    """bit mask of a dependency token"""
    i = _tok.get(tok)
    if i is None:
        i = _tok[tok] = len(_tokrev)
        _tokrev.append(tok)
    return 1 << i


def tokens(mask):
    out = []
    i = 0
    while mask:
        low = mask & -mask
        out.append(_tokrev[low.bit_length() - 1])
        mask ^= low
    return out


class Num:
    """Unknown number (scalar or array).
    d: mass dimension (number), ZERO, or None (unknown)
    soft: dimension known only up to units hidden in a decimal literal
    deps: bitmask of dependency tokens
    o: orientation of the Wilson coefficients in it (1 plain, 2 conjugate, 3 both)
    sym: exact provenance (kind, key, sign) or None
    """
    __slots__ = ('d', 'soft', 'deps', 'o', 'sym', 'facts', 'rt', 'cx', 'iv', 'own', 'av')

    def __init__(self, d=None, deps=0, soft=False, o=0, sym=None, facts=None, cx=None):
        self.d = d
        self.cx = cx        # 0 real, 1 complex typed, None unknown
        self.soft = soft
        self.deps = deps
        self.o = o
        self.sym = sym
        self.facts = facts
        self.rt = False     # result of a quotient of two non-literals
        self.iv = None      # closed interval (lo, hi) containing the value (kinematics runs only)
        self.own = None     # (kind, name) of the cache or table that holds the same object
        self.av = None      # weight of a sum of an electron and a muon quantity

    def with_deps(self, t):
        r = copy.copy(self)
        r.deps = self.deps | t
        return r

    def __repr__(self):
        return 'Num(d=%s%s%s)' % ('Z' if self.d == ZERO else self.d, '~' if self.soft else '',
                                  ' o%d' % self.o if self.o else '')

    def like(self, deps=None, cx=-1):
        return Num(self.d, self.deps if deps is None else deps, self.soft, self.o,
                   cx=self.cx if cx == -1 else cx)

    def owned(self, own):
        r = Num(self.d, self.deps, self.soft, self.o, self.sym, self.facts, self.cx)
        r.rt, r.iv, r.own, r.av = self.rt, self.iv, own, self.av
        return r

    def key(self):
        return ('N', self.d, self.soft, self.deps, self.o, self.sym, self.rt, self.cx, self.iv, self.own, self.av if type(self.av) is float else None)


class Unk:
    """Completely unknown value."""
    __slots__ = ('deps', 'why', 'ty')

    def __init__(self, deps=0, why='', ty=None):
        self.deps = deps
        self.why = why
        self.ty = ty

    def __repr__(self):
        return 'Unk(%s)' % (self.why,)

    def key(self):
        return ('U', self.deps, self.ty)


class Maybe:
    """A local that is bound only on some paths."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Obj:
    """Base of mutable abstract heap objects."""
    __slots__ = ('born', 'name', 'owner', 'held')
    counter = 0

    def __init__(self):
        Obj.counter += 1
        self.born = Obj.counter
        self.name = None
        self.owner = None
        self.held = None    # (table, deps of its key) that this object has been stored in


class ADict(Obj):
    __slots__ = ('d', 'rest', 'kind', 'maybe', 'factory', 'cfg', 'tag', 'restk')

    def __init__(self, d=None, rest=None, kind='dict', factory=None):
        Obj.__init__(self)
        self.d = {} if d is None else d
        self.rest = rest
        self.kind = kind
        self.maybe = None
        self.factory = factory
        self.cfg = None      # config path, when this is part of flavio.config
        self.tag = None
        self.restk = None

    def __repr__(self):
        ks = list(self.d)
        return 'ADict(%s%s%s)' % (ks[:6], '...' if len(ks) > 6 else '',
                                  '+rest' if self.rest is not None else '')


class AList(Obj):
    __slots__ = ('items', 'elem', 'kind')

    def __init__(self, items=None, elem=None, kind='list'):
        Obj.__init__(self)
        self.items = items      # list of values, or None if length unknown
        self.elem = elem        # summary when items is None
        self.kind = kind        # list / set / tuple / iter / array

    def __repr__(self):
        return 'AList<%s>(%s)' % (self.kind, self.items if self.items is not None
                                  else ('*', self.elem))


class AInst(Obj):
    __slots__ = ('cls', 'attrs', 'opaque')

    def __init__(self, cls, attrs=None):
        Obj.__init__(self)
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.opaque = False   # unknown attributes resolve to Unk

    def __repr__(self):
        nm = self.attrs.get('name')
        return '<%s %s>' % (self.cls.cname if self.cls else '?',
                            nm if isinstance(nm, str) else '')


class AClass(Obj):
    __slots__ = ('cname', 'bases', 'attrs', 'mod', 'node', 'meta', 'qual', 'subs')

    def __init__(self, cname, bases, attrs, mod, node, meta=None):
        Obj.__init__(self)
        self.cname = cname
        self.bases = bases
        self.attrs = attrs
        self.mod = mod
        self.node = node
        self.meta = meta
        self.qual = cname
        self.subs = []
        for b in bases:
            if isinstance(b, AClass):
                b.subs.append(self)

    def mro(self):
        out, seen = [], set()
        # C3 simplified: depth first, keep last occurrence
        def rec(c):
            out.append(c)
            for b in (c.bases if isinstance(c, AClass) else []):
                rec(b)
        rec(self)
        res = []
        for i, c in enumerate(out):
            if not any(c is x for x in out[i + 1:]):
                res.append(c)
        return res

    def __repr__(self):
        return '<class %s>' % self.cname





class AFunc:
    __slots__ = ('node', 'mod', 'scope', 'name', 'qual', 'cls', 'defaults',
                 'kwdefaults', 'cached', 'vectorized', 'is_gen', 'decos', 'attrs',
                 'locals_', 'globals_', 'nonlocals_', 'born', 'toplevel')

    def __repr__(self):
        return '<func %s.%s>' % (self.mod.name, self.qual)


class ABound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class APartial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class AProp:
    """property / classmethod / staticmethod descriptor"""
    __slots__ = ('kind', 'func')

    def __init__(self, kind, func):
        self.kind = kind
        self.func = func


class AModule:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.vars = {}
        self.done = False
        self.tree = None

    def __repr__(self):
        return '<module %s>' % self.name


class Ext:
    """An external (non-flavio) object named by dotted path."""
    __slots__ = ('path', 'deps', 'data')

    def __init__(self, path, deps=0, data=None):
        self.path = path
        self.deps = deps
        self.data = data

    def __repr__(self):
        return 'Ext(%s)' % self.path


class BuiltinM:
    """method of a builtin/abstract container: (object, name)"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return 'BuiltinM(%s.%s)' % (type(self.obj).__name__, self.name)


class AUnion:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'AUnion%r' % (self.vals,)


class ASuper:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Par:
    """The parameter dictionary handed to a prediction.
    conj: CP-odd entries have flipped sign
    over: overridden entries (of a modified copy)
    owner: 'input' (the caller's dictionary) or 'copy'
    """
    __slots__ = ('conj', 'over', 'owner', 'born')

    def __init__(self, conj=False, over=None, owner='input'):
        self.conj = conj
        self.over = over or {}
        self.owner = owner
        Obj.counter += 1
        self.born = Obj.counter

    def __repr__(self):
        return 'Par(conj=%s%s)' % (self.conj, ', over=%s' % list(self.over) if self.over else '')


def is_host(v):
    return v is None or v is Ellipsis or isinstance(
        v, (str, int, float, complex, bytes, bool, range, slice, Fraction))


def is_const(v):
    """deep host constant"""
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return is_host(v)


_dy = (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)


class Pure(float):
    """float that is a pure number (result of arithmetic on simple literals)"""
    __slots__ = ()


class PureC(complex):
    __slots__ = ()


class SoftI(int):
    """integer of a named quantity (it may carry units)"""
    __slots__ = ()


class SoftF(float):
    __slots__ = ()


_UNITFUL = re.compile(r'scale|^mu|^q2|^s$|^t$|^E|^m$|^m_|^m[A-Zbcstul]|min$|max$|thresh|lambda|Lambda|mass', 0)


def soften(x, name=''):
    """literal bound to a name: may carry units if the name or its size says so"""
    t = type(x)
    if t is not int and t is not float:
        return x
    if -10 <= x <= 10 and not _UNITFUL.search(name):
        return x
    if t is int:
        return SoftI(x)
    if t is float:
        return SoftF(x)
    return x


def purify(x):
    if isinstance(x, float) and not isinstance(x, Pure):
        return Pure(x)
    if isinstance(x, complex) and not isinstance(x, PureC):
        return PureC(x)
    return x


def is_simple_lit(x):
    """is this literal a pure number (as opposed to a decimal that may carry units)?"""
    if isinstance(x, (Pure, PureC)):
        return True
    if isinstance(x, bool):
        return True
    if isinstance(x, (SoftI, SoftF)):
        return False
    if isinstance(x, int):
        x = abs(x)
        if x <= 64:
            return True
        if x > 10**6:
            return False
        while x % 2 == 0:
            x //= 2
        while x % 3 == 0:
            x //= 3
        return x == 1
    if isinstance(x, complex):
        return is_simple_lit(x.real) and is_simple_lit(x.imag)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return True
        if x == int(x):
            return abs(x) <= 64
        fr = Fraction(x).limit_denominator(5000)
        if abs(float(fr) - x) > 1e-13 * abs(x):
            return False
        q = fr.denominator
        if q in _dy and abs(fr.numerator) <= 15:
            return True
        if q % 3 == 0 or q % 7 == 0:
            return True
        return False
    return True


def num_of(v):
    """numeric abstraction (d, soft, deps, o) of any value"""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(0 if v else ZERO, cx=0)
    if isinstance(v, (int, float, complex)):
        if v == 0 or v != v or (isinstance(v, (int, float)) and v in (math.inf, -math.inf)):
            return Num(ZERO, cx=1 if isinstance(v, complex) else 0)
        return Num(0, 0, soft=not is_simple_lit(v), cx=1 if isinstance(v, complex) else 0)
    if isinstance(v, Unk):
        return Num(None, v.deps)
    if isinstance(v, AList) or isinstance(v, tuple):
        n = None
        for x in (v if isinstance(v, tuple) else (v.items if v.items is not None else [v.elem])):
            if x is None:
                continue
            m = num_of(x)
            n = m if n is None else join_num(n, m)
        return n if n is not None else Num(ZERO, cx=0)
    if isinstance(v, AUnion):
        n = None
        for x in v.vals:
            m = num_of(x)
            n = m if n is None else join_num(n, m)
        return n
    if isinstance(v, Ext):
        return Num(None, v.deps)
    if isinstance(v, Maybe):
        return num_of(v.v)
    return Num(None, 0)


def join_dim(a, b):
    """-> (d, conflict)"""
    if a == b:
        return a, False
    if a == ZERO:
        return b, False
    if b == ZERO:
        return a, False
    if a is None or b is None:
        return None, False
    return None, True


def join_cx(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0 and b == 0:
        return 0
    return None


def join_num(a, b):
    if a.d == b.d and a.deps == b.deps and a.soft == b.soft and a.o == b.o and a.sym == b.sym and a.cx == b.cx and a.iv == b.iv \
            and a.own == b.own and a.av == b.av:
        return a
    d, conf = join_dim(a.d, b.d)
    if conf and a.soft != b.soft:
        d = b.d if a.soft else a.d
    soft = a.soft or b.soft
    r = Num(d, a.deps | b.deps, soft, a.o | b.o, a.sym if a.sym == b.sym else None)
    r.cx = join_cx(a.cx, b.cx)
    r.rt = a.rt and b.rt
    r.own = a.own or b.own
    r.av = a.av if a.av == b.av or b.d == ZERO else b.av if a.d == ZERO else None
    if a.iv is not None and b.iv is not None:
        r.iv = (min(a.iv[0], b.iv[0]), max(a.iv[1], b.iv[1]))
    return r


# ---- interval arithmetic (used when parameters carry intervals)
def iv_of(v):
    if isinstance(v, Num):
        return v.iv
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)) and v == v:
        return (float(v), float(v))
    return None


def iv_op(op, a, b):
    try:
        if op == '+':
            return (a[0] + b[0], a[1] + b[1])
        if op == '-':
            return (a[0] - b[1], a[1] - b[0])
        if op == '*':
            c = [x * y if x and y else 0.0 for x in a for y in b]
            return (min(c), max(c))
        if op == '/':
            if b[0] <= 0 <= b[1]:
                return None
            c = [x / y for x in a for y in b]
            return (min(c), max(c))
        if op == '**':
            if b[0] != b[1]:
                return None
            k = b[0]
            if k == int(k) and k > 0:
                c = [x ** int(k) for x in a]
                if k % 2 == 0 and a[0] <= 0 <= a[1]:
                    c.append(0.0)
                return (min(c), max(c))
            if a[0] > 0:
                c = [x ** k for x in a]
                return (min(c), max(c))
    except (OverflowError, ZeroDivisionError):
        pass
    return None


def iv_cmp(op, a, b):
    """True / False when the comparison is decided for all values"""
    if op in ('>', '>='):
        a, b, op = b, a, '<' if op == '>' else '<='
    if op == '<':
        return True if a[1] < b[0] else (False if a[0] >= b[1] else None)
    if op == '<=':
        return True if a[1] <= b[0] else (False if a[0] > b[1] else None)
    if op == '==':
        return False if a[1] < b[0] or b[1] < a[0] else None
    if op == '!=':
        return True if a[1] < b[0] or b[1] < a[0] else None
