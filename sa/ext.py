"""Models of everything outside flavio: builtins, numpy/scipy, wilson, data files."""
import ast
import cmath
import csv
import glob
import json
import math
import os
import re
import sys
from fractions import Fraction
from .values import *
from . import dims
from .interp import AbsRaise

SITE = None
for _p in sys.path:
    if os.path.isdir(os.path.join(_p, 'wilson', 'wcxf', 'bases')):
        SITE = _p
        break
if SITE is None:
    for _p in glob.glob('/opt/venv/lib/python3*/site-packages'):
        if os.path.isdir(os.path.join(_p, 'wilson', 'wcxf', 'bases')):
            SITE = _p

# numeric functions keeping the dimension of their (first) argument
SAME = set('''abs absolute real imag conj conjugate mean sum max min amax amin average array asarray
 asarray_chkfinite ascontiguousarray ravel sort sorted transpose diag squeeze reshape delete insert
 append concatenate vstack hstack stack flip cumsum std median percentile trace full_like
 round floor ceil fabs real_if_close nan_to_num atleast_1d atleast_2d linspace arange repeat tile
 broadcast_to copy copysign interp unique float float64 complex int complex128 tril triu
 logspace geomspace clip maximum minimum subtract add hypot nanmax nanmin diff'''.split())
DIMLESS = set('''exp log log10 log2 sin cos tan arcsin arccos arctan asin acos atan sinh cosh tanh
 arcsinh arccosh arctanh asinh acosh atanh expm1 log1p erf erfc gamma spence expi zeta
 eval_gegenbauer heaviside kv jv i0'''.split())
NEUTRAL = set('''sign isclose allclose isfinite isnan isinf isscalar isreal iscomplex all any
 logical_and logical_or logical_not argmin argmax argsort nonzero where_ shape size ndim
 arctan2 angle phase isneginf histogram unravel_index iscomplexobj array_equal not_equal equal less greater
 less_equal greater_equal'''.split())
ZEROS = set('zeros zeros_like empty empty_like'.split())
ONES = set('ones ones_like eye identity'.split())
MULT = set('dot matmul outer multiply inner tensordot vdot kron cross'.split())


def outside(p):
    """effect of calling a library function that reads or writes the world outside the interpreter"""
    q = p.replace('()', '')
    root, _, rest = q.partition('.')
    last = q.rsplit('.', 1)[-1]
    if root in ('random', 'secrets') or q in ('uuid.uuid1', 'uuid.uuid4', 'os.urandom'):
        return ('random', p)
    if root == 'time' and last in ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'monotonic_ns', 'process_time', 'ctime', 'localtime', 'gmtime', 'strftime', 'clock', 'asctime'):
        return ('random', p)
    if root == 'datetime' and last in ('now', 'today', 'utcnow'):
        return ('random', p)
    if q in ('os.getenv',) or q.startswith('os.environ'):
        return ('io', 'environment', p)
    if root in ('platform', 'socket', 'getpass') or q in ('os.getpid', 'os.uname', 'os.getcwd', 'os.cpu_count', 'os.listdir', 'os.system', 'os.popen', 'os.getlogin', 'os.stat', 'glob.glob') or root == 'subprocess':
        return ('io', 'system', p)
    if root == 'logging' and last in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log') and q.count('.') >= 1:
        return ('io', 'log', p)
    if q.startswith(('sys.stdout.', 'sys.stderr.')) or q in ('pprint.pprint',):
        return ('io', 'print', p)
    if q.startswith('os.') and last in ('remove', 'unlink', 'rename', 'mkdir', 'makedirs', 'rmdir', 'replace', 'putenv'):
        return ('write', p)
    return None


class ExtModel:
    def __init__(self, repo):
        self.repo = repo
        self.par_names = {}
        self.par_iv = None      # parameter -> interval, in kinematics runs
        self.I = None
        self.bases = {}
        self._parsym = {}
        self.taint_random = True
        self.oncall = []
        self.onreturn = []
        self.particles = None

    def bind(self, interp):
        self.I = interp

    # ---------------------------------------------------------------- parameters
    def par_get(self, par, k):
        I = self.I
        if isinstance(k, AUnion):
            return I.joinall([self.par_get(par, x) for x in k.vals])
        if not isinstance(k, str):
            I.emit('parkey', 'unknown')
            d = I.deps(k)
            return Num(None, d | bit(('par', '*')))
        if k in par.over:
            return par.over[k]
        if k not in self.par_names:
            I.emit('parkey', 'missing', k)
            if par.owner == 'input':
                raise AbsRaise('KeyError', k, I.loc())
            return Num(None, bit(('par', k)))
        I.emit('par', k, par.conj)
        if self.par_iv and k in self.par_iv:
            v = self._parsym.get((k, 'iv'))
            if v is None:
                v = Num(dims.par_dim(k), bit(('par', k)), sym=('par', k, 1), cx=0)
                v.iv = self.par_iv[k]
                self._parsym[k, 'iv'] = v
            return v
        key = (k, par.conj)
        v = self._parsym.get(key)
        if v is None:
            sign = -1 if (par.conj and k in ('gamma', 'delta')) else 1
            toks = bit(('parc' if sign < 0 else 'par', k))
            v = Num(dims.par_dim(k), toks, sym=('par', k, sign), cx=0)
            self._parsym[key] = v
        return v

    def as_par(self, d):
        """dict comprehension over the whole parameter dictionary -> Par"""
        if d.rest is not None or len(d.d) < 50 or len(self.par_names) == 0:
            return None
        n = 0
        flipped = set()
        over = {}
        src = 0
        for k, v in d.d.items():
            if isinstance(v, Num) and v.sym and v.sym[0] == 'par' and v.sym[1] == k:
                n += 1
                base = -1 if False else 1
                if v.sym[2] == -1:
                    flipped.add(k)
            else:
                over[k] = v
        if n < 0.5 * len(self.par_names):
            return None
        odd = {k for k in ('gamma', 'delta', 'beta', 'etabar') if k in d.d}
        conj = False
        wrong = set()
        if flipped:
            if flipped == odd:
                conj = True
            else:
                self.I.emit('partflip', tuple(sorted(flipped)), tuple(sorted(odd)))
                conj = True
        missing = set(self.par_names) - set(d.d)
        p = Par(conj, over, 'copy')
        if len(missing) > 0:
            self.I.emit('pardrop', len(missing), sorted(missing)[0])
        return p

    def norm_par(self, v):
        """a dictionary that a function returns: the whole parameter dictionary rebuilt item by item, or a copy with signs flipped in place"""
        if isinstance(v, ADict) and v.d and len(v.d) >= 50 and v.rest is None and not v.maybe and v.cfg is None:
            p = self.as_par(v)
            return v if p is None else p
        if isinstance(v, Par) and v.owner == 'copy' and v.over:
            odd = {k for k in ('gamma', 'delta', 'beta', 'etabar') if k in self.par_names}
            sign = -1
            flipped = {k for k, x in v.over.items() if isinstance(x, Num) and x.sym and x.sym[0] == 'par' and x.sym[1] == k and x.sym[2] == sign}
            if flipped:
                if flipped != odd:
                    self.I.emit('partflip', tuple(sorted(flipped)), tuple(sorted(odd)))
                return Par(True, {k: x for k, x in v.over.items() if k not in flipped}, 'copy')
        return v

    # ---------------------------------------------------------------- configuration
    def mark_cfg(self, d, path=()):
        d.cfg = path
        for k, v in d.d.items():
            if isinstance(v, ADict):
                self.mark_cfg(v, path + (k,))

    def cfg_get(self, d, k):
        I = self.I
        path = d.cfg
        if isinstance(k, AUnion):
            return I.joinall([self.cfg_get(d, x) for x in k.vals])
        if not isinstance(k, str):
            vals = list(d.d.values())
            I.emit('cfg', path + ('?',))
            return I.joinall([self.cfg_leaf(path + (q,), v) for q, v in d.d.items()]) if vals else Unk()
        if k not in d.d:
            if d.rest is not None:
                return d.rest
            I.emit('cfgkey', '/'.join(path), k)
            raise AbsRaise('KeyError', k, I.loc())
        v = d.d[k]
        if isinstance(v, ADict):
            return v
        return self.cfg_leaf(path + (k,), v)

    def cfg_leaf(self, path, v):
        if isinstance(v, ADict):
            return v
        scale = path and path[0] in ('renormalization scale', 'RGE thresholds') and isinstance(v, (int, float))
        if I_phase_world(self.I):
            if self.I.loc():
                self.I.emit('frozen', path)
            if scale:       # a value frozen when the library is imported
                return Num(1, bit(('frozen',) + path), cx=0, sym=('frozen', path, 1))
            return v
        self.I.emit('cfg', path)
        if scale:
            return Num(1, bit(('cfg',) + path), cx=0, sym=('cfg', path, 1))
        return v

    # ---------------------------------------------------------------- host lifting
    def lift(self, x):
        if isinstance(x, dict):
            return ADict({k: self.lift(v) for k, v in x.items()})
        if isinstance(x, (list, tuple)):
            return AList([self.lift(v) for v in x])
        if isinstance(x, set):
            return AList([self.lift(v) for v in sorted(x, key=str)], None, 'set')
        if is_host(x):
            return x
        return str(x)

    def unlift(self, v):
        """abstract constant -> host, raises TypeError"""
        if is_const(v):
            return v
        if isinstance(v, AList) and v.items is not None:
            r = [self.unlift(x) for x in v.items]
            return set(r) if v.kind == 'set' else r
        if isinstance(v, tuple):
            return tuple(self.unlift(x) for x in v)
        if isinstance(v, ADict) and v.rest is None and not v.maybe:
            return {self.unlift(k): self.unlift(x) for k, x in v.d.items()}
        raise TypeError

    def repo_path(self, package, resource):
        base = os.path.join(self.repo, *package.split('.'))
        if os.path.isfile(base + '.py'):
            base = os.path.dirname(base)
        return os.path.join(base, resource)

    def read_bytes(self, path):
        with open(path, 'rb') as f:
            return f.read()

    # ---------------------------------------------------------------- attribute access
    def getattr(self, e, attr):
        p = e.path + '.' + attr
        if p in ('math.pi', 'numpy.pi', 'scipy.pi', 'cmath.pi', 'math.e', 'numpy.e', 'cmath.e'):
            return Pure(getattr(math, attr))
        if p in ('numpy.inf', 'math.inf', 'numpy.nan', 'math.nan', 'numpy.infty'):
            return math.inf if 'inf' in attr else math.nan
        if p == 'numpy.newaxis':
            return None
        if e.path == 'scipy.constants':
            return Num(0, soft=True)
        if p == 'particle.data.basepath':
            return Ext('particle.data.basepath', data='particle')
        if e.path == 're.Match' or e.path == 're.Pattern':
            return Ext(p, e.deps, e.data)
        if p == 'os.sep':
            return os.sep
        if p in ('sys.version_info',):
            return (3, 12, 0)
        if e.path == 'wcxf.Basis[]':
            return self.basis_attr(e, attr)
        if attr == '__name__' and '.' in e.path:
            return e.path.split('.')[-1]
        if attr == 'shape' and '()' in e.path:
            return Unk(why='shape')
        # attributes that do not exist in the installed libraries
        if p in ('numpy.complex', 'numpy.float', 'numpy.int', 'numpy.bool', 'numpy.object', 'numpy.str',
                 'scipy.integrate.quadrature_'):
            self.I.emit('noattr', e.path, attr)
            raise AbsRaise('AttributeError', attr, self.I.loc())
        return Ext(p, e.deps, None)

    def basis(self, eft, basis):
        k = (eft, basis)
        if k not in self.bases:
            f = os.path.join(SITE, 'wilson', 'wcxf', 'bases', '%s.%s.basis.json' % (eft.lower(), basis.lower()))
            try:
                with open(f) as fh:
                    self.bases[k] = json.load(fh)
            except OSError:
                self.bases[k] = None
            # child bases inherit
            g = os.path.join(SITE, 'wilson', 'wcxf', 'bases', 'child', '%s.%s.basis.json' % (eft.lower(), basis.lower()))
            if self.bases[k] is None and os.path.exists(g):
                with open(g) as fh:
                    self.bases[k] = json.load(fh)
        return self.bases[k]

    def eft_sectors(self, eft):
        f = os.path.join(SITE, 'wilson', 'wcxf', 'bases', '%s.eft.json' % eft.lower())
        if not os.path.exists(f):
            return None
        with open(f) as fh:
            return set(json.load(fh)['sectors'])

    def wc_num(self, eft, basis, name, info):
        k = ('wcnum', eft, basis, name)
        v = self._parsym.get(k)
        if v is None:
            v = Num(dims.wc_dim(eft, basis, info, name), bit(('wc', name)), o=1, cx=1)
            self._parsym[k] = v
        return v

    def basis_attr(self, e, attr):
        eft, bas = e.data
        b = self.basis(eft, bas)
        if b is None:
            return Unk(why='basis')
        if attr == 'sectors':
            d = ADict({s: ADict({w: ADict({}) for w in (ws or {})}) for s, ws in b['sectors'].items()})
            d.tag = 'sectors of %s/%s' % (eft, bas)
            return d
        if attr == 'all_wcs':
            return AList([w for s in b['sectors'].values() for w in (s or {})])
        return Unk(why='basis.' + attr)

    def getitem(self, e, k):
        I = self.I
        if e.path.endswith('wcxf.Basis'):
            if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, str) for x in k):
                if self.basis(*k) is None:
                    I.emit('badbasis', *k)
                    raise AbsRaise('KeyError', k, I.loc())
                return Ext('wcxf.Basis[]', data=k)
            if isinstance(k, tuple) and len(k) == 2:
                effs = k[0].vals if isinstance(k[0], AUnion) else [k[0]]
                bass = k[1].vals if isinstance(k[1], AUnion) else [k[1]]
                rs = [self.getitem(e, (a, b)) for a in effs for b in bass if isinstance(a, str) and isinstance(b, str)]
                if rs:
                    return I.joinall(rs)
            return Unk(why='basis')
        if e.path == 're.Match':
            try:
                return e.data.group(k)
            except Exception:
                return Unk(why='group', ty='str')
        if e.path in ('numpy.r_', 'numpy.c_'):
            return AList(None, num_of(k), 'array')
        if e.path == 'sys.modules':
            return Unk(why='sys.modules')
        if e.path == 'os.environ':
            I.emit('io', 'environment', e.path)
            return Unk(e.deps | bit(('random',)), why=e.path)
        return Unk(e.deps | I.deps(k), why=e.path + '[]')

    # ---------------------------------------------------------------- class models
    def load_particles(self, year=None):
        if self.particles is None:
            self.particles = []
            files = sorted(glob.glob(os.path.join(SITE, 'particle', 'data', 'particle20*.csv')))
            want = [f for f in files if year and ('particle%s.csv' % year) in f] or files[-1:]
            with open(want[0]) as f:
                rows = [l for l in f if not l.startswith('#')]
            nn = lambda x: None if float(x) < 0 else float(x)
            for r in csv.DictReader(rows):
                self.particles.append({'pdgid': int(r['ID']), 'mass': nn(r['Mass']), 'mass_upper': nn(r['MassUpper']),
                                       'mass_lower': nn(r['MassLower']), 'width': nn(r['Width']),
                                       'width_upper': nn(r['WidthUpper']), 'width_lower': nn(r['WidthLower']),
                                       'name': r['Name'] + ({'1': '+', '-1': '-'}.get(r['Charge'], '') if False else ''),
                                       'latex_name': r['Latex']})
        return self.particles

    def class_attr(self, cls, base, attr):
        return Ext(base.path + '.' + attr, 0, ('cls', cls))

    def super_attr(self, self_, base, attr):
        I = self.I
        if I.ext_base(self_.cls if isinstance(self_, AInst) else self_) == 'dict' and isinstance(self_, AInst):
            return BuiltinM(I.dict_of(self_), attr)
        return Ext(base.path + '.' + attr, 0, ('self', self_))

    def inst_attr(self, inst, base, attr):
        if base.path.endswith('Wilson') and attr in ('wc',):
            return AUnion([None, self.wc_instance()])
        if base.path.endswith('Wilson') and attr in ('_cache', '_options'):
            return Unk(why=attr)
        return Ext(base.path + '.' + attr, 0, ('self', inst))

    def wc_instance(self):
        o = AInst(AClass('WC', [], {}, None, None))
        o.opaque = True
        vals = ADict(rest=Num(None, 0, o=1), kind='dict')
        vals.restk = Unk(why='wcname', ty='str')
        o.attrs['values'] = vals
        o.attrs['dict'] = vals
        return o

    def new(self, cls, args, kwargs):
        return None

    def on_call(self, f, args, kwargs):
        for h in self.oncall:
            h(f, args, kwargs)
        self.scale_use(f, args, kwargs)

    SCALE = ('scale', 'mu', 'scale_out', 'mu_out')

    def scale_of(self, v):
        """source of a renormalisation scale: a constant, a configuration entry, or what it is computed from"""
        if v is None or isinstance(v, bool):
            return None
        if isinstance(v, (int, float)):
            return ('const', float(v))
        if isinstance(v, Num):
            if v.sym and v.sym[0] in ('cfg', 'frozen', 'par', 'arg'):
                return v.sym[:2]
            ts = sorted({t if t[0] in ('cfg', 'frozen') else t[:2] for t in tokens(v.deps)}, key=str)
            return ('computed',) + tuple(ts[:6])
        if isinstance(v, AUnion):
            return ('union',) + tuple(sorted({self.scale_of(x) for x in v.vals}, key=str))
        return ('other', type(v).__name__)

    def scale_use(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, nm in enumerate(names):
            if nm in self.SCALE:
                v = kwargs[nm] if nm in kwargs else args[i] if i < len(args) else None
                s = self.scale_of(v)
                if isinstance(v, Num) and v.d == 0 and v.d is not None and s[0] == 'computed':
                    s = None        # a ratio, not a scale
                if nm == 'mu' and isinstance(v, Num) and any(t[:2] in (('par', 'm_u'), ('par', 'm_mu')) for t in tokens(v.deps)):
                    s = None        # the mass of the up quark or the muon
                if s is not None:
                    nf = None
                    if 'nf_out' in names:
                        j = names.index('nf_out')
                        nf = kwargs.get('nf_out', args[j] if j < len(args) else None)
                        nf = nf if nf is None or isinstance(nf, int) else '?'
                    self.I.emit('scale', '%s.%s' % (f.mod.name, f.qual), nm, s, nf)

    def on_return(self, f, fr):
        for h in self.onreturn:
            h(f, fr)

    # ---------------------------------------------------------------- calls
    def alldeps(self, args, kwargs=None):
        d = 0
        for a in args:
            d |= self.I.deps(a)
        for a in (kwargs or {}).values():
            d |= self.I.deps(a)
        return d

    def callbacks(self, args, kwargs):
        """functions handed to unknown code may be called by it"""
        I = self.I
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, (AFunc, ABound, APartial)):
                f = a
                n = 0
                while isinstance(f, (ABound, APartial)):
                    if isinstance(f, ABound):
                        n += 1
                    else:
                        n += len(f.args)
                    f = f.func
                if not isinstance(f, AFunc):
                    continue
                aa = f.node.args
                need = max(len(aa.posonlyargs + aa.args) - n - len(f.defaults), 0)
                self.weak_call(a, [Unk(why='cb') for _ in range(need)])

    def weak_call(self, f, args, kwargs=None):
        I = self.I
        nfr = len(I.frames)
        I.weak.append(Obj.counter)
        try:
            return I.call(f, args, kwargs or {})
        except AbsRaise as e:
            I.emit('raise', e.exc)
            del I.frames[nfr:]
            return Unk(why='raised')
        finally:
            I.weak.pop()

    def call_unknown(self, f, args, kwargs):
        self.callbacks(args, kwargs)
        self.I.may_raise()
        return Unk(self.I.deps(f) | self.alldeps(args, kwargs), why='call')

    def vec(self, v, fn):
        """apply fn elementwise"""
        if isinstance(v, AList) and v.items is not None and len(v.items) <= 400:
            return AList([self.vec(x, fn) for x in v.items], None, 'array')
        if isinstance(v, AList):
            return AList(None, fn(num_of(v)), 'array')
        if isinstance(v, tuple):
            return AList([self.vec(x, fn) for x in v], None, 'array')
        if isinstance(v, AUnion):
            return self.I.joinall([self.vec(x, fn) for x in v.vals if x is not None])
        return fn(num_of(v))

    def f_dimless(self, name, n, node=None):
        if n.d not in (None, 0, ZERO) and not n.soft:
            if name.startswith('log'):
                # log(a) - log(b) is legitimate: decided per function
                a = node.args[0] if isinstance(node, ast.Call) and node.args else None
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Div) and isinstance(a.right, ast.Constant):
                    return Num(0, n.deps, False, n.o, cx=n.cx)
                self.I.emit('logdim', str(n.d), n.rt, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
            else:
                self.I.emit('dim', name, str(n.d), '0')
        return Num(0, n.deps, False, n.o, cx=n.cx)

    def call(self, e, args, kwargs, star, kwstar, node):
        I = self.I
        p = e.path
        if star is not None:
            args = list(args) + [star]
        if kwstar is not None:
            kwargs = dict(kwargs)
            kwargs.setdefault('**', kwstar)
        top, _, last = p.rpartition('.')
        h = getattr(self, 'x_' + p.replace('.', '_').replace('()', '_c').replace('[]', ''), None)
        if h is not None:
            return h(e, args, kwargs)
        root = p.split('.')[0]
        fx = outside(p)
        if fx is not None:
            I.emit(*fx)
            if fx[0] == 'random':
                return Num(None, self.alldeps(args, kwargs) | bit(('random',)))
            return Unk(self.alldeps(args, kwargs) | bit(('random',)), why=p) if fx[1] in ('environment', 'system') else None
        if root in ('math', 'cmath', 'numpy', 'scipy', 'np'):
            r = self.numeric(p, last, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if root == 'builtins':
            o = getattr(__import__('builtins'), last, None)
            if isinstance(o, type) and issubclass(o, BaseException):
                return Ext(p, self.alldeps(args, kwargs), ('exc', list(args)))
        if e.data and isinstance(e.data, tuple) and e.data and e.data[0] == 'self' and last == '__init__':
            self.ext_init(e, args, kwargs)
            return None
        if e.data and isinstance(e.data, tuple) and e.data[0] == 'self' and last == 'match_run':
            return self.match_run(args, kwargs)
        self.callbacks(args, kwargs)
        I.may_raise()
        if root in ('wilson', 'rundec'):
            return self.phys_lib(p, last, args, kwargs)
        return Ext(p + '()', e.deps | self.alldeps(args, kwargs), e.data if not isinstance(e.data, tuple) else None)

    def ext_init(self, e, args, kwargs):
        self_ = e.data[1]
        if isinstance(self_, AInst):
            if I_phase_world(self.I) is False:
                self.I.mutated(self_, 'base-class initialisation')
            self_.attrs['wc'] = AUnion([None, self.wc_instance()])

    def match_run(self, args, kwargs):
        I = self.I
        names = ['scale', 'eft', 'basis', 'sectors']
        a = dict(zip(names, args))
        a.update(kwargs)
        scale = a.get('scale')
        eft, bas = a.get('eft'), a.get('basis')
        secs = a.get('sectors', 'all')
        n = num_of(scale)
        I.emit('match', eft if isinstance(eft, str) else '?', bas if isinstance(bas, str) else '?',
               self.secname(secs), self.scale_of(scale))
        o = AInst(AClass('WC', [], {}, None, None))
        o.opaque = True
        d = ADict()
        if isinstance(eft, str) and isinstance(bas, str) and self.basis(eft, bas):
            b = self.basis(eft, bas)
            if secs == 'all':
                ss = list(b['sectors'])
            elif isinstance(secs, tuple) and all(isinstance(s, str) for s in secs):
                ss = list(secs)
                good = self.eft_sectors(eft) or set(b['sectors'])
                for s in ss:
                    if s not in b['sectors'] and s not in good:
                        I.emit('badsector', eft, bas, s)
            else:
                ss = list(b['sectors'])
            for s in ss:
                for w, info in (b['sectors'].get(s) or {}).items():
                    d.d[w] = self.wc_num(eft, bas, w, info)
            d.maybe = frozenset(d.d)
        else:
            d.rest = Num(None, bit(('wc', '*')), o=1)
            d.restk = Unk(why='wcname', ty='str')
        o.attrs['dict'] = d
        o.attrs['values'] = d
        o.attrs['scale'] = scale
        o.attrs['eft'] = eft
        o.attrs['basis'] = bas
        return o

    def secname(self, s):
        if isinstance(s, str):
            return s
        if isinstance(s, tuple) and all(isinstance(x, str) for x in s):
            return ','.join(s)
        return '?'

    def phys_lib(self, p, last, args, kwargs):
        d = self.alldeps(args, kwargs)
        if p.startswith('wilson.util.qcd.') or p.startswith('rundec'):
            if last in ('m_b', 'm_c', 'm_s', 'm_t'):
                for a, x in list(zip(['mass', 'scale'], args)) + [(k, v) for k, v in kwargs.items() if k in ('scale', 'mbmb', 'mcmc', 'ms2')]:
                    n = num_of(x)
                    if n.d not in (None, 1, ZERO) and not n.soft and not isinstance(x, (int, float)):
                        self.I.emit('dim', p + ' argument ' + a, str(n.d), '1')
                return Num(1, d, cx=0)
            if last == 'alpha_s':
                x = kwargs.get('scale', args[0] if args else None)
                n = num_of(x)
                if n.d not in (None, 1, ZERO) and not n.soft and not isinstance(x, (int, float)):
                    self.I.emit('dim', p + ' argument scale', str(n.d), '1')
                return Num(0, d, cx=0)
            if last.startswith('m') and ('2m' in last):
                return Num(1, d, cx=0)
            if last == 'CRunDec':
                return Ext('rundec.CRunDec()')
            return Num(None, d)
        if last == 'wcxf2arrays_symmetrized':
            src = args[0] if args else None
            els = {}
            if isinstance(src, ADict):
                for k in src.d:
                    if isinstance(k, str):
                        nm, _, idx = k.partition('_')
                        els.setdefault(nm, 0)
                        els[nm] |= self.I.deps(src.d[k])
            dd = self.alldeps(args)
            r = ADict({k: AList(None, Num(-2 if k not in ('llphiphi',) else -1, v, o=1), 'array') for k, v in els.items()})
            if not els:
                r.rest = AList(None, Num(-2, dd, o=1), 'array')
                r.restk = Unk(ty='str')
            return r
        if p == 'wilson.wcxf.WC':
            o = AInst(AClass('WC', [], {}, None, None))
            o.opaque = True
            v = kwargs.get('values')
            src = v if isinstance(v, ADict) else ADict()
            o.attrs['values'] = src
            o.attrs['dict'] = src
            for k in ('eft', 'basis', 'scale'):
                if k in kwargs:
                    o.attrs[k] = kwargs[k]
            return o
        return Unk(d, why=p)

    # ---------------------------------------------------------------- numeric libraries
    def numeric(self, p, last, args, kwargs, node=None):
        I = self.I
        d = self.alldeps(args, kwargs)
        a0 = args[0] if args else (list(kwargs.values())[0] if kwargs else None)
        root = p.split('.')[0]
        if '.random' in p:
            I.emit('random', p)
            return AList(None, Num(None, d | bit(('random',))), 'array') if kwargs.get('size') is not None else Num(None, d | bit(('random',)))
        # constant folding
        if root in ('math', 'cmath', 'numpy') and args and not kwargs and p.count('.') == 1 and \
                all(isinstance(a, (int, float, complex)) and not isinstance(a, bool) for a in args) and \
                last in ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'atan', 'atanh', 'abs', 'log10', 'floor', 'conj', 'conjugate', 'real', 'imag', 'sign'):
            try:
                if last in ('conj', 'conjugate'):
                    r = complex(args[0]).conjugate() if isinstance(args[0], complex) else args[0]
                elif last in ('real', 'imag'):
                    r = getattr(complex(args[0]), last)
                elif last == 'abs':
                    r = abs(args[0])
                elif last == 'sign':
                    r = (args[0] > 0) - (args[0] < 0)
                else:
                    r = getattr(cmath if (root == 'cmath' or isinstance(args[0], complex)) else math, last)(*args)
                return purify(r) if all(is_simple_lit(a) for a in args) else r
            except Exception:
                return Num(0, soft=True)
        if last == 'sqrt':
            def f(n):
                if n.d is None or n.d == ZERO:
                    return n.like()
                r = Num(Fraction(n.d) / 2, n.deps, n.soft, n.o, cx=n.cx)
                if n.iv is not None and n.iv[0] >= 0:
                    r.iv = (math.sqrt(n.iv[0]), math.sqrt(n.iv[1]))
                return r
            return self.vec(a0, f)
        if last in ('cbrt',):
            return self.vec(a0, lambda n: Num(None, n.deps))
        if last == 'square':
            return self.vec(a0, lambda n: Num(n.d * 2 if n.d not in (None, ZERO) else n.d, n.deps, n.soft, n.o, cx=n.cx))
        if last in DIMLESS and root in ('math', 'cmath', 'numpy', 'scipy'):
            if root == 'scipy' and '.special' not in p:
                return NotImplemented
            if last == 'eval_gegenbauer':
                return Num(0, d)
            if last in ('log', 'log10', 'log2') and len(args) > 1:
                return Num(0, d)
            r = self.vec(a0, lambda n: self.f_dimless(last, n, node))
            if root == 'cmath' and isinstance(r, Num):
                r.cx = 1
            return r
        if last in ('power', 'pow', 'float_power') and len(args) == 2:
            return I.binop(ast.Pow(), args[0], args[1])
        if last in ('conj', 'conjugate'):
            return self.conj(a0)
        if last in ('real', 'imag'):
            return self.vec(a0, lambda n: n.like(cx=0))
        if last in ('array', 'asarray', 'ascontiguousarray', 'asarray_chkfinite', 'atleast_1d'):
            return self.to_array(a0, fresh=(last == 'array'))
        if last in ZEROS:
            n0 = self.shape_of(a0) if last in ('zeros', 'empty') else None
            if isinstance(n0, int) and n0 <= 64:
                return AList([0.0 for _ in range(n0)], None, 'array')
            if isinstance(n0, tuple) and len(n0) == 2 and all(isinstance(x, int) and x <= 16 for x in n0):
                return AList([AList([0.0] * n0[1], None, 'array') for _ in range(n0[0])], None, 'array')
            return AList(None, Num(ZERO, d), 'array')
        if last in ONES:
            if last in ('eye', 'identity') and isinstance(a0, int) and a0 <= 16:
                return AList([AList([1 if i == j else 0 for j in range(a0)], None, 'array') for i in range(a0)], None, 'array')
            return AList(None, Num(0, d), 'array')
        if last == 'full' and len(args) > 1:
            n = num_of(args[1])
            return AList(None, n.like(d), 'array')
        if last in MULT and len(args) >= 2:
            return self.dot(args[0], args[1], last)
        if last in ('prod',):
            if isinstance(a0, (AList, tuple)):
                its, el = I.iterate(a0)
                if its is not None:
                    r = 1
                    for x in its:
                        r = I.binop(ast.Mult(), r, x)
                    return r
            n = num_of(a0)
            return Num(0 if n.d == 0 else None, d, True, n.o)
        if last == 'einsum':
            dd, soft, o = 0, False, 0
            for a in args[1:]:
                n = num_of(a)
                dd = None if (dd is None or n.d is None) else (dd + n.d if n.d != ZERO else dd)
                soft = soft or n.soft
                o |= n.o
            return AList(None, Num(dd, d, soft, o), 'array')
        if last == 'sum' or last == 'mean':
            if isinstance(a0, AList):
                n = num_of(a0)
                if a0.items is not None and last == 'sum' and 'axis' not in kwargs and len(args) == 1:
                    r = None
                    for x in a0.items:
                        r = x if r is None else I.binop(ast.Add(), r, x)
                    return r if r is not None else 0
                return n.like(d)
        if last in ('quad', 'quadrature', 'fixed_quad', 'romberg') and '.integrate' in p:
            return self.quad(args, kwargs)
        if last in ('odeint', 'solve_ivp') and '.integrate' in p:
            f = args[0]
            y0 = args[1]
            n = num_of(y0)
            dd = d
            r = self.weak_call(f, [AList(None, n.like(), 'array'), Num(1, dd)])
            return AList(None, AList(None, Num(n.d, dd | I.deps(r), True, n.o), 'array'), 'array')
        if last == 'trapz' or last == 'simps':
            y = num_of(a0)
            x = kwargs.get('x', args[1] if len(args) > 1 else 1)
            x = num_of(x)
            return Num(None if y.d is None or x.d in (None, ZERO) else (y.d + x.d if y.d != ZERO else ZERO), d, y.soft or x.soft, y.o)
        if last == 'interp1d' or last in ('RegularGridInterpolator', 'UnivariateSpline', 'interp2d', 'RectBivariateSpline', 'CubicSpline', 'splrep'):
            return Ext('scipy.interpolate.' + last + '()', d, ('interp', args))
        if p == 'scipy.interpolate.interp1d()' or p.startswith('scipy.interpolate.') and p.endswith('()'):
            return Num(0, d, True)
        if last in ('brentq', 'bisect', 'newton', 'fsolve', 'root', 'minimize', 'minimize_scalar', 'root_scalar'):
            self.callbacks(args, kwargs)
            I.may_raise()
            if last == 'brentq' and len(args) >= 3:
                n = join_num(num_of(args[1]), num_of(args[2]))
                return Num(n.d, d, True)
            return Ext(p + '()', d)
        if last == 'load' and p == 'numpy.load' or last in ('loadtxt', 'genfromtxt') and root == 'numpy':
            I.emit('datafile', a0 if isinstance(a0, str) else '?')
            if isinstance(a0, str) and not os.path.exists(a0):
                I.emit('nofile', a0)
            if p == 'numpy.load' and isinstance(a0, str) and a0.endswith('.npz'):
                r = ADict(rest=AList(None, Num(0, d, True), 'array'))
                r.restk = Unk(ty='str')
                return r
            return AList(None, Num(0, d, True), 'array')
        if p == 'numpy.vectorize':
            return a0
        if p in ('numpy.errstate',):
            return Ext('numpy.errstate()')
        if '.linalg' in p:
            n = num_of(a0)
            I.may_raise()
            if last == 'inv':
                if isinstance(a0, AList) and a0.items is not None:
                    return AList([AList([Num(-n.d if n.d not in (None, ZERO) else None, d, True, n.o) for _ in a0.items], None, 'array') for _ in a0.items], None, 'array')
                return AList(None, Num(-n.d if n.d not in (None, ZERO) else None, d, True, n.o), 'array')
            if last == 'eig' or last == 'eigh':
                return (AList(None, Num(n.d, d, True, n.o), 'array'), AList(None, Num(0, d), 'array'))
            if last in ('slogdet',):
                return (Num(0, d), Num(0, d))
            if last == 'norm':
                return n.like(d)
            return AList(None, Num(None, d), 'array')
        if '.stats' in p:
            self.I.may_raise()
            if last in ('cdf', 'sf', 'logpdf', 'pdf', 'ppf', 'logcdf'):
                return Num(None, d)
            return Ext(p + '()', d)
        if last in ('where',) and root == 'numpy':
            if len(args) == 3:
                n = join_num(num_of(args[1]), num_of(args[2]))
                return AList(None, n.like(d), 'array')
            return AList(None, Num(0, d), 'array')
        if last in ('meshgrid',):
            return AList([AList(None, num_of(x), 'array') for x in args])
        if last in NEUTRAL:
            return Num(0, d)
        if last in SAME and root in ('numpy', 'math', 'cmath', 'scipy'):
            n = num_of(a0)
            if last in ('maximum', 'minimum', 'clip'):
                self.clip(args)
            if last in ('linspace', 'arange', 'append', 'concatenate', 'vstack', 'hstack', 'insert', 'maximum', 'minimum', 'interp', 'subtract', 'add', 'hypot', 'geomspace', 'clip'):
                for x in args[1:2]:
                    n = join_num(n, num_of(x))
            if last in ('linspace',) and isinstance(kwargs.get('num', args[2] if len(args) > 2 else None), int):
                k = kwargs.get('num', args[2] if len(args) > 2 else None)
                if k <= 64:
                    return AList([n.like(d) for _ in range(k)], None, 'array')
            if last == 'logspace':
                return AList(None, Num(0, d, True), 'array')
            if last in ('abs', 'absolute', 'fabs'):
                return self.vec(a0, lambda n: n.like(cx=0))
            if last in ('round', 'floor', 'ceil'):
                return self.vec(a0, lambda n: n.like())
            if last in ('max', 'min', 'amax', 'amin', 'std', 'median', 'average', 'trace', 'sum', 'mean', 'percentile', 'copysign', 'float64', 'complex128', 'hypot') and 'axis' not in kwargs:
                return n.like(d)
            if last in ('transpose',) and isinstance(a0, AList):
                return I.transpose(a0)
            if last in ('flip', 'sort', 'copy') and isinstance(a0, AList):
                return AList(list(a0.items) if a0.items is not None else None, a0.elem, 'array')
            return AList(None, n.like(d), 'array')
        if last in ('polyval', 'piecewise'):
            self.callbacks([x for x in args if not isinstance(x, AList)], {})
            for x in args:
                if isinstance(x, AList) and x.items:
                    self.callbacks(x.items, {})
            return AList(None, Num(None, d), 'array')
        if last in ('savez', 'save', 'savetxt'):
            I.emit('write', p)
            return None
        if root == 'numpy' and last in ('frompyfunc',):
            return a0
        if root == 'numpy' and p.count('.') == 1:
            self.callbacks(args, kwargs)
            return AList(None, Num(None, d), 'array') if last[0].islower() else Ext(p + '()', d)
        if root in ('math', 'cmath'):
            return Num(None, d)
        if '.special' in p:
            return Num(0, d)
        return NotImplemented

    def shape_of(self, a):
        if isinstance(a, int) and not isinstance(a, bool):
            return a
        if isinstance(a, tuple):
            if len(a) == 1:
                return a[0]
            return a
        return None

    def to_array(self, v, fresh=False):
        I = self.I
        if isinstance(v, AList):
            if v.kind == 'array' and not fresh:
                return v
            if v.items is not None:
                if len(v.items) > 3000:
                    return AList(None, num_of(v), 'array')
                return AList([self.to_array(x, fresh) if isinstance(x, (AList, tuple)) else x for x in v.items], None, 'array')
            if isinstance(v.elem, (AList, tuple)):
                return AList(None, self.to_array(v.elem, fresh), 'array')
            return AList(None, num_of(v), 'array')
        if isinstance(v, tuple):
            return AList([self.to_array(x) if isinstance(x, (AList, tuple)) else x for x in v], None, 'array')
        if isinstance(v, AUnion):
            return I.joinall([self.to_array(x, fresh) for x in v.vals if x is not None])
        if isinstance(v, Num) or isinstance(v, (int, float, complex)):
            return v
        if isinstance(v, (Unk, Ext)):
            return AList(None, num_of(v), 'array')
        return AList(None, num_of(v), 'array')

    def dot(self, a, b, last):
        I = self.I
        ia = a.items if isinstance(a, AList) else None
        ib = b.items if isinstance(b, AList) else None
        if last in ('dot', 'matmul', 'inner', 'vdot') and ia and ib and len(ia) == len(ib) and \
                not any(isinstance(x, AList) for x in ia + ib):
            r = None
            for x, y in zip(ia, ib):
                t = I.binop(ast.Mult(), x, y)
                r = t if r is None else I.binop(ast.Add(), r, t)
            return r
        if last in ('dot', 'matmul') and ia and all(isinstance(r, AList) and r.items is not None for r in ia) and ib:
            if not any(isinstance(x, AList) for x in ib):
                return AList([self.dot(r, b, 'dot') for r in ia], None, 'array')
            bt = I.transpose(b)
            if bt is not b and bt.items is not None:
                return AList([AList([self.dot(r, c, 'dot') for c in bt.items], None, 'array') for r in ia], None, 'array')
        if not isinstance(a, AList) and not isinstance(b, AList):
            return I.binop(ast.Mult(), a, b)
        n = I.binop_num(ast.Mult(), num_of(a), num_of(b))
        if last in ('outer', 'multiply', 'kron'):
            return AList(None, n, 'array')
        two = any(isinstance(x, AList) and (x.items is None or (x.items and isinstance(x.items[0], AList))) for x in (a, b))
        return AList(None, n, 'array') if two else n

    def conj(self, v):
        ck = self.I.CPK | self.I.CPC
        # a Wilson coefficient is flipped; an amplitude that already contains weak phases is not tracked further
        fl = lambda n: Num(n.d, n.deps, n.soft, (3 if n.o and n.deps & ck else ((n.o & 1) << 1) | ((n.o & 2) >> 1)), cx=n.cx)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, complex):
            return PureC(v.conjugate()) if is_simple_lit(v) else v.conjugate()
        if isinstance(v, (AList, tuple, AUnion)):
            return self.vec(v, fl)
        if isinstance(v, Unk):
            return v
        return fl(num_of(v))

    def quad(self, args, kwargs):
        I = self.I
        f = kwargs.get('func', args[0] if args else None)
        a = kwargs.get('a', args[1] if len(args) > 1 else Unk())
        b = kwargs.get('b', args[2] if len(args) > 2 else Unk())
        na, nb = num_of(a), num_of(b)
        if na.d is not None and nb.d is not None and not isinstance(a, (int, float)) and not isinstance(b, (int, float)):
            I.dimcheck('integration limits', na, nb)
        n = join_num(na, nb)
        I.emit('integral', na.deps, nb.deps, I.const_of(a), I.const_of(b))
        if I.intervals:
            I.emit('limits', iv_of(a), iv_of(b))
        xd = n.d
        soft = n.soft
        if isinstance(a, (int, float)) and not isinstance(b, (int, float)):
            xd, soft = nb.d, nb.soft
        elif isinstance(b, (int, float)) and not isinstance(a, (int, float)):
            xd, soft = na.d, na.soft
        elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
            xd, soft = 0, True
        x = Num(xd, n.deps, soft, n.o, cx=0)
        extra = kwargs.get('args', ())
        extra = list(extra) if isinstance(extra, tuple) else [extra]
        r = self.weak_call(f, [x] + extra)
        if r is None or isinstance(r, AUnion) and any(y is None for y in r.vals):
            I.emit('noneintegrand')
        m = num_of(r)
        if m.d is None or xd is None:
            dd = None
        elif m.d == ZERO:
            dd = ZERO
        elif xd == ZERO:
            dd = m.d
        else:
            dd = m.d + xd
        if m.cx == 1:
            I.emit('cx', 'complex integrand')
        res = Num(dd, m.deps | n.deps, m.soft or soft, m.o | n.o, cx=0)
        res.av = m.av
        return (res, Num(None, 0))

    # ---------------------------------------------------------------- builtins
    def x_builtins_len(self, e, args, kw):
        v = args[0]
        if is_host(v) and isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, AList) and v.items is not None:
            return len(v.items)
        if isinstance(v, ADict) and v.rest is None and not v.maybe:
            return len(v.d)
        if isinstance(v, range):
            return len(v)
        if isinstance(v, AInst):
            f = self.I.class_lookup(v.cls, '__len__')
            if f is not None:
                return self.I.call(self.I.bind(f, v), [], {})
        return Num(0, self.I.deps(v))

    def type_match(self, v, t):
        """True / False / None"""
        if isinstance(t, tuple):
            rs = [self.type_match(v, x) for x in t]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(t, AClass):
            if isinstance(v, AInst):
                if v.cls is None:
                    return None
                if any(c is t for c in v.cls.mro()):
                    return True
                return False
            if isinstance(v, AUnion):
                rs = {self.type_match(x, t) for x in v.vals}
                return rs.pop() if len(rs) == 1 else None
            if isinstance(v, (Unk, Ext)):
                return None
            return False
        if not isinstance(t, Ext):
            return None
        n = t.path
        if isinstance(v, AUnion):
            rs = {self.type_match(x, t) for x in v.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, Unk):
            if v.ty == 'str':
                return n == 'builtins.str'
            return None
        if isinstance(v, Ext):
            return None
        short = n.split('.')[-1]
        if n.startswith('builtins.'):
            if is_host(v):
                o = {'str': str, 'int': int, 'float': float, 'complex': complex, 'bool': bool, 'bytes': bytes}.get(short)
                if o is not None:
                    return isinstance(v, o)
                return False
            if isinstance(v, tuple):
                return short == 'tuple'
            if isinstance(v, (ADict, Par)):
                return short == 'dict'
            if isinstance(v, AList):
                k = v.kind
                if short in ('list', 'set', 'tuple', 'frozenset'):
                    return k == short
                return False
            if isinstance(v, Num):
                if short in ('int', 'float', 'complex', 'bool'):
                    return None
                return False
            if isinstance(v, AInst):
                eb = self.I.ext_base(v.cls)
                return short == eb if eb else (short == 'object')
            return False
        if short in ('Number', 'Real'):
            if isinstance(v, (int, float, complex)):
                return True
            if isinstance(v, Num):
                return True
            return False if is_host(v) or isinstance(v, (ADict, AList, tuple, AInst)) else None
        if short == 'ndarray':
            return isinstance(v, AList) and v.kind == 'array' if not isinstance(v, Num) else None
        if short in ('OrderedDict', 'Counter', 'defaultdict'):
            return isinstance(v, ADict) and v.kind == short
        if isinstance(v, AInst) and v.cls is not None:
            for c in v.cls.mro():
                if isinstance(c, Ext) and c.path == n:
                    return True
            return None if v.opaque else False
        return None

    def x_builtins_isinstance(self, e, args, kw):
        r = self.type_match(args[0], args[1])
        return Num(0, self.I.deps(args[0])) if r is None else r

    def x_builtins_issubclass(self, e, args, kw):
        a, b = args[0], args[1]
        if isinstance(a, AClass) and isinstance(b, AClass):
            return any(c is b for c in a.mro())
        return Num(0)

    def x_builtins_hasattr(self, e, args, kw):
        I = self.I
        o, n = args[0], args[1]
        if isinstance(o, AInst):
            if isinstance(n, str):
                if n in o.attrs or I.class_lookup(o.cls, n) is not None:
                    return True
                if o.opaque or I.ext_bases(o.cls) and I.ext_bases(o.cls)[0].path != 'builtins.object':
                    return Num(0)
                return False
        if isinstance(o, AClass) and isinstance(n, str):
            return any(isinstance(c, AClass) and n in c.attrs for c in o.mro())
        if isinstance(o, AModule):
            return n in o.vars
        if isinstance(o, (int, float, complex, str)):
            return hasattr(o, n) if isinstance(n, str) else Num(0)
        return Num(0, I.deps(o))

    def x_builtins_getattr(self, e, args, kw):
        I = self.I
        if isinstance(args[1], str):
            if len(args) > 2:
                h = self.x_builtins_hasattr(e, args[:2], {})
                if h is False:
                    return args[2]
                if h is True:
                    return I.getattr(args[0], args[1])
                try:
                    return I.join(I.getattr(args[0], args[1]), args[2])
                except AbsRaise:
                    return args[2]
            return I.getattr(args[0], args[1])
        if isinstance(args[1], AUnion):
            return I.joinall([self.x_builtins_getattr(e, [args[0], x], kw) for x in args[1].vals])
        self.callbacks([], {})
        return Unk(self.alldeps(args), why='getattr')

    def x_builtins_setattr(self, e, args, kw):
        if isinstance(args[1], str):
            self.I.setattr(args[0], args[1], args[2])
        elif isinstance(args[0], AInst):
            self.I.mutated(args[0], 'setattr')
        return None

    def x_builtins_super(self, e, args, kw):
        fr = self.I.frame
        if len(args) == 2:
            return ASuper(args[0], args[1])
        i = len(self.I.frames) - 1
        while i >= 0 and (self.I.frames[i].cls is None or self.I.frames[i].self_ is None):
            i -= 1
        if i < 0:
            return Unk(why='super')
        fr = self.I.frames[i]
        return ASuper(fr.cls, fr.self_)

    def x_builtins_type(self, e, args, kw):
        v = args[0]
        if isinstance(v, AInst) and v.cls is not None:
            return v.cls
        if is_host(v) and v is not None:
            return Ext('builtins.' + type(v).__name__)
        if isinstance(v, ADict):
            return Ext('builtins.dict')
        if isinstance(v, AList):
            return Ext('numpy.ndarray' if v.kind == 'array' else 'builtins.' + v.kind)
        return Unk(why='type')

    def x_builtins_range(self, e, args, kw):
        if all(isinstance(a, int) for a in args):
            return range(*args)
        return AList(None, Num(0, self.alldeps(args)), 'list')

    def x_builtins_enumerate(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        st = kw.get('start', args[1] if len(args) > 1 else 0)
        if its is not None and isinstance(st, int):
            return AList([(i + st, x) for i, x in enumerate(its)], None, 'iter')
        if its is not None:
            return AList([(Num(0), x) for x in its], None, 'iter')
        return AList(None, (Num(0), el if el is not None else Unk()), 'iter')

    def x_builtins_zip(self, e, args, kw):
        its = [self.I.iterate(a) for a in args]
        if all(i[0] is not None for i in its):
            return AList([tuple(t) for t in zip(*[i[0] for i in its])], None, 'iter')
        known = [len(i[0]) for i in its if i[0] is not None]
        if known and all(i[0] is not None or isinstance(i[1], Num) for i in its):
            # a numerical array paired with a known sequence: assumed to be as long
            n = min(known)
            return AList([tuple(i[0][j] if i[0] is not None else i[1] for i in its)
                          for j in range(n)], None, 'iter')
        return AList(None, tuple((self.I.joinall(i[0]) if i[0] else Unk()) if i[0] is not None else (i[1] if i[1] is not None else Unk()) for i in its), 'iter')

    def x_builtins_map(self, e, args, kw):
        its, el = self.I.iterate(args[1])
        if its is not None:
            return AList([self.I.call(args[0], [x], {}) for x in its], None, 'iter')
        return AList(None, self.weak_call(args[0], [el]), 'iter')

    def x_builtins_filter(self, e, args, kw):
        its, el = self.I.iterate(args[1])
        if its is not None:
            out = []
            known = True
            for x in its:
                r = self.I.call(args[0], [x], {}) if args[0] is not None else x
                t = self.I.truth(r)
                if t is None:
                    known = False
                if t is not False:
                    out.append(x)
            if known:
                return AList(out, None, 'iter')
            return AList(None, self.I.joinall(out), 'iter')
        return AList(None, el, 'iter')

    def x_builtins_sum(self, e, args, kw):
        I = self.I
        its, el = I.iterate(args[0])
        r = args[1] if len(args) > 1 else kw.get('start', 0)
        if its is not None:
            for i, x in enumerate(its):
                r = x if (i == 0 and r == 0 and not isinstance(r, bool) and isinstance(r, int)) else I.binop(ast.Add(), r, x)
            return r
        n = num_of(el)
        return Num(n.d, n.deps | I.deps(args[0]), n.soft, n.o)

    def minmax(self, args, kw):
        I = self.I
        if len(args) == 1:
            its, el = I.iterate(args[0])
            vals = its if its is not None else [el]
        else:
            vals = list(args)
        if not vals:
            return kw.get('default', Unk())
        self.clip(vals)
        if 'key' not in kw:
            nn = [num_of(v) for v in vals if isinstance(v, (Num, int, float))]
            hard = None
            for v, n in zip([v for v in vals if isinstance(v, (Num, int, float))], nn):
                if isinstance(v, (int, float)):
                    continue
                if hard is not None:
                    I.dimcheck('compare', hard, n)
                hard = n
        if all(is_host(v) for v in vals) and 'key' not in kw:
            return None
        r = I.joinall(vals)
        return r

    def clip(self, vals):
        # a kinematic argument replaced by a fixed number
        if any(isinstance(v, (int, float)) and not isinstance(v, bool) and v and abs(v) != float('inf') for v in vals):
            for v in vals:
                if isinstance(v, Num) and v.sym and v.sym[0] == 'arg':
                    self.I.emit('clip', v.sym[1])

    def x_builtins_max(self, e, args, kw):
        v = self._hostfold(max, args, kw)
        return v if v is not NotImplemented else self.minmax(args, kw)

    def x_builtins_min(self, e, args, kw):
        v = self._hostfold(min, args, kw)
        return v if v is not NotImplemented else self.minmax(args, kw)

    def _hostfold(self, fn, args, kw):
        if kw:
            return NotImplemented
        try:
            return fn(*[self.unlift(a) for a in args])
        except Exception:
            return NotImplemented

    def x_builtins_abs(self, e, args, kw):
        v = args[0]
        if isinstance(v, (int, float, complex)):
            r = abs(v)
            return purify(r) if is_simple_lit(v) else r
        if isinstance(v, AInst):
            f = self.I.class_lookup(v.cls, '__abs__')
            if f is not None:
                return self.I.call(self.I.bind(f, v), [], {})
        return self.vec(v, lambda n: n.like(cx=0))

    def x_builtins_pow(self, e, args, kw):
        return self.I.binop(ast.Pow(), args[0], args[1])

    def conv(self, py, args):
        v = args[0] if args else 0
        if is_host(v) and not (isinstance(v, str) and py is bool):
            try:
                r = py(v, *args[1:])
                if isinstance(r, float) and isinstance(v, (Pure, int)):
                    return purify(r)
                return r
            except (ValueError, TypeError) as ex:
                raise AbsRaise(type(ex).__name__, None, self.I.loc())
        if isinstance(v, (ADict, AList)) and not (isinstance(v, AList) and v.kind == 'array') or isinstance(v, AInst):
            if py is bool:
                t = self.I.truth(v)
                return Num(0) if t is None else t
            raise AbsRaise('TypeError', None, self.I.loc())
        if isinstance(v, Unk) or isinstance(v, Ext) or isinstance(v, AList):
            self.I.may_raise()
        n = num_of(v)
        if n.cx == 1 and py is not bool:
            self.I.emit('cx', 'conversion of a complex number to ' + py.__name__)
        return Num(n.d, n.deps, n.soft, n.o, n.sym, cx=0)

    def x_builtins_float(self, e, args, kw):
        return self.conv(float, args)

    def x_builtins_int(self, e, args, kw):
        return self.conv(int, args)

    def x_builtins_complex(self, e, args, kw):
        if all(isinstance(a, (int, float, complex)) for a in args):
            r = complex(*args)
            return PureC(r) if all(is_simple_lit(a) for a in args) else r
        n = num_of(args[0])
        for a in args[1:]:
            n = join_num(n, num_of(a))
        return n.like(cx=1)

    def x_builtins_bool(self, e, args, kw):
        t = self.I.truth(args[0]) if args else False
        return Num(0, self.I.deps(args[0])) if t is None else t

    def x_builtins_str(self, e, args, kw):
        if not args:
            return ''
        v = args[0]
        if is_const(v):
            if isinstance(v, bytes) and len(args) > 1:
                return v.decode()
            return str(float(v)) if isinstance(v, Pure) else str(v)
        if isinstance(v, AInst):
            for nm in ('__str__', '__repr__'):
                f = self.I.class_lookup(v.cls, nm)
                if f is not None:
                    return self.I.call(self.I.bind(f, v), [], {})
        return Unk(self.I.deps(v), why='str', ty='str')

    def x_builtins_repr(self, e, args, kw):
        if is_const(args[0]):
            return repr(args[0])
        return Unk(self.I.deps(args[0]), why='repr', ty='str')

    def x_builtins_format(self, e, args, kw):
        try:
            return format(*[self.unlift(a) for a in args])
        except Exception:
            return Unk(self.alldeps(args), ty='str')

    def seq(self, args, kind):
        I = self.I
        if not args:
            return AList([], None, kind) if kind != 'tuple' else ()
        v = args[0]
        its, el = I.iterate(v)
        if its is not None:
            if kind == 'tuple':
                return tuple(its)
            if kind == 'set':
                return I.make_set(its)
            return AList(its, None, kind)
        return AList(None, el, kind)

    def x_builtins_list(self, e, args, kw):
        return self.seq(args, 'list')

    def x_builtins_tuple(self, e, args, kw):
        return self.seq(args, 'tuple')

    def x_builtins_set(self, e, args, kw):
        return self.seq(args, 'set')

    x_builtins_frozenset = x_builtins_set

    def x_builtins_iter(self, e, args, kw):
        return self.seq(args, 'iter')

    def x_builtins_reversed(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        if its is not None:
            return AList(list(reversed(its)), None, 'iter')
        return AList(None, el, 'iter')

    def x_builtins_sorted(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        if its is not None:
            try:
                if 'key' in kw or 'reverse' in kw and not isinstance(kw['reverse'], bool):
                    raise TypeError
                return AList(sorted(its, reverse=kw.get('reverse', False)) if all(is_const(x) for x in its) else self._nosort(its))
            except TypeError:
                return AList(None, self.I.joinall(its) if its else None) if its else AList([])
        return AList(None, el)

    def _nosort(self, its):
        raise TypeError

    def x_builtins_next(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        if its:
            return its[0]
        if its is not None:
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', None, self.I.loc())
        return el if len(args) < 2 else self.I.join(el, args[1])

    def anyall(self, args, isany):
        its, el = self.I.iterate(args[0])
        if its is not None:
            ts = [self.I.truth(x) for x in its]
            if isany and True in ts:
                return True
            if not isany and False in ts:
                return False
            if None not in ts:
                return any(ts) if isany else all(ts)
        return Num(0, self.I.deps(args[0]))

    def x_builtins_any(self, e, args, kw):
        return self.anyall(args, True)

    def x_builtins_all(self, e, args, kw):
        return self.anyall(args, False)

    def x_builtins_print(self, e, args, kw):
        self.I.emit('io', 'print')
        return None

    def x_builtins_open(self, e, args, kw):
        p = args[0] if args else kw.get('file')
        mode = kw.get('mode', args[1] if len(args) > 1 else 'r')
        self.I.emit('io', 'open', p if isinstance(p, str) else '?', mode if isinstance(mode, str) else '?')
        return Ext('builtins.open()', self.I.deps(p), ('file', p))

    def x_builtins_id(self, e, args, kw):
        self.I.emit('identity', 'id')
        return Num(0)

    def x_builtins_hash(self, e, args, kw):
        self.I.emit('identity', 'hash')
        return Num(0, self.I.deps(args[0]))

    def x_builtins_eval(self, e, args, kw):
        self.I.emit('eval', 'eval')
        self.callbacks(args, kw)
        s = args[0] if args else None
        if isinstance(s, str) and re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*', s):
            fr = self.I.frame
            sc = fr.scope
            while sc is not None:
                if s in sc.vars:
                    return sc.vars[s]
                sc = sc.parent
            if s in fr.mod.vars:
                return fr.mod.vars[s]
            raise AbsRaise('NameError', s, self.I.loc())
        return Unk(why='eval')

    def x_builtins_exec(self, e, args, kw):
        self.I.emit('eval', 'exec')
        return None

    def x_builtins_callable(self, e, args, kw):
        v = args[0]
        if isinstance(v, (AFunc, ABound, AClass, APartial)):
            return True
        if is_host(v) or isinstance(v, (ADict, AList, Num, tuple)):
            return False
        return Num(0)

    def x_builtins_slice(self, e, args, kw):
        try:
            return slice(*args) if all(is_const(a) for a in args) else Unk(ty='slice')
        except Exception:
            return Unk(ty='slice')

    def x_builtins_round(self, e, args, kw):
        try:
            return round(*[self.unlift(a) for a in args])
        except Exception:
            n = num_of(args[0])
            return n.like()

    def x_builtins_divmod(self, e, args, kw):
        return (Num(None, self.alldeps(args)), Num(None, self.alldeps(args)))

    def x_builtins_chr(self, e, args, kw):
        return Unk(ty='str')

    def x_builtins_ord(self, e, args, kw):
        return Num(0)

    def x_builtins_object(self, e, args, kw):
        return AInst(AClass('object', [], {}, None, None))

    def x_builtins_vars(self, e, args, kw):
        return Unk(why='vars')

    x_builtins_locals = x_builtins_globals = x_builtins_vars

    def x_builtins_property(self, e, args, kw):
        return AProp('property', args[0])

    def x_builtins_staticmethod(self, e, args, kw):
        return AProp('staticmethod', args[0])

    def x_builtins_classmethod(self, e, args, kw):
        return AProp('classmethod', args[0])

    def mkdict(self, args, kw, kind='dict'):
        d = ADict(kind=kind)
        if args:
            src = args[0]
            if kind == 'Counter' and not isinstance(src, (ADict, Par)):
                its, el = self.I.iterate(src)
                if its is not None:
                    for x in its:
                        hk = self.I.hkey(x)
                        if hk is not None:
                            d.d[hk[0]] = d.d.get(hk[0], 0) + 1
                return d
            if isinstance(src, Par):
                return Par(src.conj, dict(src.over), 'copy')
            self.I.dict_update(d, src)
        for k, v in kw.items():
            if k == '**':
                d.rest = v
            else:
                d.d[k] = v
        return d

    def x_builtins_dict(self, e, args, kw):
        return self.mkdict(args, kw)

    def x_collections_OrderedDict(self, e, args, kw):
        return self.mkdict(args, kw, 'OrderedDict')

    def x_collections_Counter(self, e, args, kw):
        return self.mkdict(args, kw, 'Counter')

    def x_collections_defaultdict(self, e, args, kw):
        d = self.mkdict(args[1:], kw, 'defaultdict')
        d.factory = args[0] if args else None
        return d

    def x_builtins_dict_fromkeys(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        v = args[1] if len(args) > 1 else None
        d = ADict()
        if its is not None:
            for x in its:
                hk = self.I.hkey(x)
                if hk is not None:
                    d.d[hk[0]] = v
                else:
                    d.rest = v
        else:
            d.rest = v
            d.restk = el
        return d

    x_collections_OrderedDict_fromkeys = x_builtins_dict_fromkeys

    def x_builtins_dict___init__(self, e, args, kw):
        if isinstance(e.data, tuple) and e.data[0] == 'self':
            self.I.dict_update(self.I.dict_of(e.data[1]), args[0] if args else ADict(kw))
            return None
        if args and isinstance(args[0], AInst):
            self.I.dict_update(self.I.dict_of(args[0]), args[1] if len(args) > 1 else ADict(kw))
        return None

    def x_builtins_dict___getitem__(self, e, args, kw):
        a = list(args)
        if isinstance(e.data, tuple) and e.data[0] == 'self':
            a = [e.data[1]] + a
        return self.I.getitem(self.I.dict_of(a[0]) if isinstance(a[0], AInst) else a[0], a[1])

    def x_builtins_dict___setitem__(self, e, args, kw):
        a = list(args)
        if isinstance(e.data, tuple) and e.data[0] == 'self':
            a = [e.data[1]] + a
        self.I.setitem(self.I.dict_of(a[0]) if isinstance(a[0], AInst) else a[0], a[1], a[2])
        return None

    # ------------------------------------------------------------ stdlib
    def x_functools_partial(self, e, args, kw):
        return APartial(args[0], list(args[1:]), dict(kw))

    def x_functools_lru_cache(self, e, args, kw):
        if args and isinstance(args[0], AFunc):
            args[0].cached = True
            return args[0]
        return Ext('functools.lru_cache')

    def x_functools_reduce(self, e, args, kw):
        its, el = self.I.iterate(args[1])
        if its is None:
            its = [el, el]
        its = list(its)
        acc = args[2] if len(args) > 2 else (its.pop(0) if its else None)
        for x in its:
            acc = self.I.call(args[0], [acc, x], {})
        return acc

    def x_functools_wraps(self, e, args, kw):
        return Ext('functools.wraps()')

    def x_copy_deepcopy(self, e, args, kw):
        return self.deepcopy(args[0], {})

    def x_copy_copy(self, e, args, kw):
        v = args[0]
        if isinstance(v, ADict):
            return self.shallow(v)
        if isinstance(v, AList):
            return AList(list(v.items) if v.items is not None else None, v.elem, v.kind)
        if isinstance(v, Par):
            return Par(v.conj, dict(v.over), 'copy')
        if isinstance(v, AInst):
            f = self.I.class_lookup(v.cls, '__copy__')
            if f is not None:
                return self.I.call(self.I.bind(f, v), [], {})
            r = AInst(v.cls, dict(v.attrs))
            r.opaque = v.opaque
            return r
        return v

    def shallow(self, v):
        r = ADict(dict(v.d), v.rest, v.kind, v.factory)
        r.maybe, r.restk = v.maybe, v.restk
        if v.cfg is not None:
            r.cfg = v.cfg
        return r

    def deepcopy(self, v, memo, depth=0):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, ADict):
            r = ADict({}, None, v.kind, v.factory)
            memo[id(v)] = r
            r.d = {k: self.deepcopy(x, memo, depth + 1) for k, x in v.d.items()}
            r.rest = self.deepcopy(v.rest, memo, depth + 1) if v.rest is not None else None
            r.maybe, r.restk = v.maybe, v.restk
            return r
        if isinstance(v, AList):
            r = AList(None, None, v.kind)
            memo[id(v)] = r
            r.items = [self.deepcopy(x, memo, depth + 1) for x in v.items] if v.items is not None else None
            r.elem = self.deepcopy(v.elem, memo, depth + 1) if v.elem is not None else None
            return r
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo, depth + 1) for x in v)
        if isinstance(v, Par):
            return Par(v.conj, dict(v.over), 'copy')
        if isinstance(v, AInst):
            f = self.I.class_lookup(v.cls, '__deepcopy__')
            if f is not None:
                return self.I.call(self.I.bind(f, v), [Unk()], {})
            r = AInst(v.cls)
            r.opaque = v.opaque
            memo[id(v)] = r
            r.attrs = {k: self.deepcopy(x, memo, depth + 1) for k, x in v.attrs.items()}
            return r
        return v

    def x_re_compile(self, e, args, kw):
        try:
            return Ext('re.Pattern', 0, re.compile(*[self.unlift(a) for a in args]))
        except re.error:
            self.I.emit('badregex', args[0] if isinstance(args[0], str) else '?')
            raise AbsRaise('error', None, self.I.loc())
        except TypeError:
            return Ext('re.Pattern', self.alldeps(args), None)

    def re_op(self, op, pat, args):
        I = self.I
        if pat is not None and all(isinstance(a, (str, int)) for a in args):
            try:
                r = getattr(pat, op)(*args)
            except Exception:
                return Unk(why='re')
            return self.re_wrap(r)
        if op in ('match', 'search', 'fullmatch'):
            return AUnion([None, Ext('re.Match', self.alldeps(args), None)])
        if op in ('sub',):
            return Unk(self.alldeps(args), why='re.sub', ty='str')
        return AList(None, Unk(self.alldeps(args), why='re', ty='str'))

    def re_wrap(self, r):
        if r is None or isinstance(r, str):
            return r
        if isinstance(r, list):
            return AList([x for x in r])
        if isinstance(r, re.Match):
            return Ext('re.Match', 0, r)
        if hasattr(r, '__next__'):
            return AList([Ext('re.Match', 0, m) for m in r], None, 'iter')
        return Unk(why='re')

    def x_re_match(self, e, args, kw):
        return self.re_mod('match', args)

    def x_re_search(self, e, args, kw):
        return self.re_mod('search', args)

    def x_re_findall(self, e, args, kw):
        return self.re_mod('findall', args)

    def x_re_fullmatch(self, e, args, kw):
        return self.re_mod('fullmatch', args)

    def x_re_sub(self, e, args, kw):
        return self.re_mod('sub', args)

    def x_re_split(self, e, args, kw):
        return self.re_mod('split', args)

    def re_mod(self, op, args):
        p = args[0]
        pat = None
        if isinstance(p, str):
            try:
                pat = re.compile(p)
            except re.error:
                raise AbsRaise('error', None, self.I.loc())
        elif isinstance(p, Ext) and isinstance(p.data, re.Pattern):
            pat = p.data
        return self.re_op(op, pat, args[1:])

    def _patop(op):
        def f(self, e, args, kw):
            return self.re_op(op, e.data if isinstance(e.data, re.Pattern) else None, args)
        return f

    x_re_Pattern_match = _patop('match')
    x_re_Pattern_search = _patop('search')
    x_re_Pattern_findall = _patop('findall')
    x_re_Pattern_fullmatch = _patop('fullmatch')
    x_re_Pattern_sub = _patop('sub')
    x_re_Pattern_split = _patop('split')
    x_re_Pattern_finditer = _patop('finditer')

    def x_re_Match_group(self, e, args, kw):
        if isinstance(e.data, re.Match):
            try:
                return e.data.group(*args)
            except Exception:
                raise AbsRaise('IndexError', None, self.I.loc())
        return AUnion([None, Unk(e.deps, why='group', ty='str')]) if False else Unk(e.deps, why='group', ty='str')

    def x_re_Match_groups(self, e, args, kw):
        if isinstance(e.data, re.Match):
            return e.data.groups()
        return AList(None, Unk(e.deps, ty='str'), 'tuple')

    def x_re_Match_groupdict(self, e, args, kw):
        if isinstance(e.data, re.Match):
            return ADict(dict(e.data.groupdict()))
        return Unk(e.deps)

    def x_re_Match_span(self, e, args, kw):
        if isinstance(e.data, re.Match):
            return e.data.span(*args)
        return (Num(0), Num(0))

    def x_pkgutil_get_data(self, e, args, kw):
        if all(isinstance(a, str) for a in args) and len(args) == 2:
            p = self.repo_path(*args)
            self.I.emit('datafile', p)
            try:
                return self.read_bytes(p)
            except OSError:
                self.I.emit('nofile', os.path.relpath(p, self.repo))
                raise AbsRaise('FileNotFoundError', None, self.I.loc())
        return Unk(why='get_data', ty='bytes')

    def x_pkg_resources_resource_filename(self, e, args, kw):
        if all(isinstance(a, str) for a in args) and len(args) == 2:
            p = self.repo_path(*args)
            if not os.path.exists(p):
                self.I.emit('nofile', os.path.relpath(p, self.repo))
            return p
        return Unk(why='resource_filename', ty='str')

    def x_os_path_join(self, e, args, kw):
        if all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        return Unk(self.alldeps(args), ty='str')

    def x_os_path_dirname(self, e, args, kw):
        if isinstance(args[0], str):
            return os.path.dirname(args[0])
        return Unk(ty='str')

    def x_os_path_abspath(self, e, args, kw):
        return args[0]

    def x_os_path_splitext(self, e, args, kw):
        if isinstance(args[0], str):
            return os.path.splitext(args[0])
        return (Unk(ty='str'), Unk(ty='str'))

    def x_os_path_basename(self, e, args, kw):
        return os.path.basename(args[0]) if isinstance(args[0], str) else Unk(ty='str')

    def x_os_path_exists(self, e, args, kw):
        return Num(0)

    _yaml_cache = {}

    def yload(self, src):
        import yaml
        if isinstance(src, (bytes, str)):
            key = src
            if key not in self._yaml_cache:
                try:
                    Loader = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)
                    self._yaml_cache[key] = yaml.load(src, Loader=Loader)
                except yaml.YAMLError:
                    return Unk(why='yaml')
            return self.lift(self._yaml_cache[key])
        if isinstance(src, Ext) and isinstance(src.data, tuple) and src.data[0] == 'file' and isinstance(src.data[1], str) \
                and os.path.isfile(src.data[1]):
            return self.yload(self.read_bytes(src.data[1]))
        return Unk(self.I.deps(src), why='yaml')

    def x_yaml_safe_load(self, e, args, kw):
        return self.yload(args[0] if args else kw.get('stream'))

    def x_yaml_load(self, e, args, kw):
        ld = kw.get('Loader', args[1] if len(args) > 1 else None)
        self.I.emit('yamlload', ld.path if isinstance(ld, Ext) else (repr(ld)))
        return self.yload(args[0] if args else kw.get('stream'))

    def x_json_loads(self, e, args, kw):
        if isinstance(args[0], (str, bytes)):
            try:
                return self.lift(json.loads(args[0]))
            except ValueError:
                raise AbsRaise('ValueError', None, self.I.loc())
        return Unk(self.I.deps(args[0]), why='json')

    def x_json_load(self, e, args, kw):
        src = args[0]
        if isinstance(src, Ext) and isinstance(src.data, tuple) and src.data[0] == 'file' and isinstance(src.data[1], str) \
                and os.path.isfile(src.data[1]):
            return self.lift(json.loads(self.read_bytes(src.data[1])))
        return Unk(why='json')

    def x_csv_reader(self, e, args, kw):
        v = args[0]
        its, el = self.I.iterate(v)
        if its is not None and all(isinstance(x, str) for x in its):
            k = {a: b for a, b in kw.items() if isinstance(b, (str, bool, int))}
            if isinstance(its, list) and len(args) == 1:
                return AList([AList(list(r)) for r in csv.reader(its, **k)], None, 'iter')
        return AList(None, AList(None, Unk(ty='str')), 'iter')

    def x_csv_DictReader(self, e, args, kw):
        d = ADict(rest=Unk(ty='str'))
        d.restk = Unk(ty='str')
        return AList(None, d, 'iter')

    def x_io_StringIO(self, e, args, kw):
        if args and isinstance(args[0], str):
            return AList(args[0].splitlines(True), None, 'iter')
        return Ext('io.StringIO()')

    def x_itertools_product(self, e, args, kw):
        import itertools
        its = [self.I.iterate(a)[0] for a in args]
        rep = kw.get('repeat', 1)
        if all(i is not None for i in its) and isinstance(rep, int):
            return AList([tuple(t) for t in itertools.product(*its, repeat=rep)], None, 'iter')
        return AList(None, AList(None, Unk(), 'tuple'), 'iter')

    def x_itertools_combinations(self, e, args, kw):
        import itertools
        its = self.I.iterate(args[0])[0]
        if its is not None and isinstance(args[1], int):
            return AList([tuple(t) for t in itertools.combinations(its, args[1])], None, 'iter')
        return AList(None, AList(None, Unk(), 'tuple'), 'iter')

    def x_itertools_permutations(self, e, args, kw):
        import itertools
        its = self.I.iterate(args[0])[0]
        r = args[1] if len(args) > 1 else None
        if its is not None and len(its) < 7:
            return AList([tuple(t) for t in itertools.permutations(its, r)], None, 'iter')
        return AList(None, AList(None, Unk(), 'tuple'), 'iter')

    def x_itertools_chain(self, e, args, kw):
        out = []
        for a in args:
            its, el = self.I.iterate(a)
            if its is None:
                return AList(None, Unk(self.alldeps(args)), 'iter')
            out += its
        return AList(out, None, 'iter')

    def x_itertools_chain_from_iterable(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        if its is None:
            return AList(None, Unk(self.alldeps(args)), 'iter')
        return self.x_itertools_chain(e, its, {})

    def x_itertools_compress(self, e, args, kw):
        its, el = self.I.iterate(args[0])
        return AList(None, self.I.joinall(its) if its else el, 'iter')

    def x_inspect_signature(self, e, args, kw):
        f = args[0]
        if isinstance(f, AClass):
            f2 = self.I.class_lookup(f, '__init__')
            names = self.argnames(f2)[1:] if isinstance(f2, AFunc) else []
        elif isinstance(f, (AFunc, ABound)):
            g = f.func if isinstance(f, ABound) else f
            names = self.argnames(g) if isinstance(g, AFunc) else []
            if isinstance(f, ABound):
                names = names[1:]
        else:
            return Ext('inspect.signature()', self.I.deps(f))
        o = AInst(AClass('Signature', [], {}, None, None))
        ps = ADict()
        for n, df in names:
            pi = AInst(AClass('InspParameter', [], {}, None, None))
            pi.opaque = True
            pi.attrs['name'] = n
            pi.attrs['default'] = df
            ps.d[n] = pi
        o.attrs['parameters'] = ps
        o.opaque = True
        return o

    def argnames(self, f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        out = []
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            j = i - (len(pos) - nd)
            out.append((p.arg, f.defaults[j] if j >= 0 else Ext('inspect.Parameter.empty')))
        if a.vararg:
            out.append((a.vararg.arg, Ext('inspect.Parameter.empty')))
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            out.append((p.arg, d))
        if a.kwarg:
            out.append((a.kwarg.arg, Ext('inspect.Parameter.empty')))
        return out

    def x_warnings_warn(self, e, args, kw):
        self.I.emit('warn')
        return None

    def x_multiprocessing_Pool(self, e, args, kw):
        return Ext('multiprocessing.Pool()')

    def x_multiprocessing_Pool_c_map(self, e, args, kw):
        its, el = self.I.iterate(args[1])
        if its is not None and len(its) <= 50:
            return AList([self.I.call(args[0], [x], {}) for x in its])
        return AList(None, self.weak_call(args[0], [el if its is None else self.I.joinall(its)]))

    def x_particle_Particle_all(self, e, args, kw):
        cls = e.data[1]
        return AList([self.mkparticle(cls, r) for r in self.load_particles()])

    def mkparticle(self, cls, r):
        i = AInst(cls)
        i.attrs.update(r)
        i.opaque = True
        return i

    def x_particle_Particle_from_pdgid(self, e, args, kw):
        cls = e.data[1] if isinstance(e.data, tuple) else AClass('Particle', [], {}, None, None)
        for r in self.load_particles():
            if r['pdgid'] == args[0]:
                return self.mkparticle(cls, r)
        i = AInst(cls)
        i.opaque = True
        for k in ('mass', 'width'):
            i.attrs[k] = Num(1)
        return i

    def x_particle_Particle_load_table(self, e, args, kw):
        p = args[0] if args else None
        if isinstance(p, Ext):
            m = re.search(r'particle(\d+)\.csv', p.path)
            self.particles = None
            if m:
                if not os.path.exists(os.path.join(SITE, 'particle', 'data', 'particle%s.csv' % m.group(1))):
                    self.I.emit('nofile', m.group(0))
                self.load_particles(m.group(1))
        return None

    def x_ckmutil_ckm_ckm_tree(self, e, args, kw):
        return self.ckm(args, kw)

    x_ckmutil_ckm_ckm_wolfenstein = x_ckmutil_ckm_ckm_standard = x_ckmutil_ckm_ckm_beta_gamma = x_ckmutil_ckm_ckm_tree

    def ckm(self, args, kw):
        d = self.alldeps(args, kw)
        return AList([AList([Num(0, d | bit(('ckm', i, j)), cx=1) for j in range(3)], None, 'array') for i in range(3)], None, 'array')

    def x_wilson_wcxf_WC(self, e, args, kw):
        return self.phys_lib('wilson.wcxf.WC', 'WC', args, kw)

    # ---------------------------------------------------------------- methods
    def method(self, o, name, args, kw):
        I = self.I
        if isinstance(o, AProp):
            return Unk(why='prop')
        if isinstance(o, (str, bytes)):
            return self.str_method(o, name, args, kw)
        if isinstance(o, ADict):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, Par):
            return self.par_method(o, name, args, kw)
        if isinstance(o, AList):
            return self.list_method(o, name, args, kw)
        if isinstance(o, tuple):
            if name == 'index':
                for i, x in enumerate(o):
                    if I.same(x, args[0]):
                        return i
                if is_const(o) and is_const(args[0]):
                    raise AbsRaise('ValueError', None, I.loc())
                return Num(0)
            if name == 'count':
                if is_const(o) and is_const(args[0]):
                    return o.count(args[0])
                return Num(0)
        if isinstance(o, (int, float, complex)):
            if name in ('conjugate', 'conj'):
                return self.conj(o)
            if name == 'is_integer':
                return float(o).is_integer()
            return Num(0)
        if isinstance(o, Num):
            if name in ('conj', 'conjugate'):
                return self.conj(o)
            if name in ('sum', 'mean', 'max', 'min', 'item', 'astype', 'reshape', 'copy', 'ravel', 'flatten', 'view', 'tolist', 'squeeze', 'std'):
                return o.like()
            if name == 'dot':
                return I.binop(ast.Mult(), o, args[0])
            if name in ('fill', 'sort', 'put', 'resize', 'itemset', 'partition'):
                I.mutated_num(o, name + '()')
                return None
            return Num(None, o.deps | self.alldeps(args, kw))
        return Unk(I.deps(o) | self.alldeps(args, kw), why='method ' + name)

    def str_method(self, o, name, args, kw):
        I = self.I
        if name == 'format':
            try:
                return o.format(*[self.fmtval(a) for a in args], **{k: self.fmtval(v) for k, v in kw.items()})
            except TypeError:
                return Unk(self.alldeps(args, kw), why='format', ty='str')
            except (IndexError, KeyError) as ex:
                I.emit('badformat', type(ex).__name__)
                raise AbsRaise(type(ex).__name__, None, I.loc())
            except Exception:
                return Unk(self.alldeps(args, kw), why='format', ty='str')
        if name == 'join':
            its, el = I.iterate(args[0])
            if its is not None and all(isinstance(x, str) for x in its):
                return o.join(its)
            return Unk(I.deps(args[0]), why='join', ty='str')
        try:
            r = getattr(o, name)(*[self.unlift(a) for a in args], **{k: self.unlift(v) for k, v in kw.items()})
        except TypeError:
            if name in ('split', 'splitlines', 'rsplit'):
                return AList(None, Unk(ty='str'))
            if name in ('startswith', 'endswith', 'isdigit', 'count', 'find', 'index'):
                return Num(0, self.alldeps(args))
            return Unk(self.alldeps(args, kw), why='str.' + name, ty='str')
        except ValueError:
            raise AbsRaise('ValueError', None, I.loc())
        except Exception:
            return Unk(why='str.' + name)
        return self.lift(r) if not isinstance(r, tuple) else r

    def fmtval(self, v):
        if isinstance(v, Pure):
            return float(v)
        if is_const(v):
            return v
        raise TypeError

    def par_method(self, o, name, args, kw):
        I = self.I
        if name in ('copy', '__copy__'):
            return Par(o.conj, dict(o.over), 'copy')
        if name == 'get':
            k = args[0]
            if isinstance(k, str) and k not in self.par_names and k not in o.over:
                I.emit('parkey', 'get', k)
                return args[1] if len(args) > 1 else None
            return self.par_get(o, k)
        if name == 'items':
            return AList([(k, self.par_quiet(o, k)) for k in self.par_names], None, 'iter')
        if name == 'keys':
            return AList(list(self.par_names), None, 'iter')
        if name == 'values':
            return AList([self.par_quiet(o, k) for k in self.par_names], None, 'iter')
        if name in ('update', 'pop', 'setdefault', 'clear', 'popitem', '__setitem__', '__delitem__'):
            I.emit('mut', o.owner, 'parameter dictionary', name + '()')
            if o.owner == 'copy':
                if name == 'update':
                    src = args[0] if args else None
                    if isinstance(src, ADict):
                        for k, v in src.d.items():
                            o.over[k] = v
                    for k, v in kw.items():
                        o.over[k] = v
                    return None
            else:
                I.sum.nomemo = True
            if name == 'pop' and isinstance(args[0], str):
                return self.par_get(o, args[0])
            return None
        return Unk(why='par.' + name)

    def par_quiet(self, o, k):
        """value of a parameter when iterating over the whole dictionary (no read event)"""
        if k in o.over:
            return o.over[k]
        key = (k, o.conj)
        v = self._parsym.get(key)
        if v is None:
            sign = -1 if (o.conj and k in ('gamma', 'delta')) else 1
            v = Num(dims.par_dim(k), bit(('parc' if sign < 0 else 'par', k)), sym=('par', k, sign), cx=0)
            self._parsym[key] = v
        return v

    def dict_method(self, o, name, args, kw):
        I = self.I
        if name == 'get':
            if o.cfg is not None and isinstance(args[0], str) and args[0] in o.d:
                return self.cfg_get(o, args[0])
            hk = I.hkey(args[0])
            dflt = args[1] if len(args) > 1 else kw.get('default')
            if hk is not None:
                if hk[0] in o.d:
                    v = o.d[hk[0]]
                    if o.maybe and hk[0] in o.maybe:
                        return I.held(o, I.join(v, dflt))
                    return I.held(o, v)
                if o.rest is not None:
                    return I.held(o, I.join(o.rest, dflt))
                if isinstance(hk[0], str) and dflt is not None:
                    I.emit('missing', hk[0])
                return dflt
            vals = list(o.d.values()) + ([o.rest] if o.rest is not None else []) + [dflt]
            return I.held(o, I.joinall(vals))
        if name == 'items':
            if o.rest is None:
                return AList([(k, v) for k, v in o.d.items()], None, 'iter')
            ks, vs = I.iterate(o)[1], I.joinall(list(o.d.values()) + [o.rest])
            return AList(None, (ks, vs), 'iter')
        if name in ('keys', 'viewkeys'):
            its, el = I.iterate(o)
            return AList(its, el, 'iter') if its is not None else AList(None, el, 'iter')
        if name == 'values':
            if o.rest is None:
                return AList(list(o.d.values()), None, 'iter')
            return AList(None, I.joinall(list(o.d.values()) + [o.rest]), 'iter')
        if name in ('copy', '__copy__'):
            return self.shallow(o)
        if name == 'update':
            if args:
                I.dict_update(o, args[0])
            else:
                I.mutated(o, 'update()')
            for k, v in kw.items():
                I.setitem(o, k, v)
            return None
        if name == 'pop':
            I.mutated(o, 'pop()')
            hk = I.hkey(args[0]) if args else None
            if hk is not None and hk[0] in o.d:
                v = o.d[hk[0]]
                if not I.is_weak(o):
                    o.d = dict(o.d)
                    del o.d[hk[0]]
                else:
                    o.maybe = (o.maybe or frozenset()) | {hk[0]}
                return v
            if len(args) > 1:
                return args[1] if o.rest is None else I.join(o.rest, args[1])
            if o.rest is not None:
                I.may_raise()
                return o.rest
            if hk is not None:
                raise AbsRaise('KeyError', args[0], I.loc())
            vals = list(o.d.values())
            return I.joinall(vals) if vals else Unk()
        if name == 'setdefault':
            hk = I.hkey(args[0])
            dv = args[1] if len(args) > 1 else None
            if hk is not None and hk[0] in o.d:
                return I.held(o, o.d[hk[0]])
            I.setitem(o, args[0], dv)
            return I.held(o, dv)
        if name == 'clear':
            I.mutated(o, 'clear()')
            if not I.is_weak(o):
                o.d = {}
                o.rest = None
            return None
        if name == 'popitem':
            I.mutated(o, 'popitem()')
            return (Unk(), Unk())
        if name == 'fromkeys':
            return self.x_builtins_dict_fromkeys(None, args, kw)
        if name == 'most_common':
            return AList(None, (I.iterate(o)[1], Num(0)))
        if name == '__contains__':
            r = I.contains(o, args[0])
            return Num(0) if r is None else r
        if name == '__getitem__':
            return I.getitem(o, args[0])
        if name == '__setitem__':
            I.setitem(o, args[0], args[1])
            return None
        if name == 'move_to_end':
            I.mutated(o, 'move_to_end()')
            return None
        if name == '__init__':
            if args:
                I.dict_update(o, args[0])
            for k, v in kw.items():
                I.setitem(o, k, v)
            return None
        return Unk(I.deps(o), why='dict.' + name)

    def list_method(self, o, name, args, kw):
        I = self.I
        if o.kind == 'array':
            if name in ('conj', 'conjugate'):
                return self.conj(o)
            if name in ('sum', 'mean', 'max', 'min', 'std', 'item', 'trace', 'prod'):
                return self.numeric('numpy.' + name, name, [o] + list(args), kw) if name != 'item' else num_of(o)
            if name in ('reshape', 'ravel', 'flatten', 'view', 'astype', 'squeeze', 'cumsum', 'round', 'repeat', 'clip'):
                r = AList(None, num_of(o), 'array')
                if name in ('reshape', 'ravel', 'view', 'squeeze'):
                    r.owner = o.owner
                    r.born = o.born
                elif name == 'flatten' and o.items is not None and not any(isinstance(x, AList) for x in o.items):
                    return AList(list(o.items), None, 'array')
                return r
            if name in ('transpose',):
                return I.transpose(o)
            if name == 'copy':
                return AList([self.list_method(x, 'copy', [], {}) if isinstance(x, AList) else x for x in o.items] if o.items is not None else None, o.elem, 'array')
            if name == 'dot':
                return self.dot(o, args[0], 'dot')
            if name == 'tolist':
                return AList(list(o.items) if o.items is not None else None, o.elem, 'list')
            if name in ('fill', 'sort', 'put', 'resize', 'itemset', 'partition'):
                I.mutated(o, name + '()')
                return None
            if name in ('any', 'all', 'argmax', 'argmin', 'argsort', 'nonzero'):
                return Num(0, I.deps(o))
            return Num(None, I.deps(o) | self.alldeps(args))
        if name in ('append', 'add'):
            I.mutated(o, name + '()')
            v = args[0]
            if o.items is not None and not I.is_weak(o) and len(o.items) < 5000:
                if o.kind == 'set' and any(I.same(v, x) for x in o.items):
                    return None
                o.items = o.items + [v] if len(o.items) < 20 else o.items
                if len(o.items) >= 20 and (o.items[-1] is not v):
                    o.items.append(v)
            else:
                e = o.elem if o.items is None else I.joinall(o.items)
                o.items = None
                o.elem = v if e is None else I.join(e, v)
            return None
        if name in ('extend', 'update') or name == '__iadd__':
            I.mutated(o, name + '()')
            for a in args:
                its, el = I.iterate(a)
                if its is not None and o.items is not None and not I.is_weak(o):
                    if o.kind == 'set':
                        o.items = I.make_set(o.items + its).items
                    else:
                        o.items = o.items + its
                else:
                    e = o.elem if o.items is None else I.joinall(o.items)
                    e2 = I.joinall(its) if its is not None else el
                    o.items = None
                    o.elem = e2 if e is None else (e if e2 is None else I.join(e, e2))
            return None
        if name == 'insert':
            I.mutated(o, 'insert()')
            if o.items is not None and isinstance(args[0], int) and not I.is_weak(o):
                o.items = list(o.items)
                o.items.insert(args[0], args[1])
            else:
                o.elem = I.joinall((o.items or [o.elem] if o.items is not None else [o.elem]) + [args[1]])
                o.items = None
            return None
        if name in ('pop',):
            I.mutated(o, 'pop()')
            if o.items is not None:
                i = args[0] if args else -1
                if not o.items:
                    raise AbsRaise('IndexError', None, I.loc())
                if isinstance(i, int) and not I.is_weak(o) and o.kind != 'set':
                    o.items = list(o.items)
                    return o.items.pop(i)
                return I.joinall(o.items)
            return o.elem
        if name in ('remove', 'discard', 'clear', 'sort', 'reverse', 'difference_update', 'intersection_update'):
            I.mutated(o, name + '()')
            if name == 'remove' and o.items is not None and not I.is_weak(o):
                for i, x in enumerate(o.items):
                    if I.same(x, args[0]):
                        o.items = list(o.items)
                        del o.items[i]
                        break
            elif name == 'reverse' and o.items is not None and not I.is_weak(o):
                o.items = list(reversed(o.items))
            elif name == 'sort' and o.items is not None and not I.is_weak(o):
                try:
                    o.items = sorted(o.items) if not kw else o.items
                except TypeError:
                    pass
            elif o.items is not None and name != 'sort':
                o.elem = I.joinall(o.items)
                o.items = None
            return None
        if name == 'index':
            if o.items is not None:
                for i, x in enumerate(o.items):
                    if I.same(x, args[0]):
                        return i
                if is_const(args[0]) and all(is_const(x) for x in o.items):
                    raise AbsRaise('ValueError', None, I.loc())
            I.may_raise()
            return Num(0, self.alldeps(args))
        if name == 'count':
            return Num(0)
        if name == 'copy':
            return AList(list(o.items) if o.items is not None else None, o.elem, o.kind)
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            t = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor}[name]
            r = o
            for a in args:
                b = a if isinstance(a, AList) else self.seq([a], 'set')
                if isinstance(b, tuple):
                    b = AList(list(b))
                r = I.set_op(t, r, b)
            return r
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return Num(0)
        if name == 'tolist':
            return o
        if name == 'keys':
            return o
        return Unk(I.deps(o), why='list.' + name)


def I_phase_world(I):
    return I.phase == 'world'
