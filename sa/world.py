"""Builds the abstract world: evaluates flavio's module-level code abstractly."""
import sys, os, time, warnings
warnings.simplefilter("ignore", SyntaxWarning)
from .values import *
from .interp import Interp, AbsRaise
from .ext import ExtModel
from . import dims

sys.setrecursionlimit(20000)


class World:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.ext = ExtModel(repo)
        self.I = Interp(repo, self.ext)
        I = self.I
        I.hooks[('flavio.measurements', 'read_default')] = lambda I, f, a, k: None
        I.hooks[('flavio.citations', 'Citations.register')] = self.h_register
        I.prehooks[('flavio.classes', 'NamedInstanceClass.__init__')] = self.h_named
        self.registered = []     # (class name, instance name, location)
        self.cites = set()
        self.problems = []
        self.build()

    def h_register(self, I, f, args, kw):
        k = args[1] if len(args) > 1 else kw.get('inspire_key')
        I.emit('cite', k if isinstance(k, str) else '?')
        return None

    def h_named(self, I, f, args, kw):
        if args and isinstance(args[0], AInst) and args[0].cls is not None:
            n = args[1] if len(args) > 1 else kw.get('name')
            self.registered.append((args[0].cls.name, n if isinstance(n, str) else None, I.caller_loc() if hasattr(I, 'caller_loc') else I.loc()))

    def build(self):
        I = self.I
        # configuration first, so that it can be marked
        I.import_module('flavio')
        m = I.modules
        cfg = m['flavio.config'].vars.get('config') if 'flavio.config' in m else None
        if isinstance(cfg, ADict):
            self.ext.mark_cfg(cfg)
        cl = m['flavio.classes'].vars
        self.cls = cl
        self.cfg = cfg
        dp = m['flavio.parameters'].vars.get('default_parameters')
        self.default_parameters = dp
        if isinstance(dp, AInst) and isinstance(dp.attrs.get('_parameters'), ADict):
            self.ext.par_names = {k: 1 for k in dp.attrs['_parameters'].d if isinstance(k, str)}
        self.world_events = I.sum.flatten()
        I.sum = type(I.sum)()

    def registry(self, cname):
        c = self.cls.get(cname)
        if not isinstance(c, AClass):
            return {}
        d = c.attrs.get('instances')
        return d.d if isinstance(d, ADict) else {}


if __name__ == '__main__':
    t = time.time()
    w = World(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    print('world', time.time() - t, 's; modules', len(w.I.modules))
    for c in ('Observable', 'AuxiliaryQuantity', 'Implementation', 'Parameter'):
        print(c, len(w.registry(c)))
    print('par', len(w.ext.par_names))
    import collections
    print(collections.Counter(e[0] for e in w.world_events))
    for e in sorted(w.world_events, key=str):
        if e[0] in ('keyerror', 'noattr', 'unbound', 'arity', 'nofile', 'unsupported', 'undefined', 'depth', 'maybe-unbound'):
            print(e)
