"""Abstract evaluation of every registered prediction and implementation."""
import sys, time
from .values import *
from .interp import AbsRaise, Summary
from .world import World

# mass dimension of observable / quantity arguments
ARG_DIM = {'q2': 2, 'q2min': 2, 'q2max': 2, 's': 2, 'E': 1, 'Emin': 1, 'Emax': 1,
           'scale': 1, 'thl': 0, 'thv': 0, 'phi': 0, 'cl': 0, 'clmin': 0,
           'clmax': 0, 'cV': 0, 'cVmin': 0, 'cVmax': 0, 'cthl': 0, 'cthv': 0, 'phimin': 0, 'phimax': 0, 'Egammamin': 1, 'me_E': 0, 'qmin': 1, 'qmax': 1, 'mTmin': 1, 'mTmax': 1,
           'thetamin': 0, 'thetamax': 0, 'CeGGij': -3, 'CeGGji': -3}


class Analyzer:
    def __init__(self, repo='/repo', world=None):
        self.w = world or World(repo)
        self.I = self.w.I
        self.ext = self.w.ext
        self.I.phase = 'analysis'
        self.I.world_ceiling = Obj.counter
        self.par = Par()
        self.wc = self.mkwc()
        self.res = {}

    def mkwc(self, sm=False):
        I = self.I
        c = I.modules['flavio.physics.eft'].vars['WilsonCoefficients']
        o = AInst(c)
        winst = AInst(None)
        winst.opaque = True
        winst.attrs['values'] = ADict(rest=Num(None, 0))
        winst.owner = ('input', 'wc_obj')
        o.attrs['wc'] = None if sm else AUnion([None, winst])
        o.attrs['_options'] = ADict(rest=Unk())
        o.attrs['_options'].owner = ('input', 'wc_obj')
        o.attrs['_cache'] = ADict(rest=Unk())
        o.attrs['_cache'].owner = ('cache-ok', 'wc_obj')
        o.owner = ('input', 'wc_obj')
        o.born = 0
        for v in o.attrs.values():
            if isinstance(v, Obj):
                v.born = 0
        return o

    def argvals(self, names, pref='arg'):
        out = []
        I = self.I
        for a in names or []:
            if pref == 'arg':
                I.ARGS |= bit((pref, a))
                if a.endswith('min') and a[:-3] + 'max' in names:
                    p = (bit((pref, a)), bit((pref, a[:-3] + 'max')))
                    if p not in I.BINS:
                        I.BINS += (p,)
            out.append(Num(ARG_DIM.get(a, None), bit((pref, a)), sym=('arg', a, 1), cx=0))
        return out

    def call(self, f, args):
        I = self.I
        s = Summary()
        outer, I.sum = I.sum, s
        nfr = len(I.frames)
        depth, weak, trys = I.depth, I.weak, I.trys
        I.depth, I.weak, I.trys = 0, [], []
        ret = exc = None
        try:
            ret = I.call(f, args, {})
        except AbsRaise as e:
            exc = e
        finally:
            del I.frames[nfr:]
            I.depth, I.weak, I.trys = depth, weak, trys
            I.sum = outer
            I.restore()
        return ret, exc, s

    def predictions(self):
        out = {}
        for name, o in self.w.registry('Observable').items():
            p = o.attrs.get('prediction')
            if not isinstance(p, AInst):
                continue
            out[name] = (o, p.attrs.get('function'))
        return out

    def obs_args(self, o):
        a = o.attrs.get('arguments')
        if isinstance(a, AList) and a.items is not None:
            return [x for x in a.items if isinstance(x, str)]
        return []

    def run_predictions(self, names=None, verbose=False):
        for name, (o, f) in self.predictions().items():
            if names is not None and name not in names:
                continue
            t = time.time()
            r = self.call(f, [self.wc, self.par] + self.argvals(self.obs_args(o)))
            self.res[name] = r
            if verbose:
                dt = time.time() - t
                if dt > 1:
                    print('%6.1f %s' % (dt, name))
        return self.res


if __name__ == '__main__':
    import collections
    t = time.time()
    a = Analyzer()
    names = sys.argv[1:] or None
    a.run_predictions(names, verbose=True)
    print('time', time.time() - t, 'calls', a.I.ncalls, 'memo', a.I.nmemo)
    cnt = collections.Counter()
    evs = collections.defaultdict(list)
    rets = collections.Counter()
    for n, (r, e, s) in a.res.items():
        rets[str(r)[:30] if e is None else 'EXC ' + e.exc] += 1
        for ev in s.flatten():
            cnt[ev[0]] += 1
            evs[ev].append(n)
    print(rets.most_common(60))
    print(cnt)
    for ev in sorted(evs, key=str):
        if ev[0] not in ('par', 'cfg', 'cite', 'match', 'raise', 'integral', 'datafile'):
            print(str(ev)[:230], len(evs[ev]), evs[ev][0])
