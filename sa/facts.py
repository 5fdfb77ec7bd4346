"""Collects the facts the rules judge: one record per registered prediction,
per implementation, and per Standard Model (no Wilson coefficients) run.

Work is spread over forked workers; nothing of flavio is imported or run."""
import multiprocessing as mp
import os, sys, time
from .values import *
from .interp import AbsRaise
from .analysis import Analyzer

NPROC = int(os.environ.get('SA_PROCS', '0')) or min(7, (os.cpu_count() or 2))
_A = None
_IV = None


def descr(v, depth=0):
    """picklable description of an abstract result"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return {'t': 'const', 'v': v}
    if isinstance(v, (int, float, complex)):
        return {'t': 'const', 'v': v}
    if isinstance(v, Num):
        return {'t': 'num', 'd': 'Z' if v.d == ZERO else (None if v.d is None else float(v.d)), 'soft': bool(v.soft),
                'o': v.o, 'cx': v.cx, 'av': v.av, 'deps': frozenset(tokens(v.deps))}
    if isinstance(v, ADict) and depth < 2:
        ks = {str(k): descr(x, depth + 1) for k, x in list(v.d.items())[:60]}
        return {'t': 'dict', 'items': ks, 'deps': frozenset().union(*[x.get('deps', frozenset()) for x in ks.values()]) if ks else frozenset()}
    if isinstance(v, (AList, tuple, AUnion)):
        n = None
        try:
            n = num_of(v)
        except Exception:
            pass
        r = descr(n) if isinstance(n, Num) else {'deps': frozenset()}
        r['t'] = 'union' if isinstance(v, AUnion) else 'seq'
        if isinstance(v, AUnion):
            r['none'] = any(x is None for x in v.vals)
        return r
    if isinstance(v, Unk):
        return {'t': 'unk', 'why': v.why, 'deps': frozenset(tokens(v.deps))}
    return {'t': type(v).__name__}


def evconv(ev):
    """dependency masks are process local: turn them into token sets"""
    if ev[0] in ('integral', 'match', 'interp'):
        return tuple(frozenset(tokens(x)) if isinstance(x, int) and not isinstance(x, bool) and i in (1, 2) and ev[0] == 'integral'
                     else x for i, x in enumerate(ev))
    return ev


def entry(name, f, r, e, s, t):
    return {'name': name, 'func': (f.mod.name, f.qual) if isinstance(f, AFunc) else None,
            'ret': descr(r) if e is None else None,
            'exc': None if e is None else (e.exc, repr(e.value)[:60] if e.value is not None else None, e.loc),
            'events': frozenset(evconv(x) for x in s.flatten()), 'funcs': frozenset(s.funcs()), 'ucites': frozenset(s.uncached_cites()), 'time': t}


def _run(job):
    kind, names = job
    A = _A
    out = []
    if kind == 'sm' and not getattr(A, 'smwc', None):
        A.smwc = A.mkwc(True)
    if kind == 'kin':
        A.I.intervals = True
        A.ext.par_iv = _IV
    elif A.I.intervals:
        A.I.intervals = False
        A.ext.par_iv = None
    for name in names:
        t = time.time()
        if kind == 'kin':
            name, region, ivs = name
            o, f = A.predictions()[name]
            args = A.obs_args(o)
            vals = A.argvals(args)
            for a, v in zip(args, vals):
                v.iv = ivs.get(a)
            r, e, s = A.call(f, [A.wc, A.par] + vals)
            out.append((kind, (name, region), entry(name, f, r, e, s, time.time() - t)))
            continue
        if kind in ('pred', 'sm'):
            o, f = A.predictions()[name]
            args = A.obs_args(o)
            vals = A.argvals(args)
            if kind == 'sm' and isinstance(f, AFunc):
                nd = len(f.defaults)
                nreq = len(f.node.args.posonlyargs + f.node.args.args) - nd - 2
                if nreq >= 0:
                    vals = vals[:nreq]
            r, e, s = A.call(f, [A.smwc if kind == 'sm' else A.wc, A.par] + vals)
            out.append((kind, name, entry(name, f, r, e, s, time.time() - t)))
        elif kind == 'impl':
            i = A.w.registry('Implementation')[name]
            aq = A.w.registry('AuxiliaryQuantity').get(i.attrs.get('quantity'))
            args = A.obs_args(aq) if aq is not None else []
            f = i.attrs.get('function')
            for cp in ((True, False) if 'cp_conjugate' in args else (None,)):
                vals = A.argvals(args)
                for k, v in enumerate(args):
                    if v == 'cp_conjugate':
                        vals[k] = cp
                r, e, s = A.call(f, [A.wc, A.par] + vals)
                out.append((kind, (name, cp), entry(name, f, r, e, s, time.time() - t)))
    return out


class Facts:
    def __init__(self, repo='/repo', kinds=('pred',), names=None, verbose=False, kin=None):
        """kin: function of the Analyzer giving (parameter intervals, [(observable, region, {argument: interval})])"""
        global _A, _IV
        t0 = time.time()
        self.repo = repo
        self.A = _A = Analyzer(repo)
        self.w = self.A.w
        self.I = self.A.I
        self.pred, self.sm, self.impl, self.kin = {}, {}, {}, {}
        self.t_world = time.time() - t0
        jobs = []
        P = self.A.predictions()
        for kind in kinds:
            if kind in ('pred', 'sm'):
                groups = {}
                for n, (o, f) in P.items():
                    if names is not None and n not in names:
                        continue
                    groups.setdefault(f.mod.name if isinstance(f, AFunc) else '?', []).append(n)
                for g, ns in groups.items():
                    k = 60
                    for i in range(0, len(ns), k):
                        jobs.append((kind, ns[i:i + k]))
            elif kind == 'impl':
                ns = [n for n in self.w.registry('Implementation')]
                for i in range(0, len(ns), 8):
                    jobs.append((kind, ns[i:i + 8]))
            elif kind == 'kin':
                _IV, work = kin(self.A)
                for i in range(0, len(work), 40):
                    jobs.append((kind, work[i:i + 40]))
        # heavy ones first
        heavy = ('bvll', 'lambdab', 'bxll', 'bvlnu', 'bpll', 'blllnu')
        jobs.sort(key=lambda j: -sum(h in (P[j[1][0]][1].mod.name if j[0] not in ('impl', 'kin') and isinstance(P[j[1][0]][1], AFunc) else '') for h in heavy))
        if NPROC > 1 and len(jobs) > 1:
            with mp.get_context('fork').Pool(min(NPROC, len(jobs))) as pool:
                it = pool.imap_unordered(_run, jobs, 1)
                for res in it:
                    self._add(res)
        else:
            for j in jobs:
                self._add(_run(j))
        self.wall = time.time() - t0

    def _add(self, res):
        for kind, name, e in res:
            getattr(self, kind)[name] = e

    def all_events(self, kinds=('pred',)):
        """event -> sorted list of entry names"""
        out = {}
        for k in kinds:
            for n, e in getattr(self, k).items():
                for ev in e['events']:
                    out.setdefault(ev, []).append(n if isinstance(n, str) else n[0])
        return out


if __name__ == '__main__':
    F = Facts(sys.argv[1] if len(sys.argv) > 1 else '/repo', ('pred', 'sm', 'impl'))
    print('world %.1f total %.1f' % (F.t_world, F.wall), len(F.pred), len(F.sm), len(F.impl))
    import collections
    c = collections.Counter()
    for ev in F.all_events(('pred', 'impl', 'sm')):
        c[ev[0]] += 1
    print(c)
