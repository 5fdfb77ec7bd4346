#!/usr/bin/env python3
"""Runs the static check of one property against /repo's current sources.

usage: check.py PID [--thorough]
Exit 0: no violation; 1: violation (VIOLATION line); 3: analysis broken."""
import glob, importlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SA_REPO', '/repo')


from check_result import Result


class Ctx:
    def __init__(self, tier, seed):
        self.repo = REPO
        self.tier = tier
        self.seed = seed
        self._facts = {}
        self._src = None

    def facts(self, *kinds):
        from sa.facts import Facts
        kinds = tuple(kinds)
        if kinds not in self._facts:
            self._facts[kinds] = Facts(self.repo, kinds)
        return self._facts[kinds]

    def world(self):
        for f in self._facts.values():
            return f.w
        if not hasattr(self, '_w'):
            from sa.world import World
            self._w = World(self.repo)
        return self._w

    def src(self):
        if self._src is None:
            from sa.src import Sources
            self._src = Sources(self.repo)
        return self._src


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def keyenc(k):
    return re.sub(r'\s+', '_', k)


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from rules import RULES
    spec = RULES[pid]
    ctx = Ctx(tier, seed)
    try:
        res = spec(ctx)
    except Exception:
        traceback.print_exc()
        print('analysis broken: property=%s (internal error above)' % pid)
        return 3
    kn = known().get(pid, {})
    viol = []
    for k, (text, where) in sorted(res.findings.items()):
        k = keyenc(k)
        if k in kn:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[k], k))
        else:
            viol.append((k, text, where))
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    for old in glob.glob(os.path.join(edir, 'replay', pid + '-*.json')):
        os.remove(old)
    cov = {'explanation': res.rule, 'samples': res.samples, 'exhaustive': res.exhaustive,
           'known_findings_seen': sorted(keyenc(k) for k in res.findings if keyenc(k) in kn)}
    cov.update(res.counts)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2),
               'violations': len(viol)},
              open(os.path.join(edir, pid + '.json'), 'w'), indent=1, default=str)
    print('property=%s analysed: %s; %.1f s' % (pid, ', '.join('%s=%s' % kv for kv in sorted(res.counts.items())), time.time() - t0))
    if viol:
        for i, (k, text, where) in enumerate(viol[:40]):
            print('%s: %s  (%s)' % (where or '-', text, k))
        p = os.path.join(edir, 'replay', pid + '-1.json')
        json.dump({'property': pid, 'violations': [{'key': k, 'what': t, 'where': w} for k, t, w in viol],
                   'rerun': 'cd %s && %s check.py %s' % (HERE, sys.executable, pid)}, open(p, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if res.broken:
        for b in res.broken:
            print('analysis broken: property=%s %s' % (pid, b))
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
