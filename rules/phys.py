"""Rules judged from the abstract evaluation of all predictions."""
import re
import zlib
from check_result import Result
from . import rule
from .common import *
from . import scope


@rule('P01')
def no_side_effects(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('effect analysis: for every registered prediction and implementation, no reachable statement may '
              'modify the parameter dictionary, the Wilson coefficient object, the configuration, a registry or '
              'other module state, a value returned by a cached function, or keep a module-level memo whose key '
              'does not determine the stored value')
    analysed(r, F, ('pred', 'impl'))
    seen = 0
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'mut':
            seen += 1
            if ev[1] == 'copy':
                continue
            r.find('mut:%s:%s:%s' % (ev[1], ev[2], fq(loc(ev))), '%s of %s (%s) while evaluating %s' % (ev[3], ev[2], ev[1], few(names)), where(loc(ev)))
        elif ev[0] == 'extset':
            r.find('extset:%s:%s' % (ev[1], fq(loc(ev))), 'attribute or item of external object %s set while evaluating %s' % (ev[1], few(names)), where(loc(ev)))
        elif ev[0] in ('memo', 'memo-ok'):
            seen += 1
            if ev[0] == 'memo':
                r.find('memo:%s:%s' % (ev[1], fq(loc(ev))), 'module-level memo %s stores a value that also depends on %s while evaluating %s' % (ev[1], ev[2], few(names)), where(loc(ev)))
        elif ev[0] == 'write':
            r.find('write:%s:%s' % (ev[1], fq(loc(ev))), 'file write while evaluating %s' % few(names), where(loc(ev)))
    r.counts['stores_judged'] = seen
    r.need('predictions', 1500)
    return r


@rule('P02')
def memo_pure(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('interprocedural dependence analysis: the value of each memoised (lru_cache) function and of each module-level '
              'memo table must depend only on its arguments / key, and its evaluation must have no configuration, random or mutation effect')
    cf = set()
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'cached':
            cf.add(ev[1])
        elif ev[0] == 'cached-hidden':
            t = ev[2]
            toks = [x for x in re.findall(r"\('(\w+)'[^)]*\)", t)]
            if toks and all(x == 'ckm' for x in toks):
                continue
            r.find('hidden:%s' % ev[1], 'memoised function %s returns a value that also depends on %s' % (ev[1], t), where(loc(ev)))
        elif ev[0] == 'cached-effect' and ev[2] != 'cite':
            r.find('effect:%s:%s:%s' % (ev[1], ev[2], ev[3]), 'memoised function %s has effect %s %s, which is not part of its key' % (ev[1], ev[2], ev[3]), where(loc(ev)))
        elif ev[0] == 'memo':
            r.find('memo:%s:%s' % (ev[1], fq(loc(ev))), 'memo table %s stores a value that also depends on %s' % (ev[1], ev[2]), where(loc(ev)))
        elif ev[0] == 'mut' and ev[1] == 'cache':
            r.find('mutcache:%s:%s' % (ev[2], fq(loc(ev))), '%s of %s: a cached value is modified while evaluating %s' % (ev[3], ev[2], few(names)), where(loc(ev)))
    analysed(r, F, ('pred', 'impl'))
    r.counts['memoised_functions'] = len(cf)
    for c in sorted(cf)[:8]:
        r.sample(c)
    from .api import flow, at
    from .memo import check_memos
    check_memos(ctx, r, flow(ctx), at)
    r.rule += ('; results remembered in attributes and dictionaries elsewhere are reused only under an equality of a key that '
               'determines them, is a snapshot and loses no information')
    r.need('predictions', 1500)
    return r


TOTAL = {'keyerror': 'missing key', 'unbound': 'unbound variable', 'maybe-unbound': 'variable unbound on some path',
         'noattr': 'missing attribute', 'arity': 'wrong call signature', 'undefined': 'undefined name',
         'unpack': 'unpacking mismatch', 'notcallable': 'call of a non-callable', 'nofile': 'missing data file',
         'badformat': 'bad format string', 'badregex': 'bad regular expression', 'badimport': 'failing import'}
LEGIT_RAISE = ('ValueError', 'NotImplementedError', 'Exception', 'RuntimeError', 'TypeError', 'ArithmeticError')


def which(names):
    """the predictions of a finding, as part of its key"""
    l = sorted(set(names))
    if len(l) <= 3:
        return ';'.join(l)
    return '%s;..%d;%s;%08x' % (l[0], len(l), l[-1], zlib.crc32('\n'.join(l).encode()))


@rule('P03')
def total(ctx):
    r = Result()
    F = ctx.facts('pred', 'sm')
    r.rule = ('abstract evaluation of every prediction for arbitrary Wilson coefficients, arguments and parameter values: every parameter '
              'and table key that is looked up exists, every name and attribute is bound, every call matches its callee, and no path '
              'ends in a lookup error')
    analysed(r, F, ('pred', 'sm'))
    npar = set()
    for ev, names in F.all_events(('pred', 'sm')).items():
        if ev[0] == 'par':
            npar.add(ev[1])
        elif ev[0] == 'parkey':
            r.find('parkey:%s:%s' % (ev[2], fq(loc(ev))), 'parameter %r does not exist but is read by %s' % (ev[2], few(names)), where(loc(ev)))
        elif ev[0] in TOTAL:
            r.find('%s:%s%s' % (ev[0], '' if 'unbound' in ev[0] else ''.join('%s:' % x for x in ev[2 if ev[0] == 'keyerror' else 1:-1]), which(names)),
                   '%s (%s) in %s' % (TOTAL[ev[0]], ' '.join(str(x) for x in ev[1:-1]), few(names)), where(loc(ev)))
    for kind in ('pred', 'sm'):
        for n, e in getattr(F, kind).items():
            if e['exc']:
                x = e['exc']
                r.find('exc:%s:%s' % (x[0], n), 'every path of the prediction of %s ends in %s %s' % (n, x[0], x[1] or ''), where(x[2]))
            if e['func'] is None:
                r.find('nofunc:%s' % n, 'the prediction of %s is not a function of the source tree' % n, None)
    r.counts['parameters_read'] = len(npar)
    r.need('predictions', 1500)
    return r


@rule('P04')
def wc_names(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('name resolution against the WCxf basis files of the installed wcxf package: every sector, EFT and basis a prediction '
              'requests exists, and every Wilson coefficient key it looks up is a coefficient of the matched sector')
    analysed(r, F, ('pred', 'impl'))
    wcs, secs = set(), set()
    pre = set()
    for eft, bas in (('WET', 'flavio'), ('WET-4', 'flavio'), ('WET-3', 'flavio'), ('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')):
        b = F.A.ext.basis(eft, bas)
        pre |= {n.split('_')[0] for s in (b or {}).get('sectors', {}).values() for n in s if '_' in n}
    wcprefix = re.compile('(?:%s)_[a-z0-9]+$' % '|'.join(sorted(map(re.escape, pre))))
    r.counts['coefficient_name_stems'] = len(pre)
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'match':
            secs.add(ev[1:4])
        elif ev[0] in ('badsector', 'badbasis', 'wcname'):
            r.find('%s:%s:%s' % (ev[0], ':'.join(str(x) for x in ev[1:-1]), fq(loc(ev))),
                   '%s %s used by %s' % ({'badsector': 'unknown sector', 'badbasis': 'unknown EFT or basis', 'wcname': 'unknown Wilson coefficient'}[ev[0]],
                                         ' '.join(str(x) for x in ev[1:-1]), few(names)), where(loc(ev)))
        elif ev[0] == 'keyerror' and str(ev[1]).startswith('sectors of '):
            r.find('badsector:%s:%s:%s' % (ev[1][11:], ev[2], fq(loc(ev))), 'unknown sector %s of %s used by %s' % (ev[2], ev[1][11:], few(names)), where(loc(ev)))
        elif ev[0] == 'missing' and wcprefix.match(ev[1]):
            r.find('wcignored:%s:%s' % (ev[1], fq(loc(ev))), 'coefficient %s, absent from the dictionary it is looked up in, counts as the default value in %s' % (ev[1], few(names)), where(loc(ev)))
        elif ev[0] == 'keyerror' and wcprefix.match(str(ev[2]).strip("'\"")):
            r.find('wckey:%s:%s' % (ev[2], fq(loc(ev))), 'unknown Wilson coefficient %s used by %s' % (ev[2], few(names)), where(loc(ev)))
    for k in ('pred', 'impl'):
        for e in getattr(F, k).values():
            if e['ret']:
                wcs |= {t[1] for t in e['ret'].get('deps', ()) if t[0] == 'wc'}
    r.counts['sectors_matched'] = len(secs)
    r.counts['coefficients_used'] = len(wcs)
    for s in sorted(secs)[:8]:
        r.sample('/'.join(map(str, s)))
    r.need('predictions', 1500)
    return r


def declared_dim(name):
    """mass dimension stated by the observable's name; None if not stated"""
    b = name.strip('<')
    if re.match(r'd\w+/dq2', b):
        return -2.0
    if re.match(r'd[A-Za-z]+/d(E|q)\b', b):
        return -1.0
    if re.match(r'(DeltaM|DeltaGamma)_[a-z]$', b) or re.match(r'Gamma(\(|[WZ]$)', b):
        return 1.0
    if re.match(r'tau_', b) or b.startswith('Ft('):
        return -1.0
    if re.match(r'd_\w+$', b):
        return -1.0
    if b.startswith('omega_'):
        return 1.0
    if b.startswith('sigma_'):
        return -2.0
    if re.match(r'm_[A-Z]', b):
        return 1.0
    if re.match(r'dBR/d(cl|cV|phi)\b|I3tot|lnC|g1/f1|DeltaM_d/DeltaM_s|a_|[a-zA-Z]+_n$|D(mue)_|(x|y|phi|q/p|x12|y12|phi12|x12Im)_D$', b):
        return 0.0
    if re.match(r'(BR|A|R|S|P|F|C|ACP|AFB|FL|FT|Rmue|Rtaumu|eps|sin2|SCP|CCP|A[0-9]|S[0-9]|P[0-9]|mu_)', b) and not re.match(r'R_13|A_?Q', b):
        return 0.0
    return None


@rule('P05')
def dimensions(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('dimensional analysis (abstract domain: mass dimension of each value, from the parameter, Wilson coefficient and argument '
              'dimensions): no sum, difference or comparison mixes dimensions, no dimensionful argument reaches exp/log/power, '
              'and the result has the dimension the kind of observable implies')
    analysed(r, F, ('pred', 'impl'))
    logs = {}
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'dim':
            r.find('dim:%s:%s' % (ev[1], fq(loc(ev))), 'mixing of dimensions (%s) in %s' % (' '.join(str(x) for x in ev[1:-1]), few(names)), where(loc(ev)))
        elif ev[0] == 'logdim':
            logs.setdefault(fq(loc(ev)), []).append((ev, names))
    for f, l in logs.items():
        # log(a) - log(b) with both of the same dimension is fine; a lone site is not
        for ev, names in l:
            if ev[2] is True or len({x[0][3:-1] for x in l}) == 1:
                r.find('logdim:%s' % f, 'logarithm of a quantity of dimension %s in %s' % (ev[1], few(names)), where(loc(ev)))
    known = 0
    for n, e in F.pred.items():
        ret = e['ret']
        if not ret or ret.get('t') not in ('num', 'union', 'seq'):
            continue
        d = ret.get('d')
        if d == 'Z' or d is None:
            continue
        known += 1
        want = declared_dim(n)
        if want is not None and d != want:
            r.find('retdim:%s:%g' % (n, d), 'result of %s has mass dimension %g, its name implies %g' % (n, d, want), where((e['func'] or ('?', '?')) + (0,)))
    r.counts['results_with_known_dimension'] = known
    r.assumptions.append('dimensions of parameters are inferred from their names and files; literals take any dimension they are added to only when marked so')
    r.need('predictions', 1500)
    return r


ODD = ('gamma', 'delta', 'beta', 'etabar')      # the phase of every CKM parametrisation
CKMPAR = ('t12', 't13', 't23', 'laC', 'A', 'rhobar', 'Vus', 'Vub', 'Vcb')


def conjugation(r, F):
    """conjugate_par flips exactly the CP-odd parameters of every implementation of the CKM matrix"""
    from sa.values import Num, Par, ADict, AInst, AFunc, bit, tokens
    I, A = F.I, F.A
    m = I.modules.get('flavio.physics.common')
    f = m and m.vars.get('conjugate_par')
    if f is None:
        return
    sym = lambda k: Num(0, bit(('par', k)), sym=('par', k, 1), cx=0)
    used = {}
    for n, o in F.w.registry('Implementation').items():
        if not isinstance(o, AInst) or o.attrs.get('quantity') != 'CKM matrix':
            continue
        fn = o.attrs.get('function')
        ret, exc, s = A.call(fn, [A.wc, Par(over={k: sym(k) for k in ODD + CKMPAR})])
        if exc is None:
            for t in tokens(I.deps(ret)):
                if t[0] == 'par':
                    used.setdefault(t[1], n)
    r.counts['ckm_parameters'] = len(used)
    d = ADict({k: sym(k) for k in list(ODD + CKMPAR) + ['m_B0', 'GF', 'tau_B0', 'alpha_s']})
    ret, exc, s = A.call(f, [d])
    if exc is not None or not isinstance(ret, ADict):
        return
    for k in d.d:
        v = ret.d.get(k)
        sign = v.sym[2] if isinstance(v, Num) and v.sym and v.sym[:2] == ('par', k) else None
        if v is None and ret.rest is None:
            r.find('conjpar:%s' % k, 'conjugate_par drops the parameter %s' % k, f.mod.name)
        elif k in ODD and k in used and sign == 1:
            r.find('conjpar:%s' % k, 'conjugate_par does not flip the sign of %s, the CP-odd parameter of the CKM implementation %r' % (k, used[k]), '%s:%d' % (f.mod.name, f.node.lineno))
        elif k not in ODD and sign == -1:
            r.find('conjpar:%s' % k, 'conjugate_par flips the sign of %s, which is not CP-odd' % k, '%s:%d' % (f.mod.name, f.node.lineno))


@rule('P07')
def cp(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('CP typing: every complex quantity carries whether it is built from plain or conjugated weak phases and plain or CP-conjugate '
              'operators; a product may not combine plain coefficients with conjugated CKM factors, and CP asymmetries must depend on both members')
    analysed(r, F, ('pred', 'impl'))
    byfun = {}
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'cp':
            byfun.setdefault(fq(loc(ev)), []).append((ev, names))
    for f, l in byfun.items():
        if f == '?.?':
            continue      # combination already judged inside the called function
        ks = {(e[1], e[2]) for e, _ in l}
        for ev, names in l:
            kk = (ev[1], ev[2])
            if kk == (2, 1) or (kk == (1, 2) and ks & {(1, 1), (2, 2)}):
                r.find('cpmix:%s:%s' % (kk, f), 'combination of %s weak phases with %s Wilson coefficients in %s' % (
                    'conjugated' if kk[0] == 2 else 'plain', 'conjugated' if kk[1] == 2 else 'plain', few(names)), where(loc(ev)))
    seen = set()
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'cpadd' and ('a', loc(ev)) not in seen:
            seen.add(('a', loc(ev)))
            r.find('cpadd:%s' % fq(loc(ev)), 'an amplitude built from plain weak phases is added to one built from conjugated weak phases in %s' % few(names), where(loc(ev)))
        elif ev[0] == 'cppair' and (ev[2], loc(ev)) not in seen:
            seen.add((ev[2], loc(ev)))
            r.find('cppair:%s:%s' % (ev[2], fq(loc(ev))), '%s and its CP conjugate %s are both built from %s weak phases in %s' % (
                ev[1], ev[2], 'plain' if ev[3] == 1 else 'conjugated', few(names)), where(loc(ev)))
        elif ev[0] == 'partflip' and ('f', loc(ev)) not in seen:
            seen.add(('f', loc(ev)))
            r.find('partflip:%s' % fq(loc(ev)), 'a copy of the parameters flips only %s of the CP-odd parameters %s' % (', '.join(ev[1]), ', '.join(ev[2])), where(loc(ev)))
    r.counts['typed_functions'] = len(byfun)
    obs = F.w.registry('Observable')
    nas = 0
    I = F.I
    from sa.values import tokens
    KP, KC = {tuple(t) for t in tokens(I.CPK)}, {tuple(t) for t in tokens(I.CPC)}
    for n, e in F.pred.items():
        ret = e['ret']
        if not ret or 'deps' not in ret or ret.get('t') == 'const':
            continue
        d = obs[n].attrs.get('description')
        if not isinstance(d, str):
            continue
        dl = d.lower()
        if re.search(r'cp[- ]?averaged|(direct )?cp[- ]asymmetry|cp asymmetry', dl) and 'mixing' not in dl and 'time' not in dl and 'flavour-specific' not in dl:
            k = (1 if ret['deps'] & KP else 0) | (2 if ret['deps'] & KC else 0)
            o = ret.get('o')
            nas += 1
            explicit = any(ev[0] == 'cp' and ev[1] == 2 for ev in e['events'])
            if o in (1, 2) or k == 2 or k == 1 and explicit:
                r.find('cpone:%s' % n, '%s is described as %r but depends on only one member of the CP-conjugate pair' % (n, d[:60]), where((e['func'] or ('?', '?')) + (0,)))
    # a quantity evaluated for the CP conjugate process uses conjugated phases only
    for (n, cpv), e in F.impl.items():
        if cpv is None or not e['ret']:
            continue
        r.count('cp_conjugate_quantities')
        d = e['ret'].get('deps', frozenset())
        if cpv and d & KP:
            r.find('notconj:%s' % n, 'the CP conjugate of %s depends on the unconjugated CKM phase' % n, where((e['func'] or ('?', '?')) + (0,)))
        if not cpv and d & KC:
            r.find('conj:%s' % n, '%s depends on the conjugated CKM phase although no conjugation is requested' % n, where((e['func'] or ('?', '?')) + (0,)))
    r.counts['cp_observables'] = nas
    conjugation(r, F)
    r.need('predictions', 1500)
    return r


def is_lfv(n):
    m = re.search(r'\(.*\)', n)
    if not m:
        return False
    body = m.group(0)
    for x in LFV:
        if re.search(r'(?<![a-z])(?:pi|[A-Z]\S*|rho|phi|omega|gamma)?%s(?![a-z])' % x, body):
            return True
    return False


@rule('P08')
def lfv(ctx):
    r = Result()
    F = ctx.facts('sm')
    r.rule = ('zero propagation with all new physics coefficients equal to zero: every charged lepton flavour violating observable '
              'must reduce to the constant 0')
    analysed(r, F, ('sm',))
    n = 0
    for name, e in F.sm.items():
        b = name.strip('<')
        if b.startswith(('R(', 'R_', 'Dmue_', 'Rmue', 'Rtau', 'RD', 'DeltaA')) or re.match(r'R[a-z]*\(', b) or b.startswith('D'):
            continue
        if not is_lfv(name):
            continue
        if e['exc'] or not e['ret']:
            continue
        n += 1
        ret = e['ret']
        ok = (ret['t'] == 'const' and ret['v'] == 0) or ret.get('d') == 'Z'
        if ret['t'] == 'unk':
            continue
        if n % 30 == 1:
            r.sample(name)
        if not ok:
            r.find('lfv:%s' % name, '%s is not identically zero without new physics (depends on %s)' % (name, ', '.join(tok(t) for t in sorted(ret.get('deps', ()), key=str)[:4])), where((e['func'] or ('?', '?')) + (0,)))
    r.counts['lfv_observables'] = n
    r.need('lfv_observables', 80)
    return r


FREE = {('b_n', 'me_E'): 'the Fierz interference coefficient is a constant; it shares its arguments with the other neutron correlation coefficients'}


@rule('P13')
def bins(ctx):
    r = Result()
    F = ctx.facts('pred')
    r.rule = ('dependence analysis of binned observables: the result depends on both bin boundaries, the lower integration limit only on the '
              'lower boundary, the upper limit only on the upper one, and observables with a kinematic argument depend on it')
    analysed(r, F, ('pred',))
    P = F.A.predictions()
    for n, e in F.pred.items():
        args = F.A.obs_args(P[n][0])
        ret = e['ret']
        for a in args:
            if a.endswith('min') and a[:-3] + 'max' in args:
                lo, hi = ('arg', a), ('arg', a[:-3] + 'max')
                if ret and ret['t'] == 'num' and ret.get('d') != 'Z':
                    r.count('binned_observables')
                    dl, dh = lo in ret['deps'], hi in ret['deps']
                    if dl != dh:
                        r.find('bin:%s:%s' % (n, a), 'the result of %s does not depend on %s' % (n, (lo if not dl else hi)[1]), where((e['func'] or ('?', '?')) + (0,)))
                for ev in e['events']:
                    if ev[0] == 'binorder' and a in ev:
                        r.find('order:%s' % fq(loc(ev)), 'a quantity at the upper boundary is subtracted from one at the lower boundary in %s' % n, where(loc(ev)))
                    elif ev[0] == 'binnorm' and ev[1] in (a, hi[1]):
                        r.find('norm:%s' % fq(loc(ev)), 'division by a quantity that depends on %s but not on the other boundary in %s' % (ev[1], n), where(loc(ev)))
                    if ev[0] == 'clip' and ev[1] in (a, hi[1]):
                        r.find('clip:%s' % fq(loc(ev)), 'the bin boundary %s is limited by a fixed number in %s' % (ev[1], n), where(loc(ev)))
                    if ev[0] == 'integral':
                        L, U = (lo in ev[1], hi in ev[1]), (lo in ev[2], hi in ev[2])
                        if L == (False, False) and U == (False, False):
                            # only what is normalised to the full rate integrates over the whole region
                            if (ev[1] or ev[2]) and not n.startswith('<BR>/') and not any(t[0] == 'arg' for x in ev[1:3] for t in x):
                                r.find('full:%s' % fq(e['func'] + (0,) if e['func'] else None),
                                       '%s contains an integral over the full range, not over the bin' % n, where(loc(ev)))
                            continue
                        r.count('integrals')
                        if L[1] or U[0]:
                            r.find('limits:%s' % fq(e['func'] + (0,) if e['func'] else None), 'integration limits of %s: %s' % (
                                n, 'the lower limit depends on %s' % hi[1] if L[1] else 'the upper limit depends on %s' % lo[1]), where(loc(ev)))
        if ret and ret['t'] == 'num' and ret.get('d') != 'Z':
            for a in args:
                if not a.endswith(('min', 'max')):
                    r.count('differential_observables')
                    if ('arg', a) not in ret['deps'] and not any(ev[0] == 'discrete' and ev[1] == a for ev in e['events']) and (n, a) not in FREE:
                        r.find('arg:%s:%s' % (n, a), 'the result of %s does not depend on %s' % (n, a), where((e['func'] or ('?', '?')) + (0,)))
    r.need('binned_observables', 500)
    return r


@rule('P15')
def deterministic(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('effect analysis: no reachable statement of any prediction or implementation prints, reads or writes files, evaluates '
              'strings as code or draws random numbers, and no result depends on a random or unordered source')
    analysed(r, F, ('pred', 'impl'))
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] in ('io', 'random', 'write', 'eval', 'yamlload', 'identity'):
            if ev[0] == 'io' and len(ev) > 2 and 'warn' in str(ev[1]):
                continue
            r.find('%s:%s:%s' % (ev[0], ':'.join(str(x) for x in ev[1:-1]), fq(loc(ev))), 'effect %s %s while evaluating %s' % (ev[0], ' '.join(str(x) for x in ev[1:-1]), few(names)), where(loc(ev)))
    for k in ('pred', 'impl'):
        for n, e in getattr(F, k).items():
            if e['ret'] and ('random',) in e['ret'].get('deps', ()):
                r.find('randval:%s' % (n if isinstance(n, str) else n[0]), 'the value of %s depends on a random or unordered source' % (n,), where((e['func'] or ('?', '?')) + (0,)))
    r.need('predictions', 1500)
    return r


@rule('P23')
def real(ctx):
    r = Result()
    F = ctx.facts('pred')
    r.rule = 'realness typing: the value every prediction returns is real (no return path yields a value with an imaginary part by construction)'
    analysed(r, F, ('pred',))
    for n, e in F.pred.items():
        ret = e['ret']
        if not ret:
            continue
        if ret.get('t') == 'const':
            r.count('typed_results')
            if isinstance(ret['v'], complex):
                r.find('complex:%s' % n, '%s is a complex constant' % n, where((e['func'] or ('?', '?')) + (0,)))
            elif ret['v'] is None or isinstance(ret['v'], (str, bool)):
                r.find('notnum:%s' % n, '%s evaluates to %r' % (n, ret['v']), where((e['func'] or ('?', '?')) + (0,)))
        elif ret.get('t') in ('num', 'union') and ret.get('cx') is not None:
            r.count('typed_results')
            if ret['cx'] == 1:
                r.find('complex:%s' % n, '%s may be complex: no real part or modulus is taken on the way to the result' % n, where((e['func'] or ('?', '?')) + (0,)))
        elif ret.get('t') in ('dict', 'seq', 'str'):
            r.find('notnum:%s' % n, '%s evaluates to a %s instead of a number' % (n, ret['t']), where((e['func'] or ('?', '?')) + (0,)))
        if ret.get('t') == 'union' and ret.get('none'):
            r.find('none:%s' % n, '%s returns None on some path' % n, where((e['func'] or ('?', '?')) + (0,)))
        for ev in e['events']:
            if ev[0] == 'noneintegrand':
                r.find('noneintegrand:%s' % fq(loc(ev)), 'an integrand of %s returns None on some path' % n, where(loc(ev)))
    r.need('typed_results', 1500)
    return r


@rule('P12')
def citations(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('effect analysis of citation registrations: keys are constants contained in citations.yml, nothing registers at import, '
              'every registration is looked up through the package attribute that a citation scope replaces, and whatever is '
              'registered inside a memoised function is also registered on cache hits; a scope restores what it replaced on every path, instances '
              'share no modified state, and no function that registers also modifies module state')
    analysed(r, F, ('pred', 'impl'))
    import ast
    import os
    import yaml
    keys = set(yaml.safe_load(open(os.path.join(ctx.repo, 'flavio', 'data', 'citations.yml'), encoding='utf-8')))
    r.counts['citation_keys'] = len(keys)
    used = set()
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'cite':
            if ev[1] == '?':
                continue
            used.add(ev[1])
            if ev[1] not in keys:
                r.find('unknown:%s:%s' % (ev[1], fq(loc(ev))), 'citation key %r, registered by %s, is not in citations.yml' % (ev[1], few(names)), where(loc(ev)))
    for ev in F.w.world_events:
        if ev[0] == 'cite' and loc(ev) and loc(ev)[0] != 'flavio.citations':
            r.find('import:%s:%s' % (ev[1], fq(loc(ev))), 'citation %s is registered at import time' % ev[1], where(loc(ev)))
    for k in ('pred', 'impl'):
        for n, e in getattr(F, k).items():
            for ev in e['events']:
                if ev[0] == 'cached-effect' and ev[2] == 'cite' and ev[3] not in e['ucites']:
                    r.find('cached:%s:%s' % (ev[1], ev[3]), 'citation %s is only registered when memoised function %s misses its cache, so %s does not cite it the second time' % (
                        ev[3], ev[1], n if isinstance(n, str) else n[0]), where(loc(ev)))
    # a registration must not depend on what was registered before
    state = {}
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'mut' and ev[1] == 'global':
            state[fq(loc(ev))] = ev
    for ev, names in F.all_events(('pred', 'impl')).items():
        if ev[0] == 'cite' and fq(loc(ev)) in state:
            r.find('history:%s' % fq(loc(ev)), '%s registers citations and modifies %s, so that registrations can depend on earlier evaluations (%s)' % (fq(loc(ev)), state[fq(loc(ev))][2], few(names)), where(loc(ev)))
    r.counts['keys_used'] = len(used)
    # every registration in the source, reachable or not
    src = ctx.src()
    scope.managers(r, src)
    scope.shared_state(r, src, 'flavio.citations')
    for m in src.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'register' and not m.test:
                r.count('register_calls')
                base = c.func.value
                txt = ast.unparse(base)
                if isinstance(base, ast.Name) and src.origin(m, base.id) in ('flavio.citations',) or txt.endswith('citations') and not txt.startswith('flavio.'):
                    if not isinstance(base, ast.Name) or base.id in src.module_names(m):
                        r.find('bound:%s:%s' % (m.name, c.lineno and src.qual(m, c)), 'registration through a name bound at import, which a citation scope does not replace', '%s:%d' % (m.rel, c.lineno))
                if c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) and c.args[0].value not in keys and 'citation' in txt:
                    r.find('unknown:%s:%s' % (c.args[0].value, src.qual(m, c)), 'citation key %r is not in citations.yml' % c.args[0].value, '%s:%d' % (m.rel, c.lineno))
    r.need('register_calls', 40)
    r.need('predictions', 1500)
    return r
