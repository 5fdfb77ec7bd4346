"""Kinematic boundaries, decided with interval arithmetic on masses and momentum transfer."""
import re
from check_result import Result
from . import rule
from .common import *

MASS = {'e': 0.000511, 'mu': 0.10566, 'tau': 1.7769, 'B0': 5.2797, 'B+': 5.2793, 'Bs': 5.3669, 'Bc': 6.2745,
        'K0': 0.49761, 'K+': 0.49368, 'KL': 0.49761, 'KS': 0.49761, 'K*0': 0.8955, 'K*+': 0.8917, 'pi0': 0.13498, 'pi+': 0.13957, 'rho0': 0.7753, 'rho+': 0.7751,
        'omega': 0.78266, 'phi': 1.01946, 'D0': 1.86484, 'D+': 1.86966, 'Ds': 1.96835, 'D*0': 2.00685, 'D*+': 2.01026, 'Ds*': 2.1122,
        'Lambdab': 5.6196, 'Lambda': 1.115683, 'Lambda(1520)': 1.5195, 'Lambdac': 2.28646}
REL = 2e-4
CHARGED = {'K': 'K+', 'K*': 'K*+', 'pi': 'pi+', 'rho': 'rho+', 'D': 'D+', 'D*': 'D*+'}
NEUTRAL = {'K': 'K0', 'K*': 'K*0', 'pi': 'pi0', 'rho': 'rho0', 'D': 'D0', 'D*': 'D*0'}
CHARGE = {'B0': 0, 'B+': 1, 'Bs': 0, 'Bc': 1, 'D0': 0, 'D+': 1, 'Lambdab': 0, 'KL': 0, 'KS': 0, 'K+': 1}
LEPS = re.compile(r'(.*?)(nunu|ee|mumu|tautau|enu|munu|taunu|emu|mue|etau|taue|mutau|taumu)$')


def process(n):
    """(initial, final hadron, lepton masses) of an exclusive semi-leptonic observable name"""
    m = re.search(r'\(([A-Za-z0-9+]+)->(.*)\)', n)
    if not m or m.group(1) not in CHARGE:
        return None
    q = LEPS.match(m.group(2))
    if n.endswith('gamma)') and re.search(r'->(ee|mumu|tautau)gamma', n):
        return m.group(1), None, [MASS[x] for x in re.findall(r'tau|mu|e', m.group(2).replace('gamma', ''))]
    if not q:
        return None
    had, lep = q.group(1), q.group(2)
    charged_current = lep in ('enu', 'munu', 'taunu')
    c = CHARGE[m.group(1)]
    tab = CHARGED if (c + charged_current) % 2 else NEUTRAL
    h = had if had in MASS else tab.get(had)
    if m.group(1) == 'Bs' and charged_current and had in ('K', 'K*', 'Ds', 'Ds*'):
        h = {'K': 'K+', 'K*': 'K*+'}.get(had, had)
    if h is None or h not in MASS:
        return None
    ls = [x for x in re.findall(r'nu|tau|mu|e', lep)]
    return m.group(1), h, [0.0 if x == 'nu' else MASS[x] for x in ls]


def work(A):
    iv = {'m_' + k: (v * (1 - REL), v * (1 + REL)) for k, v in MASS.items()}
    out = []
    for n, (o, f) in A.predictions().items():
        if A.obs_args(o) not in (['q2'], []):
            continue
        p = process(n)
        if p is None:
            continue
        if A.obs_args(o) == []:
            if n.startswith('BR('):
                out.append((n, 'total', {}))
            continue
        i, h, ls = p
        thr, end = sum(ls) ** 2, (MASS[i] - MASS.get(h, 0)) ** 2
        if thr >= end:
            continue
        out.append((n, 'above', {'q2': (end * 1.01, (MASS[i] + MASS.get(h, 0)) ** 2 * 4)}))
        if thr > 0:
            out.append((n, 'below', {'q2': (thr * 1e-3, thr * 0.99)}))
        out.append((n, 'negative', {'q2': (-4 * MASS[i] ** 2, -1e-4)}))
        out.append((n, 'inside', {'q2': (max(thr * 1.01, 0.05), min(end * 0.99, max(thr, 0) + 3.0)) if thr < 9 else (thr * 1.01, end * 0.99)}))
        out.append((n, 'near the end point', {'q2': (end * 0.97, end * 0.99)}))
    return iv, out


def zero(e):
    r = e['ret']
    if r is None:
        return None
    return r.get('d') == 'Z' or (r.get('t') == 'const' and r.get('v') == 0)


@rule('P14')
def kinematics(ctx):
    from sa.facts import Facts
    r = Result()
    r.rule = ('interval analysis: hadron and lepton masses range over intervals around their physical values and the momentum transfer over the whole '
              'region below threshold, above the end point, and inside; the abstract result must be the constant 0 outside for every differential rate, '
              'and must not be the constant 0 inside; the limits of the integrals in total branching ratios must be threshold and end point')
    F = Facts(ctx.repo, ('kin',), kin=work)
    r.counts['interval_evaluations'] = len(F.kin)
    ob = set()
    for (n, reg), e in sorted(F.kin.items()):
        ob.add(n)
        z = zero(e)
        wh = where((e['func'] or ('?', '?')) + (0,))
        if reg == 'total':
            i, h, ls = process(n)
            thr, end = sum(ls) ** 2, (MASS[i] - MASS.get(h, 0)) ** 2
            lims = [ev for ev in e['events'] if ev[0] == 'limits' and ev[1] and ev[2]]
            if not lims:
                r.count('totals_without_resolved_limits')
                continue
            r.count('integration_limits')
            lo, hi = min(l[1][0] for l in lims), max(l[2][1] for l in lims)
            if any(l[1][0] > l[2][1] for l in lims):
                r.find('reversed:%s' % n, 'an integral in %s runs from the upper to the lower limit' % n, wh)
            if abs(lo - thr) > 2e-3 * max(thr, 1e-5):
                r.find('lower:%s' % n, 'the lower integration limit of %s is %.5g GeV^2, the threshold of the process is %.5g GeV^2' % (n, lo, thr), wh)
            if abs(hi - end) > 4e-3 * end:
                r.find('upper:%s' % n, 'the upper integration limit of %s is %.5g GeV^2, the end point of the process is %.5g GeV^2' % (n, hi, end), wh)
            continue
        wh = where((e['func'] or ('?', '?')) + (0,))
        if reg in ('above', 'below', 'negative'):
            if not n.startswith('dBR'):
                continue
            r.count('outside_obligations')
            if e['exc']:
                r.find('exc:%s:%s' % (reg, n), '%s raises %s %s for q2 %s the allowed region' % (n, e['exc'][0], e['exc'][1], reg), wh)
            elif not z:
                r.find('%s:%s' % (reg, n), '%s does not vanish for unphysical q2 (%s)' % (n, reg), wh)
        else:
            r.count('inside_obligations')
            if z and not re.match(r'AFBl?h\(Lambdab->Lambda\(1520\)', n):      # parity conservation in the strong decay
                r.find('inside:%s:%s' % (reg, n), '%s vanishes identically for physical q2 (%s)' % (n, reg), wh)
    r.counts['observables'] = len(ob)
    r.need('observables', 200)
    r.need('outside_obligations', 60)
    r.need('integration_limits', 40)
    return r
