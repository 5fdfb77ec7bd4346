"""P21: ratios and averages are formed of the right members with equal weights."""
import re
from check_result import Result
from . import rule
from .common import loc, where, fq

LEP = {'e': ('m_e',), 'mu': ('m_mu',), 'tau': ('m_tau',), 'l': ('m_e', 'm_mu')}
# coefficients of W l nu that tell the numerator from the denominator (phil3_11 and phil3_22 also enter through the Fermi constant)
WLNU = {('mu', 'e'): ('phil3_23', 'phil3_13'), ('tau', 'e'): ('phil3_23', 'phil3_12'), ('tau', 'mu'): ('phil3_13', 'phil3_12')}
ZNUM = 'phiq1_11'
ZDEN = {'e': ('phie_11',), 'mu': ('phie_22',), 'tau': ('phie_33',), 'l': ('phie_11', 'phie_22', 'phie_33')}

BAD = {0: 'with different weights', 1: 'with weight 1', .25: 'with weight 1/4'}


def expected(n):
    """(what the numerator depends on and the denominator does not, and the reverse) of a ratio, or None"""
    m = re.match(r'<?R(e|mu|tau)(e|mu|tau|l)>?\((.*)\)$', n)
    if m:
        a, b, p = m.groups()
        if p == 'W->lnu':
            if (a, b) in WLNU:
                x, y = WLNU[a, b]
                return {x}, {y}
            if (b, a) in WLNU:
                x, y = WLNU[b, a]
                return {y}, {x}
            return None
        x, y = set(LEP[a]), set(LEP[b])
        return (x - y, y - x) if x - y and y - x else None
    m = re.match(r'R\(.*->(mu|tau)(mu|tau)', n)
    if m:
        return {'m_mu', 'm_tau'}, {'m_e'}            # normalised to the decay into electrons
    m = re.match(r'DeltaM_(d|s)/DeltaM_(d|s)$', n)
    if m:
        d = {'d': 'm_B0', 's': 'm_Bs'}
        return {d[m.group(1)]}, {d[m.group(2)]}
    if n.startswith('RKpi('):
        return {'m_K+'}, {'m_pi+'}
    m = re.match(r'R_(e|mu|tau|l)$', n)
    if m:
        return {ZNUM}, set(ZDEN[m.group(1)])
    m = re.match(r'R_(u|d|c|s|b|uc)$', n)
    if m:
        return set(), {'phid_33' if m.group(1) != 'b' else 'phid_11'}
    return None


def averaged(n):
    m = re.match(r'<?([^>]*?)>?\((.*)\)$', n.replace('<BR>/<', 'BR/'))
    return bool(m) and not re.match(r'R(e|mu|tau|K)|D\w*mue|Delta|P\d|Q\d', m.group(1)) and bool(re.search(r'l(l|nu)$|^\w[^>]*->\w*lnu$', m.group(2)))


@rule('P21')
def p21(ctx):
    r = Result()
    F = ctx.facts('pred')
    from .common import analysed
    analysed(r, F, ('pred',))
    for n, e in F.pred.items():
        if e['exc'] or not e['ret']:
            continue
        f = where((e['func'] or ('?', '?')) + (0,))
        x = expected(n)
        if x is not None:
            num, den = x
            r.count('ratios')
            good, bad = [], []
            for ev in e['events']:
                if ev[0] != 'ratio':
                    continue
                a, b = set(ev[1]), set(ev[2])
                if num <= a and den <= b:
                    good.append(ev)
                elif (not num or num & b) and den & a:
                    bad.append(ev)
            if good:
                r.count('ratios_confirmed')
            if bad and not good:
                r.find('inverted:%s' % fq(loc(bad[0])), '%s is formed with %s in the denominator and %s in the numerator'
                       % (n, ', '.join(sorted(bad[0][2])), ', '.join(sorted(bad[0][1]))), where(loc(bad[0])))
            deps = {d[1] for d in e['ret']['deps'] if d[0] in ('par', 'wc')}
            miss = (num | den) - deps
            if miss:
                r.find('unrelated:%s' % fq(e['func'] or ('?', '?')), '%s does not depend on %s' % (n, ', '.join(sorted(miss))), f)
        if averaged(n) or re.match(r'<?Rtaul>?\(', n):
            deps = {d[1] for d in e['ret']['deps'] if d[0] == 'par'}
            miss = {'m_e', 'm_mu'} & deps
            if len(miss) == 1 and averaged(n):
                r.find('oneonly:%s' % fq(e['func'] or ('?', '?')), '%s depends on %s, but not on the mass of the other lepton' % (n, miss.pop()), f)
            ws = {ev[1]: ev for ev in e['events'] if ev[0] == 'lquot'}
            v = e['ret'].get('av')
            if type(v) is not float and not ws:
                continue
            r.count('averages')
            # a quotient by a sum over both leptons is given as minus its factor
            w = v if type(v) is not float or v >= 0 else -1 / v
            if w in BAD:
                r.find('weight:%s' % fq(e['func'] or ('?', '?')), 'in %s electrons and muons enter %s instead of with weight 1/2 each'
                       % (n, BAD[w]), f)
            for k in ws:
                if k in (0, 2, .5):
                    r.find('weight:%s' % fq(loc(ws[k])), 'in %s electrons and muons enter numerator and denominator with different weights' % n, where(loc(ws[k])))
    r.rule = ('In the abstract run of every prediction, each quotient records which particle masses and couplings appear only above and only below the '
              'line: a ratio named after two processes has the first one above. Sums of an electron and a muon quantity carry their weights through '
              'scaling, integration and calls: an average has weight 1/2 for both, and quotients of sums use the same weights.')
    r.need('ratios', 90)
    r.need('ratios_confirmed', 70)
    r.need('averages', 120)
    return r
