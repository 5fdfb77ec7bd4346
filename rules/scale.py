"""P16: one configured scale and one effective theory per process."""
import re
from check_result import Result
from . import rule
from .common import *

RS = 'renormalization scale'
EV = ('flavio',)
W5, W4, W3 = ('WET', 'flavio'), ('WET-4', 'flavio'), ('WET-3', 'flavio')
NF = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
SM, SMUP = ('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')
MZ = ('const', 91.1876)         # the SM contribution of b->s nu nu and s->d nu nu is evaluated at the Z mass
L = r'(?:e|mu|tau|l)'
LL = r'(?:%s){1,2}' % L
V = r'(?:K\*0?\+?|rho0?|omega|phi|D\*)'

# process -> (allowed scales, effective theories); first match wins, tried on the name of the observable
TABLE = [
    # mixing
    (r'(?:DeltaM_d/DeltaM_s)$', ('B0 mixing', 'Bs mixing'), (W5,)),
    (r'(?:DeltaM|DeltaGamma|a_fs)_d$|S_psiK$', ('B0 mixing',), (W5,)),
    (r'(?:DeltaM|DeltaGamma|a_fs)_s$|S_psiphi$', ('Bs mixing',), (W5,)),
    (r'eps_K$', ('K0 mixing',), (W3,)),
    (r'epsp/eps$', ('kpipi',), (W3,)),
    (r'.*_D$', ('D0 mixing',), (W4,)),
    # radiative
    (r'.*(?:Bs->phigamma|S_phigamma)', ('bvgamma', 'bvll', 'Bs mixing'), (W5,)),
    (r'S_K\*gamma$', ('bvgamma', 'bvll', 'B0 mixing'), (W5,)),
    (r'.*B0->K\*gamma.*Bs->phigamma', ('bvgamma', 'bvll', 'Bs mixing'), (W5,)),
    (r'.*\((?:B0|B\+|Bs)->(?:K\*\+?|phi|rho|omega)gamma\)', ('bvgamma', 'bvll'), (W5,)),
    (r'.*\(B->X(?:s|d)?gamma\)', ('bxgamma',), (W5,)),
    (r'.*\((?:B0|Bs)->%sgamma\)' % LL, ('bllgamma',), (W5,)),
    # inclusive
    (r'.*\(B->X(?:s|d)%s\)' % LL, ('bxll',), (W5,)),
    (r'.*\(B->X(?:c|u)?%snu\)' % L, ('bxlnu', ('const', 1.0), ('const', 3.0)), (W5,)),
    # leptonic
    (r'(?:BR|tau|ADeltaGamma|S|Rmue)_?(?:\((?:B0|Bs)->%s(?:,%s)?\)|_%s|\(Bs?->%s\))$' % (LL, LL, LL, LL), ('bll',), (W5,)),
    (r'.*\((?:B\+|Bc)->%snu\)|tau_Bc$|tau_mumu$' % L, ('bll',), (W5,)),
    # exclusive with neutrinos
    (r'.*\(B[0+s]?->%snunu\)' % V, ('bvll', MZ), (W5,)),
    (r'.*\(B[0+s]?->(?:K|pi)nunu\)', ('bpll', MZ), (W5,)),
    # exclusive
    (r'.*Lambdab->', ('lambdab',), (W5,)),
    (r'.*Bs->%s%s' % (V, LL), ('bvll', 'Bs mixing'), (W5,)),
    (r'.*\(B[0+cs]?->%s' % V, ('bvll',), (W5,)),
    (r'.*\(B[0+cs]?->(?:K|pi|D|Ds|eta|etap|P)', ('bpll',), (W5,)),
    # charm
    (r'.*\(D[0+s]?->(?:K|pi|eta)', ('dpll',), (W4,)),
    (r'.*\(D[0+s]?->%snu\)' % L, ('dll',), (W4,)),
    # kaons, pions, baryons
    (r'.*\(K[+L]->pinunu\)', ('kdecays', MZ), (W3,)),
    (r'.*\(K[LS]->%s' % LL, ('kdecays',), (W5, W3)),
    (r'.*\(Lambda->p', ('kdecays',), (W3,)),
    (r'.*\((?:K\+|pi\+|P\+)->%snu\)' % L, (('par', 'm_rho0'), 'mudecays'), (W3,)),
    (r'.*\(?(?:K[+LS]?)->pi', (('par', 'm_rho0'),), (W3,)),
    (r'.*RT\(|.*lnC|.*RT', (('par', 'm_rho0'),), (W3,)),
    # leptons
    (r'.*\(tau->(?:enunu|mununu|pinu|Knu)\)', ('taudecays', 'mudecays'), (W4, W3)),
    (r'.*\(tau->', ('taudecays',), (W4,)),
    (r'BR\(mu->', ('mudecays',), (W4,)),
    (r'CR\(mu->e|a_mu$', ('mudecays',), (W3,)),
    (r'a_e$', ('e g-2',), (W3,)),
    (r'a_tau$', ('tau g-2',), (W5,)),
    (r'R_trident$', (('const', 1.0),), (W3,)),
    # beta decay, EDMs
    (r'Ft\(|tau_n$', ('betadecay', 'mudecays'), (W3,)),
    (r'\w+_n$', ('betadecay',), (W3,)) ,
    (r'(?:d_Tl|omega_\w+|d_Hg|d_Xe)$', (('const', 2.0),), (W3,)),
    # electroweak
    (r'.*\(W->|m_W$|GammaW$', ('wdecays',), (SM,)),
    (r'.*\(Z->|sigma_had$|GammaZ$|R_[a-z]+$', ('zdecays',), (SM,)),
    (r'mu_\w+\(h->', ('hdecays',), (SM,)),
    (r'.*\(ee->WW\)', ('ee_ww',), (SM,)),
]
SPECIAL = {'d_n': (('nEDM',), (W3,))}
QQ = re.compile(r'.*\(((?:J/psi|psi\(2S\)|Upsilon\(\dS\)|eta_[bc]\(\dS\)|chi_[bc]0\(\dP\)))->')
DIL = re.compile(r'R_13\(pp->')
IMPL = [(r'Lambdab->', ('lambdab',)), (r'B[0+s]?->%s' % V, ('bvll',)), (r'B[0+s]?->(?:K|pi|D|P)', ('bpll',))]

# quark masses taken at their own scale rather than run to the scale of the process: (parameter, part of the module name)
RAWMASS = {('m_b', 'quarkonium'), ('m_c', 'quarkonium'), ('m_c', 'kpinunu'), ('m_c', 'mesonmixing'), ('m_u', 'mesonmixing')}
# couplings at the Z mass: electroweak observables and SM contributions evaluated at the electroweak scale
RAWCOUP = {('alpha_e', 'betadecays'), ('alpha_e', 'dileptons'), ('alpha_e', 'kdecays'), ('alpha_e', 'zdecays'), ('alpha_e', 'wdecays'),
           ('alpha_s', 'bxll'), ('alpha_s', 'kdecays'), ('alpha_s', 'zdecays'), ('alpha_s', 'wdecays'), ('alpha_s', 'dileptons'), ('alpha_e', 'higgs'), ('alpha_s', 'higgs'), ('alpha_e', 'eeww')}


def family(name, impl=False):
    """allowed scales, effective theories (None: anything configured, but only one)"""
    def key(k):
        return ('cfg', (RS, k)) if isinstance(k, str) else k
    if impl:
        for rx, ks in IMPL:
            if re.match(rx, name):
                return {key(k) for k in ks}, (W5,)
        return None, None
    if name in SPECIAL:
        ks, e = SPECIAL[name]
        return {key(k) for k in ks}, e
    m = QQ.match(name)
    if m:
        return {key(m.group(1))}, (W5,)
    if DIL.match(name):
        return 'bins', (SMUP,)
    for rx, ks, e in TABLE:
        if re.match(rx, name):
            return {key(k) for k in ks}, e
    return None, None


def show(s):
    if s[0] == 'cfg':
        return 'config[%s]' % ']['.join(repr(x) for x in s[1])
    if s[0] == 'const':
        return 'the constant %g' % s[1]
    if s[0] == 'par':
        return 'the parameter %s' % s[1]
    if s[0] == 'arg':
        return 'the argument %s' % s[1]
    if s[0] == 'frozen':
        return 'the value config[%s] had when the library was imported' % ']['.join(repr(x) for x in s[1])
    return ' '.join(str(x) for x in s)


def scales(ev):
    """(sources, what for) of a scale or match event, [] if inside the running module itself"""
    if ev[0] == 'match':
        return ev[4], 'Wilson coefficients'
    if ev[0] == 'scale' and not (ev[-1] and ev[-1][0].startswith('flavio.physics.running')):
        return ev[3], ev[1].rsplit('.', 1)[1]
    return None, None


@rule('P16')
def one_scale(ctx):
    r = Result()
    F = ctx.facts('pred', 'impl')
    r.rule = ('data-flow analysis of renormalisation scales: the scale of every Wilson coefficient, running coupling and running quark mass '
              'requested by a prediction originates from the configuration entry of its process, read at evaluation time; the effective theory '
              'and explicit flavour numbers correspond; quark masses are not used at a scale other than that of the process')
    analysed(r, F, ('pred', 'impl'))
    used, n = set(), 0
    unk = []
    for kind in ('pred', 'impl'):
        for name, e in getattr(F, kind).items():
            nm = name if isinstance(name, str) else name[0]
            ok, efts = family(nm, kind == 'impl')
            seen = {}
            matched = set()
            atscale = {}
            for ev in e['events']:
                if ev[0] == 'cfg' and ev[1] and ev[1][0] == RS:
                    used.add(ev[1][1])
                s, what = scales(ev)
                if s is not None:
                    n += 1
                    mixscale = 'mixing' in str(s[1] if len(s) > 1 else '')
                    mixuse = 'mesonmixing' in (ev[-1][0] if ev[-1] else '') or ev[0] == 'scale' and 'mesonmixing' in ev[1]
                    mixuse = mixuse or ev[0] == 'match' and bool(re.search(r'sbsb|bdbd|dbdb|bsbs|sdsd|dsds|cucu|ucuc', str(ev[3])))
                    if ok and ok != 'bins' and s in ok and mixuse != mixscale and not (ev[0] == 'scale' and ev[1].startswith('flavio.physics.eft.')):
                        r.find('mixscale:%s:%s:%s' % (what, show(s).replace(' ', '-'), fq(ev[-1])), 'the scale of %s in %s is %s' % (what, nm, show(s)), where(ev[-1]))
                    seen.setdefault(s, []).append((what, ev[-1]))
                if ev[0] == 'match':
                    matched.add((ev[1], ev[2], ev[-1]))
                    if s is not None and ev[3] not in ('all', '?'):
                        atscale.setdefault((ev[1], ev[3]), {}).setdefault(s, ev[-1])
                elif ev[0] in ('par', 'parc') and len(ev) > 2 and ev[-1] and not ev[-1][0].startswith('flavio.physics.running'):
                    p = ev[1]
                    if p in ('m_u', 'm_d', 'm_s', 'm_c', 'm_b') and not any(p == a and b in ev[-1][0] for a, b in RAWMASS):
                        r.find('rawmass:%s:%s' % (p, fq(ev[-1])), 'quark mass %s is used at its reference scale instead of the scale of the process (%s)' % (p, nm), where(ev[-1]))
                    elif p in ('alpha_e', 'alpha_s') and not any(p == a and b in ev[-1][0] for a, b in RAWCOUP):
                        r.find('rawcoup:%s:%s' % (p, fq(ev[-1])), 'coupling %s is used at the Z mass instead of the scale of the process (%s)' % (p, nm), where(ev[-1]))
            for (eft, sec), d in atscale.items():
                if len(d) > 1 and kind == 'pred':
                    ss = sorted(map(show, d))
                    r.find('twoscales:%s:%s' % (sec, '|'.join(x.replace(' ', '-') for x in ss)), 'the coefficients of sector %s enter %s at different scales: %s' % (sec, nm, ', '.join(ss)), where(d[min(d, key=str)]))
            if seen and ok is None:
                unk.append(nm)
            for s, ws in seen.items():
                if s[0] == 'frozen':
                    bad = True
                elif ok == 'bins':
                    bad = not (s[0] == 'computed' and all(t[0] == 'arg' for t in s[1:]))
                elif ok is None:
                    bad = s[0] == 'cfg' and len([x for x in seen if x[0] == 'cfg']) > 1
                else:
                    ss = s[1:] if s[0] == 'union' else (s,)
                    bad = any(x not in ok for x in ss)
                if bad:
                    for what, l in sorted(set(ws), key=str)[:6]:
                        r.find('scale:%s:%s:%s' % (what, show(s).replace(' ', '-'), fq(l)),
                               'the scale of %s in %s is %s%s' % (what, nm, show(s), '' if ok in (None, 'bins') else ' rather than ' + ' or '.join(sorted(map(show, ok)))), where(l))
            if efts:
                for a, b, l in matched:
                    if (a, b) not in efts:
                        r.find('eft:%s:%s:%s' % (a, b, fq(l)), 'Wilson coefficients for %s are taken in %s (%s basis) rather than %s' % (nm, a, b, ' or '.join('%s (%s)' % x for x in efts)), where(l))
            nfs = {NF[a] for a, b, l in matched if a in NF} or {NF[a] for a, b in efts or () if a in NF}
            for ev in e['events']:
                if ev[0] == 'scale' and ev[4] is not None and nfs and not (ev[-1] and ev[-1][0].startswith('flavio.physics.running')):
                    if ev[4] != '?' and ev[4] not in nfs:
                        r.find('nf:%s:%s:%s' % (ev[1].rsplit('.', 1)[1], ev[4], fq(ev[-1])), '%s is evaluated with %s flavours in %s, whose effective theory has %s' % (ev[1], ev[4], nm, ' or '.join(map(str, sorted(nfs)))), where(ev[-1]))
    # configuration read when the library is imported has no effect when it is changed later
    for ev in ctx.world().world_events:
        if ev[0] == 'frozen' and tuple(ev[1][:1]) != ('settings',):
            r.find('import:%s:%s' % ('/'.join(map(str, ev[1])), fq(ev[-1])), 'config[%s] is read when the library is imported; changing it later has no effect here' % ']['.join(repr(x) for x in ev[1]), where(ev[-1]))
    cfg = ctx.world().I.modules['flavio.config'].vars['config']
    keys = [k for k in cfg.d.get(RS).d] if RS in cfg.d else []
    for k in sorted(map(str, keys)):
        if k not in used:
            r.find('unused:%s' % k, 'no prediction uses the scale config[%r][%r]' % (RS, k), 'flavio.config')
    r.counts['scale_uses'] = n
    r.counts['configured_scales'] = len(keys)
    r.counts['outside_table'] = len(unk)
    for u in sorted(set(unk))[:15]:
        r.sample('no table entry: ' + u)
    r.need('predictions', 1500)
    r.need('scale_uses', 5000)
    return r
