"""Covariance of sibling observables under relabelling of flavours."""
import re
from check_result import Result
from . import rule
from .common import *

TOK = re.compile(r'nutau|numu|nue|tau|mu|nu|e|.', re.S)
NTOK = re.compile(r'gamma|[dD]elta|beta|theta|eta|nutau|numu|nue|tau|mu|nu|e|.', re.S)   # within observable and parameter names
LSWAP = {}
for _a, _b, _i, _j in (('e', 'mu', '1', '2'), ('mu', 'tau', '2', '3'), ('e', 'tau', '1', '3')):
    m = {_a: _b, _b: _a, 'nu' + _a: 'nu' + _b, 'nu' + _b: 'nu' + _a}
    LSWAP[_a, _b] = (m, {_i: _j, _j: _i})
LEPTONIC = ('phie', 'phil1', 'phil3', 'ephi', 'eW', 'eB', 'phil3')

# (own token, reason): the dependence that one sibling has and the other lacks, confirmed by reading
EXC = [
    (r'c4_(K|pi)\+munu', 'hard photon corrections of relative order m_l^2 are kept for the muon only'),
    (r'ephi_33', 'h->tautau contributes to the total width in all channels, h->mumu is neglected there'),
    (r'phil3_', 'fixes the Fermi constant in muon decay, a normalisation common to all processes'),
    (r'delta_Gamma', 'SM uncertainty of the combined e, mu width'),
    (r'delta_BX[sd]tautau low|delta_BX[sd](ee|mumu) low', 'the tau threshold lies above the low q2 region'),
]


def leptons(s, M, tok=NTOK):
    return ''.join(M.get(t, t) for t in tok.findall(s))


def obsname(n, M):
    m = re.match(r'([^(]*)(\(.*\))(.*)$', n)
    if not m:
        return None
    return m.group(1) + leptons(m.group(2), M) + m.group(3)


def sorted_form(w):
    a, _, b = w.partition('_')
    if b.isdigit():
        return a, tuple(sorted(b))
    return a, tuple(sorted(TOK.findall(b)))


def lepton_tok(t, M, D, pars):
    if t[0] == 'par':
        k = leptons(t[1], M)
        return ('par', k) if k in pars else t
    if t[0] == 'wc':
        a, _, b = t[1].partition('_')
        if b and b.isdigit():
            return ('wc', a + '_' + ''.join(D.get(x, x) for x in b)) if a in LEPTONIC else t
        if b:
            return ('wc', a + '_' + leptons(b, M, TOK))
    return t


def unmatched(d1, d2, image, names, forms):
    """tokens of d1 whose image is not in d2; an image that is not an independent coefficient of any basis stands for
    the coefficients related to it by an index symmetry of the operator"""
    for t in d1:
        k = image(t)
        if k in d2:
            continue
        if k[0] == 'wc' and k[1] not in names and any(('wc', x) in d2 for x in forms.get(sorted_form(k[1]), ())):
            continue
        yield t


MES = [('B0', 'B+'), ('K*0', 'K*+'), ('K0', 'K+'), ('pi0', 'pi+'), ('rho0', 'rho+'), ('D0', 'D+'), ('D*0', 'D*+')]
MM = {}
for _a, _b in MES:
    MM[_a], MM[_b] = _b, _a
MR = re.compile(r'(?<![A-Za-z])(B0|B\+|K\*0|K\*\+|K0|K\+|pi0|pi\+|rho0|rho\+|D0|D\+|D\*0|D\*\+)(?![0-9])')


def msw(s):
    return MR.sub(lambda m: MM[m.group(1)], s)


def meson_tok(t, pars):
    if t[0] == 'par':
        k = msw(t[1].replace('_', ' _ ')).replace(' _ ', '_')
        return ('par', k) if k in pars else t
    return t


@rule('P06')
def covariance(ctx):
    r = Result()
    F = ctx.facts('pred')
    r.rule = ('sibling comparison: the dependence set (parameters, Wilson coefficients, configuration entries) of every observable is '
              'relabelled under e<->mu, mu<->tau, e<->tau and under exchange of the spectator quark (B0<->B+, D0<->D+, ...), and must equal '
              'the dependence set of the observable with the relabelled name')
    analysed(r, F, ('pred',))
    pars = set(F.w.ext.par_names)
    obs = F.pred
    def deps(n):
        e = obs[n]
        if not e['ret'] or e['exc'] or e['ret'].get('t') == 'unk':
            return None
        return {t for t in e['ret'].get('deps', ()) if t[0] in ('par', 'wc', 'cfg', 'parc', 'ckm')}

    def report(kind, x, y, tokens):
        for t in sorted(tokens, key=str):
            if any(re.match(p, str(t[-1])) for p, _ in EXC):
                continue
            f = obs[x]['func']
            r.find('%s:%s:%s' % (kind, x, ' '.join(map(str, t))), '%s depends on %s, but %s does not depend on its counterpart' % (x, tok(t), y), where((f or ('?', '?')) + (0,)))
    names, forms = set(), {}
    for eb in (('WET', 'flavio'), ('WET-4', 'flavio'), ('WET-3', 'flavio'), ('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')):
        for ws in ((F.A.ext.basis(*eb) or {}).get('sectors') or {}).values():
            for w in ws or ():
                names.add(w)
                forms.setdefault(sorted_form(w), set()).add(w)
    r.counts['coefficients_of_the_bases'] = len(names)
    for (la, lb), (M, D) in LSWAP.items():
        for x in obs:
            y = obsname(x, M)
            if y is None or y not in obs or not x < y:
                continue
            # the swap must map the process onto its sibling: mixed e,mu asymmetric ratios keep their own orientation
            if re.match(r'BR\((mu|tau)->|.*CR\(mu', x) and x.partition('->')[0] != y.partition('->')[0]:
                continue       # decays of different leptons are computed separately
            if x.startswith('R('):
                continue       # normalised to a fixed same-flavour mode
            if 'Z->' in x and x.startswith('AFB'):
                continue       # the initial state is always e+e-
            d1, d2 = deps(x), deps(y)
            if d1 is None or d2 is None or not d1 or not d2:
                continue
            r.count('lepton_siblings')
            if r.counts['lepton_siblings'] % 150 == 1:
                r.sample('%s ~ %s' % (x, y))
            image = lambda t: lepton_tok(t, M, D, pars)
            report('lep', x, y, set(unmatched(d1, d2, image, names, forms)))
            report('lep', y, x, set(unmatched(d2, d1, image, names, forms)))
    # averages over e and mu
    M, D = LSWAP['e', 'mu']
    image = lambda t: lepton_tok(t, M, D, pars)
    for x in obs:
        m = re.match(r'<?(\w*)>?\((.*)\)', x)
        if not m or obsname(x, M) != x or re.search(r'mu|mue|^[RD]\w*e', m.group(1)) or not re.search(r'l(l|nu)', m.group(2)):
            continue
        d = deps(x)
        if not d:
            continue
        r.count('lepton_averages')
        for t in sorted(unmatched(d, d, image, names, forms), key=str):
            if any(re.match(p, str(t[-1])) for p, _ in EXC):
                continue
            r.find('avg:%s:%s' % (x, ' '.join(map(str, t))), '%s depends on %s, but not on its counterpart under exchange of e and mu'
                   % (x, tok(t)), where((obs[x]['func'] or ('?', '?')) + (0,)))
    for x in obs:
        m = re.match(r'([^(]*)(\(.*\))(.*)$', x)
        if not m:
            continue
        y = m.group(1) + msw(m.group(2)) + m.group(3)
        if y not in obs:
            y = m.group(1) + re.sub(r'(?<!\w)(B0|B\+|D0|D\+)', lambda q: MM[q.group(1)], m.group(2)) + m.group(3)
        if y not in obs or not x < y:
            continue
        d1, d2 = deps(x), deps(y)
        if not d1 or not d2:
            continue
        r.count('spectator_siblings')
        if r.counts['spectator_siblings'] % 150 == 1:
            r.sample('%s ~ %s' % (x, y))
        s1, s2 = {meson_tok(t, pars) for t in d1}, {meson_tok(t, pars) for t in d2}
        # reference masses of form factor parametrisations are shared by both siblings, in addition to the masses of their own mesons
        def other(a, b):
            for t in a:
                k = meson_tok(t, pars)
                if k not in b and not (t in b and (k == t or t[0] == 'par' and t[1].startswith('m_') and k in a)):
                    yield t
        report('spec', x, y, set(other(d1, d2)))
        report('spec', y, x, set(other(d2, d1)))
    r.need('lepton_siblings', 600)
    r.need('spectator_siblings', 300)
    r.need('lepton_averages', 60)
    return r
