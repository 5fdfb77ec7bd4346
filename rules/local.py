"""Locality of predictions: a process knows only the particles that take part in it."""
import re
from check_result import Result
from . import rule
from .common import *

# hadrons with their valence quarks
QUARKS = {'B0': 'bd', 'B+': 'bu', 'Bs': 'bs', 'Bc': 'bc', 'B': 'bdu', 'K*0': 'sd', 'K*+': 'su', 'K*': 'sdu', 'KL': 'sd', 'KS': 'sd', 'K0': 'sd',
          'K+': 'su', 'K': 'sdu', 'P+': 'sdu', 'pi0': 'ud', 'pi+': 'ud', 'pi': 'ud', 'rho0': 'ud', 'rho+': 'ud', 'rho': 'ud', 'omega': 'ud', 'phi': 's',
          'D*0': 'cu', 'D*+': 'cd', 'D*': 'cdu', 'D0': 'cu', 'D+': 'cd', 'D': 'cdu', 'Ds': 'cs', 'Lambdab': 'bud', 'Lambda(1520)': 'sud',
          'Lambda': 'sud', 'p': 'ud', 'n': 'ud', 'pp': 'udscb', 'Xs': 's', 'Xd': 'd', 'Xu': 'u', 'Xc': 'c', 'X': 'sdc', 'J/psi': 'c', 'psi(2S)': 'c', 'eta_c(1S)': 'c',
          'chi_c0(1P)': 'c', 'Upsilon(1S)': 'b', 'Upsilon(2S)': 'b', 'Upsilon(3S)': 'b', 'eta_b(1S)': 'b', 'chi_b0(1P)': 'b', 'chi_b0(2P)': 'b',
          'bb': 'b', 'cc': 'c', 'ss': 's', 'dd': 'd', 'uu': 'u', 'Al': 'ud', 'Au': 'ud', 'Ti': 'ud'}
GENERIC = {'B': ('B0', 'B+'), 'K*': ('K*0', 'K*+'), 'K': ('K0', 'K+', 'KL', 'KS'), 'pi': ('pi0', 'pi+'), 'rho': ('rho0', 'rho+'),
           'D*': ('D*0', 'D*+'), 'D': ('D0', 'D+'), 'K0': ('KL', 'KS'), 'P+': ('K+', 'pi+'), 'X': ('Xs', 'Xd')}
LEPT = ('e', 'mu', 'tau')
LONG = sorted(set(QUARKS) | set(LEPT) | {'nutau', 'numu', 'nue', 'nu', 'gamma', 'W', 'Z', 'h', 'l'}, key=len, reverse=True)
PROC = re.compile('|'.join(map(re.escape, LONG)))
HADRON = re.compile('|'.join(map(re.escape, sorted(QUARKS, key=len, reverse=True))))
HIDDEN = ('pi', 'pi0', 'rho', 'rho0', 'omega', 'phi')

# observables that are not named after a process: participants, quarks, charged leptons
NAMED = [
    (r'(DeltaM|DeltaGamma|a_fs)_d|S_psiK', 'B0 KS', 'bd', ''),
    (r'(DeltaM|DeltaGamma|a_fs)_s|S_psiphi', 'Bs phi', 'bs', ''),
    (r'DeltaM_d/DeltaM_s', 'B0 Bs', 'bds', ''),
    (r'S_K\*gamma', 'B0 K*0', 'bsd', 'e'),
    (r'S_phigamma', 'Bs phi', 'bs', 'e'),
    (r'(x|y|x12|y12|x12Im|phi12|phi|q/p)_D', 'D0', 'cu', ''),
    (r'eps_K', 'K0', 'sd', ''),
    (r'epsp/eps', 'K0 pi0 pi+', 'sdu', ''),
    (r'tau_(ee|mumu|tautau)', 'Bs', 'bs', 'l'),
    (r'tau_Bc', 'Bc', 'bc', 'e mu tau'),
    (r'(a|A|atilde|Atilde|b|B|Btilde|D|R|lambdaAB|tau)_n', 'n p', 'ud', 'e'),
    (r'Ft\(\w+\)', 'n p', 'ud', 'e'),
    (r'a_(e|mu|tau)', '', '', 'l'),
    (r'd_n', 'n', 'uds', ''),
    (r'd_Tl', 'n p Tl', 'ud', 'e'),
    (r'omega_(\w+)', 'n p', 'ud', 'e'),
    (r'GammaZ|sigma_had|R_[a-z]+', 'Z', 'udscb', 'e mu tau'),
    (r'R_trident', '', '', 'mu'),
    (r'm_W|GammaW', 'W', 'udscb', 'e mu tau'),
]


class Process:
    __slots__ = ('names', 'quarks', 'leptons')


def inner(n):
    """the process inside an observable name: text between the first '(' and its closing parenthesis, or the whole name"""
    i = n.find('(')
    out, d = [], 0
    while i >= 0:
        for j in range(i, len(n)):
            d += {'(': 1, ')': -1}.get(n[j], 0)
            if d == 0:
                break
        if '->' in n[i:j]:
            out.append(n[i + 1:j])
        i = n.find('(', j + 1)
    return out


def process(n):
    p = Process()
    ps = inner(n)
    if not ps and '->' in n:
        ps = [n]
    if not ps:
        m0 = n.strip('<>')
        for pat, parts, q, l in NAMED:
            m = re.fullmatch(pat, m0)
            if m:
                p.names = set(parts.split()) | set(m.groups() if 'omega' in pat else ())
                p.quarks = set(q)
                p.leptons = {x for x in LEPT if x in PROC.findall(m0)} if l == 'l' else set(l.split())
                return p
        return None
    p.names, p.quarks, p.leptons = set(), set(), set()
    for s in ps:
        a, _, b = s.partition('->')
        i, f = PROC.findall(a), PROC.findall(b)
        if not i:
            return None
        p.names |= set(i) | set(f)
        if 'l' in f:
            p.leptons |= set(LEPT)
        p.leptons |= {x for x in i + f if x in LEPT}
        qi = set(''.join(QUARKS.get(x, '') for x in i))
        qf = set(''.join(QUARKS.get(x, '') for x in f))
        charged = sum(x.startswith('nu') for x in f) == 1
        q = qi ^ qf if qi and qf and i[0] not in ('mu', 'tau', 'pp') else qi | qf
        if any(x[0] == 'X' for x in f) and i[0] == 'B':
            q = qf | set('b')
        if any(x in HIDDEN for x in f):
            q |= qf         # flavour-neutral mesons contain the quark and its antiquark
        if charged and 'p' in f:
            q |= set('u')
        p.quarks |= q
    return p


def has(x, names):
    if x in names or any(g in names and x in s for g, s in GENERIC.items()):
        return True
    return x in GENERIC and any(y in names for y in GENERIC[x])


def owners(k):
    """particles a parameter name refers to: (hadrons, leptons, quarks)"""
    m = re.fullmatch(r'm_([uds])', k)
    if m:
        return set(), set(), {m.group(1)}
    m = re.fullmatch(r'(m|tau)_(e|mu|tau)', k)
    if m:
        return set(), {m.group(2)}, set()
    out, lep = set(), set()
    if '->' in k:
        a, b = k.split('->')[:2]
        a = re.split(r'[ (]', a)[-1]
        if a in QUARKS:
            out.add(a)
            m = PROC.match(b)
            if m and m.group(0) != 'pp' and m.group(0) in QUARKS:
                out.add(m.group(0))
        return out, lep, set()
    for w in re.split(r'[ _/]|(?<=\w)\((?!1|2|3)', k):
        w = w.rstrip(')') if '(' not in w else w
        if w in QUARKS and w not in ('p', 'n', 'uu', 'dd', 'ss', 'cc', 'bb', 'D', 'X', 'rho') or w in ('Tl', 'HfF', 'ThO', 'YbF') or w == 'D' and k.startswith(('M12', 'Gamma12')):
            out.add(w)
    m = re.match(r'(%s)_(.+?)(_.*)?$' % 'm|tau|f|fT|a', k)
    if m and m.group(2) in QUARKS and m.group(2) not in ('p', 'n'):
        out.add(m.group(2))
    for pre in ('chi_', 'eta_'):
        for h in QUARKS:
            if h.startswith(pre) and k.endswith(h):
                out = {h}
    m = re.match(r'c\w+_(K\+|pi\+)(l|mu)nu', k)
    if m:
        out.add(m.group(1))
        lep |= {'mu'} if m.group(2) == 'mu' else set()
    m = re.match(r'delta_(BX[sd])(e|mu|tau)\2', k)
    if m:
        out.add('X' + m.group(1)[-1])
        lep.add(m.group(2))
    m = re.match(r'a_(e|mu|tau) SM', k)
    if m:
        lep.add(m.group(1))
    return out, lep, set()


WTOK = re.compile('nutau|numu|nue|tau|mu|e|[udscb]')


def sector(w):
    """(quarks, charged leptons, neutrinos) of a Wilson coefficient with flavour-letter indices"""
    b = w.partition('_')[2]
    t = WTOK.findall(b)
    if not b or ''.join(t) != b:
        return None
    return {x for x in t if len(x) == 1 and x != 'e'}, {x for x in t if x in LEPT}, {x for x in t if x.startswith('nu')}


# (parameter or coefficient, observable, reason)
EXC = [
    (r'CVL[LR]_numunueemu|m_mu', r'Ft.*|tau_n|.*(K\+|P\+|pi\+)->.*|BR\(tau->(K|pi)nu\)', 'the Fermi constant is measured in muon decay'),
    (r'CVL[LR]_numunueemu', r'BR\(tau->(e|mu)nunu\)', 'the Fermi constant is measured in muon decay'),
    (r'm_mu', r'BR\(tau->enunu\)', 'the Fermi constant is measured in muon decay'),
    (r'm_e', r'.*(K\+|P\+|pi\+)->.*|BR\(tau->(mununu|Knu|pinu)\)', 'the Fermi constant is measured in muon decay'),
    (r'(C\w+_(eecc|ccee|eebb|bbee|ee))|m_e', r'.*(J/psi|psi\(2S\)|Upsilon\(\dS\))->.*', 'normalised to the decay into electrons'),
    (r'C\w+_bsbs|m_s|m_u', r'.*Bs->(K\*0|phi).*', 'mixing of the decaying Bs'),
    (r'm_u', r'(DeltaM|DeltaGamma|a_fs)_.*|DeltaM_d/DeltaM_s|S_.*|eps_K', 'up quarks in the box diagrams'),
    (r'C\w+_dumunu\w+|c4_pi\+munu', r'BR\(pi\+->enu\)', 'normalised to the decay into muons'),
    (r'B->(gamma|omega|rho) .*|Bs->phi .*|(f|m|tau)_(phi|omega|rho0)', r'.*B[0s]->(ee|mumu)gamma.*', 'vector meson poles of the form factors'),
    (r'C\w+_(emuss|muess)|m_s', r'CR\(mu->e, .*', 'strange content of the nucleon'),
    (r'm_B0', r'.*B\+->(D\*?|K\*?|omega|pi|rho).*', 'pole masses of the form factors, defined for the neutral meson'),
    (r'm_D0', r'.*D\+->(K|pi).*', 'pole masses of the form factors, defined for the neutral meson'),
    (r'm_B0|m_K\*0', r'B\+->K\*\+ll delta.*', 'form factors of the neutral meson'),
    (r'm_B0|m_K0', r'B\+->K\+ll delta.*', 'form factors of the neutral meson'),
    (r'm_B\+|m_K\+', r'.*Lambdab->Lambda(ee|mumu|ll| SSE).*', 'threshold of the form factors'),
    (r'BR\(B->Xcenu\)_exp', r'.*B->X[sd]?(ee|mumu|tautau|ll|gamma).*', 'normalised to the semileptonic rate'),
    (r'm_rho0', r'.*(K|K\+|KL|KS|P\+|pi\+)->(pi)?(e|mu|l)nu.*|BR\(tau->(K|pi)nu\)', 'renormalisation scale'),
    (r'm_KL', r'.*(KS|K\+)->pi(e|mu|l)nu.*', 'form factors are parametrised for KL'),
]


# (missing parameter m_x or 'coefficient x', observable, reason)
ABSENT = [
    (r'.*', r'.*[(](Z|W|h|pp|ee)->.*', 'fermion masses are neglected at high energies'),
    (r'm_(B|X|e|mu)', r'.*B->X.*', 'quark-level prediction, normalised to the semileptonic rate'),
    (r'm_(e|mu)', r'.*Lambdab->Lambda(\(1520\))?(ee|mumu).*', 'light leptons are treated as massless'),
    (r'm_Lambda(\(1520\)|b)', r'AFBl?h\(Lambdab->Lambda\(1520\)(ee|mumu)\)', 'ratio of the differential rates'),
    (r'm_Lambda|m_(e|mu)', r'g1/f1\(Lambda->p(e|mu|l)nu\)', 'ratio of form factors'),
    (r'm_(e|mu)', r'RT\(K->pi(e|mu)nu\)', 'ratio of Wilson coefficients'),
    (r'm_K\+|m_KL|m_pi', r'BR\((K\+|KL)->pinunu\)', 'normalised to the semileptonic rate'),
    (r'm_KL', r'BR\(KL->emu,mue\)', 'the mass of the K0 is used'),
    (r'm_(e|mu)', r'BR\(tau->(emue|muemu)\)', 'the light masses are neglected without dipole operators'),
    (r'm_e', r'BR\(tau->emumu\)', 'the mass of the lighter lepton is neglected'),
    (r'm_mu', r'BR\(tau->muee\)', 'the dipole logarithm contains the mass of the lepton pair'),
    (r'm_e', r'CR\(mu->e, .*', 'the electron mass is neglected'),
]

# Z couplings: generation-diagonal SMEFT coefficients every prediction shares through the input parameters
UNIV = {'ll_1221', 'phiD', 'phiWB', 'phil3_11', 'phil3_22'}
GEN = {'e': ('phie', 'phil1', 'phil3', 1), 'mu': ('phie', 'phil1', 'phil3', 2), 'tau': ('phie', 'phil1', 'phil3', 3),
       'u': ('phiu', 'phiq1', 'phiq3', 1), 'c': ('phiu', 'phiq1', 'phiq3', 2), 'd': ('phid', 'phiq1', 'phiq3', 1),
       's': ('phid', 'phiq1', 'phiq3', 2), 'b': ('phid', 'phiq1', 'phiq3', 3)}


def zcouplings(n):
    """SMEFT coefficients of the vertices in Z -> f fbar, or None: (vertices, universal ones allowed)"""
    m = re.fullmatch(r'(Gamma|A|AFB|BR)\(Z->(e|mu|tau|u|c|d|s|b)(e|mu|tau|u|c|d|s|b)\)', n)
    if not m:
        return None
    q, a, b = m.groups()
    out = set()
    for x in {a} | ({'e'} if q == 'AFB' else set()):
        g = GEN[x]
        for o in g[:3]:
            out.add('%s_%d%d' % (o, g[3], GEN[b][3] if x == a else g[3]))
    return out | (UNIV if a == b else set())


def change(n):
    """flavour change of a process: (function deciding the odd quark flavours of a coefficient, odd lepton flavours), or None"""
    s = (inner(n) or [''])[0]
    a, _, b = s.partition('->')
    i, f = PROC.findall(a), PROC.findall(b.split(',')[0])
    if not i or i[0] in ('pp', 'h', 'W', 'Z') or len(i) > 1 and i[0] == 'e':
        return None
    charged = sum(x.startswith('nu') for x in f) == 1
    lep = set()
    for x in i + f:
        lep ^= {x} & set(LEPT)
    if 'l' in f:
        lep = set(LEPT) if charged else set()
    if i[0] in LEPT and len(f) == 3 and all(x in LEPT for x in f):      # l0- -> l1- l2+ l3-
        c = dict.fromkeys(LEPT, 0)
        for x, y in ((i[0], -1), (f[0], 1), (f[1], -1), (f[2], 1)):
            c[x] += y
        return None, c, False
    had = [x for x in i if x in QUARKS]
    heavy = {'sd' if had[0] == 'P+' else x for x in 'bcsd' if had and x in QUARKS[had[0]]}
    heavy = next((x for x in ('b', 'c', 'sd', 's', 'd') if x in heavy), None)
    if had and (had[0] in HIDDEN or len(set(QUARKS[had[0]])) == 1):
        heavy = None
    strange = next((x for x in f if x in QUARKS and 's' in QUARKS[x] and x not in HIDDEN), None) if i[0] in LEPT else None
    light = i[0] in LEPT and charged

    def quarks(q):
        if heavy is None and not strange and not light:
            return not q
        up = len(q & set('uc')) == 1
        h = heavy or ('s' if strange else 'd')
        return len(q) == 2 and set(h) & q and up == charged
    return quarks, lep, charged and 'l' in f


def odd(w):
    out = set()
    for x in WTOK.findall(w.partition('_')[2]):
        if not x.startswith('nu'):
            out ^= {x}
    return {x for x in out if x not in LEPT}, {x for x in out if x in LEPT}


def charges(w, want):
    """does the operator w (or its conjugate) change the lepton numbers by want? Labels are (final, initial) pairs"""
    c = dict.fromkeys(LEPT, 0)
    for i, x in enumerate(WTOK.findall(w.partition('_')[2])):
        if x in c:
            c[x] += 1 if i % 2 == 0 else -1
    return c == want or {k: -v for k, v in c.items()} == want


def mirror(w):
    """names under which the parity-mirrored operator of w may appear (labels of hermitian conjugates and exchanged bilinears included)"""
    a, _, b = w.partition('_')
    t = WTOK.findall(b)
    if a in ('CL', 'CR', 'CVL', 'CVR', 'CSL', 'CSR'):       # left-handed neutrinos: mirrored quark current
        return {a[:-1] + {'L': 'R', 'R': 'L'}[a[-1]] + '_' + b}
    if a.rstrip('p') in ('C7', 'C8', 'C9', 'C10', 'CS', 'CP'):
        if len(t) == 2 and t[0] == t[1]:
            return {w}          # flavour-diagonal dipoles: complex coefficient
        return {(a[:-1] if a[-1] == 'p' else a + 'p') + '_' + b}
    m = re.fullmatch(r'C([VST])([LR]{2})(t?)', a)
    if m and len(t) == 4:
        s = {'L': 'R', 'R': 'L'}
        out = set()
        i, j, k, l = t
        for exch, conj, lab in ((0, 0, (i, j, k, l)), (1, 0, (k, l, i, j)), (0, 1, (j, i, l, k)), (1, 1, (l, k, j, i))):
            y = ''.join(s[c] for c in m.group(2))
            if exch:
                y = y[::-1]
            if conj and m.group(1) != 'V':
                y = ''.join(s[c] for c in y)
            out.add('C%s%s%s_%s' % (m.group(1), y, m.group(3), ''.join(lab)))
        return out
    if a == 'Cgamma':
        return {'Cgamma_' + ''.join(reversed(t))}
    return {w}


# predictions that are known for one chirality only
CHIRAL = [
    (r'C8_b[sd]', r'.*', 'spectator scattering includes the standard chromomagnetic operator'),
    (r'C(7|9|10)_.*', r'.*B[0s]->(ee|mumu)gamma.*', 'amplitudes are known for the standard operators'),
]


def required(n, p, pars):
    """names of masses and lepton flavours the prediction has to know"""
    out = {'m_' + x for x in p.names if 'm_' + x in pars or x in GENERIC}
    lep = {x for x in p.names if x in LEPT}
    if 'l' in p.names:
        m = re.match(r'<?R(e|mu|tau)(e|mu|tau)\b', n)
        lep |= set(m.groups()) if m else {'e', 'mu'}
    return out, lep


@rule('P27')
def locality(ctx):
    r = Result()
    F = ctx.facts('pred')
    r.rule = ('For every evaluation of a prediction registered on a process, the parameters and Wilson coefficients its value depends on (interprocedural '
              'dependence analysis of the source) are compared with the participants of the process named by the observable. No dependence may be on a '
              'parameter that belongs to a particle outside the process (mass, lifetime, decay constant, form factor or conversion parameter of a hadron, charged '
              'lepton mass, light quark mass), on a four-fermion or dipole coefficient with a quark or charged lepton outside it, or, for Z -> f fbar, on a vertex '
              'coefficient of another fermion; every four-fermion or dipole coefficient has to change quark and lepton flavour as the process does, and enters together with the operator of opposite chirality; and the masses of all participants and a coefficient with each charged lepton have to enter. '
              'Inputs that are foreign or absent by convention (normalisation channels, pole masses, massless limits) are listed with their reason.')
    bad, absent, wrong, onesided = {}, {}, {}, {}
    dep = {}
    for n, e in F.pred.items():
        ret = e['ret']
        if not ret or 'deps' not in ret:
            continue
        dep[n] = {t for t in ret['deps'] if t[0] in ('par', 'parc', 'wc')}
    pars = {t[1] for d in dep.values() for t in d if t[0] != 'wc'}
    for n, d in dep.items():
        p = process(n)
        if p is None:
            r.count('unnamed')
            continue
        r.count('predictions')
        z = zcouplings(n)
        ch = change(n)
        for t in d:
            if t[0] != 'wc':
                h, l, q = owners(t[1])
                if not (h or l or q):
                    continue
                r.count('specific_dependences')
                f = {x for x in h if not has(x, p.names)} | (l - p.leptons) | (q - p.quarks)
            else:
                s = sector(t[1])
                if s is None:
                    if z is None:
                        continue
                    s = ({t[1]} - z, set())
                    r.count('vertex_coefficients')
                    f = s[0]
                else:
                    r.count('coefficients')
                    f = (s[0] - p.quarks) | (s[1] - p.leptons)
                    if not f and ch is not None:
                        r.count('flavour_changes')
                        q, l = odd(t[1])
                        if ch[0] is None:
                            no = q or not charges(t[1], ch[1])
                        else:
                            no = not ch[0](q) or (len(l) != 1 if ch[2] else l != ch[1])
                        if no and not exempt(t[1], n):
                            wrong.setdefault(t[1].partition('_')[2], []).append(n)
            if f and not exempt(t[1], n):
                bad.setdefault(t[1], {}).setdefault(n, f)
        names = {t[1] for t in d if t[0] == 'wc' and sector(t[1])}
        for w in names:
            if not WTOK.match(w.partition('_')[2]).group(0).startswith('nu'):
                r.count('chirality_pairs')
                if not mirror(w) & names and not any(re.fullmatch(a, w) and re.fullmatch(b, n) for a, b, _ in CHIRAL):
                    onesided.setdefault(w, []).append(n)
        if not inner(n):
            continue
        ms, lep = required(n, p, pars)
        have = {t[1] for t in d if t[0] != 'wc'}
        miss = {m for m in ms if m not in have and not any('m_' + y in have for y in GENERIC.get(m[2:], ()))}
        r.count('required_masses', len(ms))
        ws = [s for s in (sector(t[1]) for t in d if t[0] == 'wc') if s]
        if ws and not any(t[0] == 'wc' and t[1] == '*' for t in d):
            r.count('required_leptons', len(lep))
            miss |= {'coefficient ' + x for x in lep if not any(x in s[1] for s in ws)}
        for m in miss:
            if not any(re.fullmatch(a, m) and re.fullmatch(b, n) for a, b, _ in ABSENT) and e_ok(F, n):
                absent.setdefault(m, []).append(n)
    G = ctx.facts('impl')
    impls = G.w.registry('Implementation')
    iat = {}
    for (n, cp), e in sorted(G.impl.items(), key=str):
        ret = e['ret']
        q = str(impls[n].attrs.get('quantity')).split(' ')[0]
        p = process(q) if '->' in q else None
        if p is None or not ret or 'deps' not in ret:
            continue
        r.count('implementations')
        for t in ret['deps']:
            if t[0] in ('par', 'parc'):
                h, l, qq = owners(t[1])
                f = {x for x in h if not has(x, p.names)} | (l - p.leptons) | (qq - p.quarks)
            elif t[0] == 'wc':
                s = sector(t[1])
                f = (s[0] - p.quarks) | (s[1] - p.leptons) if s else set()
            else:
                continue
            if f and not exempt(t[1], n):
                bad.setdefault(t[1], {}).setdefault(n, f)
                iat[n] = e
    for k, v in bad.items():
        n = sorted(v)[0]
        r.find('foreign:%s:%s' % (k, n), '%s depends on %s, which belongs to %s: not part of the process' % (few(sorted(v)), k, ', '.join(sorted(v[n]))), at(F, n) if n in F.pred else 'implementation %s' % n)
    for k, v in wrong.items():
        r.find('change:%s:%s' % (k, sorted(v)[0]), '%s depends on Wilson coefficients with flavours %s, whose operators do not change flavour like the process' % (few(v), k), at(F, sorted(v)[0]))
    for k, v in onesided.items():
        r.find('chirality:%s:%s' % (k, sorted(v)[0]), '%s depends on %s but not on the operator of opposite chirality (%s)' % (few(v), k, ', '.join(sorted(mirror(k)))), at(F, sorted(v)[0]))
    for k, v in absent.items():
        r.find('absent:%s:%s' % (k, sorted(v)[0]), '%s does not depend on %s' % (few(v), k if k[:2] == 'm_' else 'any Wilson coefficient with the lepton ' + k.split()[1]), at(F, sorted(v)[0]))
    r.need('predictions', 1500)
    r.need('specific_dependences', 5000)
    r.need('coefficients', 5000)
    r.need('flavour_changes', 5000)
    r.need('required_masses', 2000)
    r.need('chirality_pairs', 10000)
    r.need('implementations', 40)
    r.need('vertex_coefficients', 150)
    return r


def at(F, n):
    """the function whose call paths carry the dependence"""
    f = F.pred[n]['func']
    return 'call paths of %s.%s (prediction of %s)' % (f + (n,)) if f else 'prediction of %s' % n


def exempt(k, n):
    return any(re.fullmatch(a, k) and re.fullmatch(b, n) for a, b, _ in EXC)


def e_ok(F, n):
    """evaluations that raise are judged by P03"""
    return not F.pred[n].get('exc')
