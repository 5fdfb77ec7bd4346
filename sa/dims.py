"""Mass dimensions of the numerical inputs (parameters, Wilson coefficients).

The table is the specification side of the homogeneity property: it is read off
the parameter descriptions (data/parameters_metadata.yml) and the operator
definitions of the WCxf basis files, not off the code under analysis.
None = no claim (the value never raises an alarm).
"""
import re

# ordered: first match wins
PAR_RULES = [
    (r'^m_c BVgamma$', 1),
    (r'^GF$', -2),
    (r'^m_', 1),
    (r'^f_perp_', 1),
    (r'^f_n$', 0),
    (r'^f_', 1),
    (r'^fT_', 1),
    (r'^tau_', -1),
    (r'^DeltaM_', 1),
    (r'^Gamma_phi$', 1),
    (r'^GammaW_', 1),
    (r'^GammaCapture ', 1),
    (r'^DeltaGamma/Gamma_', 0),
    (r'^Gamma12_D ', None),
    (r'^M12_D ', None),
    (r'^Gamma12_', 0),
    (r'^lambda_[12]$', 2),
    (r'^mu_pi\^2$', 2),
    (r'^mu_G\^2$', 2),
    (r'^rho_(D|LS)\^3$', 3),
    (r' BCL (LMVD )?(m0|m\+|m1-|m1\+|m_B\+|m_pi0)$', 1),
    (r'^Lambdab->Lambda\(1520\) (m_q|m_s)$', 1),
    (r' (BSZ|SSE|BCL|IW|CLN|BGL|BCL LMVD) ', 0),
    (r'^Lambdab->Lambda\(1520\) alpha_', 1),
    (r'^Lambdab->Lambda\(1520\) .* uncertainty$', 0),
    (r'^Lambdab->Lambda\(1520\) \w+ [FA]$', 0),
    (r'^Lambdab->Lambda\(1520\)', None),
    (r'^Lambdab->Lambda deltaC[79] [ac]_', 0),
    (r'^Lambdab->Lambda deltaC7 b_', -2),
    (r'^Lambdab->Lambda ', None),
    (r'^nEDM ~rho_', 0),
    (r'^nEDM beta_G$', -1),
    (r'^ReA[02]\(', 1),
    (r'^(D|Sp|Vp|Sn|Vn) ', 0),
    (r'^chi_disp', 0),
    (r'^sigma_(piN|s)$', 1),
    (r'^delta_mN$', 1),
    (r'^alpha_de\(Tl\)', 0),
    (r'^alpha_CS\(Tl\)', -1),
    (r'^alpha_de\(', 2),
    (r'^alpha_CS\(', 1),
    (r'^Kpipi M0 g-', 2),
    (r'^Kpipi M[02] ', 3),
    (r'^a_(eta|chi)', 3),
    (r'^a\d?_(eta|chi)', None),
    (r'^kappa_', 0),
    (r'^B->gamma KM beta', -1),
    (r'^B->gamma KM delta', 1),
    (r'^K->pi sT', -2),
    (r'^K->pi ', 0),
    (r'^c\d?t?_', 0),
    (r'delta_Gamma', 1),
    (r'deltaC[79]p? [bc]_?', None),
    (r'^Xt_', 0),
    (r'', 0),
]
_cr = [(re.compile(p), d) for p, d in PAR_RULES]


def par_dim(name):
    for r, d in _cr:
        if r.search(name):
            return d
    return None


_wc_cache = {}


def wc_dim(eft, basis, info, name):
    """dimension of a Wilson coefficient from its operator definition"""
    if eft.startswith('SMEFT'):
        if name in ('m2',):
            return 2
        if name in ('g', 'gp', 'gs', 'Lambda') or name.startswith('G') and name[1:2] in ('u', 'd', 'e'):
            return 0
        if name.startswith('llphiphi'):
            return -1
        return -2
    if basis != 'flavio':
        return None
    tex = (info or {}).get('tex', '')
    if not tex:
        return None
    d = 0
    if 'G_F' in tex:
        d -= 2
    d += len(re.findall(r'(?<![A-Za-z])m_\{?[a-z\\]', tex))
    if tex.count('G_') >= 3 or '\\widetilde{G}' in tex and '\\bar' not in tex:
        op = 6
    elif re.search(r'f\^\{ABC\}', tex):
        op = 6
    elif 'sigma' in tex and (re.search(r'[FG]_?\{?\\?', tex) and ('F_{' in tex or 'G_{' in tex or 'G^' in tex or 'F^' in tex)) and tex.count('\\bar') <= 1:
        op = 5
    elif 'C7' in name[:2] or 'C8' in name[:2] or name.startswith('Cgamma'):
        op = 5
    else:
        op = 6
    return 4 - op - d
