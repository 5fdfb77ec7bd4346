import re

LEP = ('e', 'mu', 'tau')
LFV = ('emu', 'mue', 'etau', 'taue', 'mutau', 'taumu')


def loc(ev):
    return ev[-1]


def where(l, repo='/repo'):
    if not l:
        return '-'
    if isinstance(l, str):
        return l
    m, q, n = l
    return '%s.%s:%s' % (m, q, n)


def fq(l):
    """function identity without the line number (keys must survive reformatting)"""
    return '%s.%s' % (l[0], l[1]) if l else '-'


def few(names, n=3):
    names = sorted(set(names))
    return ', '.join(names[:n]) + (' and %d more' % (len(names) - n) if len(names) > n else '')


def analysed(res, F, kinds):
    funcs = set()
    for k in kinds:
        d = getattr(F, k)
        res.count({'pred': 'predictions', 'sm': 'sm_predictions', 'impl': 'implementations'}[k], len(d))
        for e in d.values():
            funcs |= e['funcs']
    res.counts['functions'] = len(funcs)
    return funcs


def tok(t):
    if t[0] == 'par':
        return 'parameter %s' % t[1]
    if t[0] == 'parc':
        return 'parameter %s' % t[1]
    if t[0] == 'wc':
        return 'Wilson coefficient %s' % t[1]
    if t[0] == 'arg':
        return 'argument %s' % t[1]
    if t[0] == 'cfg':
        return 'configuration entry %s' % '/'.join(map(str, t[1:]))
    if t[0] == 'ckm':
        return 'CKM element'
    return ' '.join(map(str, t))
