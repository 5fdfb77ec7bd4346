"""Rules about declarations and data files (observables, measurements, parameters, configuration)."""
import ast
import math
import os
import re
import yaml
from check_result import Result
from . import rule
from .common import *


class DupLoader(yaml.SafeLoader):
    """safe YAML loader that records duplicate mapping keys"""

    def construct_mapping(self, node, deep=False):
        seen = {}
        for k, v in node.value:
            kk = self.construct_object(k, deep=True)
            try:
                vv = yaml.serialize(v)
                if kk in seen and seen[kk] != vv:      # repeating the same entry changes nothing
                    self.dups.append((kk, k.start_mark.line + 1))
                seen[kk] = vv
            except TypeError:
                pass
        return super().construct_mapping(node, deep)


def load_yaml(path):
    with open(path, encoding='utf-8') as f:
        ld = DupLoader(f)
        ld.dups = []
        try:
            return ld.get_single_data(), ld.dups
        finally:
            ld.dispose()


def obs_args(o):
    a = o.attrs.get('arguments')
    it = getattr(a, 'items', None)
    if isinstance(a, tuple):
        it = list(a)
    if a is None:
        return []
    if it is None or callable(it):
        return None
    return [x for x in it]


@rule('P09')
def declarations(ctx):
    from sa.values import AFunc, AInst
    r = Result()
    r.rule = ('the import-time registry is reconstructed from the module-level code: every observable is registered once, carries '
              'a prediction, a description, a LaTeX name with balanced math delimiters and a taxonomy entry, and its prediction accepts exactly '
              'the declared arguments in the declared order')
    w = ctx.world()
    O = w.registry('Observable')
    seen = {}
    for c, n, l in w.registered:
        if c == 'flavio.classes.Observable' and n is not None:
            seen.setdefault(n, []).append(l)
    for n, ls in seen.items():
        if len(ls) > 1:
            r.find('dup:%s' % n, 'observable %s is registered %d times; the later declaration replaces the earlier one' % (n, len(ls)), None)
    tax = w.cls['Observable'].attrs.get('taxonomy')
    leaves = {}

    def walk(t, path):
        d = getattr(t, 'd', None)
        if d is None:
            return
        for k, v in d.items():
            if isinstance(k, str):
                leaves.setdefault(k, []).append(path)
            walk(v, path + (k,))
    if tax is not None:
        walk(tax, ())
    for n, o in O.items():
        r.count('observables')
        p = o.attrs.get('prediction')
        args = obs_args(o)
        d, t = o.attrs.get('description'), o.attrs.get('tex')
        for what, v in (('description', d), ('LaTeX name', t)):
            if v in ('', None):
                r.find('no%s:%s' % (what.split()[0], n), 'observable %s has no %s' % (n, what), None)
            elif isinstance(v, str):
                if v.count('$') % 2:
                    r.find('math:%s:%s' % (what.split()[0], n), '%s of %s has unbalanced math delimiters: %r' % (what, n, v), None)
                elif what != 'description' and any(s.count('{') != s.count('}') for s in [v.replace('\\{', '').replace('\\}', '')]):
                    r.find('brace:%s' % n, 'LaTeX name of %s has unbalanced braces: %r' % (n, v), None)
        if leaves and n not in leaves:
            r.find('notax:%s' % n, 'observable %s has no taxonomy entry' % n, None)
        elif leaves:
            if not any(pp and pp[0] == 'Process' for pp in leaves[n]) and len(n) > 1:
                r.find('tax:%s' % n, 'taxonomy of %s does not start with the process category' % n, None)
        if not isinstance(p, AInst):
            r.find('nopred:%s' % n, 'observable %s has no prediction' % n, None)
            continue
        f = p.attrs.get('function')
        if not isinstance(f, AFunc) or args is None:
            r.count('callable_not_resolved')
            continue
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.self_ is not None if hasattr(f, 'self_') else False:
            pos = pos[1:]
        r.count('signatures')
        wh = where((f.mod.name, f.qual, f.node.lineno))
        if not a.vararg:
            n_args = 2 + len(args)
            nd = len(f.defaults)
            if n_args > len(pos) or n_args < len(pos) - nd:
                r.find('arity:%s' % n, '%s declares arguments %s but its prediction takes (%s)' % (n, args, ', '.join(pos)), wh)
                continue
            names = pos[2:]
            for i, x in enumerate(args):
                if i < len(names) and names[i] != x and (names[i] in args or x in names):
                    r.find('order:%s' % n, '%s declares arguments %s but its prediction takes them as (%s)' % (n, args, ', '.join(names)), wh)
                    break
        if len(set(args)) != len(args):
            r.find('dupargs:%s' % n, '%s declares an argument twice: %s' % (n, args), wh)
    r.need('observables', 1500)
    r.need('signatures', 1500)
    return r


def names_of(x):
    """(observable, {arg: value}) of every value of a measurement"""
    out = []
    if 'observables' in x:
        for o in x['observables']:
            out.append((o, {}) if isinstance(o, str) else (o['name'], {k: v for k, v in o.items() if k != 'name'}))
    elif isinstance(x.get('values'), list):
        for v in x['values']:
            out.append((v['name'], {k: a for k, a in v.items() if k not in ('name', 'value')}))
    elif isinstance(x.get('values'), dict):
        out = [(k, {}) for k in x['values']]
    return out


NUM = r'[+-]?\d+\.?\d*'
POW = r'(?:\s*\*?\s*(?:(?:[eE]|(?:1[05]?\s*(?:\^|\*\*)))\s*[+-]?\d+|1?[eE][+-]?\d+))?'
ERR = r'\s*(?:\s*(?:±|\+-|\+/-|\\pm|\+\s*\d+\.?\d*(?:[eE][+-]?\d+)?\s*-|-\s*\d+\.?\d*(?:[eE][+-]?\d+)?\s*\+)\s*\d+\.?\d*(?:[eE][+-]?\d+)?|\(\s*\d+\.?\d*\s*\))+'


def value_ok(s):
    """does a constraint string follow the documented grammar?"""
    s = s.strip()
    if re.match(r'^<\s*%s(?:[eE][+-]?\d+)?\s*@\s*\d+\.?\d*\s*%%\s*(?:C\.?L\.?|C\.I\.)?$' % NUM, s):
        return True
    if re.match(r'^%s(?:[eE][+-]?\d+)?\s*(?:\*/|/\*)\s*\d+\.?\d*$' % NUM, s):
        return True
    m = re.match(r'^\[\s*(%s(?:[eE][+-]?\d+)?)\s*,\s*(%s(?:[eE][+-]?\d+)?)\s*\]%s$' % (NUM, NUM, POW), s)
    if m:
        return float(m.group(1)) <= float(m.group(2))
    body = re.match(r'^\((?P<b>.*)\)(?P<p>%s)$' % POW, s)
    if body and not body.group('b').count('(') != body.group('b').count(')') and re.match(r'^%s%s$' % (NUM, ERR), body.group('b').strip()):
        return True
    return bool(re.match(r'^%s%s%s$' % (NUM, ERR, POW), s)) or bool(re.match(r'^%s(?:[eE][+-]?\d+)?$' % NUM, s))


def corr_problem(C, n):
    if isinstance(C, (int, float)):
        return None if -1 <= C <= 1 else 'correlation coefficient %s' % C
    if isinstance(C, str):
        try:
            float(C)
            return None
        except ValueError:
            return 'correlation %r' % C
    if not isinstance(C, list):
        return 'correlation of type %s' % type(C).__name__
    if len(C) != n:
        return '%d rows for %d observables' % (len(C), n)
    full = all(len(row) == n for row in C)
    tri = all(len(row) == n - i for i, row in enumerate(C))
    if not (full or tri):
        return 'row lengths %s' % [len(r) for r in C][:8]
    for i, row in enumerate(C):
        for v in row:
            if not isinstance(v, (int, float)) or abs(v) > 1:
                return 'coefficient %r in row %d' % (v, i)
        if (row[i] if full else row[0]) != 1:
            return 'diagonal of row %d is not 1' % i
    M = [[0.0] * n for _ in range(n)]
    if full and n > 1:
        sym = all(abs(C[i][j] - C[j][i]) < 1e-9 for i in range(n) for j in range(i))
        up = all(C[i][j] == 0 for i in range(n) for j in range(i))
        if not sym and not up:
            i, j = next((i, j) for i in range(n) for j in range(i) if abs(C[i][j] - C[j][i]) > 1e-9)
            return 'not symmetric: (%d,%d)=%s but (%d,%d)=%s' % (i, j, C[i][j], j, i, C[j][i])
    return None


META = {'experiment', 'inspire', 'hepdata', 'url', 'description', 'values', 'observables', 'correlation', 'comment'}


@rule('P10')
def measurements(ctx):
    r = Result()
    r.rule = ('cross-check of measurements.yml against the reconstructed observable registry: each entry names existing observables, gives '
              'exactly their declared arguments with ordered bin boundaries, no value is given twice, correlation matrices are well formed, '
              'distribution types exist, value strings follow the constraint grammar, and no metadata key is misspelt')
    w = ctx.world()
    O = w.registry('Observable')
    path = os.path.join(ctx.repo, 'flavio', 'data', 'measurements.yml')
    data, dups = load_yaml(path)
    rel = 'flavio/data/measurements.yml'
    for k, line in dups:
        r.find('dupkey:%s' % (k,), 'duplicate key %r: the earlier entry is silently dropped' % (k,), '%s:%d' % (rel, line))
    dists = dist_names(ctx)
    for m, x in data.items():
        r.count('measurements')
        bad = set(x) - META
        for k in bad:
            r.find('meta:%s:%s' % (m, k), 'measurement %r has unknown key %r, which is ignored' % (m, k), rel)
        names = names_of(x)
        if not names:
            r.find('empty:%s' % m, 'measurement %r has no values' % m, rel)
        keys = []
        for n, given in names:
            r.count('values')
            o = O.get(n)
            if o is None:
                r.find('noobs:%s:%s' % (m, n), 'measurement %r refers to observable %r, which does not exist' % (m, n), rel)
                continue
            args = obs_args(o)
            if args is None:
                continue
            if set(given) != set(args):
                r.find('args:%s:%s' % (m, n), 'measurement %r gives arguments %s for %s, which takes %s' % (m, sorted(given), n, args), rel)
            for a, v in given.items():
                if not isinstance(v, (int, float)):
                    r.find('argval:%s:%s' % (m, n), 'argument %s=%r of %s in %r is not a number' % (a, v, n, m), rel)
                elif a.endswith('min') and isinstance(given.get(a[:-3] + 'max'), (int, float)) and not v < given[a[:-3] + 'max']:
                    r.find('bin:%s:%s:%s' % (m, n, v), 'empty bin %s..%s of %s in %r' % (v, given[a[:-3] + 'max'], n, m), rel)
            k = (n,) + tuple(given.get(a) for a in args)
            if k in keys:
                r.find('dup:%s:%s' % (m, '_'.join(map(str, k))), 'measurement %r gives two values for %s; only the last one is used' % (m, k), rel)
            keys.append(k)
        if 'correlation' in x:
            r.count('correlations')
            p = corr_problem(x['correlation'], len(names))
            if p:
                r.find('corr:%s' % m, 'correlation of measurement %r: %s' % (m, p), rel)
        vals = []
        if 'observables' in x:
            vd = x['values']
            for d in (vd if isinstance(vd, list) else [vd]):
                p = dist_problem(d, dists, len(names))
                if p:
                    r.find('dist:%s' % m, 'values of measurement %r: %s' % (m, p), rel)
            continue
        if isinstance(x.get('values'), dict):
            vals = list(x['values'].items())
        elif isinstance(x.get('values'), list):
            vals = [(v['name'], v.get('value')) for v in x['values']]
        for n, v in vals:
            if isinstance(v, str):
                if not value_ok(v):
                    r.find('value:%s:%s' % (m, n), 'value %r of %s in %r does not follow the constraint grammar' % (v, n, m), rel)
            elif isinstance(v, dict):
                p = dist_problem(v, dists, 1)
                if p:
                    r.find('dist:%s:%s' % (m, n), 'value of %s in %r: %s' % (n, m, p), rel)
            elif isinstance(v, list):
                for d in v:
                    p = dist_problem(d, dists, 1)
                    if p:
                        r.find('dist:%s:%s' % (m, n), 'value of %s in %r: %s' % (n, m, p), rel)
            elif v is None:
                r.find('value:%s:%s' % (m, n), '%s has no value in %r' % (n, m), rel)
    r.need('measurements', 200)
    r.need('values', 1000)
    return r


def camel(n):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()


def dist_names(ctx):
    """name -> (required, accepted) constructor arguments, for the distribution classes"""
    src = ctx.src()
    m = src.modules.get('flavio.statistics.probability')
    out = {}
    for c in m.tree.body:
        if isinstance(c, ast.ClassDef):
            init = None
            cc = c
            seen = set()
            while cc is not None and cc.name not in seen:
                seen.add(cc.name)
                init = next((f for f in cc.body if isinstance(f, ast.FunctionDef) and f.name == '__init__'), None)
                if init is not None:
                    break
                base = cc.bases[0].id if cc.bases and isinstance(cc.bases[0], ast.Name) else None
                cc = next((k for k in m.tree.body if isinstance(k, ast.ClassDef) and k.name == base), None)
            if init is None:
                continue
            a = init.args
            pos = [x.arg for x in a.args][1:]
            req = pos[:len(pos) - len(a.defaults)]
            acc = set(pos) | {x.arg for x in a.kwonlyargs}
            short = camel(c.name)
            if short.endswith('_distribution'):
                short = short[:-len('_distribution')]
            for k in (c.name, camel(c.name), short):
                out[k] = (set(req), acc, a.kwarg is not None)
    return out


def dist_problem(d, dists, n):
    if not isinstance(d, dict):
        return 'not a distribution: %r' % (d,)
    k = d.get('distribution')
    if k not in dists:
        return 'unknown distribution %r' % (k,)
    req, acc, kw = dists[k]
    given = set(d) - {'distribution'}
    if not kw and given - acc:
        return '%s does not take %s' % (k, sorted(given - acc))
    if req - given:
        return '%s needs %s' % (k, sorted(req - given))
    for key, v in d.items():
        if key.endswith(('standard_deviation', 'standard_deviations', 'std', '_deviation')) and isinstance(v, (int, float)) and v < 0:
            return 'negative %s' % key
        if key == 'confidence_level' and not (isinstance(v, (int, float)) and 0 < v < 1):
            return 'confidence level %r' % (v,)
    if k in ('numerical', 'numerical_distribution', 'NumericalDistribution') and isinstance(d.get('x'), list) and isinstance(d.get('y'), list):
        if len(d['x']) != len(d['y']):
            return '%d abscissae for %d ordinates' % (len(d['x']), len(d['y']))
    return None


@rule('P11')
def parameters(ctx):
    r = Result()
    r.rule = ('cross-check of configuration and parameter files against the reconstructed registries: every auxiliary quantity has exactly one '
              'configured implementation and it exists for that quantity, every parameter value belongs to a declared parameter, parameters have '
              'metadata, correlations are well formed, and default values exist for every parameter the predictions read')
    w = ctx.world()
    base = os.path.join(ctx.repo, 'flavio', 'data')
    cfg, dups = load_yaml(os.path.join(base, 'config.yml'))
    for k, line in dups:
        r.find('dupkey:config:%s' % (k,), 'duplicate key %r in config.yml' % (k,), 'flavio/data/config.yml:%d' % line)
    A, I, P = w.registry('AuxiliaryQuantity'), w.registry('Implementation'), w.registry('Parameter')
    impl = cfg.get('implementation', {})
    for q in A:
        r.count('auxiliary_quantities')
        if q not in impl:
            r.find('noimpl:%s' % q, 'auxiliary quantity %r has no configured implementation' % q, 'flavio/data/config.yml')
    for q, i in impl.items():
        if q not in A:
            continue       # unused entry; a misspelt one leaves its quantity without implementation
        if i not in I:
            r.find('badimpl:%s' % q, 'configuration selects implementation %r for %r, which does not exist' % (i, q), 'flavio/data/config.yml')
        elif I[i].attrs.get('quantity') != q:
            r.find('wrongimpl:%s' % q, 'configuration selects implementation %r for %r, but it implements %r' % (i, q, I[i].attrs.get('quantity')), 'flavio/data/config.yml')
    for n, i in I.items():
        r.count('implementations')
        if isinstance(i.attrs.get('quantity'), str) and i.attrs['quantity'] not in A:
            r.find('implq:%s' % n, 'implementation %r is registered for %r, which does not exist' % (n, i.attrs['quantity']), None)
    # numeric scales
    for k, v in (cfg.get('renormalization scale') or {}).items():
        r.count('scales')
        if not isinstance(v, (int, float)) or isinstance(v, bool) or not 0 < v:
            r.find('scale:%s' % k, 'renormalization scale %s is %r' % (k, v), 'flavio/data/config.yml')
    th = cfg.get('RGE thresholds') or {}
    if {'mc', 'mb', 'mt'} <= set(th) and not th['mc'] < th['mb'] < th['mt']:
        r.find('thresholds', 'RGE thresholds are not ordered: %s' % th, 'flavio/data/config.yml')
    # parameter files
    meta, dups = load_yaml(os.path.join(base, 'parameters_metadata.yml'))
    unc, d2 = load_yaml(os.path.join(base, 'parameters_uncorrelated.yml'))
    cor, d3 = load_yaml(os.path.join(base, 'parameters_correlated.yml'))
    for f, dd in (('parameters_metadata', dups), ('parameters_uncorrelated', d2), ('parameters_correlated', d3)):
        for k, line in dd:
            r.find('dupkey:%s:%s' % (f, k), 'duplicate key %r in %s.yml: the earlier value is silently dropped' % (k, f), 'flavio/data/%s.yml:%d' % (f, line))
    dists = dist_names(ctx)
    for n, v in unc.items():
        r.count('parameter_values')
        if n not in P:
            r.find('nopar:%s' % n, 'value given for parameter %r, which is not declared' % n, 'flavio/data/parameters_uncorrelated.yml')
        if isinstance(v, str) and not value_ok(v):
            r.find('value:%s' % n, 'value %r of %s does not follow the constraint grammar' % (v, n), 'flavio/data/parameters_uncorrelated.yml')
        elif isinstance(v, dict):
            p = dist_problem(v, dists, 1)
            if p:
                r.find('dist:%s' % n, 'value of %s: %s' % (n, p), 'flavio/data/parameters_uncorrelated.yml')
    seen = set()
    for g in cor:
        names = [next(iter(x)) for x in g['values']]
        r.count('correlated_groups')
        p = corr_problem(g['correlation'], len(names))
        if p:
            r.find('corr:%s' % names[0], 'correlation of %s...: %s' % (names[0], p), 'flavio/data/parameters_correlated.yml')
        for x in g['values']:
            n, v = next(iter(x.items()))
            if len(x) != 1:
                r.find('multi:%s' % n, 'entry %s names several parameters' % sorted(x), 'flavio/data/parameters_correlated.yml')
            if n not in P:
                r.find('nopar:%s' % n, 'value given for parameter %r, which is not declared' % n, 'flavio/data/parameters_correlated.yml')
            if n in seen:
                r.find('twice:%s' % n, 'parameter %s is given a value in two correlated groups; the groups silently replace each other' % n, 'flavio/data/parameters_correlated.yml')
            seen.add(n)
            if isinstance(v, str) and (not value_ok(v) or v.strip().startswith('<')):
                r.find('value:%s' % n, 'value %r of %s does not follow the constraint grammar' % (v, n), 'flavio/data/parameters_correlated.yml')
            r.count('parameter_values')
    for n, p in P.items():
        r.count('parameters')
    r.need('parameters', 400)
    r.need('auxiliary_quantities', 20)
    return r
