#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


PHYS = ['flavio/physics/*', 'flavio/classes.py', 'flavio/functions.py']
ABS = 'Abstract interpretation of the source (syntax tree) of every prediction; nothing is executed. '

prop('P01', 'Evaluating an observable leaves its inputs and the library state unchanged',
     'Computing any prediction, standard model prediction or auxiliary quantity must not modify the parameter dictionary or Wilson '
     'coefficient object it is given, nor the configuration, the registries or any other library state that a later call can see. '
     'In particular values handed out by caches are never modified in place, and no result is stored for reuse under a key that does not determine it.',
     ['histories', 'inputs'], 'all observables, all argument values, parameter values and Wilson coefficients, any sequence of calls',
     'tests evaluate one observable in one state; a polluted dictionary or cache only shows in a later call with other inputs',
     PHYS, [('predictions', 'functions registered with Prediction / AuxiliaryQuantity in flavio/physics'), ('form factor and coefficient helpers', 'flavio/physics/bdecays/formfactors, flavio/physics/running')],
     'interprocedural mutation/escape analysis (abstract interpretation with ownership tags)',
     ABS + 'Every store, in-place operator and mutating method call is judged by the owner of the object it reaches. Code inside numpy/scipy/wilson/wcxf/ckmutil is trusted by hand-written summaries.')
prop('P02', 'Memoised results depend only on the key they are stored under',
     'Every function whose results are remembered (memoised or stored in a table) returns a value determined by its explicit arguments alone: '
     'changing the configuration, parameters or Wilson coefficients between two calls can never lead to a stale result being returned, and a remembered '
     'value cannot be altered by the code that received it.',
     ['histories', 'configurations'], 'all memoised functions and memo tables reachable from predictions, all call sequences with changing configuration and inputs',
     'stale values only appear in the second call with a changed setting; tests use the default settings',
     ['flavio/physics/running/running.py', 'flavio/physics/bdecays/*', 'flavio/physics/dileptons/*', 'flavio/physics/ckm.py'],
     [('lru_cache decorated functions', 'flavio/physics'), ('module level tables', 'flavio/physics')],
     'interprocedural dependence (information flow) analysis of memoised functions',
     ABS + 'The dependence set of each memoised value must be contained in its key.')
prop('P03', 'Every observable can be evaluated: no lookup or binding error on any path',
     'For every registered observable, with arbitrary Wilson coefficients and arbitrary values of its arguments, the prediction never fails because a parameter, '
     'table entry, configured implementation, function, attribute or variable it refers to does not exist, or because a call does not match the called function. '
     'Every parameter a default prediction reads is declared and has a default value.',
     ['inputs', 'configurations'], 'all observables, all meson/lepton/quark flavour combinations they are registered for, all branches on argument and coefficient values',
     'tests evaluate a few flavours and bins; the generated families contain about two thousand observables and branches that only special inputs reach',
     PHYS + ['flavio/data/*.yml'], [('observable registrations', 'module level loops in flavio/physics'), ('parameter declarations', 'flavio/data/parameters_*.yml')],
     'abstract interpretation of every registered prediction (binding, key and signature resolution)',
     ABS + 'Registrations are reconstructed by interpreting the module-level code abstractly; branches on unknown values are all followed.')
prop('P04', 'Wilson coefficient sectors, bases and names used by predictions exist',
     'Every EFT, basis and sector an observable asks the Wilson coefficient object for exists in the WCxf definition, and every coefficient name it looks up belongs to '
     'the sectors it requested, for every flavour combination. A prediction never silently ignores or invents a coefficient name.',
     ['inputs', 'configurations'], 'all observables and flavour combinations, all coefficients',
     'a misspelt coefficient only matters when new physics is switched on in exactly that operator',
     PHYS, [('coefficient dictionaries', 'flavio/physics/*/ and flavio/physics/eft.py'), ('basis files', 'wcxf package')],
     'name resolution of Wilson coefficient keys against WCxf basis definitions',
     ABS + 'Keys are string constants after abstract interpretation of the name-building code.')
prop('P05', 'Predictions are dimensionally consistent',
     'No prediction adds, subtracts or compares quantities of different mass dimension or takes the exponential or logarithm of a dimensionful quantity, for any flavour combination. '
     'Branching ratios, asymmetries and ratios come out dimensionless, and rates, lifetimes, mass differences and differential branching ratios carry the dimension their definition implies.',
     ['inputs', 'programs'], 'all observables, all values of parameters, arguments and coefficients',
     'tests compare numbers at sample points with tolerances; a wrong power of a mass close to 1 GeV or in a small term is invisible there',
     PHYS, [('amplitudes, rates and form factors', 'flavio/physics')],
     'dimensional (units) type inference over all predictions',
     ABS + 'Abstract domain: mass dimension per value. Where a dimension is unknown (external kernels, fitted literals) no report is made.')
prop('P07', 'CP-conjugate amplitudes conjugate all weak phases consistently',
     'Whenever the CP-conjugate of a process is evaluated, the CKM factors and the Wilson coefficients entering it are conjugated together: no amplitude combines conjugated CKM factors '
     'with unconjugated coefficients or vice versa. CP averages and CP asymmetries use both the process and its conjugate.',
     ['inputs'], 'all observables with CP-averaged or CP-asymmetry definition, all complex Wilson coefficients and CKM phases',
     'with the small standard model phases and real test coefficients a missing conjugation changes numbers below test tolerances',
     ['flavio/physics/bdecays/*', 'flavio/physics/kdecays/*', 'flavio/physics/ckm.py', 'flavio/physics/common.py'],
     [('conjugate_par, conjugate_wc', 'flavio/physics/common.py'), ('amplitude functions', 'flavio/physics/bdecays')],
     'CP-parity type inference (tags for conjugated phases and operators)',
     ABS + 'Values are tagged by the CP state of the CKM phase and of the coefficients they are built from.')
prop('P08', 'Charged lepton flavour violation vanishes without new physics',
     'With all new physics Wilson coefficients equal to zero every charged-lepton-flavour-violating observable is exactly zero, for every meson, lepton pair and bin.',
     ['inputs'], 'all lepton flavour violating observables, all parameter values and bins',
     'tests check a handful of modes; the families are generated for all flavour pairs',
     PHYS, [('LFV observables', 'flavio/physics/taudecays, mudecays, bdecays, zdecays, kdecays, quarkonium')],
     'zero/constant propagation with new physics coefficients set to 0',
     ABS + 'The abstract value of each such observable must be the constant 0.')
prop('P09', 'Every observable is declared completely and consistently',
     'Every observable is registered exactly once and has a prediction that accepts exactly the declared arguments in the declared order, a description, a LaTeX name with balanced math delimiters, '
     'and a place in the taxonomy.',
     ['configurations', 'programs'], 'all registered observables and their arguments',
     'tests look at a few observables; declarations are generated by nested loops over flavours',
     ['flavio/physics/*', 'flavio/classes.py'], [('registration loops', 'flavio/physics')],
     'abstract execution of registration code, declaration/signature cross-check',
     'The module-level code is interpreted abstractly to reconstruct the registry; every entry is checked.')
prop('P10', 'Measurement data refer to existing observables and are well formed',
     'Every entry of the measurement data file shipped with the library names observables registered by the code and gives exactly the arguments they take, with ordered non-empty bins; no value is given twice in one measurement; '
     'correlation matrices are symmetric with unit diagonal and match the number of values; and every value follows the constraint grammar or names a known distribution with the parameters it takes.',
     ['inputs', 'configurations'], 'all entries of the measurement data file',
     'tests read a handful of measurements; a misspelt key or duplicated bin silently changes a fit',
     ['flavio/data/measurements.yml', 'flavio/measurements.py', 'flavio/statistics/probability.py'],
     [('measurement entries', 'flavio/data/measurements.yml')],
     'schema and cross-reference analysis of the data file against the reconstructed registry',
     'The data file is parsed with a duplicate-detecting YAML loader and judged against declarations extracted from the source.')
prop('P11', 'Parameter and configuration data are consistent with the code',
     'Every value in the parameter files belongs to a declared parameter and follows the constraint grammar, no parameter is given conflicting entries within a file, parameter correlation matrices are well formed, '
     'and the default configuration selects, for every auxiliary quantity, an existing implementation of that same quantity with positive scales and ordered thresholds.',
     ['configurations'], 'all parameters, auxiliary quantities and configuration entries',
     'a misplaced or duplicated entry is accepted silently by the loaders',
     ['flavio/data/*.yml', 'flavio/config.py', 'flavio/parameters.py'], [('parameter files', 'flavio/data'), ('implementation selection', 'flavio/data/config.yml')],
     'schema and cross-reference analysis of data files against the reconstructed registry',
     'Data files are parsed with a duplicate-detecting YAML loader and judged against declarations extracted from the source.')
prop('P12', 'Citations are complete on every evaluation and resolvable',
     'Every citation key that evaluating an observable registers exists in the citation database, citations are registered on every evaluation (including when intermediate results come from a cache), '
     'and importing the library or collecting citations in a scope never leaks registrations into another scope.',
     ['histories', 'inputs'], 'all observables, first and repeated evaluations, nested scopes',
     'tests run each evaluation once in a fresh process; a citation lost on a cache hit shows only on repetition',
     ['flavio/citations.py', 'flavio/data/citations.yml', 'flavio/physics/*'], [('register calls', 'flavio/physics')],
     'effect analysis of citation registrations (reachability, cache-hit paths, key resolution)',
     ABS + 'Registrations are effects of the evaluated functions.')
prop('P13', 'Binned and differential observables use their arguments',
     'The prediction of every binned observable depends on both bin boundaries, integrates from the lower to the upper one, and every differential observable depends on its kinematic argument.',
     ['inputs'], 'all binned and differential observables, all bins',
     'tests evaluate single bins',
     ['flavio/physics/bdecays/*', 'flavio/physics/*'], [('bin integrals', 'functions ending in _int')],
     'data dependence analysis from bin arguments to integration limits and results',
     ABS + 'Dependence sets of integration limits and results.')
prop('P15', 'Predictions are deterministic and free of I/O',
     'Evaluating a prediction or auxiliary quantity prints nothing, reads or writes no user files, evaluates no strings as code and draws no random numbers: '
     'its value is a function of its arguments, the parameters, the Wilson coefficients and the configuration only.',
     ['inputs', 'histories'], 'all observables and auxiliary quantities, all branches',
     'only branches taken by the sampled inputs are seen by tests, and tests do not watch stdout',
     PHYS, [('predictions', 'flavio/physics')],
     'effect analysis over the call graph of all predictions',
     ABS + 'Effects are collected over all reachable paths.')
prop('P23', 'Predictions are real numbers',
     'Every prediction returns a real number for all inputs: no observable returns a complex value, None, a boolean, a string or a container on any path.',
     ['inputs'], 'all observables, all argument values, parameters and complex Wilson coefficients',
     'with real test inputs an imaginary part is zero and stays invisible',
     PHYS, [('predictions', 'flavio/physics')],
     'realness type inference over all predictions',
     ABS + 'Abstract domain: real, possibly complex, other type.')
try:
    exec(open(os.path.join(HERE, 'tools', 'gen_more.py'), encoding='utf-8').read())
except FileNotFoundError:
    pass
NA = globals().get('NA', [])


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + [n for n in NA]:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, ensure_ascii=False) + '\n')
            assert len(p['title']) <= 80, p['id']
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p['id'], 'quick_cmd': '%s check.py %s --quick' % (PY, p['id']),
                     'thorough_cmd': '%s check.py %s --thorough' % (PY, p['id']),
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P],
         'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA]}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


main()
