prop('P06', 'Sibling observables read the siblings of each other\'s inputs',
     'Observables that differ only by lepton flavour or by the spectator quark (charge state) of the mesons depend on exactly corresponding inputs: relabelling the leptons '
     '(e, mu, tau) or exchanging the spectator (B0 and B+, K*0 and K*+, D0 and D+, ...) in the set of parameters and Wilson coefficients one observable depends on gives the set the sibling depends on. '
     'No prediction takes a mass, lifetime, form factor or coefficient of another flavour than its own process.',
     ['inputs', 'programs'], 'all pairs of registered observables related by an exchange of lepton flavours or of the spectator quark',
     'tests cover one or two members of each generated family; a swapped flavour label is numerically close (m_B0 and m_B+, m_e and m_mu) or only visible with new physics in one flavour',
     PHYS, [('generated families of observables', 'registration loops in flavio/physics'), ('mass, lifetime and coefficient lookups', 'flavio/physics/*')],
     'sibling comparison of dependence sets (data flow from parameters and coefficients to results)',
     ABS + 'The dependence sets are may-dependences; a few physically motivated asymmetries are frozen with reasons in rules/covar.py.')
prop('P14', 'Differential rates vanish outside the physical q2 region',
     'The differential branching ratio of every exclusive semi-leptonic or rare decay is exactly zero (not an error, not a nonzero number) for momentum transfer below the threshold, '
     'above the kinematic end point or negative, and is not identically zero inside; total branching ratios integrate from the threshold to the end point.',
     ['inputs'], 'all differential and total branching ratios of exclusive B, B_s, B_c, Lambda_b, K and D decays, all momentum transfers',
     'tests evaluate points well inside the allowed region; boundary handling is written separately in every module',
     ['flavio/physics/bdecays/*', 'flavio/physics/kdecays/*', 'flavio/physics/ddecays/*'],
     [('guards on q2 in rate functions', 'flavio/physics/bdecays'), ('integration limits of total rates', 'flavio/physics/*')],
     'interval abstract interpretation of predictions over the regions outside and inside the physical range',
     ABS + 'Masses range over intervals of +-2e-4 around their values, q2 over each whole region except a 1% margin at its edge.')
LAY = ['flavio/statistics/*', 'flavio/classes.py', 'flavio/functions.py', 'flavio/parameters.py', 'flavio/measurements.py', 'flavio/io/*', 'flavio/plots/*', 'flavio/math/*', 'flavio/citations.py']
FLOW = 'Syntax-tree analysis of ordinary Python code with per-function summaries; nothing is executed. numpy/scipy/yaml/matplotlib calls are described by hand-written summaries. '
prop('P20', 'Library code never fails on names, attributes or call signatures',
     'In statistics, likelihoods, input/output, plotting, mathematics helpers and the registries, on every path: every name and every attribute of self or of a module exists; '
     'every local variable is assigned before it is used; every call of a function or class of the package matches its signature; '
     'an exception that is constructed is raised; the result of a function without side effects is used; no alternative of a chain of tests is unreachable because an earlier one tests the same condition; '
     'format strings receive exactly the values they show.',
     ['inputs', 'programs', 'configurations'], 'all functions outside flavio.physics, all paths through them',
     'error branches, rarely used options, optional packages and empty inputs are not exercised by the tests, and Python only reports such errors when the line runs',
     LAY, [('combination of distributions', 'flavio/statistics/probability.py'), ('plots', 'flavio/plots/plotfunctions.py'), ('serialisation', 'flavio/io/instanceio.py'), ('minimisation', 'flavio/math/optimize.py')],
     'path-sensitive definite assignment, name/attribute resolution and call-signature matching on the syntax tree',
     FLOW + 'Loops are taken to run at least once and searches that end with break to succeed. One path relation the analysis cannot make is listed with its argument in rules/bind.py (ASSUMED).')
prop('P24', 'Results do not depend on the arbitrary order of sets or on the process',
     'Repeating a computation with the same inputs and random seed gives the same result: no returned list, array, string, dictionary order or written file, '
     'and no assignment of random numbers to quantities, follows the iteration order of a set (which differs between interpreter runs); unordered collections are sorted or only used for order-independent operations. No result depends on the clock, the environment, the identity of the process or a separately seeded generator.',
     ['histories', 'configurations', 'programs'], 'all functions of the package and all values that reach a result, an attribute, a written file or a sequence of random draws',
     'within one process or with the fixed hash seed of the test runner the order never changes, so tests cannot see the difference',
     LAY + ['flavio/physics/*'], [('measurement lists and covariances', 'flavio/statistics/likelihood.py'), ('citations', 'flavio/citations.py'), ('error budgets', 'flavio/functions.py')],
     'interprocedural taint analysis: iteration order of sets as source; results, attributes, files and random draws as sinks',
     FLOW + 'Values are tracked through containers three levels deep and through attributes of package classes.')
prop('P25', 'Functions leave their arguments and the objects they are asked about unchanged',
     'Functions and methods that return something (getters, predictions, likelihoods, serialisation, plots, conversions) do not modify the lists, dictionaries, arrays or objects they are given, '
     'nor the attributes of the object they are called on, nor anything shared with other objects (registries, defaults, class attributes, default arguments); only methods whose purpose is to change their object '
     '(set_..., add_..., remove_..., read_..., load, fit, clear, ...) and private memo attributes are changed.',
     ['histories', 'inputs'], 'all public functions and methods outside flavio.physics, all ways their arguments and attributes can be aliased',
     'a test that passes fresh literals and calls a function once cannot see that the argument or the object was changed by the call',
     LAY, [('argument conversion', 'flavio/classes.py'), ('likelihood evaluation', 'flavio/statistics/likelihood.py'), ('serialisation', 'flavio/statistics/probability.py'), ('plots', 'flavio/plots/plotfunctions.py')],
     'interprocedural alias and mutation (effect) analysis',
     FLOW + 'Each store, deletion and mutating call is attributed to the parameters, attributes or globals the changed object may be reached from.')

prop('P26', 'Options of public functions take effect and are passed on',
     'Every parameter of a public function or method influences what the function does; a function that calls another one with which it shares an option (number of points, threads, number of sigmas, '
     'parameter object, observables to include or exclude, scale factors, ...) passes the value the caller chose on and does not silently use the default; a default object that can be replaced by an argument '
     'is not used behind its back; and every default value of an option is one the function accepts.',
     ['inputs', 'configurations'], 'all functions outside flavio.physics, all combinations of options',
     'tests use defaults, for which an ignored option has the same effect as one that works',
     LAY, [('likelihood options', 'flavio/statistics/likelihood.py'), ('plot data', 'flavio/plots/plotfunctions.py'), ('uncertainties', 'flavio/functions.py'), ('errors of distributions', 'flavio/statistics/probability.py')],
     'backward program slices from results and effects to parameters; matching of options along the call graph',
     FLOW + 'Flow-insensitive slices: an option that reaches a result only on some paths is accepted. Interface parameters an override may ignore are listed with reasons in rules/opts.py.')
prop('P16', 'Each process is evaluated at its one configured scale and effective theory',
     'Every prediction takes its Wilson coefficients, running couplings and running quark masses at one renormalisation scale: the value of the entry of its process in flavio.config (\'renormalization scale\'), '
     'read when the prediction is evaluated, so that changing the configuration changes all parts of the calculation consistently and nothing keeps the value from import time. The effective theory requested '
     '(WET, WET-4, WET-3, SMEFT) and explicit numbers of flavours belong to the process; running quark masses and couplings are not replaced by their reference values or evaluated at hard-coded scales. '
     'Exceptions are evaluated at fixed scales by construction: SM contributions to b->s nu nu and s->d nu nu at the Z mass, kinetic masses in B->X lnu, semi-leptonic kaon and pion decays at m_rho, atomic EDMs and neutrino tridents at fixed low scales, high-mass dilepton tails at the scale of each bin.',
     ['inputs', 'configurations'], 'all predictions and implementations, all values of the configured scales',
     'tests use the default scales, for which a hard-coded or stale value gives (almost) the same number',
     PHYS + ['flavio/config.py'], [('requests for Wilson coefficients', 'flavio/physics/eft.py:get_wc, get_wcxf'), ('running couplings and masses', 'flavio/physics/running/running.py'), ('scales', 'flavio/config.py')],
     'data-flow (origin) analysis of renormalisation scales through all predictions; flavour number and effective theory typing',
     ABS + 'The table of processes, their configuration entries and effective theories is in rules/scale.py.')
prop('P17', 'Each quantity has exactly one constraint, the last one set, in every output',
     'In a collection of constraints (parameters, measurements) every quantity is described by at most one constraint: the last one that was set, none after it was removed. All outputs agree on that: central values, '
     'random values, errors, probabilities, combinations and the YAML form. A quantity of a multivariate constraint is always described by its own component of that distribution, also after constraints of other components were '
     'replaced or removed, and whatever the order of the quantities. Lists and distributions handed in by the caller, and copies of a collection, do not share the bookkeeping.',
     ['histories', 'inputs'], 'all sequences of set, add, remove and copy operations on constraints; all outputs',
     'tests set a constraint once and look at one output; replaced components of multivariate constraints need particular sequences of operations',
     ['flavio/classes.py', 'flavio/functions.py', 'flavio/statistics/likelihood.py'],
     [('bookkeeping', 'flavio/classes.py:Constraints'), ('combination of measurements', 'flavio/functions.py:combine_measurements')],
     'invariant of the two bookkeeping structures checked at every access: who may change them, which entries a loop considers, which component it uses',
     FLOW + 'Accesses are recognised by the two attributes and the names bound from them.')
prop('P18', 'What is written to YAML, dictionaries or files is read back as the same object',
     'Every probability distribution, collection of constraints, measurement, likelihood and covariance that can be exported (get_dict, get_yaml, get_yaml_dict, dump, write_file, save) can be read back by its counterpart '
     '(dict2dist, from_yaml, from_yaml_dict, load, load_dict, read_file), giving an equivalent object: all constructor options and metadata are kept with their values (None and empty, integer, nested or numpy values included), observables with '
     'arguments stay tuples, readers require nothing that writers leave out, and covariances are reordered to the observables of the reader.',
     ['inputs', 'histories', 'configurations'], 'all distributions and ways of constructing them, all exportable classes and their options',
     'tests round-trip a few objects with default options; values that are lost or changed on the way only matter for the others',
     ['flavio/statistics/*', 'flavio/classes.py', 'flavio/io/*', 'flavio/measurements.py', 'flavio/parameters.py'],
     [('dictionary form of distributions', 'flavio/statistics/probability.py:ProbabilityDistribution.get_dict, dict2dist'), ('schemas of likelihoods', 'flavio/statistics/likelihood.py'),
      ('YAML form of constraints', 'flavio/classes.py:Constraints.get_yaml_dict, from_yaml_dict'), ('covariances', 'flavio/statistics/likelihood.py:SMCovariance, MeasurementCovariance')],
     'abstract interpretation of constructors (attribute = argument it is read back as) and matching of writers with readers',
     FLOW + 'yaml, pickle and voluptuous are taken to do what they document. Four stored normal forms (e.g. symmetrised covariances) are listed with reasons in rules/serial.py.')
prop('P27', 'Predictions depend only on the particles and operators of their process',
     'The value of every prediction depends on nothing that does not belong to its process: among the particle-specific parameters (masses, lifetimes, decay constants, form factor and hadronic parameters of hadrons and nuclei, charged lepton masses, light quark masses) '
     'only on those of particles taking part in it, and among the Wilson coefficients only on those of operators that change quark and lepton flavour exactly as the process does (for Z -> f fbar: of the vertices involved). Conversely the masses of all participants and '
     'coefficients with each charged lepton enter, and every operator enters together with that of opposite chirality. The same holds for the form factors and hadronic contributions of a process. Exceptions are conventional: normalisation channels (J/psi -> ee, pi -> mu nu, semileptonic B decays, muon decay for the Fermi constant), pole '
     'and threshold masses of form factors, isospin averages, and limits in which light masses are neglected.',
     ['inputs', 'configurations'], 'all predictions and implementations; all parameters and Wilson coefficients',
     'tests compare central values, where similar masses or lifetimes of another particle, and operators that vanish in the SM, make no visible difference',
     PHYS, [('predictions', 'flavio/physics/*: Prediction'), ('flavour labels', 'flavio/physics/bdecays/common.py:meson_quark, flavio/physics/taudecays, flavio/physics/quarkonium')],
     'interprocedural dependence analysis; flavour and particle typing of the dependences against the named process',
     ABS + 'Conventional exceptions are listed with reasons in rules/local.py; sums and differences that cancel are not recognised (a dependence is a possible influence).')
prop('P28', 'The number of processes does not change the result of a computation',
     'Functions that can spread a computation over several processes (options threads and pool: uncertainties, covariances of predictions, contour data of likelihoods) give the same result for any number of processes: '
     'the same function is evaluated at the same points with the same arguments (positional ones included) as in a single process, results are scaled alike and collected in the order of the points, '
     'and random numbers are drawn once, outside the processes.',
     ['schedules', 'inputs'], 'all functions using pools of processes, all arguments, any number of processes and any order in which they finish',
     'tests run with one process, or compare one symmetric case',
     ['flavio/functions.py', 'flavio/plots/plotfunctions.py', 'flavio/statistics/*'], [('uncertainties and covariances', 'flavio/functions.py:np_uncertainty, sm_covariance'), ('contour data', 'flavio/plots/plotfunctions.py:likelihood_contour_data')],
     'symbolic normal forms of the parallel and the serial branch compared as syntax (application of a function to each point), ordering and effect analysis of the processes',
     FLOW + 'Branches whose form is not recognised are not compared (counted: compared). That multiprocessing transports objects faithfully is taken for granted.')
prop('P21', 'Ratios and lepton averages are formed of the right members with equal weights',
     'Every prediction that is a ratio of two processes (lepton universality ratios R<l1><l2>, R(V -> mu tau) and the like relative to electrons, W and Z width ratios R_f, DeltaM_d/DeltaM_s, R_K,pi and similar) has the first-named process in the '
     'numerator and the second in the denominator, and depends on both. Every prediction for an unspecified light lepton l (BR(B -> D l nu), asymmetries of B -> X l l, denominators of Rtaul) is the average of electron and muon: '
     'both enter, each with weight 1/2, and numerator and denominator of normalised averages use the same weights.',
     ['inputs', 'configurations'], 'all ratio predictions and all predictions averaged over electrons and muons; all parameters and Wilson coefficients',
     'in the SM these ratios are close to 1, and electron and muon modes nearly equal, so that tests of central values often cannot tell',
     PHYS, [('ratios', 'flavio/physics/*: functions *_ratio*, *_leptonflavour*, Rl, Rq, Remutau, RWlnu_fct'), ('averages', 'flavio/physics/*: branches lep == "l"')],
     'interprocedural abstract interpretation: difference of the dependences above and below each division, and constant weights of electron and muon terms through scaling, integration and quotients',
     ABS + 'Wrong weights are reported when they are a factor of two off or unequal; averages formed in ways that are not recognised are not judged (counted: averages).')
NA = []


def na(i, title, st, over, text, why, files, mech, reason):
    NA.append(dict(id=i, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


na('P40', 'Predictions and integrals are accurate to the stated precision',
   'Binned observables, decay rates and running parameters agree with the exact value of the formulas they implement to (better than) per mille precision for all parameters, bins and coefficients, and SM predictions agree with the literature.',
   ['inputs'], 'all observables, all parameters', 'tests compare single numbers with wide tolerances', PHYS, [('integration', 'flavio/math/integrate.py'), ('running', 'flavio/physics/running/running.py')],
   'Accuracy of quadrature, interpolation and series at run-time values, and the correctness of physics formulas against the literature, cannot be bounded by a static argument in reach.')
na('P41', 'Probability distributions are normalised and internally consistent',
   'For every distribution the density integrates to one over its support, the cumulative distribution is its integral, the point functions are inverse to each other and errors enclose the stated probability.',
   ['inputs'], 'all distributions and their parameters', 'tests use a few parameter values', ['flavio/statistics/probability.py'], [('densities', 'flavio/statistics/probability.py')],
   'These are identities between integrals of special functions and numerical grids at run-time values; no static analysis here can decide them.')
na('P42', 'Random samples follow the distributions they are drawn from',
   'Random values of parameters, measurements and predictions, and covariances estimated from them, follow the distributions and correlations of the constraints in the limit of many draws.',
   ['inputs', 'histories'], 'all distributions, all sample sizes', 'tests compare moments of one sample', ['flavio/statistics/*', 'flavio/functions.py'], [('sampling', 'flavio/statistics/probability.py:get_random')],
   'A statement about limits of random samples; static analysis decides only structural parts (which component, which order: P17, P24).')
na('P43', 'Fits and optimisation converge to the maximum of the likelihood',
   'Profile likelihoods and minimisation return the global optimum of the likelihood within the requested tolerance, or report that they failed.',
   ['inputs'], 'all likelihoods and start values', 'tests minimise a few simple functions', ['flavio/math/optimize.py', 'flavio/statistics/*'], [('minimisation', 'flavio/math/optimize.py')],
   'Convergence of iterative optimisation on arbitrary functions is not decidable statically.')
na('P44', 'Wilson coefficients run to the same values along different paths',
   'Running and matching Wilson coefficients between scales, bases and effective theories is independent of intermediate scales and bases up to higher-order terms.',
   ['inputs'], 'all coefficients, scales and bases', 'tests use single coefficients', ['flavio/physics/eft.py'], [('matching and running', 'flavio/physics/eft.py:WilsonCoefficients')],
   'Numerical solutions of differential equations inside the external wilson package; its values are not available to a static analysis of this repository.')
