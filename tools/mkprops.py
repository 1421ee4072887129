"""Writes properties.jsonl and MANIFEST.json (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INF, INT, ANA, KF, SH = (
    'sdepy/infrastructure.py', 'sdepy/integration.py', 'sdepy/analytical.py',
    'sdepy/kfun.py', 'sdepy/shortcuts.py')

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)), note))


prop('P01', 'A process holds exactly the given timeline, values and paths',
     'A process built from a timeline and from values given per path, per '
     'value or per time instant exposes, with shape (times, values, paths), '
     'exactly the given data at each time, whatever container, dtype or '
     'memory layout they come in; inconsistent input is rejected. Its '
     'timeline, paths, values shape, increments of the timeline, reshaped '
     'versions and the copies it makes with the same timeline, or the same '
     'values, agree with the plain data, and copies are independent of it '
     'exactly where they are documented to be.',
     ['inputs'], 'every timeline (scalar, list, integer, negative, float32), '
     'values shape, number of paths, dtype, container and layout, including '
     'empty and one-element ones, and every reshaping or copying request',
     'The tests build processes on a few evenly spaced timelines with default '
     'dtypes and C-contiguous arrays; the data layout space is unbounded.',
     [INF], [('process construction', INF + ': process.__new__'),
             ('reshaping, copies', INF + ': process.shapeas, pcopy, xcopy, '
              'tcopy')],
     ['attributes and values of constructed, reshaped and copied processes'],
     'values and metadata against private copies of the input data')

prop('P02', 'Algebra of processes is elementwise and never mixes timelines',
     'Any numpy ufunc applied to processes, arrays and scalars, in any '
     'operand position, returns elementwise results as numpy would on plain '
     'arrays, as a process carrying the timeline of its operands, where '
     'processes with one time point act as constants. Operations involving '
     'two processes with different timelines of more than one point, or '
     'shapes inconsistent with the timeline, fail without altering any '
     'operand.',
     ['inputs'], 'every ufunc (unary, binary, ternary, multiple outputs, in '
     'place, with out), operand order and kind, timeline and shape '
     'combination',
     'The tests exercise a handful of operators on two fixed timelines; they '
     'cannot cover the product of ufuncs, operand positions and timelines.',
     [INF], [('operand compatibility', INF + ': process._is_compatible'),
             ('ufunc results', INF + ': process.__array_prepare__, '
              '__array_wrap__, __array_finalize__')],
     ['result values, type, timeline; operands after the operation'],
     'elementwise oracle on plain arrays and timeline compatibility rules')

prop('P03', 'Indexing returns the selected data with the matching timeline',
     'Indexing a process as an array gives the same values as indexing its '
     'plain data. Process-specific indexing by time, values or paths selects '
     'along that dimension only, keeps the number of dimensions of a process '
     '(or the documented ones), returns views where numpy would, and attaches '
     'the timeline of the selected instants.',
     ['inputs'], 'every valid index (integers, numpy integers, slices with '
     'any step, masks, index arrays, ellipsis, tuples) along time, values '
     'and paths, on every shape',
     'The tests index a few shapes with a few slices; numpy indexing has '
     'many kinds of keys that combine.',
     [INF], [('process indexing', INF + ': process.__getitem__')],
     ['values, shape, timeline and memory sharing of the indexed process; '
      'assignment through views'],
     'same index applied to the plain data and to the timeline separately')

prop('P04', 'Array methods on a process behave as on plain arrays',
     'Methods and functions of numpy arrays that are not overridden, applied '
     'to a process, return the values they return on its plain data. '
     'A result with as many rows as time points may keep the timeline of '
     'the process; any other result is not accepted as a process with that '
     'timeline by further operations.',
     ['inputs'], 'every array method or function (reductions along any axis, '
     'sorting, reshaping, transposition, concatenation, in-place updates, '
     'pickling and copying), argument and shape',
     'Tests compare very few methods; views without a matching timeline '
     'arise from combinations that were never sampled.',
     [INF], [('array subclass protocol', INF + ': process.'
              '__array_finalize__, __array_wrap__')],
     ['results of array methods on processes and on their plain data'],
     'differential against the plain array')

prop('P05', 'Interpolation in time honours nodes, kind and constant ends',
     'Evaluating a process at any time returns, for each value and path '
     'independently, the stored value at time points, the stated '
     'interpolation between them, and the first or last value outside; '
     'evaluating increments returns the difference of values at the two '
     'times. Interpolation kind, rebasing onto another timeline and '
     'piecewise constant processes agree with it, for queries of any shape.',
     ['inputs'], 'every timeline (uneven, negative, one point), query time '
     'or array of times, values shape and interpolation kind',
     'The tests query few points on few timelines; off-by-one errors at '
     'nodes and ends appear for specific queries only.',
     [INF], [('interpolation', INF + ': process.interp, __call__, rebase'),
             ('piecewise constant processes', INF + ': piecewise')],
     ['values returned by interpolating calls'],
     'scalar interpolation oracles, element by element')

prop('P06', 'Summaries across paths, values or time equal direct statistics',
     'Minimum, maximum, sum, mean, variance and standard deviation across '
     'paths, across values or along time equal the statistics of the '
     'collected scalars, for every dtype, including options for precision, '
     'degrees of freedom and output arrays, and are processes with the '
     'documented shape and timeline.',
     ['inputs'], 'every process (integer, float, complex, boolean, large '
     'offset), summary and option',
     'The tests compare summaries with the same numpy calls on a few float '
     'processes.',
     [INF], [('summaries', INF + ': process.pmin ... tstd')],
     ['values, dtype, shape and timeline of summary processes'],
     'explicit loops over the collected scalars')

prop('P07', 'Increments, derivative and integral agree on any timeline',
     'Increments (also scaled by a power of the time step, forward or '
     'backward), derivative and integral of a process equal their definition '
     'on uneven timelines, with results attached to the documented instants; '
     'integrating the derivative recovers the process up to its initial '
     'value and the derivative recovers what was integrated.',
     ['inputs'], 'every timeline (uneven, integer, short), shape, dtype, '
     'exponent and direction',
     'The tests verify them on a few timelines, mostly even, where shifts '
     'and wrong step weights cancel out.',
     [INF], [('time calculus', INF + ': process.tdiff, tder, tint, '
              'tcumsum')],
     ['values and timeline of resulting processes'],
     'explicit loops and inverse relations')

prop('P08', 'Estimated chf and cdf are the exact sample averages',
     'The characteristic function and the cumulative distribution estimated '
     'from a process at given times and points equal the average over paths '
     'of the complex exponential and of the indicator of not exceeding the '
     'point, interpolating the process in time where needed, with the '
     'documented shape.',
     ['inputs'], 'every process, time argument (none, scalar, array) and '
     'evaluation points of any shape, including points tied with sample '
     'values',
     'The tests check approximate agreement with theory on some processes; '
     'ties and shapes are not covered.',
     [INF], [('estimators', INF + ': process.chf, process.cdf')],
     ['returned estimates'], 'scalar loops over paths')

prop('S01', 'Sources follow the call protocol and use only their generator',
     'Every stochasticity source called with times and increments of any '
     'broadcastable shapes returns an array shaped as times, then values, '
     'then paths, with the requested dtype, drawing randomness only from '
     'its own generator: equal seeds give equal realizations, and no other '
     'generator or argument is modified. Invalid instantiation requests, '
     'as seeds in place of generators or inconsistent correlations, are '
     'rejected.',
     ['inputs', 'histories', 'configurations'],
     'every source class, shape, dtype, generator type and sequence of calls',
     'The tests use fixed shapes and one generator, and do not watch the '
     'global generators.',
     [INF], [('source base class', INF + ': source.__init__'),
             ('source calls', INF + ': wiener_source, poisson_source, '
              'cpoisson_source, _antithetics, true_source')],
     ['shape, dtype, values; states of generators before and after'],
     'exact protocol monitor, with watched generators')

prop('S02', 'Wiener increments have the stated covariance and independence',
     'Increments of a Wiener source are Gaussian with zero mean and '
     'covariance equal to the absolute time step times the correlation '
     'matrix stated at the time of each increment, whether given as constant, '
     'array, process or function of time; they are independent across '
     'calls, times and paths. A zero time step gives a null increment.',
     ['inputs', 'histories'],
     'every correlation specification, values shape and array of times and '
     'steps of any sign',
     'The tests check a few fixed-seed realizations with stored errors; wrong '
     'correlations at some component, time or shape go unseen.',
     [INF], [('Wiener source', INF + ': wiener_source.__call__'),
             ('correlations', INF + ': _get_corr_matrix, '
              '_const_rho_to_corr')],
     ['whitened increments'],
     'moment, Kolmogorov-Smirnov and independence tests of whitened '
     'increments, each with false alarm probability below 1e-11')

prop('S03', 'Poisson and compound Poisson sources have the stated jump law',
     'Poisson increments are independent counts with mean equal to the '
     'intensity, evaluated at the time of the increment, times the step, '
     'taken with the sign of the step. Compound increments are the sum of '
     'as many independent jumps, each drawn from the jump distribution '
     'valid at that time; the jumps are those counted by the underlying '
     'Poisson source and none is lost or shared among values, times or '
     'paths.',
     ['inputs', 'histories'],
     'every intensity and jump distribution (constant, array, function of '
     'time, process), shape of times, values and paths',
     'The tests sample few intensities with stored errors; jumps assigned to '
     'wrong elements keep the overall averages.',
     [INF], [('Poisson source', INF + ': poisson_source.__call__'),
             ('compound Poisson source', INF + ': cpoisson_source')],
     ['increments, with tagged and degenerate jump sizes; generator of jump '
      'sizes'],
     'exact conservation of tagged jumps; chi-square and moment tests')

prop('S04', 'Antithetic sources pair paths exactly',
     'Antithetic sources return, in the second half of the paths, the exact '
     'opposite (for odd sources) or the same (for even sources) increments '
     'as in the first half, for any shape of times and values; the first '
     'half follows the law of the plain source; odd numbers of paths are '
     'rejected.',
     ['inputs', 'histories'], 'every antithetic source, shape and sequence '
     'of calls, also within integrated processes',
     'The tests check a single shape per source.',
     [INF], [('antithetic wrapper', INF + ': _antithetics')],
     ['pairs of paths'], 'exact comparison of paired paths')

prop('S05', 'Sources with memory never change an already realized value',
     'A source with memory returns, at any time already queried, the same '
     'value forever, increments equal to differences of values, and the '
     'initial value at the initial time, whatever the order of queries '
     '(inside or outside the explored range, before or after the start, '
     'scalars, arrays, indexed parts). Compound sources realize each '
     'jump once: jumps found by inserting new times add up to the jumps '
     'already realized, and indexed parts share the memory of the whole.',
     ['histories', 'inputs'], 'every history of queries, tolerance, shape, '
     'correlation, intensity and jump distribution',
     'The tests run a few short query sequences; violations need specific '
     'orders, ties within tolerance, or null jumps.',
     [INF], [('memory', INF + ': true_source._retrieve_old_or_generate_new'),
             ('insertion', INF + ': true_wiener_source.new_inside, '
              'true_poisson_source.new_inside, '
              'true_cpoisson_source.new_inside')],
     ['value at each queried time over the whole history'],
     'online monitor of the time to value map, with tagged jumps')

prop('S06', 'Realized paths of sources with memory have the right law',
     'Whatever the order in which times are queried, the increments of a '
     'source with memory between consecutive realized times are independent '
     'and follow the law of the corresponding memoryless source, with '
     'correlation and intensity as stated, also when times are inserted '
     'between or before already realized ones.',
     ['histories', 'inputs'], 'every order of queries, correlation and '
     'intensity, constant or time dependent where supported',
     'A wrong conditional law in inserted points leaves queries in '
     'chronological order, which the tests use, unaffected.',
     [INF], [('bridges', INF + ': true_wiener_source.new_inside, '
              'true_poisson_source.new_inside, '
              'true_cpoisson_source.new_inside')],
     ['increments between consecutive realized times'],
     'distribution tests on increments obtained by bridging')

prop('S07', 'Jump distributions have exact moments and transform correctly',
     'The preset jump distributions (normal, uniform, exponential, double '
     'exponential) draw samples from the stated law and report its exact '
     'mean, variance, deviation and exponential mean, elementwise for '
     'array parameters and at each time for time dependent ones. Mapping a '
     'distribution by a function gives exactly the mapped samples.',
     ['inputs'], 'every admissible parameter value, array shape, time '
     'dependence and mapping',
     'The tests check a few scalar parameters.',
     [INF], [('distributions', INF + ': norm_rv, uniform_rv, exp_rv, '
              'double_exp_rv'), ('mapping', INF + ': rvmap')],
     ['samples and reported moments'],
     'quadrature of the stated density and distribution tests')

prop('M01', 'Cumulated Monte Carlo statistics equal those of all the data',
     'However samples are split into updates, along any paths axis and in '
     'any container or dtype, the mean, variance, deviation, skewness, '
     'kurtosis, standard error and number of paths are those of all data '
     'taken together, also with antithetic samples, without '
     'modification of the samples; inconsistent updates are rejected '
     'leaving the statistics unaffected.',
     ['histories', 'inputs'], 'every sequence of updates, batch size, shape, '
     'dtype, magnitude and offset',
     'The tests split a few samples in equal batches; the combination '
     'formulas have errors that vanish for equal sizes or for null means.',
     [INF], [('updates', INF + ': montecarlo.update, _update_moments')],
     ['statistics after each update'],
     'direct statistics of all of the data seen so far')

prop('M02', 'Histograms count every sample once and views track the parent',
     'At any time the counts in bins, and the number of paths out of range, '
     'equal those of all of the data seen so far, with bin edges fixed by the '
     'first sample or given explicitly, and the density histogram has unit '
     'mass over the bins; no sample is counted twice or lost, on edges included. An instance '
     'indexed at selected values reports at any later time the statistics of '
     'its parent at those values.',
     ['histories', 'inputs'], 'every binning specification, sequence of '
     'updates, position of samples relative to edges, and selection',
     'The tests compare one or two binnings after updates with data well '
     'inside range.',
     [INF], [('histograms', INF + ': montecarlo._update_histogram, '
              'histogram, density_histogram, outpaths, outerr'),
             ('selection', INF + ': montecarlo.__getitem__')],
     ['histograms, out of range counts, selected instances'],
     'recount of all data; comparison of each view with its parent')

prop('M03', 'Estimated pdf and cdf follow from the cumulated histogram',
     'Densities and cumulative distributions estimated by the kernel method '
     'are the stated mixture of kernels over the bins weighted with their '
     'counts, with bandwidth as given, and those by interpolation pass '
     'through the density histogram at the midpoints of the bins, or through '
     'the cumulated mass at their edges, and are constant outside; kernel '
     'densities have unit mass and are the slope of the corresponding '
     'distributions, which are monotone.',
     ['inputs', 'histories'], 'every histogram (uneven bins, data out of '
     'range), method, kernel, bandwidth and array of evaluation points',
     'The tests compare estimates with theory within broad tolerances.',
     [INF], [('estimators', INF + ': montecarlo._pdf_or_cdf, pdf, cdf')],
     ['estimated pdf and cdf'], 'explicit mixtures and quadratures')

prop('I01', 'Step schedules cover the timeline exactly, in both directions',
     'A simulation performs steps starting from the initial time point, '
     'forward to the last and backward to the first, that hit every '
     'requested integration step and every point of the timeline, in order, '
     'with none skipped or repeated, and stores the state at each point of '
     'the timeline exactly once, when reached; the result carries the '
     'requested timeline. Custom steps, adaptive steps, memory of past '
     'steps and step reports obey the same accounting, and invalid timelines '
     'are rejected.',
     ['inputs', 'histories', 'configurations'], 'every timeline (uneven, '
     'integer, unsigned, negative, one or two points), number or array of '
     'steps, starting point, memory depth and adaptive step',
     'The tests run a few schedules; boundary conditions between steps and '
     'time points have many coincidences.',
     [INT], [('schedule', INT + ': paths_generator.__call__, pace, '
              '_generate_paths, _store_if_reached')],
     ['events of each simulation: begin, each step, each storage, end'],
     'online checker of the trace of simulation events')

prop('I02', 'Integration applies the Euler-Maruyama step to the equation',
     'Each step of an integration adds to the state the sum of each term of '
     'the equation, evaluated at the time and state before the step, times '
     'the matching differential over that step, drawn once per step; '
     'parameters are passed at their value at that time, whether constants, '
     'arrays, processes or functions, initial conditions and results pass '
     'through the documented transformations, and all user hooks are invoked '
     'in the documented order.',
     ['programs', 'inputs', 'configurations'], 'every equation (any subset '
     'of differentials, custom ones, state and time dependent terms), '
     'parameter kind, schedule and direction',
     'The tests integrate a few equations, mostly in chronological order and '
     'with constant parameters.',
     [INT], [('Euler step', INT + ': integrator.euler_next, '
              'SDE.A, SDE.dZ'), ('parameters', INT + ': SDE.__init__')],
     ['recorded source calls, hook calls and realized paths'],
     'recurrence evaluated on recorded increments')

prop('I03', 'Systems of equations dispatch each component correctly',
     'In a system of equations each equation receives and updates its own '
     'component, is driven by its own part of the stochasticity sources, and '
     'yields its own process with the common timeline; values with or '
     'without an added axis, logarithmic statement and extraction of '
     'components agree with each other.',
     ['programs', 'inputs'], 'every number of equations, values shape, '
     'choice of differentials, axis layout and logarithmic flag',
     'The tests use systems with two equations and symmetric shapes.',
     [INT], [('systems', INT + ': SDEs.A, pack, unpack, shapes, result')],
     ['recorded source calls and realized processes'],
     'recurrence with documented dispatch of components')

prop('I04', 'Preset processes integrate their documented equations',
     'Every preset process (Wiener, lognormal, Ornstein-Uhlenbeck, '
     'Hull-White, Cox-Ingersoll-Ross, Heston, jump-diffusions) follows, path '
     'by path, its documented equation driven by the increments of its '
     'sources, including truncation of negative volatilities, sum of '
     'factors, jump compounding, and reported diagnostics, in both time '
     'directions.',
     ['inputs', 'configurations'], 'every preset process, parameter value '
     'and kind, values shape, starting point and steps',
     'The tests compare averages at fixed seeds, or shapes only; an error '
     'in a term shows up only for non default parameters.',
     [INT], [('presets', INT + ': *_SDE classes and *_process classes')],
     ['realized paths with recorded increments'],
     'documented equations integrated on recorded increments')

prop('I05', 'Grids of parameters equal separate single-valued runs',
     'A simulation with array-like parameters and initial conditions across '
     'values and paths gives, for each value and path, the result of the '
     'separate simulation with the corresponding scalar parameters, driven '
     'by the same increments.',
     ['inputs', 'configurations'], 'every process, choice of which '
     'parameters vary over values, paths, both, or in time',
     'The tests check shapes of results, and few values.',
     [INF, INT], [('parameters', INF + ': _variable_param_setup'),
                  ('integration', INT + ': SDE')],
     ['realized paths of the grid and of single runs'],
     'element by element comparison')

prop('I06', 'Malformed integration requests are rejected',
     'Requests with invalid timelines, starting points, steps, methods, '
     'shapes of parameters or sources, unknown or misplaced arguments, or '
     'equations returning invalid terms raise an error of the documented '
     'kind and never return a process.',
     ['inputs', 'programs'], 'every kind of malformed request on every '
     'process and on user equations',
     'The tests cover some kinds on some processes.',
     [INT], [('validation', INT + ': paths_generator.__call__, '
              'SDE.__init__, integrator.__init__')],
     ['errors raised'], 'rejection is required for each request')

prop('I07', 'Simulations are reproducible and free of side effects',
     'Equal requests with equally seeded generators give equal results in '
     'any interleaving with other simulations; a process generator can be '
     'called again with any timeline without traces of former calls, even '
     'if interrupted; '
     'arguments, earlier results and all generators other than its own '
     'are left untouched.',
     ['histories', 'configurations', 'inputs'], 'every process, generator '
     'kind and history of calls on interleaved generators',
     'The tests run each simulation once, in a fixed order.',
     [INT, INF], [('state of a simulation', INT + ': paths_generator'
                   '.__call__, SDE.begin'),
                  ('generators', INF + ': default_rng, source.rng')],
     ['results of repeated and interleaved calls, states of generators'],
     'pairs of runs, watched arguments and generators')

prop('I08', 'Simulations driven by the same realized noise agree',
     'Simulations driven by the same source with memory, or by a realized '
     'process used as source, receive its increments over their steps: '
     'different timelines, starting points and equations see the same noise, '
     'and finer steps converge to the exact solution on that path.',
     ['histories', 'inputs'], 'every shared source, timeline, steps and '
     'starting point',
     'The tests do not share sources among simulations with different steps.',
     [INT, INF], [('sources', INF + ': _source_setup, true_source'),
                  ('integration', INT + ': SDE.dZ')],
     ['paths of simulations sharing noise'],
     'closed form solutions on the recorded noise, convergence rates')

prop('I09', 'Simulated preset processes have the analytical law',
     'The distribution of preset processes simulated with their own default '
     'sources has the moments implied by the scheme and converges to the '
     'analytical mean, variance, density and characteristic function of '
     'the process, with components correlated as requested.',
     ['inputs', 'configurations'], 'every preset process and admissible '
     'constant parameters, correlations, steps',
     'The tests compare with stored errors for one parameter set each.',
     [INT, ANA], [('presets', INT + ': *_process classes'),
                  ('analytical results', ANA)],
     ['sample moments and characteristic functions'],
     'exact moments of the scheme, tests with false alarm below 1e-11')

prop('I10', 'All ways to state an equation are equivalent',
     'An equation, or system, stated as a decorated function, as a decorated '
     'class or by subclassing, with explicit or inferred number of equations '
     'and sources, gives identical results from equal generators; the '
     'test evaluation used for inference leaves no trace.',
     ['programs', 'inputs'], 'every equation or system, and form of '
     'statement',
     'The tests use each form on one or two examples.',
     [INT], [('decorator', INT + ': integrate, _SDE_from_function')],
     ['results of equivalent statements'], 'comparison of equivalent forms')

prop('I11', 'Equations, sources and integrators combine as requested',
     'Each differential is drawn from the source instance given, or from '
     'an instance of the given (else default) class set up with the shape, '
     'paths, data type, generator and parameters of the request, with '
     'identical results in all of these ways; any equation combines with '
     'user-defined integration methods, whether selected by name or '
     'overridden, fed with its own terms and increments.',
     ['configurations', 'programs', 'inputs'], 'every process or equation, '
     'way to give sources, source parameter and integration method',
     'The tests use the built in method only, and default sources mostly.',
     [INT, INF], [('sources', INT + ': SDE.source_dw, source_dn, source_dj'),
                  ('methods', INT + ': integrator.__init__, next')],
     ['instantiations of sources', 'results', 'steps taken'],
     'recording source classes and methods; differential and recurrences')

prop('A01', 'Analytical statistics are those of the stated process',
     'Analytical mean, variance, standard deviation, density and cumulative '
     'distribution of each preset process are those of its law at any time '
     'and for any admissible parameters: densities are non negative with '
     'unit mass, consistent with the other statistics and with evolution in '
     'two stages. Arrays of arguments are evaluated element by element with '
     'broadcasting.',
     ['inputs'], 'every analytical function, time, parameters, evaluation '
     'points and argument shapes',
     'The tests check shapes, and values against simulations at one '
     'parameter set (often with default values that hide terms).',
     [ANA], [('statistics', ANA + ': *_mean, *_var, *_std, *_pdf, *_cdf')],
     ['returned values'],
     'moment equations, mixtures, quadratures, Markov property')

prop('A02', 'Black-Scholes values are discounted expected payoffs',
     'Call and put values equal the discounted expected payoff of a lognormal '
     'price, deltas are their sensitivity to the initial price, and '
     'they satisfy put-call parity, no-arbitrage bounds, monotonicity and '
     'homogeneity, also in the limits of null time or volatility; array-like '
     'arguments are evaluated element by element.',
     ['inputs'], 'every strike, time, initial value, rate, yield, '
     'volatility, limiting cases and argument shapes',
     'The tests compare one set of parameters with a simulation.',
     [ANA], [('option formulae', ANA + ': bsd1d2, bscall, bsput, '
              'bscall_delta, bsput_delta')],
     ['returned values'],
     'definition, quadrature of payoffs, no-arbitrage relations')

prop('A03', 'Characteristic functions match the law of the process',
     'Characteristic functions of the preset processes equal the expectation '
     'of the complex exponential: they are normalized, bounded and '
     'hermitian, imply the analytical moments, and match simulated values; '
     'the densities obtained from them by inversion equal the actual '
     'densities, with the documented shapes.',
     ['inputs'], 'every such function, time, parameters and arguments',
     'The tests compare with simulations at one set of parameters.',
     [ANA], [('characteristic functions', ANA + ': *_chf'),
             ('inversion', ANA + ': _chf_to_pdf, *_log_pdf')],
     ['returned values'],
     'Poisson mixtures, Riccati equations, moments, simulations')

prop('K01', 'Managed parameters are stored, merged and overridden exactly',
     'An object with managed parameters evaluates as the undecorated class or '
     'function with the stored parameters, overridden by those given at '
     'the call; deriving or evaluating with new parameters never alters the '
     'object, its parent or other objects, and the parameters on record are '
     'those in effect. Definitions that would make parameters ambiguous, and '
     'unknown parameters, are rejected.',
     ['programs', 'histories'], 'every class or function signature, and '
     'every history of instantiations, derivations and evaluations',
     'The tests run short histories on two signatures.',
     [KF], [('decorator', KF + ': _kfunc_decorate_class, '
             '_kfunc_decorate_function, kfunc')],
     ['results, parameters on record, constructor and evaluation events'],
     'model of expected parameters for each object; undecorated twin')

prop('K02', 'Shortcuts are equivalent to the classes they abbreviate',
     'Each shortcut for sources, processes and analytical functions gives, '
     'however parameters are split among instantiation, derivation and '
     'evaluation, the result of the class or function it stands for with '
     'the same parameters and generator, and reports its parameters.',
     ['inputs', 'histories'], 'every shortcut, parameter and way to '
     'supply it',
     'The tests check parameters of a few shortcuts, and no results.',
     [SH, KF], [('shortcuts', SH), ('decorator', KF)],
     ['results of shortcuts and full names'],
     'differential against the plain classes and functions')


prop('K03', 'Omitted parameters take their documented defaults',
     'Omitting any combination of the optional parameters of a source, '
     'process, jump size distribution, analytical function, montecarlo or '
     'process object, or of their methods, gives the same as passing the '
     'documented defaults, by position (in the documented order) or by '
     'name.',
     ['inputs', 'programs'], 'every class, function, shortcut and every '
     'subset of its optional parameters',
     'The tests mostly pass parameters explicitly.',
     [INF, INT, ANA, KF, SH], [('signatures', INF + ', ' + INT + ', ' + ANA)],
     ['results with omitted and explicit parameters'],
     'differential against a table of defaults transcribed from the '
     'documentation')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, note in P:
        i = p['id']
        checks.append(dict(
            property=i, quick_cmd=f'./run.sh {i} quick',
            thorough_cmd=f'./run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='runtime monitoring: ' + note,
            level='exploration',
            level_note='Held on the executions driven (counts, distinct '
            'workloads and monitored events are in the evidence file), '
            'randomized from VERIF_SEED. Trusts numpy and scipy, and the '
            'monitor\'s oracle, written independently of the code.'))
    m = dict(version=1,
             setup_cmd='./run.sh setup',
             checks=checks, not_applicable=[],
             notes='No hooks are needed: the code under test is pure '
             'Python, and all monitors observe it at its API, through '
             'recording sources, generators and subclasses.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
