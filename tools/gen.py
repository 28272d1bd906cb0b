#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single list of properties below."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from registry import CHECKS
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), technique, note))
C = 'lib/hnco/functions/collection'
A = 'lib/hnco/algorithms'

prop('C01', 'Every benchmark function returns the value of its published definition',
     "For every function of the collection, every valid instance of it (built in memory, drawn at random or loaded from a file) and every bit vector of its size, evaluation returns the value given by the function's published definition for that instance. Evaluation depends only on the instance and the bit vector: repeated, interleaved and thread-safe evaluations return the same value and leave the instance unchanged. Displaying or describing a function or a solution never changes it. Instances drawn at random follow the documented distributions: normal weights with the given deviation, uniform integers in the stated range, clauses of k distinct variables with fair signs.",
     ['inputs', 'configurations', 'histories'], 'all function kinds x all instances (sizes, weights, clauses, structures, parameters) x all bit vectors x all orders of evaluation',
     'the unit tests evaluate a few fixed instances, mostly at the optimum or on random instances without an independent oracle',
     [C + '/', 'lib/hnco/functions/function.hh'],
     [('evaluate / evaluate_safely of each function', C + '/*.cc'), ('instance construction from generators, files', C + '/*.hh')],
     ['return value of evaluate on seeded instances and points'],
     'runtime monitoring: reference-model oracle over sanitized executions',
     'independent reference models of all function kinds decide each sampled evaluation; instances and points are sampled')
prop('C02', 'A declared maximum is an upper bound that some bit vector attains',
     "Whenever a function (plain, or wrapped by modifiers or controllers) declares that its maximum is known, no bit vector has a value above the declared maximum and at least one bit vector has exactly that value. A function which does not declare a known maximum does not report one. Stopping on the maximum therefore happens if and only if a global maximum has been evaluated.",
     ['inputs', 'configurations'], 'all functions declaring a maximum x all instances x all bit vectors',
     'tests check the declared maximum at one hand-picked optimum of a few instances; they never establish that it is an upper bound for all bit vectors and instance parameters',
     [C + '/', 'lib/hnco/functions/modifiers/', 'lib/hnco/functions/controllers/'],
     [('has_known_maximum / get_maximum', C + '/*.hh'), ('forwarding by decorators', 'lib/hnco/functions/decorator.hh')],
     ['has_known_maximum, get_maximum, evaluate on all bit vectors of small instances'],
     'runtime monitoring: exhaustive enumeration of small instances plus constructed optima on large ones, under sanitizers',
     'exhaustive in the bit vector up to the size bound, sampled in the instance')
prop('C03', 'Incremental evaluation equals full evaluation',
     "For every function that offers incremental evaluation (directly or through decorators), every bit vector with its value and every set of flipped bits, the incremental value equals the full value of the flipped bit vector, up to floating point rounding. This holds along arbitrarily long chains of incremental evaluations, and a decorator offers incremental evaluation only if its result obeys this rule. Searching with or without incremental evaluation then gives the same results for the same seed.",
     ['inputs', 'histories', 'configurations'], 'all functions with incremental evaluation x all bit vectors x all flip sets x all chains and decorator stacks',
     'tests flip random bits of a few functions and do not cover decorator stacks, long chains or the effect on search trajectories',
     [C + '/', 'lib/hnco/functions/modifiers/', 'lib/hnco/functions/controllers/', A + '/local-search/'],
     [('evaluate_incrementally', C + '/*.cc'), ('provides_incremental_evaluation', 'lib/hnco/functions/decorator.hh')],
     ['evaluate_incrementally vs evaluate; trajectories of local search'],
     'runtime monitoring: differential oracle (incremental vs full) over random chains under sanitizers',
     'sampled instances, chains and flip sets')
prop('C04', 'Function modifiers change a function exactly as documented',
     "The opposite of a function has the opposite values; a function composed with a map has at every bit vector the value of the function at the mapped bit vector; a parsed modifier applies its expression to the value; additive Gaussian noise has zero mean and the requested standard deviation; prior noise evaluates a random neighbour, and only with the requested probability. The declared size, maximum and incremental evaluation of the modified function agree with its values. The laws compose: any stack of modifiers behaves as the composition of the individual laws.",
     ['inputs', 'configurations'], 'all functions x all modifier stacks x all bit vectors x all random choices of the noise',
     'modifiers are hardly tested at all, never in stacks, and noise is a distribution rather than a value',
     ['lib/hnco/functions/modifiers/', 'lib/hnco/functions/decorator.hh'],
     [('OppositeFunction, FunctionMapComposition, ParsedModifier, AdditiveGaussianNoise, PriorNoise', 'lib/hnco/functions/modifiers/')],
     ['evaluate of modified functions, inner calls recorded by a probe function'],
     'runtime monitoring: algebraic oracles and probe functions; statistical oracle with wide tolerance for noise',
     'sampled; statistical checks only detect deviations well outside sampling error')
prop('C05', 'Controllers account for every evaluation and stop exactly when they should',
     "Through any stack of controllers and any history of full, incremental and thread-safe evaluations, counters report exactly the evaluations made, the budget is never exceeded and the last-evaluation signal is raised exactly by the first call beyond it, and the target signal is raised exactly when a value reaches the target, with the triggering bit vector and value recorded. The progress tracker reports the best value seen so far with its bit vector and the number of evaluations at which it was first reached, and logs exactly the strict improvements. A cache returns the values of the function, evaluates each distinct bit vector at most once and reports its true hit ratio.",
     ['histories', 'inputs', 'configurations'], 'all controller stacks x all histories of evaluation calls, exceptions included',
     'tests run a few algorithms to completion; they do not follow call-by-call histories through stacks, nor signals in the middle of them',
     ['lib/hnco/functions/controllers/'],
     [('CallCounter, OnBudgetFunction, ProgressTracker, StopOnTarget, StopOnMaximum, Cache', 'lib/hnco/functions/controllers/')],
     ['every call, value, signal and counter of a random history'],
     'runtime monitoring: online checker of call histories against an executable specification, under sanitizers',
     'each step of sampled histories is compared with a reference state machine')
prop('C06', 'Parallel evaluation is race-free and equivalent to sequential evaluation',
     "For deterministic functions, evaluating a population with several threads gives every individual the same value as sequential evaluation, evaluates each individual exactly once, and delivers results to the controllers in the same order. Running a population-based algorithm with any number of threads yields the same evaluations, progress and solution as with one thread for the same seed. No data race occurs under any schedule of the threads.",
     ['schedules', 'inputs', 'configurations'], 'all thread schedules x all numbers of threads x all populations, functions and controller stacks',
     'the tests run single-threaded',
     [A + '/population.cc', 'lib/hnco/multiobjective/algorithms/population.cc', 'lib/hnco/functions/controllers/', C + '/'],
     [('Population::evaluate_in_parallel', A + '/population.cc'), ('evaluate_safely / update protocol', 'lib/hnco/functions/function.hh')],
     ['order and content of evaluations recorded by probes; ThreadSanitizer reports'],
     'ThreadSanitizer on an instrumented OpenMP runtime with injected delays, plus differential trace oracle',
     'schedules are explored by random delays and thread counts, not enumerated; functions drawing random numbers during evaluation (noise) are outside the statement')
prop('C07', 'Saved objects load back unchanged and failed writes are reported',
     "Saving any instance, map or matrix to a file and loading it gives an object with the same observable behaviour: the same size and the same value or image for every bit vector. Loading replaces whatever the target held before. A save that cannot write all of its data reports an error instead of returning normally.",
     ['inputs', 'fault_sequences', 'histories'], 'all instances (extreme weights and sizes included) x all load targets x all write failures',
     'tests round-trip a few random instances into fresh objects on a working file system',
     [C + '/', 'lib/hnco/maps/', 'lib/hnco/serialization.hh'],
     [('save / load', C + '/*.hh'), ('boost serialization', 'lib/hnco/maps/map.hh')],
     ['values of the loaded object; exception raised by save on a full device'],
     'runtime monitoring: round-trip oracle and injected write failures, under sanitizers',
     'sampled instances; write failures injected with a full device, missing directories and read-only targets')
prop('C08', 'Malformed input files are rejected without memory errors or hangs',
     "Loading an instance in one of the text formats (DIMACS CNF, QUBO, TSPLIB, Sudoku grid, number to factor) from any file, or an archive from a truncated, empty or missing file, either succeeds or reports an error by exception; it never reads or writes out of bounds, invokes undefined behaviour, aborts or loops forever. When a load succeeds, the instance can be described and evaluated safely on bit vectors of its size. A text that breaks a rule of its format (missing, repeated or bad problem line, counts that differ from the declared ones, index or literal out of range, unterminated clause, clause without three literals for MAX-NAE-3SAT, element below the diagonal, field that is not a number, unsupported type, city without coordinates, bad character or missing line in a grid) is rejected. When the text does describe a valid instance in an unusual layout (comments, spacing), that very instance is obtained.",
     ['inputs', 'fault_sequences'], 'all byte strings as input files of every text format',
     'tests only load well-formed files written by the library itself',
     [C + '/', 'lib/hnco/bit-matrix.cc'],
     [('load_ of text formats', C + '/max-sat.cc, qubo.cc, tsp.cc, sudoku.cc, partition.cc ...')],
     ['exceptions, sanitizer reports, evaluation of the loaded instance'],
     'runtime monitoring: mutation fuzzing of loaders under address and undefined-behaviour sanitizers',
     'byte-level and grammar-level mutations, bounded by case count')
prop('C09', 'Linear algebra over F2 is exact',
     "Matrix-vector product, transpose, rank, row echelon form, inversion, linear system solving and row and column operations on bit matrices agree with linear algebra over the two-element field for every matrix, singular and rectangular ones included. A square system is reported as solved if and only if it has a unique solution, and the solution returned is that one; a matrix is reported as invertible if and only if it is, and the inverse returned is its inverse.",
     ['inputs'], 'all matrices, vectors and right-hand sides, singular ones included',
     'tests use random, mostly invertible, matrices of fixed sizes',
     ['lib/hnco/bit-matrix.cc', 'lib/hnco/bit-matrix.hh', 'lib/hnco/bit-vector.cc'],
     [('bm_* functions', 'lib/hnco/bit-matrix.cc')], ['results of bm_* and sbm_* functions'],
     'runtime monitoring: independent reference implementation over sanitized executions', 'sampled matrices of all ranks up to 70 x 70 (exhaustive for tiny sizes)')
prop('C10', 'Maps and transvection sequences obey their algebra',
     "Every map (translation, permutation, linear, affine, composition, injection, projection, transvection-based) computes the transformation it documents, with the documented input and output sizes, and never reports itself surjective when it is not; linear, affine, translation, permutation, projection and transvection-based maps report themselves surjective exactly when they are. Random maps of each kind are valid members of that kind. Sequences of transvections act as the product of their elements, their inverse undoes them, and generators of particular sequence kinds return sequences of that kind with the requested length.",
     ['inputs', 'configurations'], 'all maps, sizes and transvection sequences',
     'tests sample a few random maps of fixed sizes and check involutions only',
     ['lib/hnco/maps/', 'lib/hnco/maps/transvection.cc'],
     [('map()', 'lib/hnco/maps/map.hh'), ('ts_*, transvection_t', 'lib/hnco/maps/transvection.cc')],
     ['images of bit vectors, matrices of sequences'],
     'runtime monitoring: reference linear-algebra oracle under sanitizers', 'sampled maps; surjectivity decided by exhaustive image enumeration on small sizes and by rank on larger ones')
prop('C11', 'Neighbourhoods, mutations and iterators stay within their definition',
     "Every neighbourhood operator proposes a bit vector of the right size within its documented distance from the origin, leaves the origin untouched until told to keep the proposal, and keeps or forgets consistently; mutation with the option of forbidding null mutations always changes something. The number of flipped bits follows the documented law. Iterators enumerate exactly the points of their hypercube, ball or sphere, each once.",
     ['inputs', 'histories', 'configurations'], 'all neighbourhood kinds, sizes, radii and rates x all histories of propose/keep/forget x all random choices',
     'tests check one or two neighbourhoods for non-null mutation only',
     ['lib/hnco/neighborhoods/', 'lib/hnco/iterator.cc'],
     [('Neighborhood::propose/keep/forget/mutate', 'lib/hnco/neighborhoods/neighborhood.hh')],
     ['origin, candidate, flipped bits after every operation'],
     'runtime monitoring: history checker plus statistical oracle with wide tolerance, under sanitizers', 'sampled; distribution checks only detect gross deviations')
prop('C12', 'Representations decode every bit vector into their declared domain',
     "Integer, long, floating point, value set, categorical, complex and permutation representations map every bit vector of their declared size to an element of their declared domain, and at full size every element of a discrete domain (bounds included) is the image of some bit vector. The size is the smallest that gives the requested precision. Decoding never depends on previous decodings or on surrounding bits.",
     ['inputs', 'configurations'], 'all representation parameters (bounds, precisions, sizes, value sets) x all bit vectors',
     'tests cover a few fixed domains',
     ['lib/hnco/representations/'],
     [('unpack, size', 'lib/hnco/representations/*.hh')], ['decoded values over all bit vectors of small representations'],
     'runtime monitoring: exhaustive enumeration of small domains and boundary sampling of large ones, under sanitizers', 'exhaustive up to 12 bits; permutation tie-breaking is random and checked as a set')
prop('C13', 'Functions given by expressions evaluate the expression at the decoded values',
     "A function parsed from an expression with declared representations returns, at every bit vector, the expression evaluated at the values decoded from the consecutive blocks of bits, one block per variable; its size is the sum of the block sizes. The same holds for functions built from user supplied multivariate functions, for functions adapted from other solvers' interfaces and for each objective of a multi-objective expression. Variables without a (suitable) declaration get the default representation. Syntax errors and invalid domains are reported by exception.",
     ['inputs', 'configurations', 'programs'], 'all expressions, declarations and bit vectors',
     'tests evaluate a handful of fixed expressions',
     ['lib/hnco/functions/', 'lib/hnco/representations/', 'lib/hnco/app/', 'lib/hnco/multiobjective/functions/'],
     [('MultivariateFunctionAdapter', 'lib/hnco/functions/'), ('representation parser', 'lib/hnco/app/')],
     ['evaluate of generated expressions'],
     'runtime monitoring: generated programs (expressions) with an independent evaluator as oracle, under sanitizers', 'sampled grammar of expressions')
prop('C14', 'Walsh expansions and transforms are exact',
     "The Walsh transform of a function contains exactly its nonzero coefficients, and the expansion built from it returns the values of the function at every bit vector. First and second degree expansions, Ising and spin models, and generated expansions evaluate to the sum of their terms, and their random generation respects the requested structure.",
     ['inputs', 'configurations'], 'all functions and expansions, all bit vectors',
     'tests check the transform on a few random expansions of one size',
     [C + '/walsh/', C + '/ising/', 'lib/hnco/functions/function.cc'],
     [('compute_walsh_transform, compute_fast_walsh_transform', 'lib/hnco/functions/function.cc')], ['coefficients and values over complete hypercubes'],
     'runtime monitoring: brute-force character sums as oracle over complete hypercubes, under sanitizers', 'exhaustive in the bit vector for small n, sampled in the function')
prop('C15', 'Reported solutions are truthful and the best evaluated',
     "Every algorithm reports, after any number of iterations, budget exhaustion or target stop, a bit vector of the right size together with its true value for a deterministic function, and the bit vector was evaluated during the run. The reported value is the best value evaluated for every algorithm which maintains a best solution, and never better than the best evaluated. Running the same algorithm object again, on the same or another function, obeys the same rules with nothing left over from the previous run.",
     ['configurations', 'histories', 'inputs'], 'all algorithms, parameter settings, functions, budgets, stopping points and repeated runs',
     'tests run some algorithms with default parameters on one function',
     [A + '/', 'lib/hnco/algorithms/algorithm.hh'],
     [('Algorithm::maximize/finalize/get_solution, update_solution', A + '/algorithm.hh'), ('IterativeAlgorithm', A + '/iterative-algorithm.cc')],
     ['complete evaluation log of each run recorded by a probe function'],
     'runtime monitoring: offline checker over the evaluation log of each run, under sanitizers', 'sampled configurations of all algorithms')
prop('C16', 'Algorithms honour their specific guarantees and iteration counts',
     "Complete search evaluates every bit vector exactly once and finds a global maximum; hill climbers return local maxima and only ever climb; random local search, (1+1) and elitist evolutionary algorithms never lose their current best; simulated annealing always accepts improvements; patience, restarts and iteration limits act exactly as configured. For a given number of iterations each algorithm makes exactly the number of evaluations that its population parameters imply. Parameters set on an algorithm take effect.",
     ['configurations', 'histories', 'inputs'], 'all algorithms, parameters, functions and iteration counts',
     'tests only check that algorithms reach the maximum of an easy function',
     [A + '/'],
     [('init / loop / iterate', A + '/iterative-algorithm.cc'), ('algorithm classes', A + '/')],
     ['complete evaluation log of each run'],
     'runtime monitoring: trace specification per algorithm checked over the evaluation log, under sanitizers', 'sampled configurations')
prop('C17', 'Populations, selections and crossovers preserve individuals',
     "Sorting, partial sorting and shuffling permute the individuals of a population, keep each bit vector with its value, and place them in the order required by the comparator with ties broken at random. Comma and plus replacement keep exactly the best individuals of the pool they document; tournament, uniform and random selection return members of the population, and tournament winners are at least as good as their opponents. Crossover children take every bit from one of their parents at the same position with the documented bias.",
     ['inputs', 'histories', 'configurations'], 'all populations, values (ties, infinities), sizes and random choices',
     'tests check sorting of random populations only',
     [A + '/population.cc', A + '/evolutionary-algorithms/'],
     [('Population', A + '/population.cc'), ('selections and crossovers', A + '/evolutionary-algorithms/')],
     ['populations before and after each operation'],
     'runtime monitoring: multiset-preservation and order oracles, statistical oracle with wide tolerance, under sanitizers', 'sampled')
prop('C18', 'Probability models keep their invariants and sample the law they encode',
     "Probability vectors and moment models stay within their bounds after any sequence of learning, bounding and reset operations; updates move them toward the learned statistics by the given rate; uniform models are uniform. Sampling follows the encoded law: independent bits for probability vectors, the conditional laws for Gibbs samplers, greedy moment matching for herding. Statistics accumulated from bit vectors equal the exact averages of those bit vectors.",
     ['histories', 'inputs', 'configurations'], 'all histories of model operations, sizes, rates and margins',
     'the models are not tested directly',
     [A + '/probability-vector/', A + '/walsh-moment/', A + '/mimic.cc'],
     [('pv_* functions', A + '/probability-vector/'), ('Full/TriangularMoment, Herding, GibbsSampler', A + '/walsh-moment/')],
     ['model contents after each operation, sampled bit vectors'],
     'runtime monitoring: exact reference updates after each operation, statistical oracle with wide tolerance for sampling, under sanitizers', 'sampled histories')
prop('C19', 'Runs are reproducible from the seed',
     "With the same seed, the same instance, algorithm and parameters give the same sequence of evaluations and the same solution, whatever ran before in the same process and whatever the memory contents. The result depends on no uninitialized, address or time dependent state. The same holds for random instances and for operators used on their own (selections, crossovers, neighborhoods, sampling). Different seeds give different runs.",
     ['histories', 'configurations'], 'all algorithms, functions and preceding histories',
     'no test compares two runs',
     ['lib/hnco/random.hh', 'lib/hnco/random.cc', A + '/'],
     [('random::Generator', 'lib/hnco/random.hh')], ['evaluation logs of repeated runs with scrambled heap and stack'],
     'runtime monitoring: trace comparison of repeated runs with poisoned memory, address and undefined-behaviour sanitizers', 'sampled configurations; wall-clock dependent outputs excluded')
prop('C20', 'Multi-objective optimization is faithful to Pareto dominance',
     "Dominance between value vectors is the strict Pareto order, non-dominated sorting numbers the fronts accordingly, and selection by front then crowding keeps the right individuals. The solutions returned by the multi-objective algorithm are evaluated bit vectors with their true values, mutually non-dominated, and none is dominated by another individual of the final population. Iteration counts, population sizes and evaluation counts are as configured, also on repeated runs.",
     ['inputs', 'configurations', 'histories'], 'all populations, value vectors (ties, duplicates), parameters and functions',
     'no test covers the multi-objective part',
     ['lib/hnco/multiobjective/'],
     [('Nsga2', 'lib/hnco/multiobjective/algorithms/nsga2.cc'), ('non-domination sort, crowding distance', 'lib/hnco/multiobjective/algorithms/')],
     ['fronts, distances, evaluation log'],
     'runtime monitoring: brute-force Pareto oracle over sanitized executions', 'sampled')
prop('C21', 'Command-line programs report what really happened',
     "For every combination of function, map, modifiers, controllers, algorithm and options, the options build the documented objects, and the command-line optimizer ends with a documented exit status (0; 2 when the maximum and 3 when the target was not reached; 1 for errors). The reported value is the value of the best evaluation; the reported solution re-evaluates to it (to at most it when the budget interrupts an iteration); the reported numbers of evaluations, success and logged improvements agree with each other; the budget is respected and, with indefinite iterations, used up; printed and saved results are the same; the number of threads does not change the outcome. Generators of functions and maps write files which the optimizer reads back and the same seed gives the same file. The multiobjective program prints mutually nondominated values which are the objectives of the printed solutions. Unknown options and identifiers, missing option arguments, files that cannot be read or written, malformed expressions and declarations end with status 1 and a message, never with a crash or success. Numeric option values are taken as atoi and atof read them; out-of-range values are not covered.",
     ['configurations', 'inputs', 'fault_sequences'], 'all option combinations of the command-line programs',
     'the tests do not run the command-line programs with combinations of options, nor cross-check what they print',
     ['app/', 'lib/hnco/app/', 'lib/hnco/multiobjective/app/'],
     [('HncoOptions, FunctionFactory, AlgorithmFactory, Controller construction, application loop', 'lib/hnco/app/')],
     ['exit status, standard output, standard error, files written'],
     'runtime monitoring: black-box cross-checks of sanitized command-line runs', 'sampled option combinations')
prop('C22', 'The Python bindings expose the behaviour of the library',
     "Functions, maps, neighborhoods, controllers, modifiers, algorithms and vector utilities used from Python give the same values, solutions and errors as the library they wrap. Functions and algorithms defined in Python (subclasses, callables given to the library, programs run by the embedded interpreter of -F 1100) are called with the arguments of the library and their results are used, sequentially as well as when several functions are evaluated in parallel. Errors raised by the library or by Python code reach the caller as Python exceptions and the interpreter never crashes or deadlocks. A function, map or neighborhood given to another object (controller, modifier, map composition, algorithm parameter) stays alive as long as that object. Outside the property: arguments that the library only asserts (wrong sizes, out-of-range indices), get_solution before finalize, functions given to maximize and released while the algorithm is still used, neighborhood iterators used without set_origin.",
     ['inputs', 'programs', 'histories'], 'all bound classes and methods, arguments and histories',
     'the test-suite does not import the Python module',
     ['bindings/', 'lib/hnco/functions/collection/python-function.cc'],
     [('pybind11 module definition', 'bindings/')], ['results in Python vs an independent Python model'],
     'runtime monitoring: differential oracle between Python-level runs and Python reference models', 'sampled programs')
prop('C23', 'Bit vector, permutation and random utilities are exact',
     "Operations on bit vectors (validity, display, reading, weight, distance, dot product over F2, addition, flips, conversion to and from strings, streams, bool vectors and integers up to 64 bits, whole or slices), on sparse bit vectors and on permutations, the hypercube iterators and the numeric helpers (ranges, intervals, logistic, join, square, ensure) return their mathematical result for all inputs. Random generators return members of their documented set (bit vectors of given weight, permutations), uniformly; equal seeds give equal streams whatever was drawn before, and reset restarts the stream of the recorded seed. Validity predicates reject every invalid vector.",
     ['inputs'], 'all arguments',
     'tests cover a few of them at fixed sizes',
     ['lib/hnco/bit-vector.cc', 'lib/hnco/permutation.cc', 'lib/hnco/random.cc', 'lib/hnco/util.hh', 'lib/hnco/sparse-bit-vector.cc'],
     [('bv_*, perm_*, sbv_*', 'lib/hnco/bit-vector.cc')], ['results'],
     'runtime monitoring: reference implementation oracle, statistical oracle with wide tolerance, under sanitizers', 'sampled')
prop('C24', 'No run corrupts memory or hits undefined behaviour',
     "For every valid combination of function, map, modifier, controller, algorithm, parameters and sizes, running the optimizer performs no out-of-bounds or use-after-free access, no undefined arithmetic or conversion, no read of a value that was never set and no assertion failure, throws nothing but the documented signals, respects its budget and, when it has a number of iterations or a budget, ends. This includes the smallest sizes an algorithm accepts, tiny populations, infinite, huge, tiny or constant objective values and extreme but valid parameters, algorithms run again after an interrupted run, and populations evaluated by several functions.",
     ['configurations', 'inputs'], 'all algorithms x functions x valid parameters',
     'the tests run without sanitizers and with default parameters',
     ['lib/hnco/', 'app/'],
     [('asserts and bounds of all components', 'lib/hnco/')], ['sanitizer reports of whole runs'],
     'runtime monitoring: address and undefined-behaviour sanitizers, library assertions and valgrind memcheck over a matrix of full runs', 'sampled matrix; a silent sanitizer is not a proof')

claimed = set(CHECKS)
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                      technique=t, level='exploration', level_note=n) for p, t, n in P if p['id'] in claimed],
         not_applicable=[dict(property=p['id'], reason='the check is not built yet') for p, t, n in P if p['id'] not in claimed])
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p, _, _ in P:
    for x in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', x)), (p['id'], x)
    assert len(p['title']) <= 80, p['id']
