#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that the text is edited in one place)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                          'observe_at': list(observe), 'hook_needed': hook}})


I = 'cpp/src/hermite/iterators.cpp'
prop('C01', 'Each index set lists exactly its multi-indices, each exactly once',
     'For every index set, dimension and degree n, the listing of multi-indices contains every tuple of naturals '
     'of that dimension that belongs to the set, contains it once, and contains nothing else. Membership: triangle, '
     'sum of the entries <= n; cube, every entry <= n; cross and cross_nc, product of max(1, entry) <= max(n, 1); '
     'rectangle, first entry <= n and twice every other entry <= n.',
     ['inputs'], 'all five index sets, dimensions 1 to 5, all degrees (0 to 250 as far as the set fits in memory)',
     'The tests compare a handful of listings (dimension 2 or 3, small degrees) with each other; the enumerators are '
     'stateful successor functions whose case analysis depends on dimension, parity and divisibility of the degree.',
     [I, 'cpp/src/hermite/iterators.hpp', 'hermipy/core.py'],
     [('successor functions of the five enumerators', I), ('listing wrapper', 'hermipy/core.py: iterator_list_indices')],
     observe=['hermipy.core.iterator_list_indices'])
prop('C02', 'Raising the degree extends an expansion, never reorders it',
     'For triangle, cube, cross and rectangle, the listing of a degree is a prefix of the listing of every larger '
     'degree, in every dimension. Hence changing the degree of a series keeps the coefficient of every multi-index '
     'common to both degrees and gives 0 to the new ones, and reducing the degree of a matrix keeps exactly the '
     'entries between the remaining multi-indices; for cross_nc, whose listings are not nested, changing the degree '
     'of a series or matrix is refused.',
     ['inputs', 'histories'], 'all nested sets, dimensions 1 to 5, all pairs of degrees, all chains of degree changes, dense and sparse matrices',
     'Tests only check one or two degrees of two sets; nesting is a relation between all pairs of degrees.',
     [I, 'hermipy/series.py', 'hermipy/varf.py'],
     [('degree-consistent successor functions', I), ('subdegree', 'hermipy/series.py: Series.subdegree; hermipy/varf.py: Varf.subdegree')],
     observe=['hermipy.core.iterator_list_indices', 'Series.subdegree', 'Varf.subdegree'])
prop('C03', 'Size, rank and degree functions agree with the listing',
     'For every index set, dimension and degree, the announced size is the number of multi-indices of the set; for '
     'triangle and cube the rank announced for a multi-index is its position in the listing of every degree that '
     'contains it. The degree recovered from a number of coefficients is the degree whose set has that many elements '
     '(degrees 0 and 1 of the cross sets name the same set), and a number that is the size of no degree up to 250 '
     'is refused with an exception.',
     ['inputs'], 'all index sets, dimensions 1 to 5, all degrees up to 250 whose set has fewer than 2^25 elements, all coefficient counts below that',
     'Tests check get_degree/index on a few triangle and cube degrees; closed formulas computed in floating point and '
     'bisection can fail at isolated degrees only.',
     [I, 'cpp/src/hermite/lib.cpp', 'hermipy/core.py'],
     [('closed-form sizes and ranks', I), ('bisection on the size', 'cpp/src/hermite/lib.cpp: pos_bissect')],
     observe=['hermipy.core.iterator_size', 'hermipy.core.iterator_index', 'hermipy.core.iterator_get_degree'])
prop('C04', 'Tensorization multiplies the parts, for any grouping of the directions',
     'Tensorizing vectors (or square matrices) attached to disjoint groups of directions gives, at every multi-index '
     '(pair of multi-indices) of the target index set, the product of the entries of the parts at the restrictions to '
     'their groups, whatever the grouping, the order in which the parts are given, and whether the result is asked '
     'dense or sparse. Tensorizing one part along a single direction is the same with the constant function '
     '(vectors) or the identity (matrices) in the other directions.',
     ['inputs', 'configurations'], 'all partitions of up to 5 directions, all index sets, degrees, dense/sparse inputs and outputs, arbitrary entries',
     'Tests tensorize a few separable functions in 2 or 3 dimensions with the default set; wrong index bookkeeping for an '
     'interleaved grouping, a set or a sparse path stays invisible.',
     ['cpp/src/hermite/tensorize.cpp', 'hermipy/core.py', 'hermipy/series.py', 'hermipy/varf.py'],
     [('entry products over restricted indices', 'cpp/src/hermite/tensorize.cpp'), ('front end', 'hermipy/core.py: tensorize')],
     observe=['hermipy.core.tensorize', 'Series.tensorize', 'Varf.tensorize'])
prop('C05', 'Projection selects the entries that are constant elsewhere',
     'Projecting a coefficient vector (matrix, dense or sparse) on a strictly increasing non-empty list of directions returns, '
     'for every multi-index (pair) over those directions, the entry whose index has zeros in the other directions. '
     'Projecting a tensorization on the directions of one part returns that part times the entries at zero of the other '
     'parts. Series and Varf projection do the same in terms of direction labels, whatever labels the object has, and '
     'keep degree, index set, mean, variance and type of the kept directions.',
     ['inputs', 'configurations'], 'all index sets, dimensions 1 to 5, all sublists of directions, dense and sparse, arbitrary entries',
     'Tests project a few 2- and 3-dimensional triangle expansions.',
     ['cpp/src/hermite/project.cpp', 'hermipy/core.py', 'hermipy/series.py', 'hermipy/varf.py', 'hermipy/position.py'],
     [('index embedding', 'cpp/src/hermite/project.cpp'), ('labels to relative directions', 'hermipy/series.py: Series.project; hermipy/varf.py: Varf.project')],
     observe=['hermipy.core.project', 'Series.project', 'Varf.project', 'Position.project'])
prop('C06', 'Inner product of series contracts exactly the shared directions',
     'The product of two expansions of the same degree and index set over direction lists d1 and d2 is the expansion over the '
     'sorted directions in exactly one of the lists whose coefficient at m is the sum, over the indices k of the '
     'shared directions for which both combined multi-indices are in the set, of the product of the two coefficients. '
     'It covers no shared direction (outer product) and all directions shared (scalar), at the level of the coefficient '
     'arrays and of series objects.',
     ['inputs', 'configurations'], 'all pairs of increasing direction lists over up to 5 directions, all index sets, degrees, arbitrary coefficients',
     'Tests check the inner product on two or three configurations.',
     ['cpp/src/hermite/inner.cpp', 'hermipy/core.py', 'hermipy/series.py'],
     [('contraction loops', 'cpp/src/hermite/inner.cpp'), ('Series product', 'hermipy/series.py: Series.tensorize')],
     observe=['hermipy.core.inner', 'Series.__mul__', 'Series.tensorize'])
prop('C07', 'Transform and evaluation compute the defining sums for any nodes',
     'The forward transform of grid values returns, for each multi-index of the set, the sum over the nodes of weight '
     'times value times the normalised Hermite (or Fourier, per direction) basis function at the node, and the backward '
     'transform returns at each node the sum over multi-indices of coefficient times basis function, for any nodes, any '
     'weights and any number of nodes in each direction. Hence a polynomial in the span of the index set is recovered '
     'exactly by transform followed by evaluation, also at the nodes of another quadrature with its own mean and variance, '
     'or of another basis in some directions: a series is evaluated in its own basis.',
     ['inputs', 'configurations'], 'all index sets, dimensions, degrees, node sets with equal or different sizes per direction, arbitrary weights and values, mixed Fourier/Hermite directions',
     'Tests use Gauss-Hermite rules with equal numbers of points and a few functions, where several wrong formulas agree.',
     ['cpp/src/hermite/transform.cpp', 'cpp/src/hermite/hermite.cpp', 'hermipy/core.py', 'hermipy/quad.py'],
     [('recurrences and grid sweeps', 'cpp/src/hermite/transform.cpp, hermite.cpp'), ('mapping of nodes', 'hermipy/quad.py: Quad.eval, Quad.transform')],
     observe=['hermipy.core.transform', 'Quad.transform', 'Quad.eval', 'Series.to_function'])
prop('C08', 'Sampling and integration use the mapped grid in row-major order',
     'Discretizing an expression on a quadrature gives, in row-major order of the node indices (last direction fastest), its '
     'value at mean + factor * node with each variable bound to its direction, for every choice of direction labels and '
     'for non-diagonal covariances; the mapped nodes are reported in the same order. A function of some of the directions is '
     'sampled along those, and one of a direction the quadrature does not have is refused. The weight of a position is the '
     'normalised Gaussian density of its Hermite directions. Integration returns the weighted sum of '
     'the values over the grid; with the flat option the integral with respect to the Lebesgue measure (period 2 pi in Fourier directions), for any '
     'combination of Hermite and Fourier directions, and the result does not depend on whether the integral is '
     'tensorized; norms are the corresponding sums of |f| and the root of that of f^2.',
     ['inputs', 'configurations'], 'dimensions 1 to 5, any labels, means, covariances (diagonal or not), numbers of nodes, polynomial/exponential/trigonometric integrands, composite quadratures',
     'Tests integrate a few Gaussians and polynomials with equal numbers of nodes.',
     ['cpp/src/hermite/discretize.cpp', 'cpp/src/hermite/transform.cpp', 'hermipy/quad.py', 'hermipy/function.py', 'hermipy/position.py', 'hermipy/compquad.py'],
     [('map_point and grid iteration', 'cpp/src/hermite/discretize.cpp'), ('variable binding', 'hermipy/function.py: Function.ccode'), ('weight', 'hermipy/position.py: Position.weight')],
     observe=['Quad.discretize', 'Quad.mapped_nodes', 'Quad.integrate', 'Quad.norm', 'CompQuad.integrate'])
prop('C09', 'The stiffness matrix is the Galerkin matrix of multiplication',
     'For a polynomial f integrated exactly by the quadrature, the matrix of f has, for every pair of multi-indices (i, j) of the '
     'index set, the entry E[f h_i h_j] of normalised Hermite polynomials under the Gaussian of the quadrature, so '
     'multiplying the coefficients of u (of low enough degree) gives those of f u. It holds for every index set, '
     'dimension, degree, mean and (diagonal) variance, dense or sparse, from an expression or from grid values; the table of '
     'triple products holds the coefficients of the product of two basis functions.',
     ['inputs', 'configurations'], 'all index sets, dimensions 1 to 4, degrees, polynomial f, positions, dense/sparse, tensorized or not',
     'Tests compare a few dense/sparse/tensorized variants with each other at one degree; they agree when all are wrong.',
     ['cpp/src/hermite/varf.cpp', 'hermipy/core.py', 'hermipy/quad.py'],
     [('triple products', 'cpp/src/hermite/varf.cpp'), ('front end', 'hermipy/quad.py: Quad.varf')],
     observe=['Quad.varf', 'hermipy.core.varf', 'hermipy.core.triple_products'])
prop('C10', 'The derivative matrix is multiplication composed with differentiation',
     'The matrix for f and directions d1..dk maps the coefficients of u to those of f times the derivative of u along '
     'd1..dk, projected on the index set, for Hermite directions with diagonal covariance (each derivative scaled by '
     'the inverse standard deviation of its direction) and for Fourier directions. It holds for repeated and mixed '
     'directions, every index set closed under decreasing an index, dense or sparse.',
     ['inputs', 'configurations'], 'all index sets, dimensions 1 to 4, direction lists with repetitions, polynomial f, dense/sparse, labels',
     'Tests check one derivative operator per set in low dimension.',
     ['cpp/src/hermite/varf.cpp', 'hermipy/core.py', 'hermipy/quad.py'],
     [('column shifts', 'cpp/src/hermite/varf.cpp: varfd'), ('scaling', 'hermipy/quad.py: Quad.varfd')],
     observe=['Quad.varfd', 'hermipy.core.varfd'])
prop('C11', 'Fourier directions behave as real trigonometric polynomials',
     'In a Fourier direction the basis is 1, sin x, cos x, sin 2x, cos 2x, ... normalised in L2 of the period, and transform, '
     'evaluation, products (matrix of f) and derivatives agree with the algebra of trigonometric polynomials on the '
     'period given by the bounds, for even degrees and sets that keep sine/cosine pairs. Mixed Fourier/Hermite '
     'expansions apply each rule in its own direction.',
     ['inputs', 'configurations'], 'even degrees, bounds, dimensions 1 to 3 with any mix of types, trigonometric polynomials f and u',
     'Tests check a few functions against their own quadrature, at one degree.',
     ['cpp/src/hermite/varf.cpp', 'cpp/src/hermite/transform.cpp', 'cpp/src/hermite/hermite.cpp', 'hermipy/quad.py'],
     [('Fourier triple products and basis', 'cpp/src/hermite/varf.cpp, transform.cpp'), ('bounds to position', 'hermipy/quad.py: Quad.fourier')],
     observe=['Quad.fourier', 'Quad.transform', 'Quad.eval', 'Quad.varf', 'Quad.varfd'])
prop('C12', 'Functions split into factors without loss, and print the same function',
     'Splitting a function yields a sum over terms of products of one constant and factors on disjoint direction groups '
     'covering all its directions, whose expansion is the function. Projection on a set of directions returns exactly '
     'the factors living there (the constant going with the lowest direction) and is refused when a factor straddles the set or the '
     'function is a sum; both variable notations denote the same function, the generated C expression evaluates to the '
     'function, and the finest common coarsening of two partitions is the finest partition coarser than both.',
     ['inputs', 'programs'], 'all polynomial-exponential-trigonometric expressions over up to 5 variables, any direction labels, all pairs of partitions',
     'Tests split a few expressions in 2 or 3 variables.',
     ['hermipy/function.py', 'hermipy/lib.py'],
     [('split/project', 'hermipy/function.py'), ('finest_common', 'hermipy/lib.py')],
     observe=['Function.split', 'Function.project', 'Function.ccode', 'Function.as_xyz', 'hermipy.lib.finest_common'])
prop('C13', 'Operators form the algebra of linear differential operators',
     'Sum, difference, negation, multiplication by a function, composition and conjugation by a factor of operators give the '
     'operator that acts on every function as the corresponding combination of actions. Splitting returns the unique '
     'coefficients such that the operator is the sum over derivative orders (up to total order 5) of coefficient times '
     'derivative, and terms that are not linear differential terms of the unknown are refused.',
     ['programs', 'inputs'], 'all operators with polynomial coefficients in up to 3 variables, any labels, all expressions built from the operations',
     'Tests split a few operators; algebraic identities must hold for all of them.',
     ['hermipy/operator.py', 'hermipy/function.py'],
     [('substitution of the unknown', 'hermipy/operator.py: __call__, map'), ('testing on monomials', 'hermipy/operator.py: split')],
     observe=['Operator.__add__', 'Operator.__sub__', 'Operator.__neg__', 'Operator.__mul__', 'Operator.__call__', 'Operator.map', 'Operator.split'])
prop('C14', 'Discretized operators act as the operator, including the factor',
     'The matrix of a linear differential operator with polynomial coefficients maps the expansion of u (of low enough '
     'degree) to the expansion of L u projected on the index set, and with a quadrature factor rho the expansion of u/rho to that of (L u)/rho. '
     'Discretization is linear in the operator, and the zero operator gives the zero matrix; composite quadratures '
     'with weights summing to one over exact rules give the same matrix.',
     ['inputs', 'programs', 'configurations'], 'operators up to order 4 with polynomial coefficients, dimensions 1 to 3, all index sets, positions, exponential-quadratic factors, dense/sparse',
     'Tests discretize a few Fokker-Planck operators and look at one eigenvalue or solution.',
     ['hermipy/quad.py', 'hermipy/operator.py', 'hermipy/compquad.py', 'hermipy/equations.py'],
     [('discretize_op', 'hermipy/quad.py: Quad.discretize_op'), ('factor conjugation', 'hermipy/operator.py: Operator.map')],
     observe=['Quad.discretize_op', 'CompQuad.discretize_op'])
prop('C15', 'Execution settings never change results',
     'Integrals, transforms, matrices, derivative matrices and discretized operators are the same (up to rounding) whatever '
     'the settings or arguments tensorize, sparse, debug and trails, and whether the caching layer is on or off; only the '
     'representation (dense or sparse) follows the sparse setting. A per-call argument overrides the global setting for '
     'that call only, and no call modifies the settings or its array arguments.',
     ['configurations', 'histories', 'inputs'], 'all combinations of the settings, all sequences of calls with settings changed in between, all index sets',
     'Tests compare tensorized and direct results for a few functions, one setting at a time.',
     ['hermipy/quad.py', 'hermipy/settings.py', 'hermipy/stats.py', 'hermipy/cache.py', 'hermipy/core.py'],
     [('tensorize_at', 'hermipy/quad.py'), ('settings lookup', 'hermipy/settings.py')],
     state=[('settings', 'global execution settings', 'hermipy/settings.py')],
     observe=['Quad.integrate', 'Quad.transform', 'Quad.varf', 'Quad.varfd', 'Quad.discretize_op'])
prop('C16', 'A cached result is only ever returned for the same call',
     'With caching on, a call returns a result equal in value to what the undecorated call would return, for every history of '
     'calls, switches of the cache setting and per-call overrides: distinct arguments (numbers, strings, arrays of any '
     'shape and type, sparse matrices, symbolic expressions, nested lists, tuples, dictionaries, keyword arguments, None) '
     'never share an entry. A repeated call with an entry does not execute the function again; with use of the cache '
     'disabled the function is executed, nothing is written, and a stored entry that disagrees is reported as an error.',
     ['histories', 'inputs', 'configurations'], 'all histories of calls over adversarial argument values, scalar/array/sparse/tuple results, setting changes and overrides',
     'Tests check one or two hits with well-separated arguments; collisions and history effects need adversarial pairs.',
     ['hermipy/cache.py', 'hermipy/core.py', 'hermipy/varf.py'],
     [('argument hashing', 'hermipy/cache.py: gen_hash'), ('lookup/compare/save', 'hermipy/cache.py: cache')],
     state=[('cache directory', 'entry files per function and argument hash', 'settings cachedir')],
     observe=['hermipy.cache.cache'])
prop('C17', 'Damaged or half-written cache entries never surface',
     'If a run is interrupted while writing an entry, or an entry file is truncated, emptied or replaced by junk at any '
     'point, every later call with the same arguments still returns the right value instead of failing or returning '
     'damaged data, and once caching is on the entry is repaired so that later calls are served from it again.',
     ['crash_points', 'fault_sequences', 'histories'], 'truncation of dense and sparse entries at every byte length, junk content, interruption points, any call history around them',
     'No test damages an entry or interrupts a write.',
     ['hermipy/cache.py'],
     [('load error handling and re-save', 'hermipy/cache.py: cache')],
     state=[('cache directory', 'entry files', 'settings cachedir')],
     observe=['hermipy.cache.cache'])
prop('C18', 'Compiled integrands are shared safely between processes and crashes',
     'Several processes may discretize the same or different expressions at the same time, and any of them may be killed at '
     'any moment: a process that survives always samples exactly its own expression and never loads a partially written '
     'or foreign compiled function, and leftovers of a killed process never make a later call fail or return wrong values. A complete '
     'compiled integrand is reused without recompiling.',
     ['schedules', 'crash_points', 'histories'], 'all interleavings of check/compile/publish/load steps of a few processes, kills at every step',
     'Tests run in one process that is never killed.',
     ['cpp/src/hermite/discretize.cpp'],
     [('existence test, compilation, loading', 'cpp/src/hermite/discretize.cpp: intern_function, discretize_from_string')],
     state=[('/tmp/<hash>.so', 'shared store of compiled integrands', 'cpp/src/hermite/discretize.cpp')],
     observe=['Quad.discretize', 'hermipy.core.discretize'])
prop('C19', 'Arrays cross the language boundary unchanged, whatever their layout',
     'Converting numpy vectors, matrices, cubes and scipy CSR matrices to the library types and back preserves every entry '
     'and the shape for any non-empty shape (square or not), any memory layout (C, Fortran, strided, reversed, transposed views, '
     'read-only) and any real dtype. CSR conversion preserves the matrix, including empty rows, empty matrices and explicit zeros.',
     ['inputs', 'configurations'], 'all shapes up to small bounds, all layouts and dtypes, dense and sparse, every converter',
     'Tests round-trip square contiguous matrices of doubles.',
     ['cpp/src/hermite/python/converters.cpp', 'cpp/src/hermite/sparse.cpp', 'cpp/src/hermite/matrix.cpp', 'hermipy/core.py'],
     [('converters', 'cpp/src/hermite/python/converters.cpp'), ('sparse construction', 'cpp/src/hermite/sparse.cpp')],
     observe=['hermite_cpp.to_mat', 'hermite_cpp.to_bmat', 'hermite_cpp.to_boost_mat', 'hermite_cpp.to_numpy', 'hermite_cpp.to_spmat', 'hermite_cpp.row_col_val', 'hermipy.core.to_cpp', 'hermipy.core.to_numpy'])
prop('C20', 'Positions and quadratures compose and project consistently',
     'Tensorizing positions or quadratures over disjoint directions sorts the directions and keeps with each direction its '
     'mean, variance, type, nodes and weights; a direction present in both (with equal mean and variance, else refused) '
     'disappears from the product position. Projecting the composition on the directions of one part returns that part, the factor '
     'of a product is the product of the factors, equality is exact on all components, and non-diagonal positions '
     'refuse both operations.',
     ['inputs', 'histories'], 'all sequences of tensorizations and projections of up to 5 one-direction parts with any labels, means, variances, types and factors',
     'Tests tensorize two or three default quadratures.',
     ['hermipy/position.py', 'hermipy/quad.py', 'hermipy/compquad.py'],
     [('tensorize/project', 'hermipy/position.py, hermipy/quad.py')],
     observe=['Position.tensorize', 'Position.project', 'Position.__eq__', 'Quad.tensorize', 'Quad.project', 'Quad.__eq__', 'Quad.gauss_hermite', 'Quad.fourier'])
prop('C21', 'Series and matrices form a consistent algebra and refuse mismatches',
     'Sums, differences, negations, scalings, application of a matrix to a series, products (shared directions of series '
     'contracted) and conversion to the cross set act entrywise as on the functions and operators represented, keep position, '
     'factor, degree and index set, and leave their operands unchanged, for dense and sparse matrices. Sums of operands with '
     'different positions, index sets, degrees or factors, and applying or solving with a series of another position, index set or '
     'degree, are refused with an exception, and such operands never compare equal. Solving returns a series that the matrix maps '
     'back to the right-hand side, eigs returns eigenpairs, and the function made from a series is its Hermite expansion.',
     ['histories', 'programs', 'inputs'], 'all short programs over registers of series and matrices with matching and mismatching spaces, dense and sparse, all index sets',
     'Tests check single operations on one operand pair.',
     ['hermipy/series.py', 'hermipy/varf.py', 'hermipy/lib.py'],
     [('arithmetic operators and guards', 'hermipy/series.py, hermipy/varf.py'), ('solve', 'hermipy/varf.py: Varf.solve')],
     observe=['Series operators', 'Varf operators', 'Varf.__call__', 'Varf.solve', 'Series.to_cross', 'Varf.to_cross'])
prop('C22', 'Invalid requests raise an exception and leave the process usable',
     'A request outside the domain of the library (unknown index set, a number of coefficients that fits no degree, array '
     'sizes or shapes that do not fit the quadrature, degree or dimension, directions out of range or repeated, parts of '
     'different degrees or overlapping directions, expressions that do not compile or mention foreign variables, inconsistent '
     'positions, unsupported argument types) is answered by a Python exception: the process neither '
     'terminates, crashes nor hangs, and no result is returned. Valid requests are answered, with arrays of the right shape, '
     'also after any number of refused ones in the same process, and no request changes the settings. (In dimension 0 an '
     'array-level request may be answered or refused.)',
     ['inputs', 'fault_sequences', 'histories'], 'all public entry points with each argument class made invalid, any interleaving of invalid and valid requests',
     'Tests never send invalid requests: an exit() would end the test run itself.',
     ['cpp/src/hermite/lib.cpp', 'cpp/src/hermite/iterators.cpp', 'cpp/src/hermite/discretize.cpp', 'cpp/src/hermite/transform.cpp',
      'cpp/src/hermite/varf.cpp', 'cpp/src/hermite/project.cpp', 'cpp/src/hermite/tensorize.cpp', 'cpp/src/hermite/inner.cpp', 'hermipy/core.py',
      'hermipy/quad.py', 'hermipy/position.py', 'hermipy/series.py', 'hermipy/varf.py'],
     [('argument checks', 'hermipy/*.py'), ('errors as exceptions', 'cpp/src/hermite')],
     observe=['every public function'])
prop('C23', 'Call accounting counts every call once and stays balanced',
     'After any history of nested, repeated and failing calls of the instrumented functions, the statistics hold, per function, '
     'exactly the number of completed calls and their accumulated time, and the nesting depth is back at its initial value. '
     'Instrumentation returns the result or exception of the wrapped call unchanged, keeps its name, and prints only when asked.',
     ['histories', 'fault_sequences'], 'all call trees up to a bound with exceptions at any node, with and without trails',
     'Tests never look at the statistics nor raise inside an instrumented call.',
     ['hermipy/stats.py'],
     [('log_stats, debug wrappers', 'hermipy/stats.py')],
     state=[('stats', 'per-function counters', 'hermipy/stats.py'), ('indent', 'nesting depth', 'hermipy/stats.py')],
     observe=['hermipy.stats.stats', 'hermipy.stats.indent', 'hermipy.stats.log_stats'])
prop('C24', 'Equation builders give mass-conserving and Gibbs-preserving operators',
     'For every polynomial potential and parameter values, the forward equations (one-dimensional Fokker-Planck, McKean-Vlasov '
     'with white, Ornstein-Uhlenbeck or harmonic noise, Langevin) are the Fokker-Planck operators of their stochastic '
     'dynamics and conserve mass: the formal adjoint annihilates constants, and they are minus the divergence of the fluxes '
     'that are given for them. The backward operators (overdamped, Langevin, '
     'generalized Langevin with 0, 1 or 2 auxiliary processes and a matrix with positive symmetric part) are the generators of their '
     'dynamics, annihilate constants, and their formal adjoint annihilates the Gibbs density of the total energy. Parameters '
     'may be numbers or symbols substituted afterwards. map_operator conjugates with its factor, and for linear dynamics '
     'solve_gaussian returns the normalised stationary Gaussian density.',
     ['inputs', 'configurations'], 'all polynomial potentials, all rational parameter values, all supported noise kinds',
     'Tests use one potential and one parameter set and look at the end result only.',
     ['hermipy/equations.py'],
     [('equation classes', 'hermipy/equations.py')],
     observe=['hermipy.equations.*.equation', 'hermipy.equations.*.backward', 'hermipy.equations.Langevin.forward', 'hermipy.equations.map_operator', 'hermipy.equations.solve_gaussian'])

prop('C25', 'Plots show what was computed and leave it unchanged',
     'Quad.plot draws, on the mapped nodes of any quadrature of one or two directions, the values of its argument - an '
     'expression, a function, an array of grid values, or a series with its own position, times its factor and the '
     'given factor: in one direction the curve through (node, value), in two directions the map whose value at '
     '(x_i, y_j) is the value at that node, with the contour lines of the same values when asked. Without a title it is entitled '
     'by the extreme values; bounds are drawn where ((x - mean) / deviation)^2 = 2 (2 degree + 1). Quad.plot_hf draws one basis '
     'function likewise; Quad.streamlines draws the contours of the stream function of the field; Series.plot draws each '
     'coefficient at its multi-index and Varf.plot each nonzero entry at its row and column, dense or sparse, with '
     'lines where the degree rises. Each call adds to the given axes (or to a new figure, which it shows) and to nothing else, and '
     'never changes the objects it draws; a refused call draws nothing.',
     ['inputs', 'histories'], 'all quadratures of one or two directions with diagonal covariance, Hermite or Fourier, all supported arguments, factors and options, all sequences of drawings',
     'The repository has no test of the drawing functions: a picture of the wrong values looks like a picture.',
     ['hermipy/quad.py', 'hermipy/series.py', 'hermipy/varf.py'],
     [('drawing functions', 'hermipy/quad.py: plot, plot_hf, streamlines; hermipy/series.py: plot; hermipy/varf.py: plot')],
     observe=['Quad.plot', 'Quad.plot_hf', 'Quad.streamlines', 'Series.plot', 'Varf.plot'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
