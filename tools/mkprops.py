#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
B, R = 'src/bezier_spline.inc', 'src/rational_bezier_spline.inc'
BH, RH = 'src/bezier_spline.hpp', 'src/rational_bezier_spline.hpp'
AH, AI = ('src/utils/computational_differentiation/algo_diff_type.hpp',
          'src/utils/computational_differentiation/algo_diff_type.inc')
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


p('P01', 'AD derivatives equal the exact chain rule',
  'Every arithmetic operator and elementary function of the algorithmic-differentiation number (in every operand order: number/number, number/plain scalar, plain scalar/number, and in-place forms) returns, for each independent variable, exactly the partial derivative given by the chain rule at the operands\' values; an active (independent) number carries the unit derivative in its own component and zero in every other, before and after re-activation, and a constant carries none.',
  ['inputs'], 'all operand values inside the mathematical domain, all derivative counts, static and dynamic storage, nested numbers',
  'The tests evaluate a handful of expressions at fixed values with a fixed number of derivatives; a wrong branch, sign or operand order at other values or in an untested overload is invisible.',
  [AI, AH], [('operator and function overloads', AI)], observe=['GetDerivatives()'])
p('P02', 'AD values equal the plain computation',
  'The value carried by the result of every operator and elementary function of the algorithmic-differentiation number is the value the same operation gives on the plain operands, for every nesting level of the number type.',
  ['inputs'], 'all operand values in the domain of the operation, all overloads, nested number types',
  'Tests compare few values; nested types and the scalar-on-the-left overloads are barely sampled.',
  [AI, AH], [('operator and function overloads', AI)], observe=['GetValue()'])
p('P03', 'AD comparisons order by value',
  'Each of the six comparison operators, with either operand being an algorithmic-differentiation number or a plain scalar, returns what the same comparison of the two values returns, independent of the derivatives.',
  ['inputs'], 'all pairs of values, all operand orders', 'The tests exercise only some operators with unequal values; equality, strictness and swapped operands are not all distinguished.',
  [AI, AH], [('comparison overloads', AI)])
p('P04', 'Operands with different derivative counts are rejected',
  'In builds with assertions enabled every binary arithmetic operation (including in-place forms) on two algorithmic-differentiation numbers with a run-time number of derivatives aborts when the two counts differ instead of reading past the shorter derivative list; in all builds no operation on numbers of equal count touches a derivative index outside the list.',
  ['inputs', 'configurations'], 'all derivative counts of both operands, all binary operations', 'No test combines numbers of different derivative counts.',
  [AI, AH], [('assertions in binary operations', AI)])
p('P05', 'Spline storage is consistent after every mutation',
  'After each constructor that is given degrees and each operation that changes degrees or returns a spline (degree updates, elevation, addition, products, derivatives, splitting, coordinate extraction, copies), the number of control points is the product over all parametric dimensions of (degree + 1), the per-dimension index strides are the running products of those factors, and the control-point container has exactly that many entries; a default-constructed spline holds no control points.',
  ['inputs', 'histories'], 'all degrees, all parametric dimensions, every constructor and degree-changing operation',
  'Tests check a few degrees in one or two dimensions; a stride error in a third dimension or after an update is not reached.',
  [B, BH], [('degree updates', BH), ('stride computation', B)],
  [('degrees', 'polynomial degree per parametric dimension', BH), ('strides', 'linearisation strides', BH)])
p('P06', 'Numerator and weight function stay congruent',
  'Every constructor and every mutating operation of a rational spline leaves the weighted-control-point spline and the weight-function spline with the same degrees, strides and number of control points.',
  ['inputs', 'histories'], 'every constructor and mutating operation, all degrees', 'Tests only build congruent splines and look at few operations.',
  [R, RH], [('paired updates of the two member splines', R)])
p('P07', 'Local/global index conversion is a bijection and accessors agree',
  'Converting a flat control-point index to a multi-index and back is the identity in both directions for all in-range indices, the first parametric dimension varies fastest, and every overload that addresses a control point (variadic, array; mutable, read-only; polynomial, rational) selects the entry with that flat index.',
  ['inputs'], 'all degrees, all in-range (multi-)indices, all parametric dimensions', 'Tests use one or two splines; the rational accessors are only called for curves, where a wrong multi-index evaluation is not visible.',
  [B, BH, R, RH], [('index conversion', B), ('accessor overloads', R)])
p('P08', 'Evaluation equals the Bernstein form',
  'Evaluating a polynomial spline at any parametric point returns the sum over all control points of the control point times the product of Bernstein polynomials, for every combination of degrees and every parametric dimension, by the recursive and by the explicit evaluation, both by the point and by the variadic call form.',
  ['inputs'], 'all degrees, control points and parameters', 'Tests sample few degrees and mostly lines and surfaces; volume splines with unequal degrees are not distinguished.',
  [B, BH], [('de Casteljau sweep', B)])
p('P09', 'Basis functions and their derivatives have the closed Bernstein form',
  'Basis functions (per dimension and combined) are the Bernstein polynomials and their n-th derivatives, combined in the control points\' storage order; summing them against the control points gives the forward evaluation and the point derivative, and derivatives of an order above the degree are zero.',
  ['inputs'], 'all degrees, derivative orders, parameters', 'Tests check low orders and few degrees by comparing with other code of the library.',
  [B, 'src/utils/algorithms/bernstein_polynomial.hpp', 'src/utils/algorithms/recursive_combine.hpp'],
  [('Bernstein recurrence', 'src/utils/algorithms/bernstein_polynomial.hpp'), ('tensor combination', 'src/utils/algorithms/recursive_combine.hpp')])
p('P10', 'The derivative spline is the derivative',
  'The spline returned for given derivative orders is the mixed partial derivative of the spline: its degrees are lowered by the orders and its control points are the scaled iterated differences; orders above the degree yield the zero function.',
  ['inputs'], 'all degrees and order vectors', 'Tests take first derivatives of random splines at few points; mixed and higher orders in several dimensions are sampled thinly.',
  [B], [('iterated differences', B)])
p('P11', 'Order elevation preserves the function',
  'Raising the degree along any parametric dimension increases exactly that degree by one and leaves the represented function unchanged, for every degree and dimension.',
  ['inputs'], 'all degrees, dimensions and control points', 'Tests elevate a few random splines in one or two dimensions.',
  [B], [('in-place backwards sweep', B)])
p('P12', 'Splitting restricts the function exactly',
  'Splitting at a position along any dimension (the first when none is named) yields two splines of the same degrees that are the original restricted to the two sub-intervals re-parametrised to the unit interval; splitting at a sorted list of positions yields the consecutive pieces in order.',
  ['inputs'], 'all degrees, dimensions, split positions and lists of positions', 'Tests only look at the first part of a single split; the second part, lists of positions and higher dimensions are not asserted.',
  [B, R], [('de Casteljau split', B), ('recursive re-parametrisation', B)])
p('P13', 'Spline addition and subtraction are pointwise',
  'Adding or subtracting two polynomial splines (value-returning and in-place) gives the spline of the pointwise sum or difference with, per dimension, the larger of the two degrees, and leaves operands that are not the target unchanged.',
  ['inputs'], 'all degree combinations including mixed larger/smaller dimensions', 'Tests use few degree pairs, rarely with each operand larger in a different dimension.',
  [B], [('degree unification', B)])
p('P14', 'Spline products and powers are pointwise',
  'The product of two splines represents the pointwise product with summed degrees, and raising a scalar spline to a power represents the pointwise power with multiplied degrees, including powers zero and one.',
  ['inputs'], 'all degree combinations, exponents and dimensions', 'Tests multiply a few random lines and surfaces.',
  [B], [('Bernstein product coefficients', B), ('binary powering', B)])
p('P15', 'Composition represents the composed function',
  'Composing an outer spline with an inner spline (polynomial or rational in either place, single or group) represents outer(inner(u)) for all u, and the composition sensitivities are the derivatives of that composition with respect to the outer control points in storage order.',
  ['inputs'], 'all degrees and control points of outer and inner spline, all dimension combinations', 'Tests compose a few low-degree splines; group composition is never called.',
  [B, R], [('Bernstein basis splines of the inner function', B)])
p('P16', 'Composition always validates the inner function',
  'Every public composition and composition-sensitivity entry point, polynomial or rational, single or group, terminates with an error in every build configuration when the inner function leaves the unit cube, before any result is produced.',
  ['inputs', 'configurations'], 'all entry points and inner functions', 'Tests check the error for one polynomial entry point only.',
  [B, R], [('unit-cube guard', B)])
p('P17', 'Rational arithmetic is pointwise on quotients',
  'Sum, difference, product, negation, shift and scaling of rational splines (also mixed with polynomial splines and points, in-place and value-returning, equal or different weight functions) represent the pointwise operation on the quotient functions.',
  ['inputs'], 'all degree and weight combinations', 'Tests use a handful of rational splines, often with equal weights.',
  [R, RH], [('common denominator construction', R)])
p('P18', 'Rational evaluation, basis functions and derivatives are the quotient\'s',
  'Evaluation (both algorithms), basis functions, point derivatives and the derivative spline of a rational spline agree with the quotient of numerator and weight function and its exact derivatives, for all orders.',
  ['inputs'], 'all degrees, weights, parameters, derivative orders', 'Forward evaluation is only checked for symmetry; higher mixed derivative orders are not sampled.',
  [R, RH], [('quotient rule recursion', R)])
p('P19', 'Scaling all weights leaves the rational function unchanged',
  'Multiplying all homogeneous coordinates (weighted control points and weights) of a rational spline by one non-zero constant changes neither its evaluation, its basis functions, its control points nor the function represented by any operation\'s result (the coordinate extraction excepted, whose polynomial result is the weighted coordinate).',
  ['inputs'], 'all non-zero factors and all operations returning points or functions', 'No test re-runs an operation with scaled weights.',
  [R, RH], [('division by the weight function', R)])
p('P20', 'Element-wise transformations act on every control point',
  'Scaling, shifting, negating, translate-and-scale, fitting into the unit cube and extracting a coordinate apply the same affine map to each control point (each coordinate with its own parameters), touching all of them exactly once and nothing else.',
  ['inputs'], 'all degrees, control points, parameters', 'Tests check few splines and coordinates.',
  [B, BH, R], [('loops over control points', B)])
p('P21', 'In-place operations tolerate operands that alias the target',
  'An in-place operation whose argument is a reference to part of the object it modifies (the spline or point itself, one of its control points, one of its coordinates) gives the same result as with an independent copy of that argument.',
  ['inputs'], 'all in-place operations, all aliasing patterns between argument and target', 'Tests never pass aliasing arguments.',
  ['src/point.hpp', B, R, AI], [('argument passing and order of writes', B)])
p('P22', 'Bounding corners bound all control points',
  'The maximum and minimum corners are, per coordinate, the largest and smallest control-point coordinate over all control points, and the unit-cube test is true exactly when every coordinate of every control point lies in the closed interval from zero to one.',
  ['inputs'], 'all control point sets', 'Tests use small fixed control point sets where omitting one point or coordinate is not visible.',
  [B, R], [('running maximum/minimum', B)])
p('P23', 'Const operations have no observable side effects',
  'Operations on a const spline, point or differentiation number modify neither the object nor any object reachable from it nor mutable shared state other than the logger, so that concurrent readers are safe; no reference to internal mutable state escapes from a const object.',
  ['schedules', 'histories'], 'all const operations, all interleavings of readers', 'Single-threaded tests cannot show the absence of hidden shared writes.',
  [B, R, BH, RH, AI, AH, 'src/point.hpp'], [('const-correct members', BH)])
p('P24', 'Invalid requests are rejected in every build configuration',
  'Requests documented as errors (split position outside the open unit interval, unsorted split positions, coordinate extraction out of range, power of a vector-valued spline, corner of an empty spline, composition outside the unit cube) raise the terminating error before any result is produced, independent of logging and assertion settings.',
  ['inputs', 'configurations'], 'all invalid requests, all build configurations', 'Tests run in one configuration and trigger few of the errors.',
  [B, R, 'src/utils/logger.hpp'], [('explicit guards', B), ('terminating error', 'src/utils/logger.hpp')])
p('P25', 'Binomial coefficients are exact',
  'For every supported degree the tabulated binomial coefficient equals n over i for all 0 <= i <= n, for every configured table size whose entries fit the table\'s integer type, and requests beyond the table are rejected in checked builds.',
  ['inputs', 'configurations'], 'all (n, i) in the table, all configured maximum degrees', 'Tests check the default table size at some entries.',
  ['src/utils/binomialcoefficientlookuptablecreator.hpp', 'src/utils/fastbinomialcoefficient.hpp'], [('Pascal recurrence', 'src/utils/binomialcoefficientlookuptablecreator.hpp')])
p('P26', 'Base64 encoding is RFC 4648 and round-trips',
  'Encoding any vector of fixed-size values yields the standard padded Base64 text of exactly its bytes, decoding that text yields the vector again, and neither direction reads or writes outside its buffers for any input length.',
  ['inputs'], 'all element types, vector lengths and byte values', 'Tests round-trip a few vectors of 8- and 4-byte types.',
  ['src/utils/base64.hpp'], [('6-bit regrouping', 'src/utils/base64.hpp')])
p('P27', 'Logger honours its output level and keeps the log',
  'Each kind of message is emitted exactly to the sinks enabled for that kind, a terminating error always throws the documented exception whether or not output is enabled, the output level is exactly the union of the requested options, and opening, closing and re-opening of the log files (in any order of level changes and messages) never discards entries written earlier in the run; all files are saved before a terminating error is thrown.',
  ['inputs', 'histories', 'configurations'], 'all output levels and message sequences', 'The logger is not tested at all.',
  ['src/utils/logger.hpp'], [('level bit tests', 'src/utils/logger.hpp')])
p('P28', 'Points are a vector space; integer power and index sort are exact',
  'Point addition, subtraction, scaling, division, negation, inner product and norms act component-wise on all components; the integer power returns base to the power for all non-negative exponents whose result is representable; the index sort returns the stable ascending permutation.',
  ['inputs'], 'all dimensions, component types and values', 'Tests use few values; stable order of equal keys, large integer types and exponents are not sampled.',
  ['src/point.hpp', 'src/utils/algorithms/int_power.hpp', 'src/utils/algorithms/sort.hpp'], [('component loops', 'src/point.hpp')])
p('P29', 'Every public operation can be used with its documented types',
  'Each public header compiles on its own and every public operation can be instantiated for scalar- and point-valued splines of one to three parametric dimensions, for every documented operand combination and with differentiation numbers, and returns the documented type.',
  ['programs', 'configurations'], 'all client programs that use the documented interface', 'Templates that no test instantiates are never type-checked.',
  ['src'], [('template definitions', 'src')])
p('P30', 'Container accesses stay in range',
  'For all valid arguments (in-range dimensions, indices, orders and positions) every control-point, degree, stride, table and buffer access made by an operation lies inside its container.',
  ['inputs'], 'all degrees, dimensions, orders', 'Out-of-range reads of neighbouring memory mostly go unnoticed in tests without sanitizers.',
  [B, R, 'src/utils/algorithms/bernstein_polynomial.hpp', 'src/utils/base64.hpp'], [('index arithmetic', B)])
p('P31', 'Results are accurate to rounding error',
  'The floating-point result of each evaluation differs from the exact value by at most a small multiple of the unit round-off times the magnitude of the control points.',
  ['inputs'], 'all degrees, control points, parameters in the unit interval', 'Tests compare with loose tolerances on few inputs.',
  [B, R], [('de Casteljau sweep', B)])
p('P32', 'Copies are equal and independent, and equality is exact',
  'Copy construction, move construction and copy or move assignment of polynomial splines, rational splines and points (onto an object of other degrees, of the same number of control points, of the same degrees, or onto itself) leave the target with exactly the degrees, control points and weights the source had, leave a copied source unchanged, and make two objects that share nothing: changing one later does not change the other. Two polynomial splines compare equal exactly when their degrees and all their control points agree, and two points exactly when all their components do.',
  ['inputs', 'histories'], 'all degrees and contents of source and target, every special member function',
  'The tests copy splines only on the way to other results and compare only a few splines of fixed sizes; targets of the same size, self-assignment and splines that differ in one late control point are not distinguished.',
  [B, BH, R, RH, 'src/point.hpp'], [('special member functions', BH), ('equality', B)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
