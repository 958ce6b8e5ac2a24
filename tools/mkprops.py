#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, readable)."""
import json, os
B='src/bezier_spline.inc'; BH='src/bezier_spline.hpp'; R='src/rational_bezier_spline.inc'; RH='src/rational_bezier_spline.hpp'
BP='src/utils/algorithms/bernstein_polynomial.hpp'; FB='src/utils/fastbinomialcoefficient.hpp'; LT='src/utils/binomialcoefficientlookuptablecreator.hpp'
RC='src/utils/algorithms/recursive_combine.hpp'; IP='src/utils/algorithms/int_power.hpp'; SO='src/utils/algorithms/sort.hpp'
PT='src/point.hpp'; AD='src/utils/computational_differentiation/algo_diff_type.inc'; ADH='src/utils/computational_differentiation/algo_diff_type.hpp'
B64='src/utils/base64.hpp'; LG='src/utils/logger.hpp'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Polynomial splines evaluate to their Bernstein sum on every path",
 "For every polynomial Bezier spline (any parametric dimension, any degrees per direction including 0, scalar- or vector-valued control points) and every parameter in the closed unit cube, both evaluation routines (de Casteljau and explicit basis values) return the tensor-product Bernstein sum of the control points, up to rounding relative to the size of the summands. The corners of the parameter domain return the corner control points, and evaluating leaves the spline unchanged, whatever was evaluated before.",
 ["inputs","histories"],"all degrees up to the configured maximum, 1 to 6 parametric dimensions, all control points and all parameters, in any sequence of evaluations",
 "The tests compare the routines on a handful of fixed low-degree curves and one surface/volume; degree combinations, zero degrees, corners, magnitudes and sequences of evaluations are unbounded.",
 [B,BH,BP,RC],[("de Casteljau on a copy of the control points","bezier_spline.inc Evaluate"),("sum of basis values times control points","bezier_spline.inc ForwardEvaluate"),("Bernstein values per direction and their tensor product","bernstein_polynomial.hpp Evaluate, recursive_combine.hpp")],
 ["return values of Evaluate / ForwardEvaluate"],[("control_points","row-based, first direction fastest","bezier_spline.hpp")])
prop("C02","Basis functions: non-negative, partition of unity, control-point order",
 "At every parameter in the closed unit cube the list of basis functions of a spline has one entry per control point in control-point order, each entry is the corresponding (weighted, for rational splines: rational) Bernstein basis value, all entries are non-negative and they sum to one. The per-direction contributions are the univariate Bernstein values, and the unweighted rational basis equals the weighted one divided by the weights.",
 ["inputs"],"all degrees, dimensions, positive weights and parameters",
 "Tests look at a few sums and values; ordering of the tensor product in higher dimensions with unequal degrees and extreme weights is not sampled.",
 [B,R,BP,RC],[("Bernstein values","bernstein_polynomial.hpp Evaluate"),("tensor product, first direction fastest","recursive_combine.hpp"),("division by the weight function","rational_bezier_spline.inc BasisFunctions/UnweightedBasisFunctions")],
 ["BasisFunctions, BasisFunctionContributions, UnweightedBasisFunctions"])
prop("C03","Rational splines evaluate to weighted sum over weight function",
 "For every rational spline with positive weights, both evaluation routines return the weighted control-point sum divided by the weight function at every parameter of the closed unit cube, however the spline was constructed (control points and weights, numerator and weight function, or from a polynomial spline, which keeps its values). Scaling all weights and weighted control points by the same positive factor does not change any value, and every value lies in the bounding box of the control points.",
 ["inputs"],"all degrees, dimensions, control points, positive weights (equal, nearly equal, of very different magnitude) and parameters",
 "The tests evaluate circular arcs and a few fixed splines through one of the two routines only.",
 [R,RH,B],[("numerator divided by weight function","rational_bezier_spline.inc Evaluate, ForwardEvaluate"),("weighting of the control points on construction","rational_bezier_spline.hpp constructors")],
 ["Evaluate, ForwardEvaluate, ControlPoint, GetWeights"])
prop("C04","Degree elevation raises the degree and preserves the geometry",
 "Elevating any spline (polynomial or rational) along any direction, any number of times and in any order of directions, raises exactly that degree by one per call, keeps the control-point count consistent with the degrees, and leaves the value at every parameter unchanged. The control points are the ones of the unique Bernstein representation in the raised degree; elevations along different directions commute.",
 ["inputs","histories"],"all splines and all sequences of elevations up to the configured maximum degree",
 "Tests elevate a few fixed splines once or twice in low dimension; the in-place back-to-front update depends on all degrees and the position of the direction.",
 [B,R],[("in-place elevation from the last to the first control point","bezier_spline.inc OrderElevateAlongParametricDimension"),("numerator and weights elevated together","rational_bezier_spline.inc OrderElevateAlongParametricDimension")],
 ["control points, degrees, evaluated values after elevation"])
prop("C05","Polynomial derivatives of any mixed order are exact on every path",
 "For every polynomial spline and every combination of derivative orders per direction (including zero, and orders above the degree, where the derivative vanishes), the closed-form derivative spline, the pointwise derivative and the derivatives of the basis functions all equal the mathematical mixed partial derivative. The closed form has the degree reduced by the order in each direction and never below zero.",
 ["inputs"],"all splines, all order combinations, all parameters in the closed unit cube",
 "Tests check first and a few second derivatives of small fixed splines; mixed high orders, zero degrees and orders beyond the degree are not reached.",
 [B,BP],[("forward differences with binomial coefficients","bezier_spline.inc DerivativeWRTParametricDimension"),("Bernstein derivative formula","bernstein_polynomial.hpp EvaluateDerivative"),("tensor product of derivative contributions","bezier_spline.inc BasisFunctionsDerivatives, EvaluateDerivative")],
 ["control points of the derivative, EvaluateDerivative, BasisFunctionsDerivatives, BasisFunctionsDerivativeContributions"])
prop("C06","Rational derivatives of any mixed order are exact on every path",
 "For every rational spline with positive weights and every combination of derivative orders per direction (including zero and orders above the degree), the pointwise derivative, the derivatives of the rational basis functions and the closed-form rational derivative all equal the mathematical mixed partial derivative of the quotient.",
 ["inputs"],"all rational splines, order combinations and parameters in the closed unit cube",
 "Tests compare a few low orders against fixed values or against each other on fixed splines.",
 [R],[("recursive Leibniz rule over all lower mixed orders","rational_bezier_spline.inc EvaluateDerivative, BasisFunctionsDerivatives"),("repeated quotient rule","rational_bezier_spline.inc DerivativeWRTParametricDimension")],
 ["EvaluateDerivative, BasisFunctionsDerivatives, Evaluate of the closed form"])
prop("C07","Splitting reproduces exactly the requested parameter ranges",
 "Splitting a spline (polynomial or rational) at any increasing list of planes strictly inside (0,1) along any direction yields one piece more than planes, each with the original degrees, and piece k traced over [0,1] reproduces the original over the k-th parameter interval while all other directions keep their parametrization. Neighbouring pieces share their interface, an empty list yields the spline itself, and planes outside (0,1) or in decreasing order are rejected with an exception without changing the spline.",
 ["inputs"],"all splines, directions, plane lists (including many and nearly coincident planes)",
 "Tests split a few fixed splines at one or two planes.",
 [B,R],[("simultaneous de Casteljau for both parts","bezier_spline.inc SplitAtPosition(scalar)"),("relative position in the remaining part","bezier_spline.inc / rational_bezier_spline.inc SplitAtPosition(vector)")],
 ["values and control points of the returned pieces"])
prop("C08","Adding and subtracting polynomial splines is pointwise for any degrees",
 "For any two polynomial splines of the same parametric dimension, whatever their degrees per direction, their sum and difference (binary and in-place forms, also of a spline with itself) terminate and represent the pointwise sum and difference, in the larger of the two degrees in each direction. Operands that are not assigned to stay unchanged.",
 ["inputs"],"all pairs of splines, with equal, ordered or crossing degrees per direction",
 "Tests add and subtract few pairs, none of which needs the right-hand side of a subtraction to be of higher degree or crossing degrees in several directions.",
 [B],[("mutual degree elevation, then control-point wise operation","bezier_spline.inc operator+, operator-, operator+=, operator-=")],
 ["values, degrees and control points of the result"])
prop("C09","Products and powers of polynomial splines are pointwise",
 "The product of any two polynomial splines (scalar times scalar, scalar times vector, or vector times vector as the dot product) equals the product of their values at every parameter, with degrees that add up; a scalar spline raised to any non-negative integer power equals the pointwise power, with the degrees multiplied, the zeroth power being the constant one. Raising a vector-valued spline is rejected with an exception.",
 ["inputs"],"all pairs of splines with total degree up to the configured maximum, all powers",
 "Tests multiply a handful of splines of low degree and raise one to a power.",
 [B,FB],[("Bernstein product formula by recursion over the directions","bezier_spline.inc CombineControlPointsForProduct_"),("binary exponentiation","bezier_spline.inc RaisePower")],
 ["values, degrees and control points of the result"])
prop("C10","Affine operations act pointwise, even with operands from the own data",
 "Scaling, shifting, negating (all operand orders, binary and in-place) and extracting a coordinate act on the values of a spline at every parameter exactly as on single values and keep its degrees, for polynomial and rational splines alike (extraction from a rational spline yields the numerator's coordinate). In-place forms use the value the operand had at the call, even if the operand is one of the spline's own control points, coordinates or weights, and the binary forms leave their operands unchanged.",
 ["inputs","histories"],"all splines, scalars, shifts, operand orders, aliased operands and sequences of such operations",
 "Tests apply each operator once to fixed splines with independent operands.",
 [B,BH,R,RH],[("control-point wise operations","bezier_spline.inc operator*=, +=, -=, unary -, ExtractDimension"),("shift multiplied with the weights","rational_bezier_spline.inc operator+=, -=")],
 ["control points, weights and values after the operation"])
prop("C11","Arithmetic of rational splines is pointwise, whatever the weights",
 "Sum, difference and product of two rational splines of the same parametric dimension (binary and in-place forms, also of a spline with itself) equal the sum, difference and product of their values at every parameter, for equal, proportional, nearly equal and entirely different weights and for different degrees. If both operands have identical weight functions, sum and difference keep the degree.",
 ["inputs"],"all pairs of rational splines with positive weights",
 "Tests use a few fixed pairs with either the same or clearly different weights.",
 [R],[("shortcut for identical weight functions, cross multiplication otherwise","rational_bezier_spline.inc operator+, -, +=, -=, *")],
 ["values of the result"])
prop("C12","Composition of splines is functional composition",
 "Composing an outer with an inner spline that lies in the unit cube - each polynomial or rational - gives a spline whose value at every parameter of the inner one equals the outer evaluated at the value of the inner; if both are polynomial, or if only the inner is rational or only the outer, its degree per direction is the inner degree times the sum of all outer degrees. Composing with a list of inner splines gives the list of the individual compositions in order.",
 ["inputs"],"all outer and inner splines, parametric dimensions of both sides 1 to 3, all degrees (incl. zero), polynomial/rational combinations",
 "Tests compose a few fixed splines of low degree and compare at few points.",
 [B,RH],[("Bernstein polynomials with inserted inner coordinates, multiplied out","bezier_spline.inc ComposeNumeratorHelper"),("power of the inner weight function","bezier_spline.inc ComposeDenominatorSpline"),("composition of numerator and weight function","rational_bezier_spline.hpp Compose")],
 ["values and degrees of the composition"])
prop("C13","Inner splines outside the unit cube are rejected, never composed",
 "A spline is reported to fit the unit cube exactly if all its control points have coordinates in [0,1]. Every composition and every composition sensitivity (all polynomial/rational combinations and lists) throws if, and only if, an inner spline does not fit, wherever the offending coordinate is, and leaves all operands unchanged.",
 ["inputs"],"all inner splines with none, one or several coordinates outside, by any amount, at any position",
 "Tests contain a single rejected composition.",
 [B,R,RH],[("corner comparison","bezier_spline.inc / rational_bezier_spline.inc FitsIntoUnitCube, MaximumCorner, MinimumCorner"),("guard at the start of every composition","Compose, ComposeSensitivity")],
 ["thrown exceptions, FitsIntoUnitCube"])
prop("C14","Composition sensitivities are the control-point derivatives",
 "For every outer and inner spline (each polynomial or rational) the list of composition sensitivities has one spline per outer control point, in control-point order, and its i-th entry equals the derivative of the composition's value with respect to the i-th outer control point at every parameter: the outer basis function (rational basis with the weight) at the value of the inner spline. Hence the sensitivities sum to one and the composition is their combination with the outer control points.",
 ["inputs"],"all outer and inner splines, all polynomial/rational combinations",
 "Tests compare few fixed configurations against finite perturbations.",
 [B,R],[("composition without the control points","bezier_spline.inc ComposeNumeratorHelper<true>"),("rescaling with the outer weight","rational_bezier_spline.inc ComposeSensitivity")],
 ["values of the returned splines"])
prop("C15","Corners bound the spline and fitting maps it onto the unit cube",
 "The minimum and maximum corners are the coordinate-wise extremes of the control points, so every value of the spline lies between them (for rational splines with positive weights too). Fitting into the unit cube is the affine map that takes these corners to 0 and 1 in every coordinate with extent (a coordinate without extent is only shifted to 0; an extent has to be representable, as has its inverse), after which the spline is reported to fit; transposing and scaling shifts each coordinate and then multiplies it.",
 ["inputs"],"all splines, including flat, one-point and negative ones",
 "Tests fit a few splines with extent in all coordinates.",
 [B,R],[("extremes over the control points","MaximumCorner, MinimumCorner"),("coordinate-wise affine map","bezier_spline.inc TransposeAndScale, FitIntoUnitCube")],
 ["corners, control points and values after the map"])
prop("C16","Control-point indexing is one bijection, consistent across all accessors",
 "For any degrees the mapping between multi-indices and positions is the bijection with the first direction running fastest, and all accessors (index list, index array, flat list, weighted point, weight, point) refer to the same control point for polynomial and rational splines, reading and writing. Number of control points, degrees and the flat list stay consistent after construction, copies, assignments, degree updates and every operation.",
 ["inputs","histories"],"all degrees and dimensions, all index tuples, all sequences of constructions, assignments and degree updates",
 "Tests access a few entries of small splines.",
 [B,BH,R,RH],[("index offsets","bezier_spline.inc UpdateIndexOffsets_, LocalToGlobalIndex, GlobalToLocalIndex, ControlPoint"),("accessors of numerator and weight function","rational_bezier_spline.inc ControlPoint, WeightedControlPoint, Weight"),("UpdateDegrees","bezier_spline.hpp, rational_bezier_spline.hpp")],
 ["all accessors"],[("index_offsets","stride per direction","bezier_spline.hpp"),("number_of_control_points","cached product of (degree+1)","bezier_spline.hpp")])
prop("C17","Binomial coefficients and Bernstein polynomials are exact for all degrees",
 "For every configured maximum degree (up to 68, the last one whose coefficients fit 64 bits), every tabulated binomial coefficient n over i with n below the maximum is exact. Bernstein polynomials of every degree below the maximum and their derivatives of every order match their definition at every value in [0,1], are zero for orders above the degree, and do not depend on the configured maximum or the build type.",
 ["inputs","configurations"],"all n and i below the configured maximum (all maxima from 1 to 68), all degrees, derivative orders and values",
 "Tests compare few coefficients under a single configured maximum, and low degrees.",
 [BP,FB,LT],[("compile-time Pascal triangle","binomialcoefficientlookuptablecreator.hpp, fastbinomialcoefficient.hpp"),("Bernstein values and derivatives","bernstein_polynomial.hpp")],
 ["choose, Evaluate, EvaluateDerivative"])
prop("C18","Automatic differentiation propagates exact values and gradients",
 "Every expression built from the supported arithmetic, power, root, exponential, logarithm, absolute value and (inverse) trigonometric operations, in every operand order (also with plain scalars and in-place, and of a variable with itself) evaluates to the value of the plain expression and to its exact gradient wherever it is differentiable (a power with a differentiable exponent needs a positive base), for a fixed or run-time number of variables. Comparisons in every operand order agree with the comparison of the plain values, and operands that are not assigned to stay unchanged.",
 ["inputs","programs"],"all expressions over any number of variables and all values where they are differentiable",
 "Tests apply each operation to a few values, mostly one at a time.",
 [AD,ADH],[("differentiation rules per operation","algo_diff_type.inc"),("comparisons","algo_diff_type.hpp, algo_diff_type.inc")],
 ["GetValue, GetDerivatives, comparisons"])
prop("C19","Nested automatic differentiation yields exact second derivatives",
 "Nesting the differentiation type in itself evaluates every expression of the supported operations to the exact value, gradient and (symmetric) matrix of second derivatives wherever it is twice differentiable (powers: positive bases; the inner type with a fixed number of variables).",
 ["inputs","programs"],"all expressions over several variables and all values where they are twice differentiable",
 "No test nests the type, although the code documents it as the way to second derivatives.",
 [AD,ADH],[("differentiation rules applied to the nested scalar","algo_diff_type.inc")],
 ["GetValue, GetDerivatives of value and derivatives"])
prop("C20","Base64 export is lossless and standard conforming",
 "Encoding any list of numbers or points of any arithmetic type and any length (including empty) yields the standard padded Base64 text of its memory bytes, and decoding that text as the same type returns the list bit for bit. Decoding it as entries of another size yields every complete entry its bytes contain. Neither direction touches memory outside the lists or depends on anything but its argument.",
 ["inputs"],"all lists of 1-, 2-, 4- and 8-byte values (all bit patterns) and points, all lengths",
 "Tests encode one literal vector and round-trip four short ones whose lengths hide the padding cases.",
 [B64],[("three bytes to four characters and padding","base64.hpp Encode"),("inverse table and length from padding","base64.hpp Decode")],
 ["encoded text, decoded list"])
prop("C21","Points obey coordinate-wise vector algebra",
 "Sum, difference, negation, scaling and division (all operand orders, binary and in-place, also with operands taken from the point itself) act coordinate by coordinate, the product of two points is the dot product, and the norms are the Euclidean ones, for points of every dimension. Binary operations leave their operands unchanged, and the text output lists all coordinates in order.",
 ["inputs"],"all points of dimension 1 to 5, scalars, aliased operands",
 "Tests use a few fixed 3D points.",
 [PT],[("coordinate loops","point.hpp operators")],
 ["coordinates, norms, text"])
prop("C22","Every message goes exactly to the destinations its level selects, and stays",
 "For every sequence of level changes and messages with logging compiled in, each message appears exactly once, in order and unaltered in each console and file destination that its kind and the active level select, and nowhere else: files of destinations that were never selected are neither created nor changed; time stamps appear exactly if selected. Terminating errors always throw the requested exception with the given text, nothing already written is lost by them or by later level changes, and without logging compiled in only terminating errors ever produce output.",
 ["histories","configurations"],"all sequences of level changes (bit masks and lists), messages of all kinds with arbitrary text and terminating errors",
 "No test covers the logger at all.",
 [LG],[("level bits","logger.hpp SetOutputLevel_"),("file streams opened on demand and kept","logger.hpp init, close"),("exception after recording","logger.hpp TerminatingError_")],
 ["standard output, log_file.log, warning_file.log, error_file.log, exceptions"],[("outputlevel_","bit mask of destinations","logger.hpp")])
prop("C23","Splines are values: histories of mixed operations match a reference",
 "Over any history of operations on a set of splines (construction, copy, assignment, elevation, arithmetic, products, derivatives, splits, compositions, in-place modification), every operation changes only the spline it is applied to and its result equals the mathematical function computed from the operands, so that after any history each spline still represents the function tracked by an independent model. Two splines compare equal exactly if their degrees and control points agree.",
 ["histories"],"all sequences of operations on a pool of polynomial and rational splines",
 "Tests call operations one at a time on fresh fixed splines.",
 [B,BH,R,RH],[("value members only, default copy and assignment","bezier_spline.hpp, rational_bezier_spline.hpp"),("operations return new splines","bezier_spline.inc, rational_bezier_spline.inc")],
 ["degrees, control points, weights and values of all splines after each operation"])
prop("C24","Differentiation types flow through spline operations with exact gradients",
 "Splines whose control points (and parameters) are differentiation types give, for evaluation, basis functions, elevation, splitting, derivatives, arithmetic, products, composition and rational evaluation, values equal to those of the plain splines and gradients equal to the mathematical derivative of the result with respect to the active control-point coordinates, weights, split position and parameters.",
 ["inputs"],"all splines, active inputs and parameters in the unit cube",
 "No test instantiates a spline with a differentiation type, although the scalar type is documented to allow it.",
 [B,R,PT,BP,AD],[("generic scalar type of splines and points","bezier_spline.hpp, point.hpp"),("differentiation rules","algo_diff_type.inc")],
 ["values and derivatives of results"])
prop("C25","Integer powers, index sorting and tensor combination match their definition",
 "Integer powers are exact for every integral type whenever the mathematical result is representable; the index sort returns the unique stable ascending permutation of every list, leaving the list unchanged; the tensor combination of any number of factor lists of any lengths returns all products exactly once, the first factor running fastest.",
 ["inputs"],"all integral types, bases and powers with representable result; all lists (with duplicates, empty); all factor lists",
 "No test covers these helpers directly.",
 [IP,SO,RC],[("binary exponentiation","int_power.hpp"),("stable sort of indices","sort.hpp"),("compile-time recursion","recursive_combine.hpp")],
 ["return values"])
prop("C26","Spline operations satisfy the calculus laws between each other",
 "For all splines the operations are consistent with each other at every parameter: linearity and product rule of derivatives, chain rule for compositions, commuting of differentiation, splitting, elevation, composition and arithmetic with each other (each in the appropriate reparametrization), associativity of composition and products, and degree elevation of an operand never changes a result's values.",
 ["inputs","programs"],"all splines and parameters; all pairs of operations for which a law exists",
 "Tests check operations in isolation on fixed inputs; interactions are not tested.",
 [B,R,RH],[("all spline operations","bezier_spline.inc, rational_bezier_spline.inc")],
 ["values of both sides of each law"])
prop("C27","Invalid requests throw and leave everything unchanged",
 "Requests that have no result - corners or unit-cube test or fit of a spline without control points, extraction of a coordinate that does not exist, powers of vector-valued splines, splits outside (0,1) or unsorted, compositions with inner splines that leave the unit cube or have no control points - throw a runtime error carrying a message in every build type, at once and without modifying any spline, and the spline stays fully usable afterwards. Requests at the valid side of each limit never throw.",
 ["inputs","histories"],"all splines, indices, powers and planes on both sides of each limit, in any sequence with valid operations",
 "Tests contain a few expected exceptions at single values and only in the debug build.",
 [B,R,LG],[("guards raising terminating errors","bezier_spline.inc ExtractDimension, RaisePower, MaximumCorner, MinimumCorner, SplitAtPosition"),("exception after logging","logger.hpp TerminatingError_")],
 ["exceptions; state of the splines afterwards"])
prop("C28","Splines over float and long double are as accurate as their scalar type",
 "Splines, points and parameters over any floating point scalar type (float, double, long double) give, for evaluation, basis functions, derivatives, elevation, splitting, arithmetic, affine operations, products, powers, compositions, sensitivities, corners and fitting, the mathematical result up to a rounding error in units of that scalar type: no result passes through a narrower type or loses more than its own precision. Products of splines of different scalar types are as accurate as the less accurate operand.",
 ["inputs","configurations"],"all splines and parameters over float and long double, all operations",
 "Every test of the repository instantiates splines over double only; a narrowing to double or float somewhere inside is invisible there.",
 [B,BH,R,RH,PT,BP],[("generic scalar type of splines, points and basis functions","bezier_spline.hpp, point.hpp, bernstein_polynomial.hpp"),("binomial coefficients as floating point factors","fastbinomialcoefficient.hpp")],
 ["results of all operations, in units of the last place of the scalar type"])
prop("C29","Const operations are free of shared state: concurrent use equals sequential use",
 "Any number of threads may at the same time evaluate, differentiate, split, copy, combine, multiply and compose the same const splines, receive errors for invalid requests, log messages (at any output level that is set before), and use the helper functions (export, binomials, Bernstein polynomials, powers, sorting, automatic differentiation): there is no data race, every thread gets bitwise the results it would get alone, the shared splines stay unchanged, and every message of every thread reaches its destinations exactly once, in a line of its own and in the order of its thread.",
 ["schedules","programs"],"all sets of programs of const operations on shared splines and all interleavings of their threads",
 "All tests are single-threaded; hidden shared state (a static buffer, a lazily filled cache) gives right results there.",
 [B,R,BP,RC,LG],[("operations work on copies and local variables only","bezier_spline.inc, rational_bezier_spline.inc"),("constant tables","fastbinomialcoefficient.hpp"),("single logger instance, messages written under a lock","logger.hpp Get, mutex_")],
 ["results per thread; reports of the thread sanitizer; console and log files"])
prop("C30","Running out of memory is reported, leaks nothing and spoils no result",
 "If any memory request fails at any point inside any operation (evaluation, basis functions, derivatives, elevation, splitting, arithmetic, products, composition, sensitivities, fitting, export, helper functions, or raising an error for an invalid request), the caller gets std::bad_alloc (or still the right result), nothing is leaked, const operands keep their value bitwise, the target of an in-place operation can be given a new value and used on, and every later operation gives bitwise the result it would have given before. Without a failing request no operation leaks either.",
 ["fault injection points","inputs"],"all operations on all splines and all positions of the failing memory request (once, or all from there on)",
 "No test lets a memory request fail; leaks and half-updated hidden state on such a path are invisible to them.",
 [B,R,BP,RC,B64],[("results and intermediate values in containers that release themselves","bezier_spline.inc, rational_bezier_spline.inc, bernstein_polynomial.hpp, recursive_combine.hpp"),("operands taken by const reference or copied","bezier_spline.inc, rational_bezier_spline.inc")],
 ["exceptions, number of live memory blocks, operands and later results"])
prop("C31","Text of points and differentiation values shows every value to its precision",
 "The text of a point is the bracketed, comma separated list of its coordinates in order, each with the requested number of significant digits (six by default) exactly as the C++ standard formats it, for every coordinate type (floating point, integer, differentiation type: its value) and every value including infinities, zeros of either sign and subnormal numbers; enough digits make it read back exactly. Streaming a point gives the same text whatever the formatting of the stream and leaves that formatting as it was; streaming a differentiation value writes its value in the format of the stream.",
 ["inputs","configurations"],"all points, precisions and stream formats",
 "No test looks at the text of a point with other than short coordinates.",
 [PT,AD],[("one string stream per text, precision per coordinate","point.hpp toString"),("stream operators","point.hpp operator<<, algo_diff_type.inc operator<<")],
 ["text returned by toString and written by operator<<"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
