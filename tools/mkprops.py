#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os, sys
H = "include/hyperjet/hyperjet.h"
PY = "python/src/common.h"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech))
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(d)

prop("C01", "Unary functions carry exact first and second derivatives",
 "For every one-argument function of a dense number (reciprocal, pow with a scalar exponent, sqrt, cbrt, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp, log, log with a base, log2, log10, abs), the result's value is that function of the operand's value, and its gradient and Hessian are the exact chain-rule derivatives of that function of the operand, at every regular point of the function. This holds for every number of variables, for first- and second-order numbers and for fixed-size and run-time-sized storage, and all components are real-arithmetic exact up to rounding.",
 ["inputs", "configurations"], "all operand values, gradients and Hessians inside the function's open domain; all sizes, both orders, both storages",
 "The tests compare a handful of functions at one point with three variables, always order 2; a wrong second derivative that vanishes or coincides at that point, or a wrong size/order specialisation, passes.",
 [H], "member functions calling unary<bool>(f, da, daa) and the unary kernel over the packed data")

prop("C02", "Sum, difference, product, quotient and negation are exact",
 "Adding, subtracting, multiplying, dividing and negating dense numbers gives the value, gradient and Hessian of the corresponding composition of the operands, symmetric Hessian included. This holds for all operand values (nonzero divisor), every number of variables, both orders and both storages.",
 ["inputs", "configurations"], "all pairs of operands of equal size with arbitrary value, gradient and Hessian",
 "Tests evaluate one pair of operands of size 3; errors confined to particular sizes, to second-order cross terms or to special values are not sampled.",
 [H], "operator+,-,*,/ and unary minus calling the binary kernel with the partial derivatives of the operation")

prop("C03", "Mixed scalar operands act as constants on either side",
 "A plain scalar used on either side of +, -, *, / with a dense number, or on the right of the compound assignments, behaves exactly like a constant whose gradient and Hessian are zero. The number's own derivatives are scaled or reversed accordingly and no component is left unset.",
 ["inputs", "configurations"], "all scalars, all operands, both orders, all sizes, both operand positions",
 "Only a few mixed operators are tested, at one point, and the reversed ones (scalar - x, scalar / x) only for order 2 and size 3.",
 [H], "friend operators and compound assignments taking Scalar")

prop("C04", "atan2 and hypot of two or three numbers are exact",
 "atan2(y, x), hypot(x, y) and hypot(x, y, z) of dense numbers have the value of the mathematical function and its exact gradient and Hessian with respect to every variable, in every quadrant away from the origin. Argument order is the conventional one (atan2 takes y first).",
 ["inputs", "configurations"], "all operand values away from the singular point (for atan2 the branch cut), arbitrary derivatives, all sizes, both orders and storages",
 "The tests sample a single point in one quadrant with size 3.",
 [H], "atan2/hypot static functions and the binary/ternary kernels with their mixed partial derivatives")

prop("C05", "In-place operators equal the out-of-place ones, aliasing included",
 "x op= y leaves x exactly as x = x op y would, for +, -, * and / with dense-number and scalar right-hand sides, and returns x itself. This also holds when the right-hand side is x itself or a scalar read from x's own storage, and y is otherwise unchanged.",
 ["inputs", "programs"], "all operands, all aliasing patterns between the two operands, both orders and all sizes and storages",
 "Tests never alias the operands: x *= x and x *= x.f() are not exercised.",
 [H], "compound assignment operators and the incrementing kernels")

prop("C06", "First/second order and fixed/run-time size agree",
 "Every operation (eval aside, which is an expansion of the number's own order) computes the same value and gradient for a first-order number as for a second-order number built from the same value and gradient, and the same components for fixed-size and run-time-sized numbers. No result component depends on components of a higher order than its own (the value does not depend on derivatives, the gradient not on Hessians).",
 ["inputs", "configurations"], "all operations, all operand components, orders 1 and 2, fixed and run-time sizes",
 "The tests instantiate the C++ library for order 2, size 3 only; the Python tests cover a few sizes.",
 [H], "if constexpr (order) branches and static/dynamic specialisations")

prop("C07", "Operations are pure: operands untouched, no shared hidden state",
 "Evaluating an expression never modifies its operands, and results share no storage with them: copies, moves and assignments give independent numbers. No operation reads or writes mutable program-wide state, so distinct objects may be used from different threads concurrently.",
 ["programs", "schedules"], "all operations and operand values, all interleavings of threads working on distinct results",
 "No test observes operands after use or runs threads; a hidden scratch buffer or a cached result would pass every sequential test.",
 [H], "absence of writes to const operands, statics or globals; value-type storage (std::array / std::vector)")

prop("C08", "Operands of different size are rejected and left unchanged",
 "Every operation combining two or three run-time-sized dense numbers (arithmetic, compound assignment, atan2, both hypot forms) throws when their numbers of variables differ, whichever operand is the odd one out. After the exception the target and all operands still hold their previous contents, and no memory outside an operand is accessed.",
 ["inputs", "programs"], "all pairs and triples of different sizes (including zero), both orders",
 "Tests check no size mismatch in C++ and at most one operator in Python.",
 [H], "check_equal_size at the head of each multi-operand operation")

prop("C09", "No operation touches foreign memory or leaves results unset",
 "For every dense-number operation on valid operands, every memory access stays inside the object or its own allocation, no released or uninitialised storage is read, and every component of the result is initialised. Allocations are released exactly once.",
 ["inputs", "programs", "configurations"], "all operations, operand values and sizes including 0, both orders and storages",
 "Out-of-bounds reads and unset components often go unnoticed in a passing test; no sanitizer is part of the suite and only size 3 is run.",
 [H], "index arithmetic over the packed data array and its length formula")

prop("C10", "Factories and constructors produce the numbers they describe",
 "empty, zero, constant, variable, variables, create and the constructors yield numbers of the requested size whose component count is 1+n (first order) or 1+n+n(n+1)/2 (second order), with the given value, unit gradient entries exactly where a variable was asked for and zeros elsewhere. A list of variables gives the i-th number unit derivative with respect to variable i only; offsets and total sizes are honoured, and a run-time-sized number constructed without a size has zero variables.",
 ["inputs", "configurations"], "all values, sizes, indices, offsets, orders and storages, including size 0",
 "Tests call a few factories with size 3.",
 [H], "static factory functions, constructors and data_length_from_size/size_from_data_length")

prop("C11", "Impossible sizes and component counts are rejected",
 "Constructing, resizing or assigning a number with a negative size, a component count that matches no size (including none at all), a component count other than the fixed one, a variable index outside the number, or padding to a smaller size raises an exception instead of producing a malformed number. Valid requests are never rejected, and a rejected one leaves existing numbers unchanged.",
 ["inputs"], "all requested sizes, component counts and indices, valid or not",
 "Tests cover one or two invalid lengths; the space of invalid requests is not enumerated.",
 [H], "check_valid_size, size_from_data_length, constructors, pad/resize, variable")

prop("C12", "Component access is consistent with the packed layout",
 "f, g(i), h(i,j) and their setters refer to one component each: a setter changes exactly that component, h(i,j) and h(j,i) are the same one, and the packed data sequence is [value, gradient, upper triangle of the Hessian row by row]. Every component is reachable and no two different components coincide.",
 ["inputs", "configurations"], "all indices in range, all sizes, orders and storages",
 "Tests read a few entries of size-3 numbers.",
 [H, PY], "index arithmetic in h()/set_h() and hm(); data()/ptr()")

prop("C13", "Matrix, gradient and array exchange is lossless",
 "hm gives the full symmetric Hessian (or its requested triangle/zeroed lower part), set_hm, set_adata, from_arrays and from_gradient store exactly the given components, ag and adata expose the live components, and reading back what was written reproduces it. Wrongly shaped input is rejected, and read-only access works on constant numbers.",
 ["inputs", "configurations"], "all component values, sizes, orders, storages and modes",
 "Tests exercise one size and one mode each.",
 [H, PY], "Eigen exchange functions ag, hm, set_hm, adata, set_adata, from_arrays, from_gradient")

prop("C14", "Padding and resizing keep every surviving derivative",
 "pad_left and pad_right return a number of the requested size with the same value and with all first and second derivatives moved to the shifted (left) or the same (right) variable positions and zeros for the new variables. resize of a run-time-sized number keeps the value and the derivatives with respect to the variables that remain, and gives zero derivatives for new ones, for both orders.",
 ["inputs", "configurations"], "all old and new sizes, both orders, all component values",
 "Tests pad one number; the Hessian after resize is never examined.",
 [H], "pad_left, pad_right, resize copying between packed layouts")

prop("C15", "eval is the truncated Taylor expansion",
 "Evaluating a dense number at a displacement d returns f + g.d for first-order numbers and f + g.d + 0.5 d'Hd for second-order ones, for every displacement with as many entries as there are variables. A displacement of any other length is rejected.",
 ["inputs", "configurations"], "all numbers and displacement vectors, all sizes, both orders and storages",
 "One displacement at size 3 is tested.",
 [H], "eval loop over packed Hessian rows")

prop("C16", "Comparisons and abs depend on the value alone, consistently",
 "==, !=, <, <=, >, >= between numbers, and between a number and a plain scalar on either side, give exactly the result of the same comparison of the values, regardless of derivatives and sizes. abs returns the number itself where its value is positive and its negation where it is negative.",
 ["inputs"], "all values including equal values with different derivatives, NaN, both operand positions, all sizes and orders, dense and sparse numbers",
 "Tests compare a few ordered pairs; equality corner cases and the scalar-first forms are not sampled.",
 [H, PY], "comparison operators and abs")

prop("C17", "Sparse-number arithmetic is exact",
 "+, -, *, /, negation and their compound forms on sparse numbers and scalars (either side) give the exact value and the exact derivative with respect to every named variable of either operand, including when both operands are the same object. In-place forms equal the out-of-place ones and operands are not modified.",
 ["inputs", "programs"], "all values, all sets of variable names in either operand (disjoint, overlapping, identical, empty), aliasing",
 "Tests use two variables and one point; aliasing and partially overlapping names are not covered.",
 [H], "SScalar operators merging the two name-to-derivative maps")

prop("C18", "Sparse-number functions carry exact derivatives",
 "Every elementary function of sparse numbers (including pow, log with base, atan2 and both hypot forms) has the function's value and, for every variable of its operands, the exact chain-rule derivative. The set of variables of the result is the union of the operands' variables.",
 ["inputs"], "all operand values in the open domain, arbitrary variable sets and derivatives",
 "Tests check each function at one point with one or two variables.",
 [H], "SScalar unary/binary/ternary kernels and functions")

prop("C19", "Sparse numbers treat an absent variable as a zero derivative",
 "Reading the derivative of a variable a sparse number does not mention yields zero and does not change the number; size counts the mentioned variables; constants mention none. eval adds d-weighted derivatives of exactly the variables present in both the number and the displacement.",
 ["inputs", "histories"], "all names, values, displacements and sequences of queries",
 "Tests query a present name only a few times and never observe the number after querying an absent one.",
 [H, "python/src/bind_sscalar.cpp"], "SScalar d/set_d/size/eval, constant/variable(s) factories")

prop("C20", "Free functions equal the methods of the same name",
 "For dense and sparse numbers of every kind, each free function (abs, pow with scalar, integer or number exponent where offered, sqrt, cbrt, trigonometric, hyperbolic and inverse functions, exp, log, log2, log10, atan2, hypot with two and three arguments) gives exactly the result of the member function of that name with the arguments in the same order. A call with valid arguments always resolves.",
 ["inputs", "configurations"], "all functions, operand values, orders, sizes and storages",
 "The wrappers are sampled at one instantiation; a wrapper forwarding to a neighbouring function at an untested type passes.",
 [H], "free function templates in namespace hyperjet found by argument-dependent lookup")

prop("C21", "Python methods and numpy aliases compute the named function",
 "Every mathematical method of the Python number classes (sqrt, sin, arcsin, arctan2, hypot, log, cosh, ... and their numpy-style and plain aliases) computes the function its name denotes, with arguments in the documented order. This holds for every exported class.",
 ["inputs", "configurations"], "all exported classes, all methods and aliases",
 "The Python tests cover a subset of methods on a few classes; several trigonometric methods are never called.",
 [PY, "python/src/bind_sscalar.cpp"], "pybind11 .def table binding names to C++ member functions")

prop("C22", "Python operators follow Python semantics on both sides",
 "Every arithmetic, power (with a plain exponent), comparison, negation, absolute-value and in-place operator of the Python classes yields the mathematically corresponding result for number-number, number-float and float-number operands, reflected forms included. In-place operators modify and return the same object; out-of-place ones return new objects.",
 ["inputs", "configurations"], "all exported classes, all operators, both operand orders",
 "Reflected and comparison operators are tested on few classes or not at all.",
 [PY, "python/src/bind_sscalar.cpp"], "py::self operator bindings and dunder definitions")

prop("C23", "The Python class roster and hj.variables dispatch are complete",
 "The Python module exports, for every fixed size 0..16, first- and second-order classes, the run-time-sized ones and the sparse one, each with the size and order its name states. hj.variables(values, order) returns, for every length and order 1 or 2, numbers of that order whose i-th element has the i-th value and unit derivative in variable i; for order 0 it returns the plain values, and it rejects other orders.",
 ["inputs", "configurations"], "all lengths and orders of hj.variables, all exported classes",
 "Tests sample a few lengths; a wrong case in the dispatch or a swapped class name for one size passes.",
 ["python/src/main.cpp", "python/src/bind_ddscalar_0d.cpp", "python/src/bind_ddscalar_16d.cpp", "python/src/bind_ddscalar_xd.cpp"], "switch over the number of variables; bind<T>(m, name) calls")

prop("C24", "Python constructors, keywords and factories do what C++ does",
 "Each Python constructor and static factory (constant, variable, variables, empty, zero, from_arrays, from_gradient), called positionally or by its documented keyword with its defaults, produces the same number as its C++ counterpart. Attributes f, g, h, hm, data, size, order and their setters, repr and eval work on the corresponding components as the C++ functions do.",
 ["inputs", "configurations"], "all exported classes, all constructors, keywords, defaults and attributes",
 "Keyword names, defaults and rarely used factories are not all called by the tests, and not on all classes.",
 [PY, "python/src/bind_sscalar.cpp"], ".def/.def_static/.def_property tables with py::arg")

prop("C25", "Pickling, copying and deep-copying reproduce the number",
 "For every dense Python class, pickling followed by unpickling, copy.copy and copy.deepcopy give an independent number with identical type, size and components. Modifying the copy never changes the original.",
 ["inputs", "configurations"], "all exported classes, all component values and sizes",
 "No test pickles or deep-copies.",
 [PY, "python/src/bind_sscalar.cpp"], "py::pickle get/set state functions, __copy__/__deepcopy__")

prop("C26", "No Python-level argument reaches foreign memory",
 "Whatever index, size or array shape a Python caller passes to a method, attribute or factory of a number class, the call either works on the number's own components or raises an exception. It never reads or writes outside the number, and a failed call leaves the number unchanged.",
 ["inputs"], "all integer arguments (negative, too large) and array shapes for every bound callable",
 "Tests only pass valid indices and shapes.",
 [PY, H], "index and shape validation between the binding and the packed data")

prop("C27", "hj.f, hj.d and hj.dd extract values from any nesting",
 "hj.f, hj.d and hj.dd of a number give its value, gradient and Hessian (an empty array where it has none); of plain numbers they give the value itself and empty derivatives. On non-empty arrays and nested lists they apply element-wise and keep the shape, and hj.f loses no value when plain and differentiable numbers are mixed.",
 ["inputs"], "all number classes, plain numbers, arrays and nestings",
 "Tests sample a few shapes and classes.",
 ["python/src/main.cpp"], "module-level f, d, dd definitions")

prop("C28", "Exposed arrays alias the live number and keep it alive",
 "The data and g arrays obtained from a Python number (and ag/adata in C++) show later changes of the number and write through to it, and keep the owning number alive for as long as they exist, whatever is done to it meanwhile. hm returns an independent array.",
 ["inputs", "histories"], "all exported classes, all sequences of reads and writes through views",
 "Tests write through a view once; lifetime is never exercised.",
 [PY, H], "py::return_value_policy / keep-alive choices of the view-returning properties")

prop("C29", "The no-exceptions configuration rejects the same inputs by assertion",
 "With HYPERJET_NO_EXCEPTIONS the header compiles with exceptions disabled and contains no throw, and every request that raises an exception in the default configuration fails an assertion instead. Every request accepted in the default configuration passes all assertions and gives the same result.",
 ["inputs", "configurations"], "all valid and invalid requests in both build configurations",
 "The configuration is not built by the tests.",
 [H], "HYPERJET_NO_EXCEPTIONS branches with assert conditions")

prop("C30", "The header is self-contained and usable from many units",
 "The header compiles on its own, with and without Eigen, in C++17 and later, under the common compilers, can be included in several translation units of one program without duplicate definitions, and every public member works on every order, size and storage it is documented for. Programs that misuse a first-order number's Hessian are rejected at compile time.",
 ["programs", "configurations"], "all combinations of order, size, storage, scalar type and inclusion context",
 "Tests build one translation unit with one instantiation.",
 [H], "templates, inline linkage, conditional Eigen section, friend operators")

prop("C31", "Numbers work as an Eigen scalar type",
 "In Eigen vectors and matrices, sums, differences, products, scaling by plain scalars on either side, dot, cross, norm, squaredNorm and casts of numbers give the same components as the expression written out by hand. The traits describe a real, non-integer, signed scalar that requires initialisation, with the precision and range of the underlying scalar.",
 ["inputs", "programs"], "all fixed sizes and orders, all operand values",
 "Tests evaluate a single Eigen expression.",
 [H], "NumTraits and ScalarBinaryOpTraits specialisations")

prop("C32", "The textual form states the value",
 "Streaming a dense number or converting it to text writes its value followed by the suffix hj and nothing else, whatever its size, storage and derivatives. A sparse number writes its value followed by every one of its variables exactly once with its derivative and the derivative's sign, in unspecified order. Neither the number nor the stream's formatting state (precision, flags, fill) is modified, the stream's own formatting is used, and the given stream is returned.",
 ["inputs"], "all numbers of all kinds",
 "Tests compare one string.",
 [H, PY], "to_string and operator<<, __repr__")

prop("C33", "No spurious NaN or infinity at regular points",
 "Where a function and its derivatives are finite at the operand's value, every component of the result is finite and correct also at special operand values: zero values, zero gradients, integer exponents at zero (pow with exponent 0, 1, 2), arguments on the axes for atan2 and hypot.",
 ["inputs"], "special operand values (zeros, ones, axis points) for every function, dense and sparse",
 "Tests use generic points; zero operands are not sampled.",
 [H], "division by or powers of the operand value inside derivative formulas")

prop("C34", "Fixed-size numbers never allocate",
 "No operation on fixed-size dense numbers allocates heap memory on its successful path, and the object consists of exactly its components (and size bookkeeping): it is trivially copyable and its data is contiguous.",
 ["programs", "configurations"], "all operations, sizes and orders of fixed-size numbers",
 "Allocation is invisible to value-comparing tests.",
 [H], "std::array storage; no std::vector, std::string or std::function on the arithmetic path")

prop("C35", "Running out of memory is harmless",
 "When an allocation made by an operation on dense or sparse numbers fails, the failure reaches the caller as the standard out-of-memory exception, nothing stays allocated and no operand is changed. The dense target of an assignment, compound assignment, resize or padding keeps its previous size and components; a sparse target stays readable and assignable.",
 ["fault_sequences", "programs"], "every allocation of every operation, failing one at a time, all sizes, dense and sparse",
 "The tests never run out of memory.",
 [H], "order of allocation and modification in assignments, compound operators, resize and padding; member declaration order; noexcept specifications")

prop("C36", "Numbers of different kinds never mix silently",
 "Combining numbers of different order, fixed size, storage or scalar type, or a dense with a sparse one - by operators, comparison, assignment, construction, atan2, hypot, pow or log - is rejected, a number never turns into a plain value by itself, and plain values of every built-in arithmetic type count as their value. In Python mixing number classes raises TypeError (== is False, != is True), leaves the operands unchanged, and no number converts to float, int, complex or an index.",
 ["programs", "inputs"], "all pairs of kinds, all operations, all built-in arithmetic types, all Python classes",
 "A test can only show single expressions that compile; that the others are rejected is invisible to it.",
 [H, "python/src/common.h"], "constructors and operator templates and their constraints; overloads registered for each Python class")

prop("C37", "Results keep the precision of the scalar type",
 "No operation on dense or sparse numbers passes a value, a derivative or a plain operand of the scalar type through a narrower floating-point type, and no constant it uses is less accurate than the scalar type. This holds for float, double and long double numbers alike.",
 ["inputs", "configurations"], "all operations, all operands, float, double and long double, dense and sparse",
 "Tests compare double results with tolerances; a detour through a narrower type shows only for other scalar types or in the last digits.",
 [H], "types of locals, parameters and constants in the formulas and kernels")

prop("C38", "Every operand value is accepted and gives the plain function's value",
 "No arithmetic operation or function of dense or sparse numbers throws, aborts or fails an assertion because of the operand values. The value of the result is that of the plain function for every operand value: infinite at poles, not a number outside the domain, and correct where only the derivatives do not exist.",
 ["inputs"], "all operand values including zeros, infinities, NaN and values outside the domain of the function; all operations",
 "Tests use operands inside the domains only.",
 [H], "branches on operand values and the value formula of each function")

prop("N01", "Results are accurate to the last bits of the floating-point type",
 "Each computed component differs from the mathematically exact one by at most a few units in the last place.",
 ["inputs"], "all operands", "Rounding behaviour over all inputs cannot be sampled.", [H], "formula choice in each function")
prop("N02", "No premature overflow or underflow at extreme magnitudes",
 "Whenever the exact value and derivatives are representable, intermediate results neither overflow nor underflow to a wrong result.",
 ["inputs"], "operands of extreme magnitude", "Tests use moderate values.", [H], "intermediate products and powers in the derivative formulas")
prop("N03", "Fixed-size arithmetic has no run-time overhead over hand-written code",
 "The optimised code for an expression of fixed-size numbers is as fast as hand-written derivative code.",
 ["configurations"], "all expressions and compilers", "Performance is not tested.", [H], "inlining of the kernels")
prop("N04", "The wheel and CMake packages install a working module",
 "Building and installing the package on a supported platform gives an importable module of the stated version with its type stubs.",
 ["configurations"], "all platforms and packaging tools", "Only the local build is exercised.", ["setup.py", "CMakeLists.txt"], "build scripts")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
