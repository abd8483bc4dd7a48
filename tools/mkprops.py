#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Run by hand when a property changes.
import json, os
H="include/dsga.hxx"
P=[]
def p(id,title,statement,over,text,why,mech,files=(H,),state=None,observe=None):
    a={"files":list(files),"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Arithmetic, bitwise and shift operators act component by component",
  "For every binary operator (+ - * / % & | ^ << >>) applied to two vectors of equal length, to a vector and a scalar on either side, or to a vector and a one-component vector, component i of the result is exactly the scalar operator applied to the operands' components i (the scalar or one-component operand being broadcast), both promoted to their common type (for the shifts the left operand keeps its own type); unary + - ~ likewise. This holds for whichever kind of vector the operands are (owning vector, swizzle, or view), and the operands are left unmodified.",
  ["inputs","programs"],"all component values (all bit patterns for floats; all values for which the scalar operation is defined for integers), lengths 1-4, all component-type pairs that compile, all operand kinds",
  "The tests evaluate a few constant operands per operator, mostly on int/float 2-3 vectors; a wrong component, a wrong promotion or operand order in one (operator, length, operand kind) overload is not reached.",
  [("binary operators","operator + - * / % << >> & | ^ templates"),("unitype/multitype make","machinery::apply_unitype_make, apply_multitype_make, apply_make")])
p("C02","Compound assignment and ++/-- update exactly the addressed components",
  "Every compound assignment and every ++/-- replaces each component of its left operand with the scalar operator applied to the values the operands had before the statement, even when the right operand is a swizzle of (or a view over) the same data; components of the underlying vector not addressed by the left operand keep their value. The result refers to the left operand (prefix and compound forms) or is a copy of the previous value (postfix).",
  ["inputs","programs","histories"],"all component values, lengths 1-4, all writable swizzles/views as left operand, overlapping and non-overlapping right operands",
  "Tests use constants and non-overlapping operands; aliasing between a left swizzle and a right operand over the same storage, and the untouched components, are not quantified over.",
  [("compound operators","operator += ... ^= templates"),("in-place machinery","machinery::apply_unitype_modify, apply_multitype_modify"),("increment","operator ++ / -- templates")])
p("C03","Every swizzle reads the components its name spells, in order",
  "For a vector or view of length n, reading the swizzle whose name is a word over its first n coordinate letters yields a vector whose k-th component is the component named by the k-th letter, through indexing, iteration, conversion to a vector and scalar conversion alike. The same holds for swizzles of views, and for run-time component selection.",
  ["inputs","programs"],"all 340 swizzle names of vectors of length 1-4 (and as many for views), all component values, all component types",
  "Tests touch a fraction of the names, and with constants; a mis-declared index in one of several hundred members passes them.",
  [("owning swizzles","union members of basic_vector<T,1..4>"),("view swizzles","union members of basic_view<M,T,1..4>"),("indexing","indexed_vector / indexed_view operator []")],
  state=[("storage","the n component values of the vector")])
p("C04","Assigning through a swizzle writes exactly those components, alias-safely",
  "Assigning a vector to a swizzle with distinct letters stores source component k into the component named by letter k and leaves every other component unchanged, with all source values taken before any is written, so v.xy = v.yx swaps and v.zyx = v reverses. Writing one component through a swizzle's index or iterator affects exactly that component.",
  ["inputs","programs","histories"],"all 64+ writable swizzle names of vectors and views of length 1-4, all sources of the right length including any swizzle of the same vector, all values",
  "Tests check a handful of assignments; the space is (writable swizzles) x (source swizzles over the same storage) x values and frame.",
  [("swizzle assignment","indexed_vector::operator =, ::set; indexed_view::operator =, ::set"),("vector assignment","basic_vector::operator =, ::set")],
  state=[("storage","the n component values; frame = letters not named")])
p("C05","Views alias the wrapped data and touch nothing else",
  "A view over external memory reads and writes exactly the elements it was pointed at: a write through the view (assignment, set, indexing, iteration, swizzle, compound operators) is seen in the wrapped memory, a write to that memory is seen through the view, and memory outside the viewed range never changes. An owning view behaves as an independent value: copying or assigning one copies the values without sharing storage, also when the source is a swizzle of the destination.",
  ["inputs","programs","histories"],"all offsets of a view into a larger buffer, all values, all lengths and element types, copies and assignments including self-referential ones",
  "Tests compare a few view operations with constants; they do not check the bytes around the view nor assignments whose source overlaps the destination.",
  [("non-owning views","basic_view, indexed_view, view_wrapper"),("owning view","view_vector copy/assignment")],
  state=[("buffer","the external array, including elements before and after the view")])
p("C06","Indexing, iterators, raw data and tuple access describe one sequence",
  "For every vector, swizzle, view and matrix, the sequence obtained by indexing 0..size-1, by forward iteration, by reverse iteration read backwards, by tuple-style access, and by the raw pointer combined with the published index sequence is the same sequence, const and non-const alike. Iterators behave as random-access iterators over [begin, end]: begin+size equals end, differences and comparisons agree with positions, and every in-range arithmetic step is accepted. The utilities that build index sequences (half-open and closed ranges, ascending or descending, reversal, conversion to and from arrays) give exactly the documented indices in the documented order.",
  ["inputs","programs","histories"],"all values, all lengths, every swizzle shape, all iterator positions and all in-range offsets",
  "Tests iterate a few objects in order; random-access arithmetic at the end positions and non-trivial swizzle permutations are not covered.",
  [("iterators","indexed_vector_(const_)iterator, indexed_view_(const_)iterator"),("data/sequence","data(), sequence(), offsets"),("tuple protocol","get<>, std::tuple_size/element specialisations")])
p("C07","Vector constructors lay out the flattened, converted arguments in order",
  "Constructing a vector (owning vector or owning view) from any legal mix of scalars, vectors, swizzles and matrices (and a single view of at least the same length) yields the first n entries of the left-to-right flattening of the arguments, each converted to the component type as a static cast does; a single scalar fills all components, construction from a longer vector truncates, and default construction gives zeros where values are initialised. Assignment from a vector of equal length stores the converted components.",
  ["inputs","programs"],"all argument-shape combinations that are legal for lengths 1-4, all component-type pairs, all values",
  "Tests sample argument shapes and constants; the shapes combine exponentially with types.",
  [("constructors","basic_vector<T,1..4> and view_vector constructors"),("flattening","detail::flatten_args_to_tuple, to_tuple, component_match")])
p("C08","Matrix constructors fill columns, diagonals and resize with identity",
  "A matrix built from scalars/vectors receives them column by column in order; one built from a single scalar is that scalar on the main diagonal and zero elsewhere; one built from another matrix copies the overlapping upper-left block and, when the new matrix is square, completes with the identity; one built from an array receives the elements in column-major order. Components are converted as by a static cast, and a null source pointer or a source of the wrong element count is rejected by an exception instead of being read.",
  ["inputs","programs"],"all 9 shapes (and 81 resize pairs), both component types and their mixes, all values",
  "Tests check a few shapes with constants; a swapped row/column bound shows only in particular non-square resize pairs.",
  [("matrix constructors","basic_matrix constructors"),("assignment","basic_matrix::operator =")])
p("C09","Matrix elements, rows, columns, iteration and swap agree",
  "m[c][r] designates the element in column c, row r: writing it changes that element only, row(r) returns exactly the r-th element of each column, iterating visits the columns in order, size functions report the shape, swapping exchanges two matrices entirely, and flat conversions enumerate the same elements column-major.",
  ["inputs","programs","histories"],"all shapes, all indices, all values, including sequences of writes",
  "Tests look at a few elements of a few shapes.",
  [("access","basic_matrix::operator [], row, begin/end, data"),("swap","basic_matrix::swap")],
  state=[("elements","C*R element values")])
p("C10","Comparisons are componentwise, NaN-aware and consistent with equality",
  "The six componentwise comparison functions return the scalar comparison of each component pair (any comparison with NaN is false except notEqual), any/all/none and the componentwise logical functions compute the corresponding boolean fold. Equality of two vectors or matrices is true exactly when every component pair compares equal, hence false whenever a component is NaN, true for +0 against -0, symmetric, and != is its negation.",
  ["inputs","programs"],"all component values including NaN, infinities and signed zeros; all lengths, kinds and type pairs",
  "Tests use a few constants; NaN in each position, mixed types and folds over all boolean combinations per length are not covered.",
  [("relational functions","functions::lessThan ... notEqual, any, all, none, compNot/And/Or/Xor"),("equality","operator == overloads")])
p("C11","Rounding functions return the exact mathematical integer for every input",
  "For every floating-point value of every vector component the rounding functions return the mathematically defined integer (towards -inf, +inf, zero, nearest-away, nearest-even) exactly, values already integral (or too large to have a fraction) are returned unchanged, NaN and infinities are preserved; fract returns x - floor(x) for finite x (the sign of a zero result is not specified).",
  ["inputs"],"all 2^32 float and 2^64 double bit patterns, at compile time and at run time",
  "Tests use a few dozen values; failures sit next to 0.5, 2^23, 2^52, at NaN and at signed zero.",
  [("rounding","functions::floor/ceil/trunc/round/roundEven/fract"),("scalar layer","cxcm::strict / relaxed / constexpr_* functions")])
p("C12","Constant-evaluated scalar functions agree with their run-time results",
  "For every argument, evaluating a scalar rounding, remainder (fmod), absolute-value, sign-bit or classification function in a constant expression gives the same value as evaluating it at run time, including NaN, infinities, signed zeros and values beyond integer range. No such evaluation performs an undefined conversion or overflow.",
  ["inputs"],"all float and double bit patterns",
  "Constant-expression tests exist for a handful of values; agreement over all values cannot be sampled.",
  [("dispatch","cxcm::strict::* (constant-evaluated branch vs library call)"),("implementation","cxcm::relaxed::*, cxcm classification functions")])
p("C13","abs, sign, min, max, clamp, step and modf follow their definitions",
  "Componentwise: abs(x) is x or -x and never negative (the minimum of a signed integer type excepted), sign(x) is -1, 0 or 1 with x's sign (0 for NaN), min/max return the smaller/larger operand, clamp(x,lo,hi) is min(max(x,lo),hi), step(e,x) is 0 when x<e and 1 otherwise, and modf splits a finite x into whole and fractional parts that reassemble it. Scalar and vector forms of the edge/limit arguments agree.",
  ["inputs","programs"],"all component values and arguments meeting the documented precondition, lengths 1-4, all numeric types, all scalar/vector argument forms",
  "Tests sample constants for one form of each overload.",
  [("common functions","functions::abs, sign, min, max, clamp, step, mod, modf")])
p("C14","mix and smoothstep interpolate as specified",
  "mix(x,y,a) is the linear blend x*(1-a)+y*a in real arithmetic, with a boolean selector picks x or y component by component without evaluating arithmetic, and smoothstep(e0,e1,x) is 0 for x<=e0, 1 for x>=e1 and the cubic Hermite t*t*(3-2t) of t=(x-e0)/(e1-e0) in between (when the differences do not overflow); mod(x,y) is x-y*floor(x/y). Scalar and vector argument forms agree.",
  ["inputs"],"all argument values with e0<e1 (and y nonzero), all lengths and argument forms",
  "Tests compare with a few precomputed constants.",
  [("blending","functions::mix, smoothstep, mod")])
p("C15","Trigonometric, exponential and similar functions are componentwise lifts",
  "Every angle/trigonometric, hyperbolic, exponential, power, fma, ldexp, frexp, square-root function on a vector returns in component i exactly the scalar standard function of component i of each argument, in the documented argument order (pow for the arguments its documentation admits: base nonnegative, not zero to a nonpositive power); radians and degrees multiply by pi/180 and 180/pi and are mutually inverse up to rounding.",
  ["inputs","programs"],"all component values, lengths 1-4, float and double, every overload",
  "Tests check one or two lengths with constants and tolerances, which cannot exclude a wrong component or swapped arguments.",
  [("lifts","functions::sin ... atanh, exp ... pow, sqrt, fma, frexp, ldexp, radians, degrees")])
p("C16","Bit-level conversions are lossless and mutually inverse",
  "The float/int bit reinterpretation functions return the same bit pattern in each component, so converting there and back is the identity for every bit pattern (NaN payloads included); byte swapping reverses the bytes of each component and is an involution.",
  ["inputs"],"all 32- and 64-bit patterns in all components, all lengths",
  "Tests use a few constants.",
  [("bit casts","functions::floatBitsToInt/Uint, intBitsToFloat, doubleBitsTo..., ...BitsToDouble"),("byteswap","functions::byteswap")])
p("C17","Floating-point classification is exact on every bit pattern",
  "isnan, isinf, isfinite, isnormal, signbit, the classification code and copysign agree with the IEEE-754 class encoded in the bit pattern for every value, in scalar, vector, constant-evaluated and run-time forms.",
  ["inputs"],"all float and double bit patterns",
  "Tests use a few special values.",
  [("classification","cxcm::isnan, isinf, fpclassify, isnormal, isfinite, signbit, copysign, isunordered"),("vector forms","functions::isnan, isinf")])
p("C18","Geometric functions satisfy their defining equations",
  "dot is the sum of component products, cross the right-handed cross product, length and distance the Euclidean norm and metric, normalize(v) is v divided by its length, and faceforward, reflect and refract return the vectors given by their defining formulas (refract returning zero at total internal reflection). They hold in real arithmetic for every vector kind and for scalar forms; normalizing a zero vector gives NaN components.",
  ["inputs","programs"],"all component values (real arithmetic; no overflow), lengths 1-4, all operand kinds",
  "Tests check isolated constants; a wrong sign or index in one overload or one length, or the total-reflection branch, is not distinguished.",
  [("geometric functions","functions::dot, cross, length, distance, normalize, faceforward, reflect, refract, innerProduct, outerProduct")])
p("C19","Matrix and vector products are those of linear algebra",
  "Matrix*matrix, matrix*vector, vector*matrix, outerProduct, transpose and the componentwise product equal their textbook sums for every pair of compatible shapes; hence products associate, transpose reverses products, and the identity is neutral, in exact arithmetic. Multiplying an object by itself, or assigning a product to one of its operands, gives the same values.",
  ["inputs","programs"],"all 27 shape triples of products, all 9 shapes otherwise, all element values, float/double mixes",
  "Tests multiply a few constant matrices; a transposed index in one shape is invisible when the sample is symmetric or square.",
  [("products","operator * for matrices and vectors, functions::transpose, outerProduct, matrixCompMult")])
p("C20","determinant and inverse are exact inverses in real arithmetic",
  "determinant(m) equals the Leibniz expansion for 2x2, 3x3 and 4x4 matrices, and inverse(m) multiplied by m on either side is the identity whenever the determinant is nonzero. The cross-product matrix and diagonal matrix helpers act on vectors as the cross product and componentwise scaling.",
  ["inputs"],"all real element values (determinant nonzero for inverse), sizes 2-4",
  "Tests invert a few matrices; a wrong cofactor sign can vanish on sparse samples.",
  [("determinant/inverse","functions::determinant, inverse"),("helpers","cross_matrix, diagonal_matrix")])
p("C21","Matrix operators act element by element and leave operands unchanged",
  "Matrix +, -, / and scalar*matrix combinations, unary +/- and ++/-- apply the scalar operator to each element (pair), with scalars broadcast and operand order kept; prefix forms update the matrix and return it, postfix forms return the previous value, all others leave their operands unchanged.",
  ["inputs","programs"],"all 9 shapes, all element values, float/double mixes",
  "Tests sample a few shapes with constants.",
  [("matrix operators","operator + - * / ++ -- for basic_matrix")])
p("C22","shift, cshift, min, max, sum, apply and query act on the logical sequence",
  "On the logical component sequence of any vector, swizzle or view: shift(n) moves components left by n (right for negative n) filling with zero, cshift(n) rotates by n modulo the length, min/max (of components that are not NaN) and sum (floating-point sums up to rounding) fold the components, apply and query call the function once per component in index order and collect the results. This holds for every integer shift count, including the extremes of the type.",
  ["inputs","programs"],"all shift counts (all 2^32), all component values, lengths 1-4, all kinds of vector",
  "Tests use small counts; counts beyond the length, negative and extreme counts on each length are not covered.",
  [("valarray-like members","vector_base::shift, cshift, min, max, sum, apply, query")])
p("C23","swap exchanges two values completely or fails cleanly",
  "Swapping two vectors, owning views, matrices or non-overlapping views exchanges all their components and nothing else; swapping an object with itself changes nothing; swapping views over partially overlapping memory is reported by a catchable exception with neither modified.",
  ["inputs","histories"],"all values, lengths and relative offsets of the two views in one buffer",
  "Tests try one overlap; whether the report is catchable through every entry point and leaves data unmodified for all offsets is not covered.",
  [("swap","basic_vector::swap, view_wrapper::swap, basic_view swap, free swap functions, basic_matrix::swap")])
p("C24","Run-time swizzle selects the requested components and rejects bad indices",
  "Selecting components by run-time indices returns exactly the components at those indices in order, for one to four indices of any integer type; an index outside the vector is rejected before any element is accessed (by assertion where assertions are enabled, otherwise by std::out_of_range).",
  ["inputs"],"all index values of the index types and all component values, lengths 1-4",
  "Tests use a few in-range constants.",
  [("run-time swizzle","functions::swizzle")])
p("C25","Conversions between vectors, matrices and arrays are lossless inverses",
  "Converting a vector, swizzle, view or matrix to a standard array, from a standard or C array to a vector or matrix, and between vectors and matrices of equal element count preserves the logical (column-major) element order, and each conversion pair composes to the identity.",
  ["inputs","programs"],"all values, all lengths and shapes",
  "Tests sample a few conversions with constants.",
  [("conversions","to_array, to_vector, to_matrix overloads")])
p("C26","sqrt, inversesqrt and fast_inversesqrt honour their special cases and domain",
  "For every float and double, run-time square root is the correctly rounded root; the inverse square root is NaN for negative or NaN input, +infinity at either zero and +0 at +infinity, and finite and positive for every other positive input, where the non-approximating form is 1/sqrt(x). The constant-evaluated square root agrees with the real root up to its documented precision over the whole range. The vector forms apply the scalar form to each component.",
  ["inputs"],"all float and double bit patterns",
  "Tests sample a few values with tolerances.",
  [("roots","cxcm::strict::sqrt, rsqrt, fast_rsqrt; functions::sqrt, inversesqrt, fast_inversesqrt"),("iteration","relaxed::detail::converging_sqrt")])
p("C27","Writability, constness and conversion rules are enforced by the type system",
  "A swizzle can be assigned to exactly when its letters are distinct and the vector is mutable; views of const data cannot be written; an implicit vector-to-vector conversion needs a component type preserved or promoted (never to or from bool) and never grows the vector, scalars convert implicitly only to one-component vectors and one-component vectors to scalars, views and swizzles convert implicitly to vectors under the same rule, and no conversion invents components; an argument list constructs a vector or matrix exactly when it supplies enough components and its last argument is needed, and matrices are not components of a matrix; operations that leave their operands alone accept constants and temporaries of every vector, view and swizzle kind, with the same result type; result component types are the common type of the operands.",
  ["programs"],"all 340 swizzles x writable/const, all component-type pairs, all lengths",
  "Tests check some positive cases; that the forbidden programs do not compile is checked for few.",
  [("writability","writable_swizzle, indexed_vector/indexed_view requires-clauses"),("conversion rules","implicitly_convertible_to, promotes_to, explicit(...) constructors")])
p("C28","No valid call reads or writes out of bounds or executes undefined behaviour",
  "Called with arguments that satisfy the documented preconditions, no public operation accesses memory outside the objects it was given, dereferences null, divides by zero, shifts out of range, overflows in index or count arithmetic, trips an internal assertion, or lets an exception escape a function that promises not to throw.",
  ["inputs","programs","histories"],"all public operations on valid objects, all argument values within preconditions",
  "Running a test suite shows only sampled inputs; absence of undefined behaviour is universally quantified.",
  [("bounds assertions","operator [] on every type, iterators"),("count arithmetic","shift, cshift, iterator arithmetic")])
p("C29","Double-double arithmetic computes the real operation up to second-order terms",
  "The extended-precision helper arithmetic used by constant-evaluated square roots computes, in exact arithmetic, the same value as the corresponding real operation (up to the documented omission of the product of two trailing terms, and of the third-order term in division), so its result differs from the real one only by those and by the rounding of its own steps.",
  ["inputs"],"all finite operands",
  "Tests compare a few constants at compile time.",
  [("double-double","cxcm::dd_real operators"),("square root","cxcm::relaxed::sqrt / constexpr_sqrt")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
