#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are reviewed in one place)."""
import json, os
S = "stator/symbolic/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "Formulas parse to the grouping and value they denote",
  "A well-formed formula string denotes exactly one expression: numbers have their decimal value, names are variables, ^ and = group to the right, + - * / group to the left, ^ binds tighter than * and /, which bind tighter than + and -, which bind tighter than =; functions bind to the next operand, a prefix sign takes everything that binds tighter than binary + and -, and brackets, array literals, dictionaries, array access, units and uncertainties nest freely. "
  "Building a run-time expression from the string gives an expression equal to that one after simplification, whatever the spacing between tokens, at any nesting depth that fits the call stack.",
  ["inputs"], "every formula of the grammar, every placement of spaces",
  "The tests parse a few dozen fixed strings; the grammar is infinite and errors sit in combinations of operator, associativity, prefix sign and bracket.",
  [S + "parser.hpp", S + "binary_ops.hpp", S + "unary_ops.hpp"],
  [("Pratt parser", S + "parser.hpp parseExpression"), ("binding powers", S + "binary_ops.hpp"), ("tokeniser", S + "parser.hpp consume/consumeFloat")],
  ["Expr(std::string)", "operator=="])
p("C02", "Malformed formulas are rejected with an error, never accepted or fatal",
  "A string that is not a complete well-formed formula (truncated, unbalanced, missing or surplus operand or operator, unknown character, malformed or unrepresentable number, dictionary key that is not a variable) is rejected by an exception of the library. "
  "No string makes the parser crash, hang, read outside the string (at nesting depths that fit the call stack), or quietly ignore part of its input.",
  ["inputs"], "every string of tokens and every byte string",
  "Tests check a handful of bad strings; the input space is unbounded.",
  [S + "parser.hpp", "stator/exception.hpp"],
  [("expect/parserLoc errors", S + "parser.hpp"), ("end-of-input check", S + "parser.hpp Expr::Expr(string)")], ["Expr(std::string)"])
p("C03", "Printing an expression gives text that means the expression",
  "The text printed for a run-time expression made of finite numbers, variables, + - * / ^ =, negation, sin cos exp ln, arrays, dictionaries, array access, units and uncertainties is a formula that denotes the same value, and reading it back gives such an expression. "
  "This holds for the plain form and for the fully parenthesised form, and the LaTeX form has balanced braces and delimiters and uses only known commands.",
  ["inputs"], "every expression tree over the printable operators",
  "Tests compare a few printed strings; wrong or missing parentheses only show in particular parent/child operator combinations.",
  [S + "binary_ops.hpp", S + "unary_ops.hpp", S + "array.hpp", S + "dict.hpp", S + "constants.hpp", "stator/repr.hpp", S + "parser.hpp"],
  [("repr with binding powers", S + "binary_ops.hpp repr"), ("BP", S + "constants.hpp, unary_ops.hpp")], ["repr(Expr)", "Expr(std::string)"])
p("C04", "Simplification preserves the value of an expression",
  "For every run-time expression, its simplification has the same value as the expression for all values of the variables for which the expression is defined, up to floating-point rounding of folded constants. "
  "It introduces no variable, always terminates, and leaves the expression it was given unchanged; the only error it may raise is for operands without meaning (arrays of different length, access to something that is not an element of an array).",
  ["inputs"], "every expression, every assignment of values",
  "The rewrite rules interact over all tree shapes; the tests check a few dozen trees.",
  [S + "runtime.hpp", S + "array.hpp", S + "units.hpp"], [("SimplifyRT", S + "runtime.hpp")], ["simplify(Expr)"])
p("C05", "Substitution replaces exactly the named variables, simultaneously",
  "Substituting into a run-time expression gives an expression whose value is that of the original with each substituted variable standing for the value of its replacement, in every part of the expression including array elements. "
  "A dictionary substitution replaces all its variables simultaneously (replacements are not themselves substituted into), variables not named are untouched, and no occurrence of a substituted variable remains unless a replacement contains it.",
  ["inputs"], "every expression, every single or multiple substitution",
  "Swaps, self-referencing replacements and partially affected arrays are combinations the tests do not enumerate.",
  [S + "runtime.hpp", S + "dict.hpp", S + "variable_rt.hpp"], [("SubstituteRT / SubstituteDictRT", S + "runtime.hpp")], ["sub(Expr, Expr)"])
p("C06", "Derivatives are the mathematical derivatives",
  "The derivative of a run-time expression with respect to a variable has, wherever it is defined, the value of the mathematical derivative, for every combination of the supported operators and functions, with arrays and equations differentiated part by part and units carried along. "
  "An expression that has no derivative is refused with an error of the library.",
  ["inputs"], "every expression, variable and evaluation point",
  "Product, quotient, power and chain rules compose; the tests differentiate a few fixed expressions.",
  [S + "unary_ops.hpp", S + "binary_ops.hpp", S + "runtime.hpp", S + "array.hpp"], [("derivative overloads", S + "unary_ops.hpp, binary_ops.hpp"), ("DerivativeRT", S + "runtime.hpp")], ["derivative(Expr, Expr)"])
p("C07", "Expression equality is structural equality and hashing agrees with it",
  "Two run-time expressions compare equal exactly when they are the same tree with equal numbers, equal variable names and the same operators (dictionaries irrespective of insertion order), so equality is reflexive, symmetric, transitive and a congruence, and != is its negation. "
  "Equal expressions have equal hashes, so that expressions work as dictionary and container keys.",
  ["inputs", "histories"], "every pair of expressions, every construction history of them",
  "Pairs of trees grow quadratically and near-misses (one differing operator, argument order, dictionary insertion order) are rarely tested; hashing is not tested across histories.",
  [S + "runtime.hpp", S + "binary_ops_rt.hpp", S + "unary_ops_rt.hpp", S + "array.hpp", S + "dict.hpp", S + "binary_ops.hpp"],
  [("ComparisonVisitor", S + "runtime.hpp"), ("std::hash specialisations", S + "binary_ops.hpp, dict.hpp, array.hpp")], ["operator==", "std::hash<Expr>"])
p("C08", "Expressions are values: no operation changes an existing expression",
  "Expressions share sub-expressions, but whatever sequence of building, simplifying, substituting, differentiating, printing, comparing and hashing is performed, every expression obtained earlier keeps its structure, text and hash for as long as it is held. "
  "An expression stays usable after every other handle to its parts has gone.",
  ["histories"], "every history of operations over shared expressions",
  "Aliasing bugs need a multi-step history over shared parts; each test builds and uses its expressions once.",
  [S + "runtime.hpp", S + "array_rt.hpp", S + "dict_rt.hpp"], [("shared immutable nodes", S + "runtime.hpp Expr")], ["all public operations on Expr"])
p("C09", "Units and uncertainties survive arithmetic consistently",
  "Quantities with units behave as products of a number and a unit: multiplying or dividing quantities multiplies or divides values and units alike, a unitless factor leaves the units alone on either side, unity units vanish, and zero is zero in any units. "
  "A value with zero uncertainty is the value itself, and simplification, substitution and printing never move, drop or invent a unit or an uncertainty.",
  ["inputs"], "every expression containing units and uncertainties",
  "Two small test files cover one multiplication order; the rules are per operand position.",
  [S + "units.hpp", S + "uncertainty.hpp", S + "runtime.hpp", S + "parser.hpp"], [("multiply_impl / operator/ overloads", S + "units.hpp"), ("identities", S + "uncertainty.hpp")], ["simplify", "operator*", "operator/"])
p("C10", "Compile-time constants are exact rationals in lowest terms",
  "Arithmetic (+ - * /, negation, absolute value, integer powers, comparison) on compile-time rational constants gives exactly the rational result in a canonical form, so equal values have equal types, and converts to the nearest double. "
  "Conversion of a compile-time constant to a run-time expression keeps its value, constants written out of lowest terms included. "
  "Compile-time sines and cosines of multiples of half pi and (inverse) factorials are the exact constants.",
  ["programs"], "every pair of representable rational constants",
  "Each constant is a type: the tests instantiate a few.",
  [S + "constants.hpp"], [("C<num,den> operators", S + "constants.hpp")], ["C<num,den>", "double(C)"])
p("C11", "Compile-time and run-time expressions agree",
  "The same expression written with compile-time types, simplified, expanded, differentiated, substituted into or printed, has the same value as the run-time expression treated the same way, for every value of its variables. "
  "Converting a compile-time expression to a run-time one preserves its value. (Numbers written as C++ integers divide as C++ integers do when values are substituted.)",
  ["programs"], "every expression program over the shared operators",
  "Compile-time expressions are types; only the handful that tests instantiate are ever compiled.",
  [S + "simplify.hpp", S + "binary_ops.hpp", S + "unary_ops.hpp", S + "sub.hpp", S + "polynomial.hpp", S + "runtime.hpp"],
  [("compile-time simplify / expand", S + "simplify.hpp"), ("polynomial conversion", S + "polynomial.hpp")], ["simplify", "expand", "sub", "derivative", "Expr(compile-time)"])
p("C12", "Taylor series are the Taylor polynomials and integrals are antiderivatives",
  "The Taylor expansion of a function to a given order about a given point is the polynomial whose value and derivatives up to that order at the point are those of the function. "
  "For a polynomial of no higher order it is that polynomial. "
  "The integral of a sum of functions of other variables, the variable and its powers has the integrand as its derivative. "
  "(Numbers written as C++ integers divide as C++ integers do.)",
  ["programs"], "every function, order and expansion point",
  "Only a few orders and functions are tested.",
  [S + "taylor.hpp", S + "integrate.hpp"], [("taylor_series", S + "taylor.hpp")], ["taylor_series", "integrate"])
p("C13", "Automatic differentiation gives the Taylor coefficients",
  "Automatic differentiation of an expression at a point to order n gives the function value and its scaled derivatives f^(k)/k! for k up to n, for every combination of the supported operators and functions, for compile-time and run-time expressions alike. "
  "A power whose exponent is not a number literal is exp(g ln f), for a positive base; a variable without a value has none in the result; an expression it does not support is refused at compile time or with an error of the library.",
  ["inputs", "programs"], "every expression, point and order",
  "The recurrences for product, quotient, power, exp, ln, sin and cos compose at every order; tests check one function at a time.",
  [S + "ad.hpp"], [("ad recurrences", S + "ad.hpp")], ["sym::ad"])
p("C14", "Polynomial arithmetic is that of the polynomial ring",
  "Addition, subtraction, multiplication, negation, integer powers, scaling, differentiation, composition and evaluation (also at infinity and of several derivatives at once) of polynomials of every order give the coefficients and values of the mathematical polynomials, exactly whenever the coefficients are exactly representable. "
  "Changing the storage order or adding zero leading coefficients changes no value.",
  ["inputs", "programs"], "all orders and coefficients",
  "Orders are template parameters and coefficients are unbounded; tests use a few literals.",
  [S + "polynomial.hpp"], [("operators", S + "polynomial.hpp")], ["operator+ - * ", "derivative", "sub", "eval_derivatives"])
p("C15", "Polynomial division and deflation satisfy the division identity",
  "Polynomial division by a nonzero polynomial returns quotient and remainder with dividend = quotient*divisor + remainder and remainder of lower degree than the divisor, also when leading coefficients are zero. "
  "Deflating a polynomial by one of its roots, zero included, returns the exact cofactor whenever the arithmetic is exact.",
  ["inputs", "programs"], "all orders, coefficients (including zero leading coefficients) and roots",
  "Zero leading coefficients and order combinations are barely tested.",
  [S + "polynomial.hpp"], [("gcd (Euclidean division), deflate_polynomial", S + "polynomial.hpp")], ["gcd", "deflate_polynomial"])
p("C16", "Polynomial changes of variable compose as stated",
  "Shifting, reflecting, scaling, inverting and Budan-type transformations of a polynomial give the polynomial of the changed variable: their values are the original's values at the transformed argument (times the stated power of it). "
  "Hence shifting there and back, reflecting twice and undoing a scaling give the polynomial back, and the accompanying Mobius transformation maps points of the changed variable to the points of the original one.",
  ["inputs", "programs"], "all orders, coefficients and shifts",
  "Only isolated literals are tested.",
  [S + "polynomial.hpp"], [("shift_function, reflect_poly, scale_poly, invert_taylor_shift, MobiusTransform", S + "polynomial.hpp")], ["shift_function", "reflect_poly", "scale_poly", "invert_taylor_shift", "MobiusTransform"])
p("C17", "Real root finding is sound, complete and sorted",
  "The real roots returned for a polynomial whose roots are well separated (rounding errors of the coefficients are amplified at most a few thousand times) are, within the tolerance of the root finder, exactly its real roots: none missing, none invented, in increasing order, irrespective of the bounding and bisection methods chosen, of zero leading coefficients, of a root at zero and of complex root pairs. "
  "Quadratic, cubic and higher-order solvers agree on the same polynomial. The quadratic factor search (Bairstow), started near a quadratic factor, returns that factor.",
  ["inputs", "configurations"], "all well-separated root configurations and solver choices",
  "Tests use a few hand-picked root sets.",
  [S + "polynomial.hpp", S + "numeric.hpp"], [("solve_real_roots / solve_real_positive_roots_poly", S + "polynomial.hpp")], ["solve_real_roots", "next_root", "solve_real_positive_roots", "LinBairstowSolve"])
p("C18", "Root counts and bounds never exclude a real root",
  "For polynomials with well-separated roots, Sturm chains count exactly the distinct real roots in a half-open interval (finite or infinite); Descartes, Budan and Alesina-Galuzzi style tests never report fewer sign variations than there are roots and have the same parity; and no positive root exceeds the computed upper bound or lies below the computed lower bound. "
  "Root isolating intervals each contain exactly one root and together all of them.",
  ["inputs"], "all polynomials, intervals and bounding methods",
  "The bounds are inequalities over all polynomials; tests check single values.",
  [S + "polynomial.hpp"], [("sturm_chain, descartes_rule_of_signs, budan_01_test, alesina_galuzzi_test, LMQ/local-max bounds, VCA/VAS", S + "polynomial.hpp")],
  ["SturmChain", "descartes_rule_of_signs", "budan_01_test", "alesina_galuzzi_test", "LMQ_upper_bound", "LMQ_lower_bound", "VCA_real_root_bounds", "VAS_real_root_bounds"])
p("C19", "Iterative solvers only report converged roots inside their bracket",
  "Bisection, Newton-Raphson and Halley iteration either report failure or a point that they evaluated inside the bracket, where the function is zero or the last step or the enclosing sign change is within the requested precision; a bracketed search never leaves its bracket, evaluates only inside it, and ends within its iteration limit. "
  "Single steps land where the method's formula says, bisection fails only without a sign change or with its iteration limit used up, and the polynomial evaluation error estimate bounds the actual rounding error.",
  ["inputs", "histories"], "all functions, starting points, brackets and iteration limits",
  "The safeguards act on particular sequences of function values that the tests' smooth functions never produce.",
  [S + "numeric.hpp", S + "precision.hpp"], [("bisection, newton_raphson, halleys_method", S + "numeric.hpp")], ["bisection", "newton_raphson", "halleys_method"])
p("C20", "StackVector behaves as a bounded sequence",
  "A fixed-capacity vector behaves as a sequence of at most its capacity under every history of pushes, pops, copies, assignments, list and array constructions, element writes and extensions: contents and order are preserved, iteration yields exactly the elements, and two vectors are equal exactly when they hold the same elements, whatever was stored in the unused slots before. "
  "An initialiser list that is too long is cut to the capacity; in debug builds (STATOR_DEBUG) operations that would exceed the capacity or take from an empty vector are refused with an error and leave the earlier contents as a prefix.",
  ["histories"], "all operation histories and capacities",
  "One short test history.",
  ["stator/orphan/stack_vector.hpp"], [("StackVector", "stator/orphan/stack_vector.hpp")], ["StackVector API"])
p("C21", "Arrays address every element exactly once and compute element-wise",
  "Every coordinate of an n-dimensional array addresses its own element, by nested and by direct indexing, in row-major order, for fixed and dynamic storage. "
  "Arithmetic between arrays, and between an array and a scalar on either side, is element-wise with the operands in order; arrays of different dimensions are refused with an error. "
  "Sizes beyond a fixed store, lists of the wrong length, appends to multi-dimensional arrays and addresses of the wrong length are refused and leave the arrays as they were; arrays compare equal exactly when dimensions and elements agree, whatever their storage.",
  ["inputs", "histories"], "all dimensions, coordinates, storage kinds and histories of writes",
  "One 2x3 array is tested.",
  [S + "array.hpp", S + "array_rt.hpp"], [("RowMajorAddressing, LinearAddressing, elementwiseop", S + "array.hpp")], ["Array", "operator+ - * /"])
p("C22", "The Python interface means what the C++ library means",
  "A Python expression built with the package's operators and functions denotes the mathematical expression as written, with numbers and symbols on either side, and simplification, substitution, differentiation, equality, hashing, text, and conversion of lists, dictionaries and numbers give the C++ library's results; two expressions equal to each other hash alike. "
  "Operators, substitution and to_python hand numbers, arrays and dictionaries back as Python numbers, lists and dictionaries. Malformed text and arguments that are no expression raise a Python exception (a container placed inside a container or on the right of equal() may be refused too); nothing crashes the interpreter.",
  ["inputs", "histories"], "all expressions through the Python operators",
  "The Python tests check a handful of expressions, mostly with the symbol on the left.",
  ["pysrc/stator/core.cpp", "pysrc/stator/__init__.py"], [("pybind11 operator bindings", "pysrc/stator/core.cpp")], ["stator.core.Expr"])
p("C23", "Measures, extents and overlap of shapes agree with geometry",
  "The volume, area and extents of boxes and balls of every dimension (balls of dimension 0 to 10, in double and in float) are those of geometry, points measure zero, and planes and half-spaces give back the normal and thickness they were made from. "
  "The indicator of two shapes (ball and ball, ball and point, ball and half-space, in either order, with no displacement, a fixed one or a symbolic one) is negative exactly when the shapes overlap, whatever their sizes and positions and wherever the pair is moved to.",
  ["inputs"], "all shapes, sizes, dimensions and positions",
  "The shape tests are commented out or check unit shapes in three dimensions.",
  ["stator/geometry/sphere.hpp", "stator/geometry/box.hpp", "stator/geometry/plane.hpp", "stator/geometry/indicator.hpp"], [("shape classes", "stator/geometry")], ["volume", "area", "extents", "indicator"])
p("C24", "Evaluation on an interval encloses every value",
  "Substituting an interval for the variable of an expression (sums, products, quotients, constant powers - negative and fractional ones too -, negation, absolute value, polynomials, and derivatives of these) gives an interval that contains the value of the expression at every point of the interval where it is defined, rounding included; intervals combine with compile-time constants as with doubles. "
  "An expression in which the variable occurs once is given its exact range, and an interval of one point gives the value there, up to rounding; no evaluation that is defined somewhere on the interval is refused.",
  ["inputs", "programs"], "all expressions of these operations and all intervals",
  "One test evaluates one quadratic on one interval.",
  [S + "interval.hpp", S + "binary_ops.hpp", S + "polynomial.hpp"], [("interval", S + "interval.hpp"), ("sub of expressions", S + "binary_ops.hpp"), ("polynomial evaluation", S + "polynomial.hpp")], ["sub(f, x=interval)", "interval"])
p("C25", "An XML document is the tree it was built or read as",
  "After every history of added elements and attributes and set or appended texts - on a new document or on one read from a file, however it was laid out - the document gives back exactly the elements, in order, with their names, texts, attributes and ancestors, by every way of asking; each place is named by its own path, with the index among the namesakes; attributes convert to numbers and choices exactly where their text is one; and the printed document holds the same. "
  "Asking for what is not there, or using a missing element or attribute, is refused with the library's error; a malformed file is refused with an error that names the line and column.",
  ["inputs", "histories"], "all documents, layouts, histories of changes and places of an error",
  "The XML header has no tests.",
  ["stator/xml.hpp"], [("Document, Node, Attribute", "stator/xml.hpp")], ["Document", "Node", "Attribute"])
p("C26", "Compile-time lists and options, text helpers and error messages do what they say",
  "Static lists under every sequence of reversing, replacing, appending, prepending, merging and splitting hold the elements a list would, by index, size and iteration; a configuration gives for each kind the first option given, else the default, and tells exactly which options are present and valid. "
  "strip removes exactly the surrounding characters of the given set, search_replace exchanges exactly the occurrences from the left and counts them, and an error message holds its origin and everything streamed into it, in order, wherever it was copied or thrown to in between.",
  ["inputs", "histories", "programs"], "all lists, options, texts and histories",
  "The static list tests are commented out; nothing else here is tested.",
  ["stator/orphan/static_list.hpp", "stator/orphan/template_config.hpp", "stator/string.hpp", "stator/exception.hpp"], [("static_list", "stator/orphan/static_list.hpp"), ("get_value, get_type, is_present", "stator/orphan/template_config.hpp"), ("strip, search_replace", "stator/string.hpp"), ("Exception", "stator/exception.hpp")], ["static_list", "get_value", "strip", "search_replace", "stator_throw"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
