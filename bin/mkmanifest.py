#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification checked with TLC; specification-generated commands executed on the real code, recorded executions validated against the specification by TLC"
CLAIMS = {
    "C01": "The formula grammar is specified in TLA+ (Syntax.tla: lexer, precedence-level grammar, meaning as a tree); TLC renders every expression of the bounded spaces with the minimal and with redundant brackets and varied spacing, the real parser reads them, and the tree read must be equal to the denoted one after simplification. Numerals are judged by exact big-integer decimal-to-binary rounding (Decimal.tla). Trusts simplify/== (C04, C07) for the comparison and the JSON projection.",
    "C02": "Every token string to a bounded length, every grown and mutated formula sampled beyond it, plus raw bytes: the specification's own recogniser says whether the text is a formula, and the real parser must refuse exactly the others with the library's exception; crash and hang are observations. Exhaustive to length 4-5 over a reduced alphabet, sampled beyond.",
    "C03": "Every printable expression of the bounded spaces is printed by the real library in plain, parenthesised and LaTeX form; the specification parses the text with its own grammar and requires a tree of the same value (Faithful), and the real parser must read it back likewise; LaTeX text is checked for balance and for known commands only. Numbers: the printed text must denote the same double.",
    "C04": "Every expression of the bounded spaces (up to 4-5 symbols, 5 operator profiles) is enumerated by TLC, built and simplified by the real library, and the result judged by the denotational semantics in GF(10007) at 3 points; larger expressions are sampled by TLC simulation. Trusts g++, the JSON projection of expression trees and the probabilistic soundness of the finite-field identity test; floating-point rounding is arbitrated numerically.",
    "C05": "As C04, for the substitution lemma over 11 fixed single, simultaneous, swapping and self-referencing substitutions.",
    "C06": "As C04, with dual numbers over GF(10007) as the meaning of a derivative.",
    "C07": "TLC enumerates pairs of expressions and near-miss variants (changed operator, swapped operands, changed leaf, reordered dictionary, shared or separate construction); ==, != and std::hash on the real objects must agree with structural equality of the specification's trees. Hash collisions of unequal trees are allowed.",
    "C08": "Histories of up to 40 operations over up to 6 shared handles are generated by TLC simulation, executed on the real library, and the recorded tree, text and hash of every handle after every step are validated as a behaviour of the specification by TLC: a step may change only the handle it names, and that one only to a value the operation allows.",
    "C09": "Every expression over numbers, variables, unit symbols, + * / ^, units and uncertainties to 4 symbols, and sampled larger ones, is simplified, substituted into, differentiated, printed and read back by the real library, and compile-time quantities are compiled; each result is judged under two homomorphisms of quantities (q{u} as q*u, and as q) in GF(10007), so that a unit that moves, vanishes or appears changes one of them; products and quotients of quantities must become one quantity, and no zero uncertainty, unity unit or zero quantity may remain. An uncertainty is an uninterpreted function that is the identity at zero.",
    "C10": "Rational.tla specifies exact rational arithmetic on sequences of decimal digits (unbounded integers in TLC); TLC enumerates all pairs of small fractions, out of lowest terms and zero included, and samples large ones; each pair is a generated C++ program compiled against the library, and sums, products, quotients, powers, equality and type identity must be those of the rationals in lowest terms, and every conversion the nearest double (checked by exact big-integer comparison). Sampled where the quick tier cannot compile every pair.",
    "C11": "Expressions enumerated and sampled by TLC are written out as C++ programs over the compile-time types (numbers as C<>, double or int), compiled, and each result of simplify, expand, N, sub, derivative, repr, and the conversion to run-time expressions (with the mixed operators and the run-time sub/derivative on it) must have the value the denotational semantics (Sem.tla, GF(10007), 3 points) gives the written expression - the same specification that judges the run-time library, so agreement of the two follows. Programs are sampled: each costs a compilation.",
    "C12": "Programs enumerated and sampled by TLC are compiled against the library; the expansion returned (order 0-5, points 0, 1, -2, 1/2, 3 as C<>, double or int) is read back as an expression and its power series about the point (Series.tla, GF(10007), two values for the other variable) must agree with that of the function up to the order and vanish for the three orders beyond; integrals must have the integrand as dual-number derivative (Sem.tla). Where rounding took place 60-digit arithmetic arbitrates. Bounded by what the compiler can unfold.",
    "C13": "Series.tla specifies arithmetic of truncated power series over GF(10007) (product, quotient, binomial power, exponential, logarithm, sine and cosine pairs by their own recurrences, with values of the transcendental functions at the point abstract where they are not exact); TLC enumerates expressions, points and orders, the real ad<N> computes the coefficients at run time and in generated compile-time programs, and TLC decides; where the arithmetic rounded, interval-free high-precision arithmetic (mpmath, 60 digits) arbitrates within a stated tolerance.",
    "C14": "Polynomial ring over GF(10007) specified in Poly.tla; TLC enumerates all coefficient sequences and pairs over small coefficient sets (plus simulation with richer sets, orders to 5), every operation runs on the real templates (orders 0-5, double and int coefficients) and coefficients and values must be those of the ring, modulo p; a result whose arithmetic raised the inexact flag is not judged.",
    "C15": "As C14: the division identity and the degree bound for all pairs (zero leading coefficients included), and deflation of constructed multiples of x-r for exactly representable cases.",
    "C16": "As C14: composition with affine maps and inversion, round trips, sequences of Mobius steps applied to polynomial and MobiusTransform together.",
    "C17": "Root configurations (real roots, complex pairs, leading factor, zero leading coefficients, scale 2^-300..2^325 for cubics and 2^-70..2^80 above) are enumerated or sampled by TLC; the real solvers of orders 1-7 with every bounder must return exactly those roots, sorted, within 2^-21 relative, and Bairstow's iteration from near a known quadratic factor must return it. Only configurations whose conditioning (Roots.tla WellSeparated) is below 2000 are judged.",
    "C18": "As C17: Sturm counts over 18 intervals including infinite ones, Descartes/Budan/Alesina-Galuzzi against exact integer sign variations and against the number of roots, LMQ bounds against the roots, VCA and VAS intervals against the isolation property.",
    "C19": "The functions are adversaries: TLC chooses the answers at the points the real solver asks for (points asked again get the same answer), with brackets, starts, limits and precisions; the recorded evaluation sequence and result must satisfy the contract in TraceSolver.tla. Single steps are compared with the rational formulas in GF(10007); the evaluation error bound is compared with exact 113-bit arithmetic.",
    "C20": "Histories of up to 40 operations over five vectors of capacities 0, 2, 4, 4 and 7 are generated by TLC from GenSeq.tla, executed on the real StackVector, and the recorded size, contents, iteration, equality and error after every step validated as a behaviour of Seqs.tla by TLC.",
    "C21": "Every single operation after every filled start, and histories of up to 30 operations, over two arrays of 8 kinds (ranks 1-3 and run-time rank, fixed and growing stores, linear and run-time symbolic) are generated by TLC from GenArr.tla and executed; after every step dimensions, size, iteration and the read at every address by four routes are validated against Arrays.tla (row-major bijection, element-wise arithmetic in GF(10007), refusals).",
    "C22": "The extension is built from the current tree and imported by /usr/bin/python3; expressions, substitutions, derivatives, comparisons, texts and misuses are generated by TLC (exhaustive small trees, sampled larger ones, in four styles of mixing Python numbers with expressions); every value that comes back is read with the grammar of Syntax.tla and judged by TLC against the meaning in Sem.tla. Judged in GF(10007) at 3 points; a result differing only after inexact arithmetic is not decided here (C04's arbiter does that for the C++ side).",
    "C23": "Geometry.tla specifies the measures of boxes, balls, planes, half-spaces and points and the signed overlap of pairs of shapes; coordinates are quarters, so box measures and indicator values are exact, and ball measures are compared with the rational multiple of a power of pi to 13 digits (5 in float). All small configurations are enumerated by TLC (GenGeo.tla), executed on the real shapes, and every recorded measure and indicator judged by TLC. Dimensions 0-10, fixed coordinate grid.",
    "C24": "Interval.tla specifies evaluation on intervals in exact unbounded rationals; expressions (exhaustive to 4 symbols, sampled to 11) and polynomials are enumerated by TLC, compiled against the library, substituted with 14 intervals, and every bound returned is compared by TLC with the exact values at up to 7 points and, where the variable occurs once or the interval is a point, with the exact range. Fractional exponents only outermost; enclosure of derivatives up to 2^-44, because their constants are rounded before the interval is put in.",
    "C25": "Xml.tla specifies a document as a tree with changes, queries, paths and its spellings as text; TLC enumerates all short histories and samples long ones on new and on read documents (GenXml.tla), and cuts texts short at every place; after every change the real document is walked by every accessor and the view validated by TLC against the tree. rapidXML is not part of the repository: the copy inside Boost is used, with a small stand-in for its printer. Plain text without entities, text only in elements without children.",
    "C26": "Tools.tla specifies lists, options, texts and error messages as sequences; TLC enumerates short histories and samples long ones, compile-time ones are compiled as programs, the others executed, and every intermediate result is validated by TLC.",
}
NOTE = {}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every property is observed through the public API. Repairs of genuine defects are the fix: commits; see DESIGN.md."}
LEVEL = {}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "technique": NOTE.get(i, T), "level": LEVEL.get(i, "model_checking"), "level_note": CLAIMS[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
