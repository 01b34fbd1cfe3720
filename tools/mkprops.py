#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
S = "stator/symbolic/"

p("C01", "A parsed formula has the value its conventional reading gives it",
  "For every well-formed formula text, the parsed expression, with every variable replaced by a number, evaluates to the value of the conventional reading of the text: brackets first, then functions applied to the next atom, then right-associative powers, then left-associative * and /, then signs and left-associative + and -. "
  "A sign written directly after an operator applies to the operand of that operator and does not capture anything that operator would not have captured. "
  "The amount of white space between symbols, and redundant brackets, never change the result.",
  ["inputs"], "all formula texts over numbers (with decimals and exponents), variables, + - * / ^, unary signs, sin cos exp ln, brackets and blanks, and all variable values at which the reading is well-conditioned",
  "The tests parse a few dozen fixed strings; mixed-precedence chains, sign-after-operator and nested powers over arbitrary operands are not sampled.",
  [S+"parser.hpp", S+"binary_ops.hpp", S+"unary_ops.hpp", S+"runtime.hpp"],
  [("precedence climbing over left/right/next binding powers", S+"parser.hpp parseExpression"), ("number scanner", S+"parser.hpp consumeFloat"), ("prefix operators", S+"parser.hpp left operators")],
  ["construct an expression from text, substitute numbers, simplify, read the constant"])

p("C02", "Parsing arbitrary bytes returns an expression or a library error, never worse",
  "For every byte string of bounded nesting, building an expression from it either succeeds or throws the library's documented exception, within time proportional to a small polynomial of its length, and without undefined behaviour, memory error or leak. "
  "A text that is not a complete well-formed expression (unbalanced brackets, missing operands, malformed numbers, trailing symbols, non-variable dictionary keys, unknown characters) is rejected rather than silently read as something else. "
  "An accepted text can be printed, hashed, compared and simplified again without error.",
  ["inputs"], "all byte strings up to a few kilobytes with bounded nesting depth",
  "The tests feed a handful of malformed strings; none runs under a sanitizer, and embedded NUL, truncated UTF-8, high-bit characters and mutated texts are never tried.",
  [S+"parser.hpp", "stator/exception.hpp"],
  [("tokenizer end checks", S+"parser.hpp consume/consumeFloat"), ("expect()", S+"parser.hpp"), ("early-termination check", S+"parser.hpp Expr(const std::string&)")],
  ["outcome (expression / exception type) of constructing an expression from bytes", "sanitizer reports"])

p("C03", "Printing an expression and reading it back gives the same expression",
  "For every run-time expression built from finite numbers, variables, arithmetic, powers, equations, sin cos exp ln, negation, arrays, dictionaries, units and uncertainties, the text it prints as is accepted by the parser and denotes an expression with the same meaning: equal values at every assignment and the same structure for equations, arrays, dictionaries, units and uncertainties. "
  "Brackets are printed wherever leaving them out would change the meaning. "
  "Repeatedly reading and printing settles on one text (up to the unspecified order of dictionary entries).",
  ["inputs", "programs"], "all expression trees over the printable constructs, however built (parsed, via operators, by substitution, simplification or differentiation)",
  "The tests compare a dozen printed strings; bracket placement depends on every pair of nested operators and on operand side and sign.",
  [S+"binary_ops.hpp", S+"unary_ops.hpp", S+"runtime.hpp", S+"array.hpp", S+"dict.hpp", S+"units.hpp", S+"uncertainty.hpp", "stator/repr.hpp", S+"parser.hpp"],
  [("binding-power comparison when printing", S+"binary_ops.hpp repr"), ("unary bracket rule", S+"unary_ops.hpp repr"), ("round-trip number format", "stator/repr.hpp")],
  ["print, parse, evaluate and print again"])

p("C04", "Simplification never changes the value of an expression, and settles",
  "For every run-time expression and every assignment of numbers to its variables at which the original has a finite, well-conditioned value, the simplified expression has the same value up to rounding, and if the original is arithmetic on plain numbers only, simplification yields the number itself. "
  "Simplifying introduces no variable that was not there, applies element by element inside arrays and dictionaries, keeps units, uncertainties and equations, and terminates. "
  "Simplifying a result again changes nothing observable about its value, and expanding or simplifying compile-time expressions preserves value likewise.",
  ["inputs", "programs"], "all expression trees and all assignments where the original is finite and well-conditioned",
  "The tests check selected rewrite rules on one or two expressions each; rules interact, and a wrong rule shows only for particular operand kinds and orders.",
  [S+"runtime.hpp", S+"simplify.hpp", S+"units.hpp", S+"array.hpp", S+"dict.hpp"],
  [("run-time simplifier with identities and double dispatch", S+"runtime.hpp SimplifyRT"), ("compile-time rewrite rules", S+"simplify.hpp")],
  ["simplify then substitute numbers, against an independent evaluation of the tree"])

p("C05", "Substitution replaces exactly the named variables, all at once",
  "Substituting values or expressions for variables replaces every free occurrence of precisely the named variables, anywhere in the expression (including inside arrays and dictionary values), and nothing else; variables inside the replacements are not themselves replaced, so a dictionary substitution is simultaneous. "
  "Evaluating after substitution equals evaluating the original with those values, one-variable and dictionary forms agree, and substituting an absent variable, or something that is not an equation or dictionary, respectively changes nothing or raises the library's error. "
  "Neither the original nor the replacement is altered.",
  ["inputs", "histories"], "all expressions, all sets of replacements (numbers, variables, swaps, self-referential expressions) and both ways of expressing them",
  "The tests substitute a number or another variable in a few expressions; swaps, shared sub-expressions and nested containers are not exercised.",
  [S+"runtime.hpp", S+"sub.hpp", S+"array.hpp", S+"dict.hpp"],
  [("single-variable substitution visitor", S+"runtime.hpp SubstituteRT"), ("dictionary substitution visitor", S+"runtime.hpp SubstituteDictRT"), ("dispatch on kind of replacement", S+"runtime.hpp SubstituteExprRT")],
  ["substitute then evaluate or compare structure with an independent substitution"])

p("C06", "The derivative of an expression is its mathematical derivative",
  "For every differentiable run-time expression and variable, the returned derivative, evaluated at any point where the expression is smooth and well-conditioned, equals the true derivative there, for every operator and function and through any composition of them. "
  "The derivative with respect to a variable that does not occur is zero, arrays, dictionaries and equations are differentiated element by element or side by side, and a quantity with units keeps its units. "
  "Constructs whose derivative is not defined are refused with the library's error instead of a wrong answer or a crash, and differentiating does not alter the original.",
  ["inputs", "programs"], "all expression trees, all variables, all smooth points; first and second derivatives",
  "The tests compare the symbolic form of a few derivatives; sign or factor slips in one rule composed with another are not sampled.",
  [S+"binary_ops.hpp", S+"unary_ops.hpp", S+"runtime.hpp", S+"variable.hpp", S+"variable_rt.hpp", S+"array.hpp"],
  [("derivative rules", S+"binary_ops.hpp, "+S+"unary_ops.hpp"), ("run-time visitor", S+"runtime.hpp DerivativeRT")],
  ["derivative value against dual-number differentiation of an independent copy of the tree"])

p("C07", "Equality is structural, hashing agrees with it, dictionaries are maps",
  "Two run-time expressions compare equal exactly when they have the same structure (same operators, operand order, variable names, numbers, array shape and elements, dictionary keys and values), independently of how or in which order they were built or which objects they share, and equality is reflexive, symmetric and transitive. "
  "Equal expressions always have equal hashes. "
  "A dictionary keyed by expressions finds exactly the entry of an equal key and behaves as a map under any history of insertions, overwrites and look-ups.",
  ["inputs", "histories"], "all pairs and triples of expression trees without NaN, all construction orders, all dictionary operation histories",
  "The tests compare a few pairs and never compare hashes of separately built equal containers.",
  [S+"runtime.hpp", S+"binary_ops_rt.hpp", S+"unary_ops_rt.hpp", S+"variable_rt.hpp", S+"constants_rt.hpp", S+"array.hpp", S+"dict.hpp", "stator/hash.hpp"],
  [("double-dispatch comparison", S+"runtime.hpp ComparisonVisitor"), ("hash combination", "stator/hash.hpp and the std::hash specialisations"), ("unordered map of expressions", S+"dict.hpp")],
  ["== and hash on pairs of trees against structural equality of the generator's trees; dictionary operations against a model map"])

p("C08", "Expressions are immutable values, safe to share between threads",
  "No operation on an expression (printing, hashing, comparing, substituting, differentiating, simplifying, or combining it into others) changes what any other holder of that expression or of any sub-expression observes. "
  "Hence any number of threads may operate on shared expressions concurrently, each getting exactly the result a single thread would get, with no data race. "
  "Results do not depend on what other expressions exist, on the order of earlier operations, or on the lifetime of the expressions they were made from.",
  ["schedules", "histories"], "all interleavings of read-only operations by several threads on shared expression graphs, and all sequential operation histories",
  "No test uses threads or re-inspects an operand after an operation.",
  [S+"runtime.hpp", S+"array_rt.hpp", S+"dict_rt.hpp", S+"array.hpp", S+"dict.hpp", S+"parser.hpp"],
  [("shared_ptr-to-const nodes", S+"runtime.hpp Expr"), ("operations return new trees", S+"runtime.hpp visitors")],
  ["thread sanitizer reports", "printed form and hash of every live expression before and after every operation"])

p("C09", "Expression memory is reclaimed exactly once and results outlive inputs",
  "Throughout any history of building, sharing, transforming, copying, moving and dropping expressions, including operations that fail with an exception, no memory is read or written outside its lifetime or bounds and no undefined behaviour occurs. "
  "When the last reference to the expressions is gone all of their memory has been reclaimed. "
  "A result stays valid after all expressions it was computed from have been dropped.",
  ["histories", "fault_sequences"], "all histories of the public run-time operations interleaved with drops in any order, including exceptional exits",
  "No test runs under a memory checker; the library returns references and shared sub-trees in templates where lifetime errors are easy and invisible to value checks.",
  [S+"runtime.hpp", S+"parser.hpp", S+"array_rt.hpp", S+"dict_rt.hpp", S+"binary_ops_rt.hpp", S+"unary_ops_rt.hpp", "stator/config.hpp"],
  [("shared ownership", S+"runtime.hpp Expr"), ("storing operands by value", "stator/config.hpp store")],
  ["address, leak and undefined-behaviour sanitizer reports", "number of live heap blocks at quiescent points"])

p("C10", "Compile-time, run-time and plain evaluation of a formula agree",
  "For every formula expressible with the compile-time types, evaluating it as a compile-time expression, evaluating it after conversion to a run-time expression, and computing it directly in floating point give the same value up to rounding. "
  "The same holds for its derivative and its compile-time simplification. "
  "Variables are matched by name in every case.",
  ["programs", "inputs"], "all formulae over named variables, rational and floating constants, + - * /, powers, sin cos exp ln and negation, and all well-conditioned points",
  "Each compile-time formula is a distinct template instantiation; the tests instantiate a few.",
  [S+"symbolic.hpp", S+"binary_ops.hpp", S+"unary_ops.hpp", S+"sub.hpp", S+"variable.hpp", S+"constants.hpp", S+"simplify.hpp", S+"runtime.hpp"],
  [("compile-time substitution", S+"sub.hpp"), ("conversion constructors", S+"runtime.hpp Expr(...)"), ("compile-time derivative", S+"binary_ops.hpp, "+S+"unary_ops.hpp")],
  ["sub/derivative/simplify values of generated programs"])

p("C11", "Automatic differentiation yields the exact Taylor coefficients",
  "For every compile-time formula of one variable and every order, automatic differentiation at a point returns the value and the successive Taylor coefficients of the formula there, up to rounding, wherever the formula is analytic. "
  "This includes points where a base of a non-negative integer power vanishes. "
  "The first coefficient is the value and the second is the derivative the symbolic derivative gives.",
  ["programs", "inputs"], "all one-variable formulae over + - * /, powers, exp, log, sin, cos; orders up to 8; all analytic points",
  "The tests check polynomials and single functions at one point to a fixed order.",
  [S+"ad.hpp"],
  [("recurrences for products, quotients, powers, exp, log, sin/cos", S+"ad.hpp")],
  ["coefficient vector against independent truncated power-series arithmetic"])

p("C12", "Expansion into polynomials and Taylor polynomials preserve value",
  "Expanding a compile-time expression that is polynomial in a variable yields a polynomial with the same value everywhere, and its coefficients are those obtained by multiplying out. "
  "The Taylor polynomial of an expression of a given order about a point has exactly the expression's derivatives at that point up to that order, and reproduces a polynomial of no higher degree exactly. "
  "Expressions that cannot be expanded keep their value.",
  ["programs", "inputs"], "all compile-time expressions within template limits, orders up to 6, all centres",
  "The tests expand a few products; each shape instantiates different templates.",
  [S+"simplify.hpp", S+"taylor.hpp", S+"polynomial.hpp"],
  [("expand", S+"simplify.hpp"), ("taylor_series", S+"taylor.hpp")],
  ["coefficients and values of generated programs"])

p("C13", "Polynomial arithmetic and transforms obey the polynomial identities",
  "For polynomials with real coefficients, sums, differences, products, negation, scaling, derivatives, powers and substitution give the polynomial whose values are the corresponding combination of the operands' values, at every argument. "
  "Shifting, inverting (Taylor-shift, reflection, reciprocal and the combined transforms), changing order and evaluating derivatives satisfy their defining identities, and evaluation at plus or minus infinity gives the limit. "
  "With integer-valued coefficients small enough to be exact, the results are exact.",
  ["inputs"], "all coefficient vectors of order 0 to 12 and all arguments, including infinities, zero coefficients and leading zeros",
  "The tests use one or two polynomials per operation.",
  [S+"polynomial.hpp", S+"simplify.hpp"],
  [("evaluation", S+"polynomial.hpp sub"), ("arithmetic", S+"polynomial.hpp operators"), ("transforms", S+"polynomial.hpp shift_function, reflect_poly, scale_poly, invert_taylor_shift ...")],
  ["coefficients and values against exact integer / long double arithmetic"])

p("C14", "Polynomial division and deflation satisfy the division identity",
  "Dividing a polynomial by another yields a quotient and remainder with dividend = quotient x divisor + remainder and the remainder of lower degree than the divisor, for every order combination. "
  "It holds as well when the divisor has vanishing leading coefficients, and division never touches memory outside the operands. "
  "Removing a known root from a polynomial (whatever the root, including zero, and whatever the order) yields the polynomial that, multiplied by (x - root), gives back the original.",
  ["inputs"], "all coefficient vectors and order pairs, with exact integer and rounded real roots",
  "The tests divide a few fixed pairs and deflate one cubic.",
  [S+"polynomial.hpp"],
  [("Euclidean division", S+"polynomial.hpp gcd / euclidean"), ("deflation", S+"polynomial.hpp deflate_polynomial")],
  ["identity residuals against exact / long double arithmetic"])

p("C15", "Real-root solving returns all real roots, only roots, in order",
  "For every square-free real polynomial whose real roots are simple and well separated relative to rounding, solving returns every distinct real root once, nothing that is not a root, in ascending order, at every supported degree and with each of the bounding methods. "
  "This includes polynomials with vanishing leading or trailing coefficients, with complex pairs, with roots at zero, and of widely different scales. "
  "Solving terminates and does not modify its argument.",
  ["inputs"], "all polynomials of order 1 to 10 constructed from separated real roots and irreducible quadratic factors, with scalings and shifts",
  "The tests use grids for quadratics and cubics and one or two higher-order polynomials.",
  [S+"polynomial.hpp", S+"numeric.hpp", S+"precision.hpp"],
  [("closed forms for low orders", S+"polynomial.hpp solve_real_roots (orders 1-3)"), ("bracketing and bisection for higher orders", S+"polynomial.hpp solve_real_roots_poly, VAS/VCA"), ("leading/trailing zero handling", S+"polynomial.hpp solve_real_roots")],
  ["returned roots against the constructed roots and against sign changes of an independent evaluation"])

p("C16", "Root counts and root bounds are correct bounds",
  "For a square-free real polynomial, the number of real roots a Sturm chain reports in an interval equals the true number; the sign-change tests give an upper bound of the same parity on the number of roots they refer to and are exact when they report zero or one. "
  "The reported upper (lower) bounds on positive roots are never below (above) any positive root. "
  "Root isolation returns disjoint intervals, each containing exactly one root, that together contain every positive root.",
  ["inputs"], "all polynomials of order 1 to 10 with known simple, separated real roots, and all intervals whose ends are not roots",
  "The tests check one polynomial per method.",
  [S+"polynomial.hpp"],
  [("Sturm chain", S+"polynomial.hpp"), ("Descartes / Budan / Alesina-Galuzzi tests", S+"polynomial.hpp"), ("local-max-quadratic bounds", S+"polynomial.hpp"), ("VCA and VAS isolation", S+"polynomial.hpp")],
  ["counts, bounds and intervals against constructed roots"])

p("C17", "Numeric root searches report success only at a root within the bracket",
  "Bisection on an interval over which the function changes sign returns a point of that interval at which the function changes sign, to the requested precision. "
  "The derivative-based searches, on smooth functions, report success only when the returned point is close to a root (to the precision asked for) and inside the permitted range, report failure otherwise, terminate within the iteration limit even when the function yields NaN, and never evaluate the function outside the permitted range. "
  "A search that starts on a root returns it, and one that starts next to a simple root finds it.",
  ["inputs", "fault_sequences"], "all continuous functions for bisection, all smooth functions with simple roots or none for the derivative-based searches (including flat, steep, NaN-yielding and root-free ones), brackets and starting points",
  "The tests call each method once on a benign function.",
  [S+"numeric.hpp"],
  [("bisection", S+"numeric.hpp"), ("newton_raphson", S+"numeric.hpp"), ("halley", S+"numeric.hpp")],
  ["every evaluation point, returned flag and returned point"])

p("C18", "Array operations act element by element and index in row-major order",
  "Arrays keep their elements under row-major linear indexing: the element at given coordinates is the one written there, iteration visits each element once in that order, appending keeps what was there, and exceeding a fixed capacity or addressing with too few or too many coordinates is refused. "
  "The arithmetic + - * / between arrays of equal shape and between an array and a number, and negation, act element by element, operations between mismatched shapes are refused with the library's error, and simplification, substitution and differentiation of an array are those of its elements with the shape preserved. "
  "Dictionaries likewise are processed value by value with the same keys.",
  ["inputs", "histories"], "all shapes up to rank 4, all element contents, all operation histories",
  "The tests use a 2x3-like array and a few literals.",
  [S+"array.hpp", S+"array_rt.hpp", S+"dict.hpp", S+"runtime.hpp"],
  [("linear addressing", S+"array.hpp"), ("element-wise operators", S+"array.hpp"), ("visitors over arrays", S+"runtime.hpp")],
  ["elements after every operation against a model array"])

p("C19", "Interval results enclose every possible value",
  "For any expression of intervals formed with the operations the library supports on them, the resulting interval contains the value of the expression at every choice of points from the operand intervals. "
  "The enclosure is tight for a single operation: its ends are attained, up to rounding. "
  "Operands that are plain numbers behave as point intervals.",
  ["inputs", "programs"], "all intervals including points, ones straddling zero and reversed signs, and all supported operation sequences",
  "The tests check one or two sums.",
  [S+"interval.hpp"],
  [("interval arithmetic via the boost interval type", S+"interval.hpp")],
  ["lower and upper ends against sampled points and corner values"])

p("C20", "Units and uncertainties are carried through calculations correctly",
  "Multiplying or dividing quantities multiplies or divides both their values and their units, multiplying by a plain non-zero number or expression leaves the unit unchanged whichever side it is on, and adding zero or multiplying by one changes nothing. "
  "Simplification and substitution act on the value and unit parts separately and never drop, duplicate or exchange them. "
  "Uncertain values print and parse back as value and uncertainty in that order, and nested combinations keep their meaning.",
  ["inputs", "programs"], "all products and quotients of quantities with units, plain factors on either side, all nestings",
  "The tests check three products.",
  [S+"units.hpp", S+"uncertainty.hpp", S+"runtime.hpp", S+"parser.hpp"],
  [("unit product rules", S+"units.hpp multiply_impl"), ("quotient rule", S+"units.hpp operator/"), ("wrapped right operand", S+"parser.hpp BinaryOpToken")],
  ["(value, unit) pair of the result against an independent dimensional evaluation"])

p("C21", "The Python module gives the same answers as the C++ library",
  "Every operation of the Python expression type (construction from text, numbers, lists and dictionaries; + - * / with numbers or expressions on either side; comparison; hashing; substitution; differentiation; simplification; conversion to Python values; plain and LaTeX printing) returns what the mathematical operation on its operands in their written order denotes, and agrees with the C++ library. "
  "Containers convert to and from Python without loss, and errors surface as Python exceptions. "
  "No sequence of Python operations, in any order of object lifetimes or from several threads, crashes the interpreter or leaks expressions.",
  ["inputs", "histories"], "all operation sequences over the exposed API with operands of every accepted type on either side",
  "The Python tests are a handful of direct examples; reflected operators and lifetimes are not covered.",
  ["pysrc/stator/core.cpp", "pysrc/stator/__init__.py"],
  [("pybind11 bindings", "pysrc/stator/core.cpp")],
  ["value of Python-level results against Python float evaluation of the same operation tree"])

p("C22", "Compile-time rational constants are computed exactly",
  "Sums, differences, products, quotients, negation, absolute value, equality comparison and small non-negative integer powers of compile-time rationals are the exact rationals in lowest terms, whatever their signs and denominators, and convert to the nearest floating value of that rational. "
  "Factorials and inverse factorials are exact. "
  "Sine and cosine of compile-time multiples of half the constant pi are the exact 0, 1 or -1.",
  ["programs", "inputs"], "all pairs of rationals whose results are representable, and all multiples of half pi within range",
  "Each pair is a separate instantiation; the tests use a few.",
  [S+"constants.hpp", S+"binary_ops.hpp", "stator/constants.hpp"],
  [("std::ratio arithmetic", S+"constants.hpp"), ("sine and cosine specialisations", S+"constants.hpp sin_Cimpl / cos_Cimpl")],
  ["num/den of generated programs against exact rational arithmetic"])

p("C23", "Fixed-capacity vectors and compile-time lists behave as sequences",
  "Under any history of pushes, pops, extensions, construction from lists and other vectors, assignments, swaps, sorting and iteration within capacity, the fixed-capacity vector holds exactly the elements a sequence would hold, in order, and comparison, copying and printing agree with its contents. "
  "The compile-time list operations (append, prepend, concatenate, reverse, replace, split, look up, visit) produce the list that the corresponding sequence operation produces. "
  "No element outside the current contents is ever read or reported.",
  ["histories", "programs"], "all operation histories within capacity and all compile-time lists within template limits",
  "The tests run one short sequence per operation.",
  ["stator/orphan/stack_vector.hpp", "stator/orphan/static_list.hpp"],
  [("size-tracked array", "stator/orphan/stack_vector.hpp"), ("recursive list templates", "stator/orphan/static_list.hpp")],
  ["contents after every operation against a model sequence"])

p("C24", "Printed numbers read back exactly and printed LaTeX is balanced",
  "Every finite floating-point number printed at full precision reads back as exactly the same number, in every floating type, and asking for fewer digits loses only those digits. "
  "The LaTeX form of every expression has balanced braces and matching left/right delimiters, and denotes the same expression as the plain form; fully bracketed output does too. "
  "Formatting never truncates or overruns, and search-and-replace, trimming and formatting helpers do what a reference implementation does.",
  ["inputs"], "all finite numbers (including subnormals, extremes and exact powers), all expression trees, all strings",
  "The tests print a few numbers.",
  ["stator/repr.hpp", "stator/string.hpp", S+"unary_ops.hpp", S+"binary_ops.hpp"],
  [("max_digits10 format", "stator/repr.hpp"), ("per-operator LaTeX fragments", S+"unary_ops.hpp, "+S+"binary_ops.hpp"), ("string helpers", "stator/string.hpp")],
  ["bits of the re-read number", "delimiter balance and independent re-reading of LaTeX"])

p("C25", "Geometric measures equal the geometric definitions in any dimension",
  "The volume and surface measure of balls and axis-aligned boxes equal the mathematical measures for every dimension from 1 up and every size. "
  "Scaling a shape by a factor scales its volume by the factor's D-th power and its surface by the (D-1)-th, and the surface measure is the derivative of the volume with respect to outward offset. "
  "Shape accessors return the values the shape was made from.",
  ["inputs", "programs"], "dimensions 1 to 9 and all positive finite sizes and positions",
  "The tests check three dimensions at one size.",
  ["stator/geometry/sphere.hpp", "stator/geometry/box.hpp", "stator/geometry/point.hpp"],
  [("recursive ball volume", "stator/geometry/sphere.hpp"), ("box products", "stator/geometry/box.hpp")],
  ["measures against closed forms with the gamma function and product formulae"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
