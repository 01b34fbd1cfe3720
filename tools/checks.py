CHECKS = {}
def C(pid, units, rule, **k):
    CHECKS[pid] = dict(units=units, rule=rule, **k)

C('C01', [dict(name='c01', src='c01.cpp', config='asan')],
  'Random and systematic formula texts (operator/sign chains, grammar-derived texts with random spacing, brackets, signs, functions, number formats) are parsed by the library and by an independent reference parser; both are evaluated at random assignments and compared under a running rounding-error bound. Non-trivial: at least one assignment was well-conditioned and compared, and the text has an operator.')
C('C03', [dict(name='c03', src='c03.cpp', config='asan')],
  'Systematic operator pairs (each side, signed and extreme leaves) and random trees over all printable constructs, built explicitly, through the operators, by simplification, differentiation and substitution, are printed, read back and compared by structure (flattened sums/products) or by a numeric interpretation in which containers, units, uncertainties and equations are opaque; re-printing must settle. Non-trivial: conclusively compared tree with at least three nodes.')
C('C02', [dict(name='c02', src='c02.cpp', config='asan', leaks=True)],
  'Random bytes, token sequences (all pairs, sampled triples), mutated and truncated valid texts and long/deep texts are constructed under address, undefined-behaviour and leak sanitizers; acceptance is compared with an independent reference recogniser, exceptions must be the library\'s, accepted texts are printed, hashed, compared and simplified. Non-trivial: text of at least two bytes whose outcome was determined.')
C('C04', [dict(name='c04', src='c04.cpp', config='asan')],
  'Expression trees (all two-operator rule shapes over zero/one/minus one/number/variable leaves, random trees, numbers only, containers, units) are simplified, simplified again and evaluated; the results are compared with an independent evaluation of the original tree at random assignments under a rounding-error bound. Non-trivial: at least one well-conditioned assignment and three nodes.')
C('C05', [dict(name='c05', src='c05.cpp', config='asan')],
  'Random trees (including containers, units and shared nodes) undergo single, simultaneous (swaps, cycles, self-referential), absent and refused substitutions; results are compared with an independent substitution by structure or value, and originals are re-read. Non-trivial: a named variable occurs / several names are replaced.')
C('C06', [dict(name='c06', src='c06.cpp', config='asan')],
  'All pairs/triples of operators, random trees and containers are differentiated by the library (first and second derivatives, also of the simplified form) and compared at random smooth points with textbook differentiation of an independent tree; undefined cases must be refused. Non-trivial: the variable occurs and at least one smooth well-conditioned point was compared.')
C('C07', [dict(name='c07', src='c07.cpp', config='asan')],
  'Trees are built twice with different sharing, entry orders and overwrites, tweaked in one place, or unrelated; ==, != and hashes are compared with structural equality of the generator trees, and dictionaries keyed by arbitrary expressions with a model map over operation histories. Non-trivial: composite trees or near-miss pairs.')
C('C09', [dict(name='c09', src='c09.cpp', config='asan', leaks=True, env={'ASAN_OPTIONS': 'exitcode=77:abort_on_error=0:detect_leaks=1:hard_rss_limit_mb=6000:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1'})],
  'Random histories of public operations with drops in random order, operations that throw and allocations made to fail, under address, leak and undefined-behaviour sanitizers; every live result is re-read against what it was when made, each history is repeated and the allocated bytes at the two quiescent points compared. Non-trivial: every history.')
C('C08', [dict(name='c08', src='c08.cpp', config='asan', libs=['-pthread']),
          dict(name='c08t', src='c08.cpp', config='tsan0', flags=['-DVF_TSAN', '-g1'], libs=['-pthread'], shards=4, env={'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4'})],
  'Sequential part: after every operation of a random history every live expression and extracted sub-expression is printed, hashed and read again; results must not depend on sharing or on earlier operations. Concurrent part under the thread sanitizer: 2-16 threads with injected delays run random operations on shared expressions (threads first or serial first), results are compared with single-threaded ones; the order of operation starts and ends is logged and distinct interleavings counted. Non-trivial: histories, and thread runs in which at least as many switches as threads were observed.',
  technique='runtime monitoring: thread sanitizer plus before/after observation of every live expression')

C('C13', [dict(name='c13', src='c13.cpp', config='asan')],
  'Polynomials of every order pair up to 6x6 (12-15 for unary operations) with small-integer, sparse, real, wide-scale and power-of-two coefficients (double, int, long, float, long double; mixed; renamed variables) are added, subtracted, multiplied, scaled, divided, raised, differentiated, promoted, evaluated (also at infinities), shifted, reflected, scaled, inverted and composed; results are compared with independent coefficient arithmetic, exactly where all numbers are integers below 2^53. Non-trivial: some non-constant coefficient is non-zero.')
C('C14', [dict(name='c14', src='c14.cpp', config='asan')],
  'All order pairs (dividend up to 9) with vanishing leading coefficients of either operand are divided and the identity, the remainder degree and, for constructed integer cases, the exact quotient and remainder are checked; known roots (zero, integer, tiny, huge) are deflated, also one after another, and multiplied back; roots much smaller or larger than the other roots are held to an accuracy near the precision of the coefficients. Sanitizers watch the arrays. Non-trivial: every division; deflations of a non-zero polynomial.')
C('C15', [dict(name='c15', src='c15.cpp', config='asan')],
  'Polynomials of degree 0-10 built from known real roots and complex pairs (exact dyadic, real, several magnitudes, rescaled by powers of two, with roots at zero and vanishing leading coefficients) and polynomials with random coefficients whose roots are found independently in long double and are well conditioned are solved by every bounding method; count, order and values are compared. Non-trivial: every polynomial solved.')
C('C16', [dict(name='c16', src='c16.cpp', config='asan')],
  'On polynomials with known roots: Sturm counts over random, infinite, adjacent and partitioned intervals (where double arithmetic leaves the chain certain), the three sign-change tests against bound, parity and independently counted sign changes, upper and lower root bounds, and VCA and VAS isolation. Non-trivial: every polynomial.')
C('C17', [dict(name='c17', src='c17.cpp', config='asan')],
  'The searches and their single steps run on recorded smooth functions with known roots and stationary points (random scale, offset, bounds, precision, iteration limits, starts on roots, beside stationary points, at bounds), on rootless functions and on functions that become NaN; every evaluation point, the number of evaluations, the reported success and the returned point are checked. Non-trivial: every run; bisections that succeed.')

C('C18', [dict(name='c18', src='c18.cpp', config='asan')],
  'Histories of resizes, writes through nested and complete coordinates, appends, refused requests and element-wise operations on arrays of rank 1-4 with fixed and growing storage are followed by a model and every element is re-read in order and by address; run-time arrays, nested arrays and dictionaries go through operators, simplification, substitution and differentiation and are compared by shape and value with an independent element-wise evaluation. Non-trivial: every history; container trees with a compared value.')

C('C19', [dict(name='c19', src='c19.cpp', config='asan')],
  'Every supported operation on intervals (interval with interval, interval with number, negation, powers) over operands of all sign combinations, point intervals, widths from one unit in the last place to huge, and random compile-time expressions of them: points are drawn from the operands (ends, interior, zero) and the exact value (long double with error bound) must lie inside the result; for one operation the ends must be attained up to rounding. Non-trivial: a non-degenerate operand and a finite result.',
  note='Built without optimisation because the directed rounding the interval type relies on is only honoured then. Sampled points, not all points.')

C('C23', [dict(name='c23', src='c23.cpp', config='asan', leaks=True),
          dict(name='c23d', src='c23.cpp', config='asan', flags=['-DSTATOR_DEBUG'], shards=2),
          dict(name='c23l', gen='tools/gen_c23.py', config='asan', shards=1)],
  'Histories of pushes, pops, copies, extensions, sorting, writes, swaps, comparisons, construction from lists and from smaller vectors on three vectors of capacity 1-36 (int, double, a counting object, pairs, tuples) are followed by std::vector and everything observable is compared after every step, under address and leak sanitizers; with the debugging aid on, leaving the capacity must be refused. Generated programs apply random chains of compile-time list operations and configuration look-ups and compare with the sequence computed by the generator. Non-trivial: every history and every list.',
  technique='runtime monitoring: model-based history checking under ASan+UBSan+LSan')

C('C25', [dict(name='c25', src='c25.cpp', config='asan')],
  'Balls (double, float, long double; dimensions 1-24 and up to 255), boxes (also of integers; dimensions 1-12) and points with random centres, corners and sizes over many magnitudes, degenerate ones included, are measured and compared with the measures computed by recurrence in long double (exactly for integers); scaling, offset and axis-exchange relations and the accessors are checked on the same shapes. Non-trivial: every shape whose measures are in range.')

C('C20', [dict(name='c20', src='c20.cpp', config='asan')],
  'Products and quotients of quantities and plain factors, identity operations, mixed trees with units, uncertainties, functions and sums, arrays of quantities and compile-time quantities are built (explicitly, by operators, from text), simplified once, twice and to the end, printed and re-read, and substituted in value and unit; a quantity v{u} is read as v*u^1.618.. and a+-b as a+0.739b at random assignments, so that dropping, repeating or exchanging parts shows, and for products the unit and the value parts are also evaluated separately. Non-trivial: a compared assignment and a unit or uncertainty.')

C('C24', [dict(name='c24', src='c24.cpp', config='asan'),
          dict(name='c24n', src='c24n.cpp', config='asan', shards=2)],
  'Numbers of every floating type (random bit patterns, ends of the range, round decimals) are printed at full and at reduced precision and read back; random trees over every printable construct (built, simplified, differentiated, compile-time polynomials and matrices) are printed plainly, fully bracketed and as LaTeX, and the LaTeX is read by an independent reader that demands balanced braces and matching delimiters and is compared by value with the tree; string helpers are compared with reference implementations. Non-trivial: finite numbers; trees conclusively compared.')

C('C22', [dict(name='c22', gen='tools/gen_c22.py', config='asan', shards=1)],
  'Generated programs of random nested expressions (+ - * / negation magnitude power, unreduced and negative-denominator leaves, pi and e) of compile-time rationals, with the rational each must be computed by the generator with unbounded integers: numerator and denominator, conversions, equality both ways, factorials up to 20, sine and cosine of multiples of half pi written in several ways, zero and one with numbers. Non-trivial: every expression.',
  note='Values are fixed at compile time; the monitor observes the resulting types and their run-time conversions.')

C('C10', [dict(name='c10', gen='tools/gen_c10.py', config='asan', shards=1)],
  'Generated programs hold random formulae (two named variables, rational and floating constants, + - * / powers, functions, negation) as compile-time types. At random points the direct floating computation, the substituted compile-time expression (either order, through a second object of the same name, with an absent name), its simplification, its derivatives and their simplification, and the converted run-time expression (read back, substituted, simplified, differentiated) are compared with an independent evaluation and textbook derivative under a rounding-error bound. Every pair of + - * / on either side with every kind of operand (variable, rational, floating constant; sampled: zero, one, negation, power, function) is simplified once and twice and compared in the same way. Non-trivial: a formula compared at a well-conditioned point.',
  note='Simplification of compile-time types is monitored for formulae up to 9 nodes (template instantiation is exponential in size).')

C('C11', [dict(name='c11', gen='tools/gen_c11.py', config='asan', shards=1)],
  'Generated programs of random one-variable compile-time formulae (+ - * /, constant and variable powers, exp log sin cos) are differentiated automatically to orders 0, 1, 3 and 8 at random and special points (zeros of bases included); every coefficient is compared with truncated power-series arithmetic that composes each function term by term and carries a rounding-error bound, and the second with the textbook and with the library\'s symbolic derivative. Non-trivial: a coefficient compared.')

C('C12', [dict(name='c12', gen='tools/gen_c12.py', config='asan', shards=1)],
  'Generated programs of compile-time formulae polynomial in x (sums, differences, products, powers, quotients by constants, polynomial objects) whose exact coefficients the generator computes with rational arithmetic: the expansion must be a polynomial with those coefficients (bit-exact where every step is), keep its value, be stable under repeated expansion, and differentiate to the right coefficients; its Taylor polynomial of the same order about random points, 0 and 2 must be the same polynomial. Pairs of operators on either side with every kind of operand (variable, constants, polynomial objects, powers, negations) are expanded too. General two-variable formulae keep their value under expansion and under N(). Taylor polynomials of random smooth formulae (orders 0 to 6, second variable symbolic) are compared, by value and multiplied out, with truncated power-series arithmetic. Polynomials with their variable replaced by variables, numbers, polynomials and formulae are compared with exact composition. Non-trivial: a formula compared at least once.',
  note='Taylor polynomials are monitored for formulae small enough to compile (simplification of compile-time types is exponential in size).')

C('C21', [dict(name='c21', script='harness/c21.py', pymod='pysrc/stator/core.cpp', config='asan', shards=8)],
  'The extension module is built with AddressSanitizer and UndefinedBehaviorSanitizer and loaded in Python. Random operation trees over variables, parsed formulae, ints, floats and bools on either side are computed with the module and with an independent evaluation carrying error bounds, after substitution (dictionary, expression, equations, by formulae), simplification and differentiation; printed, repr and LaTeX forms are read back; containers convert there and back, substitute and add; histories of 120 steps with arbitrary lifetimes check that no object ever changes; erroneous calls must raise; threads sharing expressions must see what a single thread sees; the allocator is asked for growth after repetitions of every operation. Non-trivial: a case with a comparison.')
