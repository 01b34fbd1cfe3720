#!/usr/bin/env python3
"""Programs of random expressions of compile-time rationals with the exact
rational each must be, computed here with unbounded integers."""
import sys, os, random
from fractions import Fraction as F
bdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
nf, ne = (8, 250) if tier == 'quick' else (24, 400)
LIM = 2**62
def ok(q): return abs(q.numerator) < LIM and q.denominator < LIM
PI = F(47627751, 15160384); E_ = F(28245729, 10391023)
def leaf(r):
    k = r.random()
    if k < .3: n, d = r.randint(-9, 9), r.randint(1, 9)
    elif k < .5: n, d = r.choice([-3, -2, -1, 0, 1, 2, 3]), 1
    elif k < .7: n, d = r.randint(-999, 999), r.randint(1, 999)
    elif k < .85: n, d = r.randint(-10**6, 10**6), r.choice([1, 2, 4, 8, 16, 3, 7, 10, 100, 10**6, 2**20])
    elif k < .95: n, d = r.randint(-2**31, 2**31), r.randint(1, 2**31)
    else: n, d = r.choice([2**52 + 1, 2**53 - 1, -(2**53 - 1), 10**15, 3 * 2**40, -10**12 - 39]), r.choice([1, 2, 5, 10**6 + 3, 2**40])
    g = r.random()
    if g < .15 and abs(n) < 10**6 and d < 10**6: m = r.randint(2, 12); n, d = n * m, d * m      # not in lowest terms
    if g > .92: n, d = -n, -d                                                                    # negative denominator
    t = 'C<%d, %d>()' % (n, d) if d != 1 or r.random() < .1 else 'C<%d>()' % n
    return t, F(n, d)
def tree(r, depth):
    if depth == 0 or r.random() < .12:
        if r.random() < .06: return r.choice([('pi()', PI), ('sym::e()', E_)])
        return leaf(r)
    for _ in range(50):
        k = r.choice('++--**//nNap')
        a, x = tree(r, depth - 1)
        if k in '+-*/':
            b, y = tree(r, depth - 1)
            if k == '/' and y == 0: continue
            q = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[k]()
            t = '(%s %s %s)' % (a, k, b)
        elif k == 'n': q, t = -x, '(-%s)' % a
        elif k == 'N': q, t = x, '(+%s)' % a
        elif k == 'a': q, t = abs(x), 'abs(%s)' % a
        else: n = r.randint(0, 5); q, t = x ** n, 'pow(%s, C<%d>())' % (a, n)
        if ok(q): return t, q
    return leaf(r)
def shown(q): return str(q)
for f in range(nf):
    r = random.Random('c22 %d %d' % (seed, f))
    out = ['#include "common.hpp"', '#include <stator/symbolic/symbolic.hpp>', 'using namespace vf; using namespace sym;',
     'template <class R> void exact(Case& c, const char* t, R v, long long n, long long d, double x, bool within) { c.desc(t);',
     ' std::string e = "is " + std::to_string((long long)R::num) + "/" + std::to_string((long long)R::den) + " expected " + std::to_string(n) + "/" + std::to_string(d);',
     ' c.check(R::num == n && R::den == d, "rational", std::string(t) + ": " + e); c.count("constants_compared");',
     ' if (within) { c.count("conversions_compared"); double g = v; c.check(g == x, "conversion", std::string(t) + ": converts to " + str(g) + " expected " + str(x));',
     '  auto a = toArithmetic(v); c.check(double(a) == x, "conversion", std::string(t) + ": toArithmetic gives " + str(double(a)) + " expected " + str(x)); c.check(std::is_integral<decltype(a)>::value == (d == 1), "conversion-type", t);',
     '  c.check(v + 1.5 == x + 1.5 && 2.25 * v == 2.25 * x && v - 0.5f == x - 0.5f, "mixed", std::string(t) + ": arithmetic with a double"); }',
     ' c.nontrivial(); }',
     'template <class A, class B> void equal(Case& c, const char* t, A a, B b, bool e) { c.desc(t); c.count("equalities_compared"); c.check((a == b) == e && (b == a) == e, "equality", std::string(t) + (e ? ": should be equal" : ": should differ")); c.nontrivial(); }']
    n = 0; exprs = []
    for i in range(ne):
        t, q = tree(r, r.choice([1, 1, 2, 2, 3, 4]))
        within = abs(q.numerator) <= 2**53 and q.denominator <= 2**53
        # every leaf alone may be unreduced; operations reduce
        exprs.append((t, q))
        x = q.numerator / q.denominator
        # an expression which is only a leaf, a negation or a magnitude keeps its written terms; the ratio members are reduced by std::ratio
        out.append('static void e%d(Case& c) { exact(c, "%s", %s, %dLL, %dLL, %r, %s); }' % (i, t, t, q.numerator, q.denominator, x, 'true' if within else 'false'))
    eqs = []
    for i in range(ne // 2):
        a, x = r.choice(exprs)
        if r.random() < .5: b, y = r.choice([('(%s * C<6, 6>())' % a, x), ('(%s + C<0>())' % a, x), ('(-(-%s))' % a, x), ('((%s + C<1, 7>()) - C<1, 7>())' % a, x if ok(x + F(1, 7)) else None), ('((%s / C<3>()) * C<3>())' % a, x if ok(x / 3) else None), ('C<%d, %d>()' % (x.numerator * 3, x.denominator * 3), x if ok(x * 3) and x.denominator < LIM // 3 and abs(x.numerator) < LIM // 3 else None)])
        else: b, y = r.choice([r.choice(exprs), ('(-%s)' % a, -x), ('(%s + C<1, 1000>())' % a, x + F(1, 1000)), ('(C<1>() / %s)' % a, 1 / x if x else None), ('C<%d, %d>()' % (x.numerator + 1, x.denominator), (x.numerator + 1) / F(x.denominator))])
        if y is None or not ok(y): continue
        eqs.append('static void q%d(Case& c) { equal(c, "%s == %s", %s, %s, %s); }' % (len(eqs), a, b, a, b, 'true' if x == y else 'false'))
    out += eqs
    fac = []
    import math
    for i in range(21):
        fac.append('  exact(c, "Factorial %d", typename Factorial<%d>::value(), %dLL, 1, %r, %s);' % (i, i, math.factorial(i), float(math.factorial(i)), 'true' if math.factorial(i) < 2**53 else 'false'))
        fac.append('  exact(c, "InvFactorial %d", typename InvFactorial<%d>::value(), 1, %dLL, %r, %s);' % (i, i, math.factorial(i), 1 / math.factorial(i), 'true' if math.factorial(i) < 2**53 else 'false'))
    out.append('static void fact(Case& c) {\n' + '\n'.join(fac) + '\n}')
    trig = []
    ks = sorted(set([-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9] + [r.randint(-20000, 20000) for _ in range(24)]))
    for k in ks:
        h = r.choice(['C<%d, 2>() * pi()' % k, 'pi() * C<%d, 2>()' % k, 'C<%d>() * (pi() / C<2>())' % k, 'pi() / C<2>() + C<%d, 2>() * pi()' % (k - 1), 'C<%d>() * pi() / C<2>()' % k, 'pi() - C<%d, 2>() * pi()' % (2 - k)])
        s = [0, 1, 0, -1][k % 4]; c = [1, 0, -1, 0][k % 4]
        trig.append('  trig<decltype(sin(%s))>(c, "sin of %d half pi: %s", %d, "");' % (h, k, h, s))
        trig.append('  trig<decltype(cos(%s))>(c, "cos of %d half pi: %s", %d, "%s");' % (h, k, h, c, 'odd' if k % 4 == 2 else ''))
    out.append('template <class R> void trig(Case& c, const char* t, int e, std::string odd) { c.desc(t); c.count("trigonometric_values"); c.check(R::den == 1 && R::num == e, odd == "odd" && R::den == 1 && R::num == 1 ? "cos-of-odd-multiple-of-pi" : "trigonometric", std::string(t) + " is " + std::to_string((long long)R::num) + "/" + std::to_string((long long)R::den) + " expected " + std::to_string(e)); c.nontrivial(); }')
    for j, t in enumerate(trig): out.append('static void t%d(Case& c) { %s }' % (j, t))
    mix = []
    for t in ('2.5', '-3', '7L', '0.5f', 'std::complex<double>(1.5, -2)'):
        mix.append('  { auto v = %s; c.check(v + Null() == v && Null() + v == v && v - Null() == v && Null() - v == -v, "zero", "%s with zero"); c.check(v * Unity() == v && Unity() * v == v, "unity", "%s times unity"); auto z = v * Null(); auto w = Null() * v; c.check(decltype(z)::num == 0 && decltype(w)::num == 0, "zero", "%s times zero"); }' % (t, t, t, t))
    out.append('static void mixes(Case& c) { c.desc("zero and one with numbers"); c.nontrivial();\n' + '\n'.join(mix) + """
  typedef stator::constant<double> D; typedef stator::constant<float> S; typedef stator::constant<long double> L;
  c.check(D::pi() == M_PI && S::pi() == float(M_PI) && fabsl(L::pi() - acosl(-1)) < 1e-18L, "constant", "pi");
  c.check(D::e() == M_E && S::e() == float(M_E) && fabsl(L::e() - expl(1)) < 1e-18L, "constant", "e");
  c.check(D::k() == 1.3806488e-23 && D::avogadro() == 6.02214129e23 && std::abs(D::R() - 8.3144621) < 1e-6, "constant", "CODATA 2010 constants");
  c.check(std::abs(double(pi()) - M_PI) < 2e-14 && std::abs(double(sym::e()) - M_E) < 1e-15, "constant", "rational approximations");
}""")
    ne_ = len(exprs)
    out.append('typedef void (*Fn)(Case&); static Fn E[] = {%s}; static Fn Q[] = {%s}; static Fn T[] = {%s};' % (', '.join('e%d' % i for i in range(ne_)), ', '.join('q%d' % i for i in range(len(eqs))), ', '.join('t%d' % i for i in range(len(trig)))))
    out.append('int main(int ac, char** av) { Harness h("C22"); h.add("expressions-%d", %d, %d, [](Case& c) { E[c.idx](c); }); h.add("equality-%d", %d, %d, [](Case& c) { Q[c.idx](c); }); h.add("factorials-%d", 1, 1, fact); h.add("trigonometric-%d", %d, %d, [](Case& c) { T[c.idx](c); }); h.add("mixed-%d", 1, 1, mixes); return h.main(ac, av); }' % (f, ne_, ne_, f, len(eqs), len(eqs), f, f, len(trig), len(trig), f))
    p = os.path.join(bdir, 'c22_%d.cpp' % f); open(p, 'w').write('\n'.join(out)); print(p)
