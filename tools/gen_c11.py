#!/usr/bin/env python3
"""Programs of one-variable compile-time formulae for automatic differentiation."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gentree import *
bdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
nf, ne = (8, 75) if tier == 'quick' else (32, 100)
def const(r):
    k = r.random()
    if k < .5: return C(r.choice([-5, -3, -2, -1, 1, 2, 3, 4]), r.choice([1, 1, 2, 3]))
    if k < .8: return L(r.choice([.5, 1.25, -2.5, 3.75, .1, -.3, 2.]))
    return L(r.choice([-3, -1, 1, 2, 5]))
X = V('x')
def tree(r, n):
    if n <= 0: return X
    k = r.random()
    if k < .55:
        m = r.randint(0, n - 1); o = r.choice('+-**//')
        a, b = tree(r, m), tree(r, n - 1 - m)
        if r.random() < .35:
            if r.random() < .5: a = const(r)
            else: b = const(r)
        return T(o, (a, b))
    if k < .78:
        u = tree(r, n - 1)
        if r.random() < .25: return T('^', (u, tree(r, r.choice([0, 0, 1]))))
        return T('^', (u, r.choice([C(0), C(2), C(2), C(3), C(3), C(4), C(5), C(9), C(12), C(-1), C(-2), C(-3), C(1, 2), C(1, 3), C(5, 2), C(-1, 2), L(2.), L(3.), L(1.), L(.5), L(-1.5), L(2), L(3), L(4), L(-1), L(7.)])))
    return T(r.choice(['exp', 'log', 'sin', 'cos']), (tree(r, n - 1),))
def ser(t):
    if t.k == 'C': return 'KS(%dLL, %dLL)' % (t.v.numerator, t.v.denominator)
    if t.k == 'L': return 'KS(%s)' % repr(float(t.v))
    if t.k == 'V': return t.v
    if t.k in BIN: return '(%s %s %s)' % (ser(t.a[0]), t.k, ser(t.a[1]))
    if t.k == '^':
        w = t.a[1]
        if w.k in 'CL': return 'cpow(%s, K(%s))' % (ser(t.a[0]), '%dLL, %dLL' % (w.v.numerator, w.v.denominator) if w.k == 'C' else repr(float(w.v)))
        return 'dpow(%s, %s)' % (ser(t.a[0]), ser(w))
    if t.k == 'neg': return 'neg(%s)' % ser(t.a[0])
    return 'd%s(%s)' % (t.k, ser(t.a[0]))
fixed = [T('^', (X, X)), T('^', (T('-', (X, C(1))), C(2))), T('^', (X, C(8))), T('^', (T('*', (X, X)), C(3))), T('exp', (T('*', (X, X)),)), T('^', (T('exp', (X,)), T('sin', (X,)))), T('/', (T('sin', (X,)), X)), T('^', (T('sin', (X,)), C(5))), T('^', (T('+', (T('^', (X, L(2.))), C(1))), T('/', (C(1), X)))), C(3, 7), L(2.5)]
for f in range(nf):
    r = random.Random('c11 %d %d' % (seed, f))
    out = ['#include "c11.hpp"']; n = 0
    L_ = fixed[:] if f == 0 else []
    while n < ne:
        t = L_.pop() if L_ else tree(r, r.choice([1, 2, 3, 3, 4, 5, 6]))
        c = code(t)
        d = orc(diff(t, 'x'))
        if len(d) > 4000: continue
        out.append('static void f%d(Case& c) { run(c, "%s", [](auto x) { return %s; }, [](S x) { return %s; }, [](D x) { return %s; }); }' % (n, c, c, ser(t), d)); n += 1
    out.append('typedef void (*Fn)(Case&); static Fn A[] = {%s};' % ', '.join('f%d' % i for i in range(n)))
    out.append('int main(int ac, char** av) { Harness h("C11"); h.add("formulae-%d", %d, %d, [](Case& c) { A[c.idx %% %d](c); }); return h.main(ac, av); }' % (f, 8 * n, 40 * n, n))
    p = os.path.join(bdir, 'c11_%d.cpp' % f); open(p, 'w').write('\n'.join(out) + '\n'); print(p)
