#!/usr/bin/env python3
"""Programs in which random formulae are written as compile-time expressions
and evaluated in every way the library offers, with the oracle's value."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gentree import *
bdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
nrt, nct, erT, ecT = (6, 2, 42, 110) if tier == 'quick' else (24, 8, 45, 100)

def leaf(r, needvar=False):
    k = r.random()
    if needvar or k < .6: return V('x') if r.random() < .6 else V('y')
    if k < .80: return C(r.choice([-5, -3, -2, -1, 0, 1, 1, 2, 3, 4, 7]), r.choice([1, 1, 1, 2, 3, 4]))
    if k < .84: return T('C', v=r.choice([PI, EE]))
    if k < .93: return L(r.choice([.5, 1.25, -2.5, 3.75, .1, -.3, 2., 1e-3, 12.625]))
    return L(r.choice([-3, -1, 1, 2, 3, 5]))
def fix(t):
    "C in lowest terms are what the constants print as"
    return t
def tree(r, n, needvar=False):
    if n <= 0: return leaf(r, needvar)
    k = r.random()
    if k < .62:
        o = r.choice('++--***//')
        m = r.randint(0, n - 1)
        a, b = tree(r, m), tree(r, n - 1 - m)
        if not has(a) and not has(b):
            if (a.k == 'L' or b.k == 'L' or needvar or size(a) + size(b) > 6):
                if r.random() < .5: a = leaf(r, True)
                else: b = leaf(r, True)
            elif a.k != 'C' or b.k != 'C': a = leaf(r, True)
        if o == '/' and (b.k in 'CL') and b.v == 0: o = '+'
        return T(o, (a, b))
    if k < .78:
        if r.random() < .2:
            b = tree(r, n - 1, True); a = r.choice([L(2), L(3), L(1.5), V('x'), V('y')])
        else:
            a = tree(r, n - 1, True)
            b = r.choice([C(0), C(1), C(2), C(2), C(3), C(4), C(-1), C(-2), C(1, 2), C(1, 3), C(3, 2), C(-1, 2), L(2.), L(.5), L(3.), L(-1.5), L(2), L(3)])
        if a.k == 'V' and b.k == 'C' and r.random() < .3: b = C(r.choice([5, 6, 7, 8, 9, 11, -3, -5]))
        return T('^', (a, b))
    if k < .86: return T('neg', (tree(r, n - 1, needvar),)) if True else None
    a = tree(r, n - 1, True)
    return T(r.choice(FUN), (a,))
def zero_const(t):
    "constant value of a subtree without variables, or None"
    if t.k in 'CL': return F(t.v)
    if t.k == 'neg': v = zero_const(t.a[0]); return None if v is None else -v
    if t.k in BIN:
        a, b = zero_const(t.a[0]), zero_const(t.a[1])
        if a is None or b is None: return None
        if t.k == '/' and b == 0: return None
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[t.k]()
    return None
def every(t):
    yield t
    for c in t.a: yield from every(c)
def usable(t):
    for s in every(t):
        if s.k == '/' and zero_const(s.a[1]) == 0: return False
        if s.k == '/' and not has(s.a[1]) and zero_const(s.a[1]) is None: return False
        if s.k in FUN and not has(s.a[0]): return False
        if s.k in BIN and not has(s):
            if any(q.k == 'L' for q in every(s)): return False
        if s.k == 'neg' and s.a[0].k == 'L': return False
        if s.k == '^' and not has(s): return False
        q = zero_const(s)
        if q is not None and (abs(q.numerator) > 10**15 or q.denominator > 10**15): return False
    z = [s for s in every(t) if not has(s) and zero_const(s) == 0]
    if z and any(s.k in '^/' or s.k in FUN for s in every(t)): return False   # no power of the constant zero
    return has(t)
def const_arg(t):
    if any(s.k == 'C' and s.v in (PI, EE) for s in every(t)) and any(s.k in '/^' for s in every(t)): return True      # the rationals would overflow
    "x / x inside a function would leave the function of a constant, which has no compile-time form"
    return any(s.k in ('sin', 'cos', '^') and any(q.k == '/' and q.a[0].k == 'V' and q.a[1].k == 'V' and q.a[0].v == q.a[1].v for q in every(s)) for s in every(t))
def cost(t):
    "simplification of compile-time types takes exponentially long to compile: powers are multiplied out"
    if t.k == '^' and t.a[1].k == 'C' and t.a[1].v.denominator == 1 and t.a[0].k != 'V' and t.a[1].v > 0: return 1 + int(t.a[1].v) * cost(t.a[0])
    return 1 + sum(cost(c) for c in t.a)
for f in range(nrt + nct):
    rt = f < nrt
    r = random.Random('c10 %d %d' % (seed, f))
    ne = erT if rt else ecT
    out = ['#define VF_RT %d' % rt, '#include "c10.hpp"']
    n = 0
    while n < ne:
        t = tree(r, r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]))
        if not usable(t) or const_arg(t): continue
        fl = (1 if cost(t) <= 9 else 0) | (2 if max(cost(diff(t, 'x')), cost(diff(t, 'y'))) <= 9 else 0)
        c, o, dx, dy = code(t), orc(t), orc(diff(t, 'x')), orc(diff(t, 'y'))
        out.append('static void f%d(Case& c) { run<%d>(c, "%s", [](auto x, auto y) { return %s; }, [](D x, D y) { return %s; }, [](D x, D y) { return %s; }, [](D x, D y) { return %s; }); }' % (n, fl, c, c, o, dx, dy))
        n += 1
    out.append('typedef void (*Fn)(Case&); static Fn A[] = {%s};' % ', '.join('f%d' % i for i in range(n)))
    out.append('int main(int ac, char** av) { Harness h("C10"); h.add("formulae-%d", %d, %d, [](Case& c) { A[c.idx](c); }); return h.main(ac, av); }' % (f, n, n))
    p = os.path.join(bdir, 'c10_%d.cpp' % f); open(p, 'w').write('\n'.join(out) + '\n'); print(p)

# every pair of operators, either side, with every kind of operand: the small shapes on which simplification rules turn
def operand(r, k):
    return {'x': lambda: V('x'), 'y': lambda: V('y'), 'C': lambda: C(r.choice([-5, -3, -2, 2, 3, 4, 7]), r.choice([1, 1, 1, 2, 3])), 'u': lambda: C(r.choice([-1, 1])), 'z': lambda: C(0), 'L': lambda: L(r.choice([.5, 1.25, -2.5, 3.75])), 'n': lambda: T('neg', (V('x'),)), 'p': lambda: T('^', (V('x'), C(r.choice([2, 2, 3, 3, 5, 7, 8])))), 'f': lambda: T('exp', (V('x'),))}[k]()
def shapes(r):
    out = []
    for p in '+-*/':
        for q in '+-*/':
            for side in (0, 1):
                for a in 'xCL':
                    for b in 'xCL':
                        for c in 'xCL': out.append((p, q, side, a, b, c))
    extra = [(r.choice('+-*/'), r.choice('+-*/'), r.choice((0, 1)), r.choice('xyCuzLnpf'), r.choice('xyCuzLnpf'), r.choice('xyCuzLnpf')) for _ in range(120 if tier == 'quick' else 2000)]
    return out + extra
def build(r, p, q, side, a, b, c):
    a, b, c = operand(r, a), operand(r, b), operand(r, c)
    return T(p, (a, T(q, (b, c)))) if side else T(p, (T(q, (a, b)), c))
r = random.Random('c10 shapes %d' % seed)
S = []
for sh in shapes(r):
    t = build(r, *sh)
    if not usable(t) or const_arg(t): continue
    S.append(t)
if tier == 'thorough':
    o = '+-*/'
    for _ in range(1500):
        k = 'xxyCCLunp'
        t = T(r.choice(o), (T(r.choice(o), (operand(r, r.choice(k)), operand(r, r.choice(k)))), T(r.choice(o), (operand(r, r.choice(k)), operand(r, r.choice(k))))))
        if usable(t) and not const_arg(t): S.append(t)
r.shuffle(S)
per = 120
for f in range(0, len(S), per):
    part = S[f:f + per]; f //= per
    out = ['#define VF_RT 0', '#include "c10.hpp"']
    for n, t in enumerate(part):
        c, o = code(t), orc(t)
        out.append('static void f%d(Case& c) { shape(c, "%s", [](auto x, auto y) { return %s; }, [](D x, D y) { return %s; }); }' % (n, c, c, o))
    out.append('typedef void (*Fn)(Case&); static Fn A[] = {%s};' % ', '.join('f%d' % i for i in range(len(part))))
    out.append('int main(int ac, char** av) { Harness h("C10"); h.add("shapes-%d", %d, %d, [](Case& c) { A[c.idx](c); }); return h.main(ac, av); }' % (f, len(part), len(part)))
    p = os.path.join(bdir, 'c10_s%d.cpp' % f); open(p, 'w').write('\n'.join(out) + '\n'); print(p)
