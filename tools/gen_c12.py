#!/usr/bin/env python3
"""Programs expanding random compile-time expressions, taking their Taylor
polynomials and substituting into polynomials; the exact coefficients are
computed here with rational arithmetic."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gentree
from gentree import *
bdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
nf, sc = (8, 1.) if tier == 'quick' else (32, 1.4)
X, Y = V('x'), V('y')
# polynomial objects are leaves of kind 'P': (coefficients, type, variable)
def pobj(r, var='x', mx=4):
    ty = r.choice(['int', 'double', 'double']); n = r.randint(0, mx)
    co = [F(r.randint(-5, 5)) if ty == 'int' else F(r.choice([-2.5, -1, -.25, 0, .5, 1, 1.75, 3, -4])) for _ in range(n + 1)]
    return T('P', v=(tuple(co), ty, var))
def pcode(p):
    co, ty, var = p.v
    return 'Polynomial<%d, %s, Var<%s>>{%s}' % (len(co) - 1, ty, {'x': 'nx2', 'y': 'ny2'}[var], ', '.join(str(int(k)) if ty == 'int' else repr(float(k)) for k in co))
_code = gentree.code
def code(t): return pcode(t) if t.k == 'P' else _code(t)
gentree.code = code
def const(r):
    k = r.random()
    if k < .5: return C(r.choice([-5, -3, -2, -1, 1, 1, 2, 3, 4, 7]), r.choice([1, 1, 1, 2, 3, 4]))
    if k < .75: return L(r.choice([.5, 1.25, -2.5, 3.75, 2., -1.]))
    if k < .95: return L(r.choice([-3, -1, 1, 2, 3, 5]))
    return C(0)
def ptree(r, n):
    if n <= 0:
        k = r.random()
        return X if k < .65 else const(r) if k < .85 else pobj(r)
    k = r.random()
    if k < .7:
        m = r.randint(0, n - 1); return T(r.choice('++--***'), (ptree(r, m), ptree(r, n - 1 - m)))
    if k < .8: return T('neg', (ptree(r, n - 1),))
    if k < .92: return T('^', (ptree(r, n - 1), C(r.choice([2, 2, 3, 4]))))
    return T('/', (ptree(r, n - 1), const(r)))
def mul_(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, p in enumerate(a):
        for j, q in enumerate(b): r[i + j] += p * q
    return r
class Bad(Exception): pass
def co(t):
    "exact coefficients; every intermediate one must be representable"
    if t.k in 'CL': r = [F(t.v)]
    elif t.k == 'V': r = [F(0), F(1)]
    elif t.k == 'P': r = list(t.v[0])
    elif t.k in '+-':
        a, b = co(t.a[0]), co(t.a[1]); n = max(len(a), len(b)); a += [F(0)] * (n - len(a)); b += [F(0)] * (n - len(b))
        r = [p + q if t.k == '+' else p - q for p, q in zip(a, b)]
    elif t.k == '*': r = mul_(co(t.a[0]), co(t.a[1]))
    elif t.k == '/':
        b = co(t.a[1])
        if len(b) > 1 or b[0] == 0: raise Bad()
        r = [p / b[0] for p in co(t.a[0])]
    elif t.k == 'neg': r = [-p for p in co(t.a[0])]
    elif t.k == '^':
        a = co(t.a[0]); r = [F(1)]
        for _ in range(int(t.a[1].v)): r = mul_(r, a)
    else: raise Bad()
    if len(r) > 13 or any(abs(k.numerator) > 10**6 or k.denominator > 10**4 for k in r): raise Bad()
    return r
def every(t):
    yield t
    for c in t.a: yield from every(c)
def hasx(t): return any(s.k in 'VP' for s in every(t))
def cost(t):
    if t.k == '^' and t.a[1].k == 'C' and t.a[0].k != 'V' and t.a[1].v > 0: return 1 + int(t.a[1].v) * cost(t.a[0])
    return 1 + sum(cost(c) for c in t.a)
def plain(t):
    "no operation of two literals (C++ arithmetic) and nothing but constants with a floating literal"
    for s in every(t):
        if s.k in BIN or s.k in ('neg', '^'):
            if not hasx(s):
                if any(q.k == 'L' for q in every(s)): return False
                if s.k == '^': return False
        if s.k == '^' and s.a[0].k in 'CL': return False
    return True
def zeros(t):
    "a constant zero, or a sub-expression that vanishes, stands at the base of a power or in a quotient"
    return any(s.k in '^/' and not any(co(s.a[0])) for s in every(t))
def lst(c): return '{' + ', '.join('%d.L/%d' % (k.numerator, k.denominator) for k in c) + '}'
def dyadic(c): return all(k.denominator & (k.denominator - 1) == 0 for k in c)
def allexact(t):
    if not dyadic(co(t)): return False
    if t.k == '/' and not dyadic([1 / co(t.a[1])[0]]): return False
    return all(allexact(c) for c in t.a)
# --- general formulae --------------------------------------------------------
def gleaf(r):
    k = r.random()
    return X if k < .4 else Y if k < .7 else const(r)
def gtree(r, n, fun=True):
    if n <= 0: return gleaf(r)
    k = r.random()
    if k < .65:
        m = r.randint(0, n - 1); return T(r.choice('++--****/'), (gtree(r, m), gtree(r, n - 1 - m)))
    if k < .75: return T('^', (gtree(r, n - 1), r.choice([C(2), C(2), C(3)] + ([L(2.), L(3.)] if n < 3 else []))))
    if k < .82: return T('neg', (gtree(r, n - 1),))
    return T(r.choice(FUN), (gtree(r, n - 1),))
def vanish(t):
    "sub-expressions that simplify to a constant have no compile-time functions, powers or quotients"
    import math
    def val(t, x, y):
        if t.k in 'CL': return float(t.v)
        if t.k == 'V': return x if t.v == 'x' else y
        a = [val(c, x, y) for c in t.a]
        try:
            return {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1], '/': lambda: a[0] / a[1], '^': lambda: a[0] ** a[1], 'neg': lambda: -a[0],
                    'sin': lambda: math.sin(a[0]), 'cos': lambda: math.cos(a[0]), 'exp': lambda: math.exp(a[0]), 'log': lambda: math.log(abs(a[0])), 'abs': lambda: abs(a[0])}[t.k]()
        except (ZeroDivisionError, OverflowError, ValueError): return float('nan')
    def constant(s):
        v = [val(s, x, y) for x, y in ((.7, 1.3), (1.9, .4), (2.3, 3.1))]
        return all(abs(q - v[0]) < 1e-9 * max(1, abs(v[0])) or q != q for q in v)
    return any(constant(s.a[1]) and not s.a[1].k in 'CL' if s.k == '/' else (s.k in FUN or s.k == '^') and constant(s.a[0]) for s in every(t))
def orc_ok(t): return not any(s.k == '/' and s.a[1].k in 'CL' and s.a[1].v == 0 for s in every(t))
def ser(t):
    if t.k == 'C': return 'KS(%dLL, %dLL)' % (t.v.numerator, t.v.denominator)
    if t.k == 'L': return 'KS(%s)' % repr(float(t.v))
    if t.k == 'V': return t.v
    if t.k in BIN: return '(%s %s %s)' % (ser(t.a[0]), t.k, ser(t.a[1]))
    if t.k == '^': return 'cpow(%s, K(%s))' % (ser(t.a[0]), '%dLL, %dLL' % (t.a[1].v.numerator, t.a[1].v.denominator) if t.a[1].k == 'C' else repr(float(t.a[1].v)))
    if t.k == 'neg': return 'neg(%s)' % ser(t.a[0])
    return 'd%s(%s)' % (t.k, ser(t.a[0]))
def stree(r, n):
    "smooth formulae for Taylor polynomials"
    if n <= 0: return X if r.random() < .8 else Y
    k = r.random()
    if k < .5:
        m = r.randint(0, n - 1); o = r.choice('+-**/'); a, b = stree(r, m), stree(r, n - 1 - m)
        if r.random() < .4:
            q = const(r)
            if q.v == 0: q = C(2)
            if r.random() < .5: a = q
            else: b = q
        return T(o, (a, b))
    if k < .65: return T('^', (stree(r, n - 1), r.choice([C(2), C(3), C(4), L(2.5), L(.5), L(3.), L(-1.5), C(1, 2)])))
    return T(r.choice(['exp', 'sin', 'cos', 'log', 'neg']), (stree(r, n - 1),))
nP, nK, nT, nS = [int(k * sc) for k in (26, 22, 16, 9)]
for f in range(nf):
    r = random.Random('c12 %d %d' % (seed, f))
    out = ['#include "c12.hpp"']; n = 0
    def emit(body):
        global n
        out.append('static void f%d(Case& c) { %s }' % (n, body)); n += 1
    seen = set()
    while n < nP:
        t = ptree(r, r.choice([1, 2, 3, 3, 4, 5, 6, 7]))
        if not hasx(t) or not plain(t): continue
        try: c = co(t); z = zeros(t)
        except Bad: continue
        if z or cost(t) > 20 or code(t) in seen: continue
        seen.add(code(t))
        ty = not any(s.k == 'L' or s.k == 'P' for s in every(t))
        deg = len(c) - 1
        # every derivative of a quotient squares its denominator, which is limited to 64 bits
        fl = 1 if cost(t) <= 8 and deg <= (3 if any(q.k == '/' for q in every(t)) else 5) else 0
        if fl and ty and cost(t) <= 5: fl |= 2
        emit('poly<%d, %d>(c, "%s", [](auto x) { return %s; }, %s, %d);' % (fl, deg, code(t), code(t), lst(c), allexact(t)))
    while n < nP + nK:
        t = gtree(r, r.choice([2, 3, 3, 4, 5]))
        if code(t) in seen or cost(t) > 10 or not (has(t, 'x') or has(t, 'y')) or not plain(t) or not orc_ok(t) or vanish(t): continue
        if any(s.k in FUN and not has(s) for s in every(t)): continue
        if any(s.k == 'C' and s.v == 0 for s in every(t)) and any(s.k in '/^' or s.k in FUN for s in every(t)): continue
        seen.add(code(t))
        emit('keep(c, "%s", [](auto x, auto y) { return %s; }, [](D x, D y) { return %s; });' % (code(t), code(t), orc(t)))
    while n < nP + nK + nT:
        t = stree(r, r.choice([1, 1, 2, 2, 3, 3, 4]))
        if not has(t, 'x') or not plain(t) or vanish(t): continue
        q = sum(1 for s in every(t) if s.k in ('*', '/', '^')); z = size(t); two = has(t, 'y')
        o = r.choice([0, 1, 2, 3, 4, 5, 6])
        if two: o = min(o, 2 if z <= 4 and not any(s.k in '^/' or s.k in FUN for s in every(t)) else 1)
        if two and z > 5: continue
        if any(p.k == '/' and p.a[1].k == 'C' for p in every(t)): o = min(o, 4)
        if z * (1 + q) > 8: o = min(o, 3)
        if z * (1 + q) > 14: o = min(o, 2)
        emit('tay<%d>(c, "%s", [](auto x, auto y) { return %s; }, [](S x, S y) { return %s; });' % (o, code(t), code(t), ser(t)))
    while n < nP + nK + nT + nS:
        p = pobj(r, 'x', 4)
        k = r.random(); var = 'x' if r.random() < .5 else 'y'; W = V(var)
        if k < .2: u, uc = W, [F(0), F(1)]
        elif k < .4: q = pobj(r, var, 2); u, uc = q, list(q.v[0])
        elif k < .5: u = const(r); uc = [F(u.v)]
        else:
            u = ptree(r, r.choice([1, 2, 2, 3]))
            if not hasx(u) or not plain(u) or any(s.k == 'P' for s in every(u)): continue
            try: uc = co(u)
            except Bad: continue
            if zeros(u) or not any(uc[1:]): continue
            var = 'x'
        if cost(u) > 6 or len(p.v[0]) * len(uc) > 16: continue
        emit('subst(c, "%s with x = %s", %s, %s, [](auto x, auto y) { return %s; }, %s, %s);' % (pcode(p), code(u), pcode(p), lst(p.v[0]), code(u), lst(uc), 'true' if var == 'x' else 'false'))
    out.append('typedef void (*Fn)(Case&); static Fn A[] = {%s};' % ', '.join('f%d' % i for i in range(n)))
    out.append('int main(int ac, char** av) { Harness h("C12"); h.add("formulae-%d", %d, %d, [](Case& c) { A[c.idx %% %d](c); }); return h.main(ac, av); }' % (f, 4 * n, 12 * n, n))
    p = os.path.join(bdir, 'c12_%d.cpp' % f); open(p, 'w').write('\n'.join(out) + '\n'); print(p)

# every pair of operators on either side with every kind of operand: the shapes expansion rules turn on
def operand(r, k):
    if k == 'x': return X
    if k == 'y': return Y
    if k == 'C': return C(r.choice([-5, -3, -2, 2, 3, 4]), r.choice([1, 1, 1, 2, 4]))
    if k == 'u': return C(r.choice([-1, 1]))
    if k == 'L': return L(r.choice([.5, 1.25, -2.5, 3.75]))
    if k == 'i': return L(r.choice([-3, 2, 5]))
    if k == 'P': return pobj(r, 'x', 3)
    if k == 'Q': return pobj(r, 'y', 2)
    if k == 'n': return T('neg', (X,))
    if k == 'p': return T('^', (X, C(r.choice([2, 3]))))
    return T('exp', (X,))
r = random.Random('c12 shapes %d' % seed)
def shape(r, p, q, side, k):
    a, b, c = [operand(r, j) for j in k]
    return T(p, (a, T(q, (b, c)))) if side else T(p, (T(q, (a, b)), c))
every_shape = [(p, q, side, a + b + c) for p in '+-*/' for q in '+-*/' for side in (0, 1) for a in 'xCLP' for b in 'xCLP' for c in 'xCLP']
mixed = [(r.choice('+-*/'), r.choice('+-*/'), r.choice((0, 1)), ''.join(r.choice('xxPPpnCuLiyyQf') for _ in '123')) for _ in range(1200 if tier == 'quick' else 6000)]
if tier == 'quick': every_shape = r.sample(every_shape, 700)
body, seen = [], set()
for sh in every_shape + mixed:
    t = shape(r, *sh); k = code(t)
    if k in seen or not hasx(t) or not plain(t): continue
    try: c = co(t) if not any(s.k in FUN or s.k == 'V' and s.v == 'y' or s.k == 'P' and s.v[2] == 'y' for s in every(t)) else None
    except Bad: c = None
    if c is not None:
        if zeros(t): continue
        body.append('poly<0, %d>(c, "%s", [](auto x) { return %s; }, %s, %d);' % (len(c) - 1, k, k, lst(c), allexact(t)))
    else:
        if any(s.k in 'PQ' for s in every(t)) or vanish(t) or not orc_ok(t) or any(s.k in FUN and not has(s) for s in every(t)): continue
        if len(body) % 3: continue
        body.append('keep(c, "%s", [](auto x, auto y) { return %s; }, [](D x, D y) { return %s; });' % (k, k, orc(t)))
    seen.add(k)
# every power up to the twelfth of a linear form, and of longer ones as far as the coefficients stay small
for e in range(0, 13):
    for base in (T('+', (X, C(1))), T('-', (C(2), X)), T('*', (C(2), X)), T('+', (T('*', (X, X)), C(-1))), T('P', v=((F(-1), F(1)), 'int', 'x')), T('P', v=((F(1), F(-2), F(1)), 'double', 'x'))):
        t = T('^', (base, C(e)))
        if r.random() < .2: t = T('*', (t, X))
        if not plain(t): continue
        try: c = co(t)
        except Bad: continue
        if len(c) > 13: continue
        body.append('poly<0, %d>(c, "%s", [](auto x) { return %s; }, %s, %d);' % (len(c) - 1, code(t), code(t), lst(c), allexact(t)))
r.shuffle(body)
per = 70
for f in range(0, len(body), per):
    part = body[f:f + per]; f //= per
    out = ['#include "c12.hpp"'] + ['static void f%d(Case& c) { %s }' % z for z in enumerate(part)]
    out.append('typedef void (*Fn)(Case&); static Fn A[] = {%s};' % ', '.join('f%d' % i for i in range(len(part))))
    out.append('int main(int ac, char** av) { Harness h("C12"); h.add("shapes-%d", %d, %d, [](Case& c) { A[c.idx](c); }); return h.main(ac, av); }' % (f, len(part), len(part)))
    p = os.path.join(bdir, 'c12_s%d.cpp' % f); open(p, 'w').write('\n'.join(out) + '\n'); print(p)
