"""Random formula trees printed as library code, as oracle code and with their
textbook derivatives; used by the generated-program checks."""
from fractions import Fraction as F
PI = F(47627751, 15160384); EE = F(28245729, 10391023)
class T:
    __slots__ = ('k', 'a', 'v')
    def __init__(s, k, a=(), v=None): s.k, s.a, s.v = k, tuple(a), v
def C(n, d=1): return T('C', v=F(n, d))       # compile-time rational
def L(x): return T('L', v=x)                  # literal: float, or int
def V(n): return T('V', v=n)
def has(t, n=None): return (t.k == 'V' and (n is None or t.v == n)) or any(has(c, n) for c in t.a)
def size(t): return 1 + sum(size(c) for c in t.a)
BIN = '+-*/'
FUN = ('sin', 'cos', 'exp', 'log', 'abs')
def lit(v): return repr(float(v)) if isinstance(v, float) else str(v)
def code(t):
    "library code"
    if t.k == 'C':
        if t.v == PI: return 'pi()'
        if t.v == EE: return 'sym::e()'
        return 'C<%d>()' % t.v if t.v.denominator == 1 else 'C<%d, %d>()' % (t.v.numerator, t.v.denominator)
    if t.k == 'L': return lit(t.v) if t.v >= 0 else '(%s)' % lit(t.v)
    if t.k == 'V': return t.v
    if t.k in BIN: return '(%s %s %s)' % (code(t.a[0]), t.k, code(t.a[1]))
    if t.k == '^': return 'sym::pow(%s, %s)' % (code(t.a[0]), code(t.a[1]))
    if t.k == 'neg': return '(-%s)' % code(t.a[0])
    return 'sym::%s(%s)' % (t.k, code(t.a[0]))
def orc(t):
    "oracle code"
    if t.k == 'C': return 'K(%dLL, %dLL)' % (t.v.numerator, t.v.denominator)
    if t.k == 'L': return 'K(%s)' % repr(float(t.v))
    if t.k == 'V': return t.v
    if t.k in BIN: return '(%s %s %s)' % (orc(t.a[0]), t.k, orc(t.a[1]))
    if t.k == '^':
        if t.a[1].k == 'C' and t.a[1].v.denominator == 1: return 'ipow(%s, %d)' % (orc(t.a[0]), t.a[1].v)
        return 'dpow(%s, %s)' % (orc(t.a[0]), orc(t.a[1]))
    if t.k == 'neg': return 'neg(%s)' % orc(t.a[0])
    return 'd%s(%s)' % (t.k, orc(t.a[0]))
ZERO, ONE = C(0), C(1)
def add(a, b): return b if a is ZERO else a if b is ZERO else T('+', (a, b))
def sub(a, b): return a if b is ZERO else T('neg', (b,)) if a is ZERO else T('-', (a, b))
def mul(a, b): return ZERO if a is ZERO or b is ZERO else b if a is ONE else a if b is ONE else T('*', (a, b))
def diff(t, x):
    "textbook derivative"
    if t.k == 'V': return ONE if t.v == x else ZERO
    if t.k in 'CL': return ZERO
    if t.k in BIN or t.k == '^':
        u, w = t.a; du, dw = diff(u, x), diff(w, x)
        if t.k == '+': return add(du, dw)
        if t.k == '-': return sub(du, dw)
        if t.k == '*': return add(mul(du, w), mul(u, dw))
        if t.k == '/':
            # written as the library does, so that the rounding error estimate covers its conditioning
            n = sub(mul(du, w), mul(u, dw))
            return ZERO if n is ZERO else T('/', (n, T('*', (w, w))))
        a = ZERO
        if du is not ZERO:
            if w.k in 'CL' and w.v == 0: a = ZERO
            else: a = mul(mul(w, du), T('^', (u, C(w.v - 1) if w.k == 'C' else sub(w, ONE))))
        b = ZERO if dw is ZERO else mul(mul(dw, T('log', (u,))), t)
        return add(a, b)
    u = t.a[0]; du = diff(u, x)
    if t.k == 'abs' and has(u): return T('*', (du, T('/', (t, u))))       # not smooth where u vanishes
    if du is ZERO: return ZERO
    if t.k == 'neg': return T('neg', (du,))
    if t.k == 'sin': return mul(du, T('cos', (u,)))
    if t.k == 'cos': return T('neg', (mul(du, T('sin', (u,))),))
    if t.k == 'exp': return mul(du, t)
    if t.k == 'log': return T('/', (du, u))

    raise ValueError(t.k)
