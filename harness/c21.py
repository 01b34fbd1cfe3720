#!/usr/bin/env python3
"""C21: the Python module, built from /repo with sanitizers, is driven by random
histories of operations; results are compared with an evaluation of the same
operations made here."""
import sys, os, math, random, struct, json, time, hashlib, gc, ctypes, threading, zlib
sys.path.insert(0, os.getcwd()); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
arg = dict(zip(sys.argv[1::2], sys.argv[2::2]))
if '--list' in sys.argv: print('operators\ntext\ncontainers\nhistory\nerrors\nthreads\nleaks'); sys.exit(0)
import gentree
from gentree import T, V, L, C, diff, has, size
import stator
from stator import Expr, derivative, simplify, sub
sys.setrecursionlimit(5000)
seed, tier, shard, nsh = int(arg.get('--seed', 1)), arg.get('--tier', 'quick'), int(arg.get('--shard', 0)), int(arg.get('--nshards', 1))
scale = float(arg.get('--scale', 1))
COUNTS = dict(operators=(2400, 24000), text=(900, 9000), containers=(900, 9000), history=(160, 1600), errors=(240, 2400), threads=(16, 160), leaks=(40, 40))
GROUPS = list(COUNTS)
st = open(arg['--status'], 'wb', buffering=0) if '--status' in arg else None
res = dict(evaluations=0, counters={}, distinct=[], samples=[], violations=[])
seen = set()
class Fail(Exception): pass
def count(k, n=1): res['counters'][k] = res['counters'].get(k, 0) + n
def fail(key, detail): raise Fail(key, detail)
def check(ok, key, detail):
    if not ok: fail(key, detail)
# --- numbers with running error bounds ----------------------------------------
U = 2.3e-16
class E:
    __slots__ = ('v', 'e', 'ok')
    def __init__(s, v, e=0.0):
        s.v, s.e = v, e
        s.ok = math.isfinite(v) and math.isfinite(e) and abs(v) < 1e100 and (v == 0 or abs(v) > 1e-100)
BAD = E(float('nan'))
def ev(t, env):
    if t.k == 'V': return E(float(env[t.v])) if t.v in env else BAD
    if t.k in 'CL':
        v = float(t.v); return E(v, 0 if v == int(v) else U * abs(v))
    if t.k == 'X': return ev(t.a[0], env)
    a = [ev(c, env) for c in t.a]
    if not all(x.ok for x in a): return BAD
    p, q = a[0], a[-1]
    try:
        if t.k in '+-': v = p.v + q.v if t.k == '+' else p.v - q.v; e = p.e + q.e; ex = True
        elif t.k == '*': v = p.v * q.v; e = abs(p.v) * q.e + abs(q.v) * p.e + p.e * q.e; ex = True
        elif t.k == '/':
            if abs(q.v) <= 100 * q.e or q.v == 0: return BAD
            v = p.v / q.v; e = (p.e + abs(v) * q.e) / (abs(q.v) - q.e); ex = False
        elif t.k == 'neg': return E(-p.v, p.e)
        elif t.k == '^':
            if p.v == 0 and (p.e or q.v <= 0): return BAD
            if p.v < 0 and (q.e or q.v != int(q.v)): return BAD
            if abs(p.v) <= 10 * p.e and p.e: return BAD
            v = p.v ** q.v; ex = False
            e = 0 if p.v == 0 else abs(v) * (abs(q.v) * p.e / abs(p.v) + (abs(math.log(abs(p.v))) * q.e) + 4 * U * (1 + abs(q.v * math.log(abs(p.v)))))
        elif t.k in ('sin', 'cos'): v = getattr(math, t.k)(p.v); e = p.e + U * (1 + 0 * abs(p.v)); ex = False
        elif t.k == 'exp': v = math.exp(p.v); e = v * (p.e + U * 2); ex = False
        elif t.k == 'log':
            if p.v <= 10 * p.e or p.v <= 0: return BAD
            v = math.log(p.v); e = p.e / (p.v - p.e) + 2 * U * abs(v); ex = False
        else: return BAD
    except (OverflowError, ZeroDivisionError, ValueError): return BAD
    if not (ex and not p.e and not q.e and v == int(v) and abs(v) < 1e12 if math.isfinite(v) else False): e += U * abs(v)
    return E(v, e)
def good(a): return a.ok and a.e * 1e4 <= 1e-5 * max(abs(a.v), 1e-3)
def close(a, v): return math.isfinite(v) and abs(v - a.v) <= 1e4 * a.e + 1e-12 * abs(a.v)
# --- formulae -------------------------------------------------------------------
def num(r):
    k = r.random()
    if k < .5: return r.choice([-5, -3, -2, -1, 0, 1, 1, 2, 3, 4, 7, 12])
    if k < .6: return r.choice([True, False]) if r.random() < .3 else r.randint(-10**9, 10**9)
    return r.choice([.5, 1.25, -2.5, 3.75, .1, -.3, 2., 1e-3, 12.625, -7., round(r.uniform(-9, 9), r.randint(1, 15))])
NAMES = ['x', 'y', 'alpha']
def ftree(r, n):
    "formula written as text"
    if n <= 0: return V(r.choice(NAMES)) if r.random() < .65 else L(abs(num(r)))
    k = r.random()
    if k < .6: m = r.randint(0, n - 1); return T(r.choice('++--**//'), (ftree(r, m), ftree(r, n - 1 - m)))
    if k < .75: return T('^', (ftree(r, n - 1), L(r.choice([2, 2, 3, 4, .5, 1.5]))))
    if k < .85: return T('neg', (ftree(r, n - 1),))
    return T(r.choice(['sin', 'cos', 'exp', 'log']), (ftree(r, n - 1),))
def text(t, r):
    sp = ' ' if r.random() < .3 else ''
    if t.k in 'CL': return repr(t.v) if isinstance(t.v, float) else str(int(t.v))
    if t.k == 'V': return t.v
    if t.k == 'neg': return '(-' + sp + text(t.a[0], r) + ')'
    if len(t.a) == 2: return '(' + text(t.a[0], r) + sp + t.k + sp + text(t.a[1], r) + ')'
    return '(' + {'log': 'ln'}.get(t.k, t.k) + '(' + text(t.a[0], r) + '))'
def otree(r, n):
    "operations made in Python"
    if n <= 0:
        k = r.random()
        if k < .45: return V(r.choice(NAMES))
        if k < .8: return L(num(r))
        return T('X', (ftree(r, r.choice([1, 2, 3])),))
    m = r.randint(0, n - 1)
    if r.random() < .04: return T('neg', (otree(r, n - 1),))          # written 0 - e
    return T(r.choice('++--**//'), (otree(r, m), otree(r, n - 1 - m)))
def isnum(o): return isinstance(o, (int, float))
def run(t, r, log):
    "the same operations on the module's objects"
    if t.k == 'V': return Expr(t.v)
    if t.k in 'CL': return t.v
    if t.k == 'X': s = text(t.a[0], r); log.append(s); return Expr(s)
    if t.k == 'neg': a = 0; b = run(t.a[0], r, log); o = '-'
    else: a, b = run(t.a[0], r, log), run(t.a[1], r, log); o = t.k
    if isnum(a) and isnum(b):
        if r.random() < .5: a = Expr(a)
        else: b = Expr(b)
    if r.random() < .15 and isnum(a): a = Expr(a)
    if r.random() < .15 and isnum(b): b = Expr(b)
    log.append('%s %s %s' % (show(a), o, show(b)))
    if o == '+': return a + b
    if o == '-': return a - b
    if o == '*': return a * b
    return a / b
def show(a): return repr(a) if not isinstance(a, Expr) else "Expr('%s')" % a
def point(r):
    k = r.random()
    return {n: (r.choice([-3, -2, -1, 0, 1, 2, 3]) if r.random() < .4 else round(r.uniform(.125, 4), 3) if k < .7 else round(r.uniform(-4, 4), 3)) for n in NAMES}
def dictof(env, r):
    d = {Expr(k): (Expr(v) if r.random() < .3 else v) for k, v in env.items()}
    return Expr(d) if r.random() < .3 else d
def at(e, env, r):
    "number an object stands for"
    if isnum(e): return float(e)
    k = r.random()
    if k < .6: v = sub(e, dictof(env, r))
    else:
        v = e
        ks = list(env); r.shuffle(ks)
        for n in ks: v = sub(v, dictof({n: env[n]}, r)) if k < .8 else sub(v, Expr(n).equal(env[n]))
    if isinstance(v, Expr): v = v.to_python()
    return v
def compare(key, e, t, env, r, what):
    w = ev(t, env)
    if not good(w): count('ill_conditioned'); return False
    v = at(e, env, r)
    check(isnum(v), key, '%s: substituting %s leaves %s' % (what, env, show(v)))
    check(close(w, v), key, '%s at %s is %r expected %r' % (what, env, v, w.v))
    count('values_compared'); return True
def simultaneous(e, t, env, r, what):
    "several names replaced at once: no replacement is replaced again"
    ks = r.sample(NAMES, r.randint(2, len(NAMES))); perm = ks[1:] + ks[:1]; d, env2 = {}, dict(env)
    for k, o in zip(ks, perm):
        q = r.random()
        if q < .6: d[k] = V(o)
        elif q < .75: d[k] = T('+', (V(o), L(r.choice([1, -2, .5]))))
        elif q < .9: d[k] = T('*', (V(r.choice(NAMES)), L(r.choice([2, -1, .25]))))
        else: d[k] = L(r.choice([1, -2, 1.5]))
        w = ev(d[k], env)
        if not w.ok or w.e: return
        env2[k] = w.v
    w = ev(t, env2)
    if not good(w): return
    log = []; py = {Expr(k): run(v, r, log) for k, v in d.items()}
    v = at(sub(e, Expr(py) if r.random() < .3 else py), env, r)
    check(isnum(v) and close(w, v), 'simultaneous substitution', '%s with %s at %s is %r expected %r' % (what, ', '.join('%s=%s' % (k, show(Expr(x) if isnum(x) else x)) for k, x in py.items()), env, v, w.v)); count('simultaneous_substitutions')
def g_operators(r):
    t = otree(r, r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]))
    log = []; e = run(t, r, log); what = '; '.join(log)
    desc(what); ok = False
    if isinstance(e, Expr): snap = (str(e), hash(e))
    for _ in range(3):
        env = point(r)
        ok |= compare('operators', e, t, env, r, what)
        if isinstance(e, Expr):
            ok |= compare('simplify', simplify(e) if r.random() < .5 else e.simplify(), t, env, r, 'simplified ' + what)
            n = r.choice(NAMES); dt = diff(strip(t), n)
            if good(ev(t, env)):
                d = derivative(e, Expr(n)); check(isinstance(d, Expr), 'derivative', 'not an expression'); compare('derivative', d, dt, env, r, 'derivative in %s of %s' % (n, what))
            p = {k: env[k] for k in r.sample(NAMES, 2)}
            q = sub(e, dictof(p, r))
            compare('partial substitution', q, t, env, r, what + ' after ' + str(p))
            m = r.choice(NAMES); o = V('x') if m != 'x' else V('y'); 
            f = T('+', (o, C(1))); q = sub(e, {Expr(m): Expr('%s+1' % o.v)}); env2 = dict(env); env2[m] = env[o.v] + 1
            w = ev(t, env2)
            if good(w):
                v = at(q, env, r); check(isnum(v) and close(w, v), 'substitution by a formula', '%s with %s=%s+1 at %s is %r expected %r' % (what, m, o.v, env, v, w.v)); count('formula_substitutions')
            simultaneous(e, t, env, r, what)
        else: check(isnum(e), 'operators', what + ' gives ' + repr(e))
    if isinstance(e, Expr): check((str(e), hash(e)) == snap, 'changed', what + ': the operand changed from %s to %s' % (snap[0], e))
    return ok
def strip(t):
    if t.k == 'X': return strip(t.a[0])
    if t.k == 'neg': return T('neg', (strip(t.a[0]),))
    if t.k == 'L': return C(*float(t.v).as_integer_ratio())
    return T(t.k, [strip(c) for c in t.a], t.v) if t.a else t
class Latex:
    "LaTeX -> plain text with explicit brackets"
    def __init__(s, t): s.s, s.p = t, 0
    def at(s, t): return s.s.startswith(t, s.p)
    def eat(s, t):
        if not s.at(t): return False
        s.p += len(t); return True
    def group(s, end):
        o = s.run(end)
        if not s.eat(end): raise ValueError('missing ' + end)
        return o
    def run(s, end):
        o = ''; sup = False
        while s.p < len(s.s) and not (end and s.at(end)):
            if s.at('^'):
                if sup: raise ValueError('double superscript')
                s.p += 1
                if s.eat('{'): e = s.group('}')
                else: e = s.s[s.p]; s.p += 1
                o += '^(' + e + ')'; sup = True; continue
            sup = False
            if s.eat('\\frac{'):
                a = s.group('}')
                if not s.eat('{'): raise ValueError('\\frac needs two groups')
                o += '((' + a + ')/(' + s.group('}') + '))'
            elif s.eat('\\mathrm{e}^{'): o += '(exp(' + s.group('}') + '))'; sup = True
            elif s.eat('\\left('): o += '(' + s.group('\\right)') + ')'
            elif s.eat('\\left['): o += '[' + s.group('\\right]') + ']'
            elif s.eat('\\left\\{'): o += '{' + s.group('\\right\\}') + '}'
            elif s.eat('\\sin '): o += ' sin '
            elif s.eat('\\cos '): o += ' cos '
            elif s.eat('\\ln '): o += ' ln '
            elif s.eat('\\times10^{'):
                o += 'e' + s.s[s.p:s.s.index('}', s.p)]; s.p = s.s.index('}', s.p) + 1; sup = True
            elif s.eat('\\times '): o += '*'
            elif s.s[s.p].isalnum() or s.s[s.p] in '+-=,: *()./': o += s.s[s.p]; s.p += 1
            else: raise ValueError('unexpected ' + s.s[s.p:s.p + 8])
        return o
    @staticmethod
    def plain(t):
        l = Latex(t); o = l.run('')
        if l.p != len(t): raise ValueError('stopped early')
        return o
def g_text(r):
    t = ftree(r, r.choice([1, 2, 3, 3, 4, 5, 6])); s = text(t, r); desc(s)
    e = Expr(s); ok = False
    if r.random() < .4: e = simplify(e)
    forms = [('str', Expr(str(e))), ('repr', eval(repr(e), {'Expr': Expr}))]
    for n, f in forms:
        if 'inf' in str(e) or 'nan' in str(e): return False
        if '-' in str(e):      # a negative number and a negation print alike
            env = point(r)
            try: a, b = at(f, env, r), at(e, env, r)
            except ZeroDivisionError: continue
            if isnum(a) and isnum(b) and math.isfinite(b) and good(ev(t, env)): check(abs(a - b) <= 1e-9 * max(1, abs(b)), 'printed form', '%s of %s is %s, which reads back as %r instead of %r' % (n, s, f, a, b))
            continue
        check(f == e and e == f and not (f != e) and hash(f) == hash(e), 'printed form', '%s of %s is %s, which reads back as something else' % (n, s, f))
    check(repr(e) == "Expr('%s')" % e, 'printed form', repr(e))
    try: pl = Latex.plain(e.latex())
    except (ValueError, IndexError) as x: fail('latex', '%s in %s for %s' % (x, e.latex(), s))
    l = Expr(pl)
    if '-' not in str(e): check(e.debug_form().startswith("Expr('") and e.debug_form() == Expr(str(e)).debug_form(), 'debug form', e.debug_form())
    for _ in range(2):
        env = point(r)
        ok |= compare('text', e, t, env, r, s)
        compare('latex', l, t, env, r, 'LaTeX %s of %s' % (e.latex(), s))
        compare('simplify', simplify(e), t, env, r, s)
    o = ftree(r, 2); so = text(o, r); eo = Expr(so)
    if str(eo) != str(e): check(not (eo == e) and eo != e, 'comparison', '%s == %s' % (so, s))
    d = {e: 1}; d[Expr(str(e)) if '-' not in str(e) else e] = 2; check(len(d) == 1 and d[e] == 2, 'hashing', s)
    n = num(r); en = Expr(n)
    check(en.to_python() == float(n) and isinstance(en.to_python(), float), 'number', repr(n)); check(en == n and n == en and hash(en) == hash(Expr(str(en))), 'number comparison', repr(n))
    check(float(str(en)) == float(n), 'number printed', '%r prints %s' % (n, en)); count('numbers')
    return ok
# --- containers -----------------------------------------------------------------
def cont(r, n):
    k = r.random()
    if n <= 0 or k < .3: return float(num(r)) if r.random() < .6 else r.choice(NAMES)
    if k < .7: return [cont(r, n - 1) for _ in range(r.randint(0, 4))]
    return [('d', dict((kk, cont(r, n - 1)) for kk in r.sample([1., 2.5, -3., 'x', 'y', 'z', 'k'] if r.random() < .4 else ['x', 'y', 'z', 'k'], r.randint(0, 4))))]
def wname(i):
    s = ''
    while True:
        s += chr(97 + i % 26); i //= 26
        if not i: return s + 'q'
def wide(r):
    "a long list or a dictionary of many entries"
    n = r.choice([16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 200, 256, 257, 300]) + r.choice([0, 0, 1, -1]); leaf = lambda: float(num(r)) if r.random() < .6 else r.choice(NAMES)
    if r.random() < .6: return [leaf() for _ in range(n)]
    k = [wname(i) if r.random() < .8 else float(i) for i in range(n)]; r.shuffle(k)
    return [('d', {q: leaf() for q in k})]
def isd(c): return isinstance(c, list) and len(c) == 1 and isinstance(c[0], tuple)
def leafx(c): return c if isinstance(c, float) else Expr(c)
def conv(c, r):
    if isd(c): return Expr({(leafx(k) if not (isinstance(k, float) and r.random() < .5) else Expr(k)): conv(v, r) for k, v in c[0][1].items()})
    if isinstance(c, list): return Expr([conv(v, r) for v in c])
    return leafx(c) if r.random() < .7 or isinstance(c, str) else Expr(c)
def want(c):
    if isd(c): return {leafx(k): want(v) for k, v in c[0][1].items()}
    if isinstance(c, list): return [want(v) for v in c]
    return leafx(c)
def textc(c):
    if isd(c): return '{' + ','.join(('%s:%s' % (textc(k), textc(v))) for k, v in c[0][1].items()) + '}'
    if isinstance(c, list): return '[' + ', '.join(textc(v) for v in c) + ']'
    return repr(c) if isinstance(c, float) and c >= 0 else '(%r)' % c if isinstance(c, float) else c
def same(a, b):
    if type(a) != type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    return a == b
def subst(c, env):
    if isd(c): return [('d', {k: subst(v, env) for k, v in c[0][1].items()})]
    if isinstance(c, list): return [subst(v, env) for v in c]
    return env.get(c, c)
def g_containers(r):
    c = wide(r) if r.random() < .04 else [cont(r, 3) for _ in range(r.randint(0, 4))] if r.random() < .5 else [('d', {'p': cont(r, 3), 'q': cont(r, 2), r.choice([2., 'r']): cont(r, 1)})]
    desc(textc(c)); e = conv(c, r); w = want(c)
    got = e.to_python(); check(same(got, w), 'container', '%s converts back to %s' % (w, got))
    e2 = conv(c, r); check(e == e2 and hash(e) == hash(e2), 'container equality', '%s %s' % (e, e2))
    if not numkey(c):        # text can only name dictionary keys
        t = Expr(textc(c))
        if '(-' not in textc(c): check(t == e and hash(t) == hash(e), 'container text', '%s is not %s' % (t, e))
        check(same(simplify(t).to_python(), w), 'container text', '%s converts to %s' % (textc(c), t.to_python())); b = Expr(str(e))
        check(same(b.to_python(), w), 'container printed', '%s prints as %s' % (w, e)); count('container_texts')
    env = {n: float(num(r)) for n in r.sample(NAMES, 2)}
    if not keyed(c, env):
        s = sub(e, {Expr(k): v for k, v in env.items()}); s = s if not isinstance(s, Expr) else s.to_python(); w2 = want(subst(c, env)); check(same(s, w2), 'container substitution', '%s with %s is %s expected %s' % (e, env, s, w2)); count('container_substitutions')
    if r.random() < .03:  # many variables at once
        n = r.randint(9, 150); vs = [wname(i) for i in range(n)]; perm = vs[:]; r.shuffle(perm); l = [r.choice(vs) for _ in range(r.randint(9, 200))]; to = dict(zip(vs, perm)) if r.random() < .5 else {v: float(r.randint(-9, 9)) for v in vs}
        keys = vs[:]; r.shuffle(keys); s = sub(Expr([Expr(v) for v in l]), {Expr(v): Expr(to[v]) for v in keys}); s = s if not isinstance(s, Expr) else s.to_python()
        w3 = [leafx(to[v]) for v in l]; check(same(s, w3), 'container substitution', '%d variables at once: %s gives %s expected %s' % (n, l, s, w3)); count('wide_substitutions')
    if not isd(c):
        a = [float(r.randint(-50, 50)) for _ in range(r.randint(1, 6) if r.random() < .95 else r.randint(7, 300))]; b = [float(r.randint(-50, 50)) for _ in a]; k = r.choice([2, -3, .5])
        A, B = Expr(a), Expr(b)
        for n, g, x in (('+', A + B, [p + q for p, q in zip(a, b)]), ('-', A - B, [p - q for p, q in zip(a, b)]), ('*', A * k, [p * k for p in a]), ('reflected *', k * A, [k * p for p in a])):
            check(same(g, x) or (n == '*' or n == 'reflected *') and [float(q) for q in g] == x, 'list arithmetic', '%s %s %s gives %s' % (a, n, b if n in '+-' else k, g))
        count('list_operations', 4)
    return True
def numkey(c):
    if isd(c): return any(isinstance(k, float) or numkey(v) for k, v in c[0][1].items())
    return isinstance(c, list) and any(map(numkey, c))
def keyed(c, env):
    if isd(c): return any(k in env for k in c[0][1]) or any(keyed(v, env) for v in c[0][1].values())
    return isinstance(c, list) and any(keyed(v, env) for v in c)
# --- histories ------------------------------------------------------------------
def g_history(r):
    "a pool of objects with their meaning; lifetimes end in any order"
    pool = []; n = 0; held = []
    for step in range(120):
        k = r.random()
        if k < .25 or len(pool) < 3:
            t = otree(r, r.choice([0, 1, 2])); log = []; e = run(t, r, log)
            if isnum(e): e = Expr(e)
            new = (e, t)
        elif k < .6:
            a, b = r.choice(pool), r.choice(pool); o = r.choice('++--*/')
            if size(a[1]) + size(b[1]) > 40: continue
            e = a[0] + b[0] if o == '+' else a[0] - b[0] if o == '-' else a[0] * b[0] if o == '*' else a[0] / b[0]
            new = (e if isinstance(e, Expr) else Expr(e), T(o, (a[1], b[1])))
        elif k < .7: a = r.choice(pool); new = (simplify(a[0]), a[1])
        elif k < .76: a = r.choice(pool); new = (Expr(str(a[0])), a[1])
        elif k < .82: a = r.choice(pool); l = Expr([a[0], 1, a[0]]); held.append(l); new = (l.to_python()[r.choice([0, 2])], a[1]); new = (new[0] if isinstance(new[0], Expr) else Expr(new[0]), a[1])
        elif k < .88: a = r.choice(pool); d = {a[0]: a[0]}; q = next(iter(d)); d.clear(); new = (q, a[1])
        else:
            del pool[r.randrange(len(pool))]
            if held and r.random() < .5: held.pop(r.randrange(len(held)))
            if r.random() < .1: gc.collect()
            continue
        pool.append(new + (str(new[0]), hash(new[0]))); n += 1
        if len(pool) > 25: del pool[r.randrange(len(pool))]
        a = r.choice(pool); check(str(a[0]) == a[2] and hash(a[0]) == a[3], 'changed', 'an expression changed from %s to %s' % (a[2], a[0]))
    for e, t, s, h in pool:
        check(str(e) == s and hash(e) == h, 'changed', 'an expression changed from %s to %s' % (s, e))
        for _ in range(2): compare('history', e, t, point(r), r, s)
    count('objects', n); return True
def g_errors(r):
    e = [Expr('x'), Expr('x+y*2'), Expr(3), Expr([1, Expr('x')]), Expr({1: 2})]; x = r.choice(e); s = str(x), hash(x)
    bad = [lambda: Expr('1+'), lambda: Expr(''), lambda: Expr('(x'), lambda: Expr('x)'), lambda: Expr('[1,'), lambda: Expr('{a:}'), lambda: Expr('a b'), lambda: Expr('$'), lambda: Expr('1.2.3.'), lambda: Expr(None), lambda: Expr(object()), lambda: Expr({'a': 1}), lambda: Expr(['a']), lambda: Expr([None]), lambda: Expr([[1]]), lambda: Expr({1: [2]}), lambda: Expr({1: None}), lambda: Expr(),
           lambda: x + 'a', lambda: 'a' + x, lambda: x - None, lambda: None * x, lambda: x / [1], lambda: x == 'x', lambda: x == None, lambda: derivative(x, 1), lambda: derivative(x, Expr('x+y')), lambda: derivative('x', x), lambda: sub(x, 3), lambda: sub(x, {'x': 1}), lambda: sub(x, {Expr('x'): None}), lambda: sub(x, [1]), lambda: sub(x), lambda: simplify('x'), lambda: simplify(), lambda: Expr({Expr([1]): 2}).to_python(), lambda: x.equal('x'), lambda: Expr('x' * r.randint(1, 50) + '('), lambda: Expr('(' * r.randint(1, 60)), lambda: Expr(''.join(r.choice('+*/^-,:]})') for _ in range(r.randint(1, 6))))]
    i = r.randrange(len(bad)); desc('erroneous call %d' % i)
    for _ in range(2):
        try: v = bad[i]()
        except Exception as ex: check(len(str(ex)) > 0, 'error', 'an exception without a message'); count('exceptions:' + type(ex).__name__)
        else: fail('no error', 'erroneous call %d returned %r' % (i, v))
    check((str(x), hash(x)) == s and Expr('x') + 1 == Expr('x+1') and simplify(Expr('1+1')) == 2, 'state after an error', str(x))
    return True
def work(s, shared, out, i):
    try:
        r = random.Random(s); o = []
        for _ in range(30):
            a, b = r.choice(shared), r.choice(shared)
            k = r.randrange(7)
            v = a + b if k == 0 else a * b if k == 1 else b - a if k == 2 else simplify(a) if k == 3 else derivative(a, Expr('x')) if k == 4 else sub(a, {Expr('x'): 2, Expr('y'): b}) if k == 5 else Expr([a, b])
            o.append(str(v)); o.append(str(a == b)); o.append(str(hash(a)))
        out[i] = o
    except Exception as ex: out[i] = ['exception ' + str(ex)]
def g_threads(r):
    shared = [Expr(text(ftree(r, 3), r)) for _ in range(8)]; ss = [r.random() for _ in range(4)]; desc('threads over ' + '; '.join(map(str, shared)))
    ref, out = [None] * 4, [None] * 4
    for i in range(4): work(ss[i], shared, ref, i)
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    th = [threading.Thread(target=work, args=(ss[i], shared, out, i)) for i in range(4)]
    for t in th: t.start()
    for t in th: t.join()
    sys.setswitchinterval(old)
    for i in range(4):
        check(ref[i] == out[i], 'threads', 'thread %d saw %s instead of %s' % (i, next((p for p, q in zip(out[i], ref[i]) if p != q), len(out[i])), next((q for p, q in zip(out[i], ref[i]) if p != q), len(ref[i]))))
    count('thread_operations', 120); return True
LEAKOPS = ['Expr("x+y*sin(x)/2")', 'Expr(3)', 'Expr(2.5)', 'Expr([1,2,x,y])', 'Expr({x:1,2:y})', 'x+y', '1+x', 'x-2.5', '3-x', 'x*y', '4*x', 'x/y', '1/x', 'x==y', 'x!=y', 'hash(e)', 'str(e)', 'repr(e)', 'e.latex()', 'e.debug_form()', 'e.simplify()', 'simplify(e)', 'derivative(e,x)', 'sub(e,{x:1,y:2})', 'sub(e,{x:1})', 'sub(e,Expr({x:y}))', 'sub(e,x.equal(3))', 'e.to_python()', 'l.to_python()', 'd.to_python()', 'l+l', 'l*2', 'Expr("1+")', 'Expr([None])', 'sub(x,3)', 'derivative(x,1)', 'x+"a"', 'sub(l,{x:2})', 'derivative(l,x)', '{x:1}[Expr("x")]']
try: _alloc = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; _alloc.restype = ctypes.c_size_t
except AttributeError: _alloc = None
def g_leaks(r, idx=0):
    s = LEAKOPS[idx % len(LEAKOPS)]; desc(s); x, y = Expr('x'), Expr('y'); env = dict(Expr=Expr, derivative=derivative, simplify=simplify, sub=sub, x=x, y=y, e=Expr('x^2*y+sin(x)/(x+y)'), l=Expr([1, x, x * x]), d=Expr({x: 1, y: x}))
    c = compile(s, 's', 'eval')
    def go(n):
        for _ in range(n):
            try: eval(c, env)
            except Exception: pass
    if not _alloc: count('leaks_not_measured'); return False
    def left(n):
        gc.collect(); a = _alloc(); go(n); gc.collect(); return _alloc() - a
    go(60); best = None
    for _ in range(6):
        b = left(100); best = b if best is None else min(best, b)
        if best < 100 * 16: break
    if best >= 100 * 16: # the interpreter's own caches may grow, but not in proportion to the repetitions
        n = 3000
        for _ in range(5):
            b = left(n); best = b * 100 // n
            if b < n * 16: break
    count('leak_operations', 460)
    check(best < 100 * 16, 'leak', '%s: 100 repetitions leave %d more bytes allocated' % (s, best)); return True
FN = dict(operators=g_operators, text=g_text, containers=g_containers, history=g_history, errors=g_errors, threads=g_threads, leaks=g_leaks)
cur = [0, 0]
def desc(s):
    global lastdesc
    lastdesc = s
    if st:
        st.seek(0); st.write(struct.pack('i4xqi', cur[0], cur[1], 0) + s.encode('utf-8', 'replace')[:8000] + b'\0')
lastdesc = ''
def case(gi, idx):
    g = GROUPS[gi]; cur[:] = [gi, idx]; desc('')
    r = random.Random('c21 %d %s %d' % (seed, g, idx))
    res['evaluations'] += 1; count('cases:' + g)
    try:
        nt = FN[g](r, idx) if g == 'leaks' else FN[g](r)
        if nt:
            h = '%x' % zlib.crc32((g + lastdesc + str(idx if g == 'history' else '')).encode())
            if h not in seen: seen.add(h); res['distinct'].append(h)
        if len(res['samples']) < 2 * (gi + 1) and lastdesc: res['samples'].append('%s#%d %s' % (g, idx, lastdesc[:300]))
    except Fail as f:
        if len(res['violations']) < 30: res['violations'].append(dict(key=f.args[0], group=g, idx=idx, detail='input: %s\n%s' % (lastdesc[:1500], f.args[1][:3000])))
    except (RuntimeError, TypeError, ZeroDivisionError, OverflowError, ValueError, KeyError, AttributeError) as x:
        import traceback
        if len(res['violations']) < 30: res['violations'].append(dict(key='exception', group=g, idx=idx, detail='input: %s\nunexpected %s: %s\n%s' % (lastdesc[:1500], type(x).__name__, str(x)[:800], traceback.format_exc()[-1500:])))
if '--replay' in arg:
    case(GROUPS.index(arg['--group']), int(arg['--replay'])); print(json.dumps(res['violations'], indent=1)); sys.exit(3 if res['violations'] else 0)
for gi, g in enumerate(GROUPS):
    if arg.get('--group', g) != g: continue
    n = max(1, int(COUNTS[g][tier == 'thorough'] * scale))
    for i in range(n):
        if i % nsh == shard: case(gi, i)
if '--out' in arg: json.dump(res, open(arg['--out'], 'w'))
else: print(json.dumps(res, indent=1)[-3000:])
sys.stdout.flush(); os._exit(3 if res['violations'] else 0)
