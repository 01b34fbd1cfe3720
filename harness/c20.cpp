// C20: units and uncertainties are carried through calculations
#include "lib.hpp"
#include "model.hpp"
#include <stator/symbolic/units.hpp>
#include <stator/symbolic/uncertainty.hpp>
using namespace sym; using namespace vf;

// A quantity v{u} is read as v * u^kappa: products, quotients and sums of
// equal units are then arithmetic, and dropping, repeating or exchanging parts shows.
static EV keval(const P& n, const Env& env) {
  switch (n->k) {
    case UNITS: { EV u = keval(n->ch[1], env); if (!u.ok || u.v <= 0) return EV(); return op2(MUL, keval(n->ch[0], env), op2(POW, u, mk(1.6180339887498948L, 0))); }
    case UNC: { EV a = keval(n->ch[0], env), b = keval(n->ch[1], env); if (!a.ok || !b.ok) return EV(); return op2(ADD, a, op2(MUL, mk(0.7390851332L, 0), b)); }
    case ADD: case SUB: case MUL: case DIV: case POW: return op2(n->k, keval(n->ch[0], env), keval(n->ch[1], env));
    case NEG: case SIN: case COS: case EXP: case LN: case ABS: return op1(n->k, keval(n->ch[0], env));
    default: return eval(n, env);
  }
}
static bool has(const P& n, K k) { if (n->k == k) return true; for (auto& c : n->ch) if (has(c, k)) return true; return false; }
static const std::vector<std::string> VN{"x", "y", "a"}, UN{"m", "s", "kg", "x"};
static P monomial(Rng& r, int d = 2) {
  if (d == 0 || r.chance(2, 5)) return r.chance(1, 9) ? num((double)r.range(1, 3)) : var(r.pick(UN));
  switch (r.below(4)) { case 0: case 1: return bin(MUL, monomial(r, d - 1), monomial(r, d - 1)); case 2: return bin(DIV, monomial(r, d - 1), monomial(r, d - 1)); default: return bin(POW, monomial(r, d - 1), num(r.pick(std::vector<double>{1, 2, 3, -1, 0.5, -2}))); }
}
static P plain(Rng& r) { GenOpt o; o.vars = VN; switch (r.below(6)) { case 0: return var(r.pick(VN)); case 1: return gen(r, 1 + r.below(2), o); case 2: return num(1); default: { double v = 0; while (v == 0) v = gennum(r, o); return num(v); } } }
static P quantity(Rng& r) { P v = plain(r); if (r.chance(1, 8)) v = bin(UNITS, v, monomial(r, 1)); if (r.chance(1, 10)) v = bin(UNC, v, num(r.range(1, 9) / 8.0)); return bin(UNITS, v, monomial(r)); }
static bool quant(const P& n) { if (n->k == UNITS) return true; if (n->k == MUL || n->k == DIV) return quant(n->ch[0]) || quant(n->ch[1]); return false; }
static P product(Rng& r, int n) {
  if (n <= 1) return r.chance(3, 5) ? quantity(r) : plain(r);
  int k = 1 + (int)r.below(n - 1); P a = product(r, k), b = product(r, n - k);
  if (quant(a) && quant(b) && r.chance(1, 3)) return bin(DIV, a, b);
  return bin(MUL, a, b);
}
static Env positive(Rng& r, const std::set<std::string>& vs) { Env e; bool ints = r.chance(1, 4); for (auto& v : vs) e[v] = ints ? (double)r.range(2, 7) : r.real(0.3, 2.7); return e; }
static int compare(Case& c, const P& t, const P& r, const std::string& key, const std::string& what) {
  std::set<std::string> vs, v1; vars(t, vs); vars(r, v1); int used = 0;
  for (auto& v : v1) c.check(vs.count(v), "new-variable", what + " mentions " + v);
  for (int k = 0; k < 4; ++k) {
    Env env = positive(c.rng, vs); EV a = keval(t, env); if (!wellcond(a)) { c.count("assignments_skipped"); continue; }
    EV b = keval(r, env); ++used;
    c.check(agrees(a, b), key, what + ": " + text(r) + "\nat " + envtext(env) + "is " + str(b.v) + " expected " + str(a.v));
  }
  c.count("assignments_compared", used); return used;
}
// the units part of an expression, by evaluating it with every value one
static EV unitpart(const P& n, const Env& env) {
  switch (n->k) {
    case UNITS: { EV u = keval(n->ch[1], env); if (!u.ok) return u; return op2(MUL, unitpart(n->ch[0], env), u); }
    case MUL: case DIV: return op2(n->k, unitpart(n->ch[0], env), unitpart(n->ch[1], env));
    case NEG: return unitpart(n->ch[0], env);
    default: return mk(1, 0);
  }
}
static EV valuepart(const P& n, const Env& env) {
  switch (n->k) { case UNITS: return valuepart(n->ch[0], env); case MUL: case DIV: return op2(n->k, valuepart(n->ch[0], env), valuepart(n->ch[1], env)); case NEG: return op1(NEG, valuepart(n->ch[0], env)); default: return keval(n, env); }
}
static bool nested(const P& n) { if (n->k == UNITS) return has(n->ch[0], UNITS) || has(n->ch[1], UNITS); for (auto& c : n->ch) if (nested(c)) return true; return false; }
// negative factors move out of a product as a sign, and units of one disappear
static bool simple(const P& n) { if (n->k == NEG || n->k == SUB || (n->k == NUM && n->num < 0)) return false; if (n->k == UNITS) { std::set<std::string> v; vars(n->ch[1], v); if (v.empty()) return false; } for (auto& c : n->ch) if (!simple(c)) return false; return true; }
static bool finite(const P& n) { if (n->k == NUM) return std::isfinite(n->num); for (auto& c : n->ch) if (!finite(c)) return false; return true; }
// a finished product of quantities is one quantity
static void single(Case& c, const P& t, const P& r, const std::string& what) {
  std::set<std::string> vs; vars(t, vs); int used = 0; bool unity = true, zero = false;
  for (int k = 0; k < 3; ++k) {
    Env env = positive(c.rng, vs); EV u = unitpart(t, env), v = valuepart(t, env), ru = unitpart(r, env), rv = valuepart(r, env);
    if (!wellcond(u) || !wellcond(v)) continue; if (fabsl(v.v) < 1e-9L) { zero = true; continue; } ++used; if (fabsl(u.v - 1) > 1e-9L) unity = false;
    c.check(agrees(u, ru), "unit-part", what + ": " + text(r) + " has the units of " + str(ru.v) + " expected " + str(u.v) + " at " + envtext(env));
    c.check(agrees(v, rv), "value-part", what + ": " + text(r) + " has the value " + str(rv.v) + " expected " + str(v.v) + " at " + envtext(env));
  }
  if (!used) return; c.count("products_compared");
  if (!unity && !nested(t) && simple(t) && !zero) { P q = r; while (q->k == NEG) q = q->ch[0]; c.check(q->k == UNITS && !has(q->ch[0], UNITS), "not-one-quantity", what + ": " + text(r)); c.count("single_quantities"); }
}
static void substitute(Case& c, const P& t, const Expr& e, const std::string& what) {
  Rng& r = c.rng; std::set<std::string> vs; vars(t, vs); if (vs.empty()) return; std::map<std::string, P> m; auto d = DictRT::create();
  for (auto& v : vs) if (r.chance(1, 2)) { P w = r.chance(1, 2) ? num((double)r.range(1, 5)) : r.chance(1, 2) ? var(r.pick(UN)) : bin(MUL, var(r.pick(UN)), num(2)); m[v] = w; (*d)[Expr(VarRT::create(v))] = build(w); }
  P want = subst(t, m); std::string w = what + " substituted"; for (auto& p : m) w += " " + p.first + "=" + text(p.second);
  P got = read(sub(e, Expr(d))); compare(c, want, got, "substitution", w);
  compare(c, want, read(simplify(sub(e, Expr(d)))), "substitution", w + " and simplified"); c.count("substitutions");
}
int main(int ac, char** av) {
  Harness h("C20");
  h.add("products", 12000, 300000, [](Case& c) {
    Rng& r = c.rng; P t = product(r, 2 + (int)r.below(5)); c.desc(text(t)); int how = (int)r.below(3);
    Expr e = how == 0 ? build(t) : how == 1 ? buildops(t) : Expr(sym::repr(build(t)));
    Expr s = simplify(e), s2 = simplify(s); P p = read(s), p2 = read(s2), p3 = read(simplify(s2));
    int used = compare(c, t, p, "value", "simplified") + compare(c, t, p2, "value", "simplified twice"); compare(c, t, read(e), "value", "as built");
    if (finite(read(s))) compare(c, t, read(rawparse(sym::repr(s))), "printed", "printed as " + sym::repr(s));
    if (quant(t)) single(c, t, p3, "simplified to the end");
    substitute(c, t, e, "original"); substitute(c, t, s, "simplified");
    if (used && quant(t)) c.nontrivial();
  });
  h.add("identities", 6000, 120000, [](Case& c) {
    Rng& r = c.rng; P q = r.chance(1, 3) ? product(r, 2) : quantity(r); P t = q; int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) { P z = num(0), o = num(1); switch (r.below(7)) { case 0: t = bin(ADD, t, z); break; case 1: t = bin(ADD, z, t); break; case 2: t = bin(SUB, t, z); break; case 3: t = bin(MUL, t, o); break; case 4: t = bin(MUL, o, t); break; case 5: t = bin(DIV, t, o); break; default: t = bin(UNITS, t, o); } }
    c.desc(text(t)); Expr a = r.chance(1, 2) ? build(t) : buildops(t); Expr e = simplify(simplify(simplify(a))), f = simplify(simplify(simplify(build(q))));
    int used = compare(c, q, read(e), "value", "simplified");
    if (finite(read(e))) c.check(e == f, "identity", text(t) + " gives " + sym::repr(e) + " but " + text(q) + " gives " + sym::repr(f));
    if (used) c.nontrivial();
  });
  h.add("mixed", 10000, 250000, [](Case& c) {
    Rng& r = c.rng; std::function<P(int)> mk = [&](int d) -> P {
      if (d <= 0) return r.chance(1, 2) ? quantity(r) : r.chance(1, 4) ? bin(UNC, plain(r), r.chance(1, 3) ? num(0) : plain(r)) : plain(r);
      switch (r.below(13)) {
        case 0: case 1: return bin(ADD, mk(d - 1), mk(d - 1)); case 2: return bin(SUB, mk(d - 1), mk(d - 1)); case 3: case 4: return bin(MUL, mk(d - 1), mk(d - 1)); case 5: return bin(DIV, mk(d - 1), mk(d - 1));
        case 6: return bin(POW, mk(d - 1), num((double)r.range(0, 3))); case 7: return un(NEG, mk(d - 1)); case 8: return bin(UNITS, mk(d - 1), monomial(r)); case 9: return bin(UNC, mk(d - 1), mk(d - 2)); case 10: return bin(MUL, num((double)r.range(0, 2)), mk(d - 1));
        case 11: { static const K F[] = {SIN, COS, EXP, LN}; return un(r.pick(F), mk(d - 1)); }
        default: { P u = monomial(r); static const K B[] = {ADD, SUB, MUL, DIV}; return bin(r.pick(B), bin(UNITS, mk(d - 1), u), bin(UNITS, mk(d - 1), u)); }
      } };
    P t = mk(1 + (int)r.below(3)); c.desc(text(t)); Expr e = r.chance(1, 2) ? build(t) : buildops(t); Expr s = simplify(e), s2 = simplify(s);
    int used = compare(c, t, read(s), "value", "simplified") + compare(c, t, read(s2), "value", "simplified twice");
    if (finite(read(s))) compare(c, t, read(rawparse(sym::repr(s))), "printed", "printed as " + sym::repr(s));
    substitute(c, t, e, "original"); if (used && (has(t, UNITS) || has(t, UNC))) c.nontrivial();
  });
  h.add("uncertain", 8000, 200000, [](Case& c) {
    // value and uncertainty, in that order, as text and as tree
    Rng& r = c.rng; GenOpt o; o.vars = VN; double v = std::fabs(gennum(r, o)), u = std::fabs(gennum(r, o)); if (r.chance(1, 4)) { v = std::ldexp(r.unit(), (int)r.range(-60, 60)); u = std::ldexp(r.unit(), (int)r.range(-60, 60)); }
    std::string V = sym::repr(v), UU = sym::repr(u), sp = r.chance(1, 2) ? " " : ""; std::string txt = V + sp + "±" + sp + UU; P want = bin(UNC, num(v), num(u)); P w = want;
    switch (r.below(9)) {
      case 0: txt = "2*" + txt; w = bin(MUL, num(2), want); break;
      case 1: txt = txt + "^2"; w = bin(POW, want, num(2)); break;
      case 2: txt = txt + "{m/s}"; w = bin(UNITS, want, bin(DIV, var("m"), var("s"))); break;
      case 3: txt = "(x+" + V + ")" + sp + "±" + sp + UU; w = bin(UNC, bin(ADD, var("x"), num(v)), num(u)); break;
      case 4: txt = txt + "±(" + V + "±" + UU + ")"; w = bin(UNC, want, want); break;
      case 5: txt = "x + " + txt + " - y"; w = bin(SUB, bin(ADD, var("x"), want), var("y")); break;
      case 6: txt = "[" + txt + "," + V + "]"; w = arr({want, num(v)}); break;
      case 7: txt = "sin " + std::string("(") + txt + ")"; w = un(SIN, want); break;
      default: break;
    }
    c.desc(txt); Expr raw = rawparse(txt), e(txt); std::string again = sym::repr(raw);
    c.check(same(read(raw), w), "uncertain-parse", txt + " read as " + text(read(raw)));
    c.check(same(read(rawparse(again)), w), "uncertain-print", txt + " printed as " + again);
    if (w->k == UNC && w->ch[0]->k == NUM && u != 0) { P p = read(e); c.check(same(p, want), "uncertain-simplified", txt + " simplified to " + text(p)); Expr k = buildops(want); c.check(k == e, "uncertain-built", sym::repr(k)); }
    if (!has(w, ARR)) compare(c, w, read(e), "value", "constructed"); c.nontrivial();
  });
  h.add("arrays", 4000, 80000, [](Case& c) {
    Rng& r = c.rng; int n = 1 + (int)r.below(3); std::vector<P> a, b; for (int i = 0; i < n; ++i) { a.push_back(r.chance(1, 2) ? plain(r) : quantity(r)); b.push_back(r.chance(1, 2) ? plain(r) : quantity(r)); }
    P t; std::vector<P> w; P q = quantity(r), one = num(2); int k = (int)r.below(3);
    if (k == 0) { t = bin(MUL, arr(a), arr(b)); for (int i = 0; i < n; ++i) w.push_back(bin(MUL, a[i], b[i])); }
    else if (k == 1) { t = bin(MUL, arr(a), one); for (int i = 0; i < n; ++i) w.push_back(bin(MUL, a[i], one)); }
    else { t = bin(ADD, arr(a), arr(b)); for (int i = 0; i < n; ++i) w.push_back(bin(ADD, a[i], b[i])); }
    c.desc(text(t)); P p = read(simplify(buildops(t))); c.check(p->k == ARR && p->ch.size() == w.size(), "array-shape", text(p)); int used = 0;
    for (int i = 0; i < n; ++i) used += compare(c, w[i], p->ch[i], "array-element", "element " + str(i)); if (used) c.nontrivial();
  });
  h.add("compile-time", 4000, 80000, [](Case& c) {
    static constexpr char ms[] = "m", ss[] = "s", xs[] = "x", ys[] = "y"; static Var<ms> m; static Var<ss> s; static Var<xs> x; static Var<ys> y; P M = var("m"), S = var("s"), X = var("x"), Y = var("y");
    Rng& r = c.rng; double a = r.range(1, 40) / 8.0, b = r.range(-40, -1) / 8.0, d = (double)r.range(2, 5); P A = num(a), B = num(b), D = num(d); P t; Expr e; auto U = [](P v, P u) { return bin(UNITS, v, u); };
    switch (r.below(14)) {
      case 0: e = units(a, m) * units(b, s); t = bin(MUL, U(A, M), U(B, S)); break;
      case 1: e = units(a, m * m) / units(b, s); t = bin(DIV, U(A, bin(MUL, M, M)), U(B, S)); break;
      case 2: e = a * units(b, m / s); t = bin(MUL, A, U(B, bin(DIV, M, S))); break;
      case 3: e = units(a, m / s) * b; t = bin(MUL, U(A, bin(DIV, M, S)), B); break;
      case 4: e = x * units(y, m); t = bin(MUL, X, U(Y, M)); break;
      case 5: e = units(x + a, m) * (y - b); t = bin(MUL, U(bin(ADD, X, A), M), bin(SUB, Y, B)); break;
      case 6: e = units(x, m) * units(y, s) * units(a, m); t = bin(MUL, bin(MUL, U(X, M), U(Y, S)), U(A, M)); break;
      case 7: e = units(x, m) / (units(y, s) * d); t = bin(DIV, U(X, M), bin(MUL, U(Y, S), D)); break;
      case 8: e = units(a, m) + units(b, m); t = bin(ADD, U(A, M), U(B, M)); break;
      case 9: e = sub(units(x * a, m), x = d); t = U(bin(MUL, D, A), M); break;
      case 10: e = sub(units(x, m * s) * y, m = d); t = bin(MUL, U(X, bin(MUL, D, S)), Y); break;
      case 11: e = units(uncertainty(x, a), m); t = U(bin(UNC, X, A), M); break;
      case 12: e = uncertainty(units(a, m), units(-b, m)); t = bin(UNC, U(A, M), U(num(-b), M)); break;
      default: e = sub(uncertainty(x, y), x = a); t = bin(UNC, A, Y); break;
    }
    c.desc(text(t)); int used = compare(c, t, read(e), "compile-time", "as built"); used += compare(c, t, read(simplify(e)), "compile-time", "simplified");
    if (quant(t) && t->k != ADD) single(c, t, read(e), "as built"); if (used) c.nontrivial();
  });
  return h.main(ac, av);
}
