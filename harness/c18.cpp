// C18: arrays and dictionaries, element by element
#include "lib.hpp"
#include <stator/symbolic/array.hpp>
using namespace sym; using namespace vf;

// ------------------------------------------------ compile-time arrays
typedef std::vector<size_t> Dims;
static size_t prod(const Dims& d) { size_t s = d.empty() ? 0 : 1; for (size_t x : d) s *= x; return s; }
static size_t flat(const Dims& dims, const Dims& c) { size_t a = 0; for (size_t i = 0; i < dims.size(); ++i) a = a * dims[i] + c[i]; return a; }
template <class C> C coords(const Dims& d) { C c{}; if constexpr (std::is_same<C, std::vector<size_t>>::value) c.resize(d.size()); for (size_t i = 0; i < d.size(); ++i) c[i] = d[i]; return c; }
template <class A> decltype(auto) nested2(A& a, const Dims& c) { return a[c[0]][c[1]]; }
template <class A> decltype(auto) nested3(A& a, const Dims& c) { return a[c[0]][c[1]][c[2]]; }
template <class A> decltype(auto) nested4(A& a, const Dims& c) { return a[c[0]][c[1]][c[2]][c[3]]; }

template <class A, size_t D, size_t CAP> struct Grid {
  static double getn(A& a, const Dims& c) {
    if constexpr (D == 2) return nested2(a, c); else if constexpr (D == 3) return nested3(a, c); else if constexpr (D == 4) return nested4(a, c);
    else { if (c.size() == 1) return a[c[0]]; if (c.size() == 2) return a[c[0]][c[1]]; if (c.size() == 3) return a[c[0]][c[1]][c[2]]; return a[c[0]][c[1]][c[2]][c[3]]; }
  }
  static double getc(const A& a, const Dims& c) {
    if constexpr (D == 2) return nested2(a, c); else if constexpr (D == 3) return nested3(a, c); else if constexpr (D == 4) return nested4(a, c);
    else { if (c.size() == 1) return a[c[0]]; if (c.size() == 2) return a[c[0]][c[1]]; if (c.size() == 3) return a[c[0]][c[1]][c[2]]; return a[c[0]][c[1]][c[2]][c[3]]; }
  }
  static void setn(A& a, const Dims& c, double v) {
    if constexpr (D == 2) nested2(a, c) = v; else if constexpr (D == 3) nested3(a, c) = v; else if constexpr (D == 4) nested4(a, c) = v;
    else { if (c.size() == 1) a[c[0]] = v; else if (c.size() == 2) a[c[0]][c[1]] = v; else if (c.size() == 3) a[c[0]][c[1]][c[2]] = v; else a[c[0]][c[1]][c[2]][c[3]] = v; }
  }
  static Dims rdims(Rng& r) { size_t n = D ? D : 1 + r.below(4); for (;;) { Dims d; for (size_t i = 0; i < n; ++i) d.push_back(r.chance(1, 12) ? 0 : 1 + r.below(5)); if (!CAP || prod(d) <= CAP) return d; } }
  static Dims rcoord(Rng& r, const Dims& d) { Dims c; for (size_t x : d) c.push_back(r.below(x)); return c; }
  static void compare(Case& c, const A& a, const Dims& d, const std::vector<double>& m, const std::string& what) {
    A& b = const_cast<A&>(a);
    c.check(a.size() == m.size() && a.empty() == m.empty(), "array-size", what + ": size " + str(a.size()) + " expected " + str(m.size()));
    auto gd = a.getDimensions(); Dims g(gd.begin(), gd.end());
    c.check(g == d, "array-dimensions", what);
    std::vector<double> it(a.begin(), a.end()), it2(b.begin(), b.end());
    c.check(it == m && it2 == m, "array-iteration", what + ": visited " + str(it.size()) + " elements of " + str(m.size()) + ", or wrong ones");
    if (m.empty()) return;
    Dims q(d.size(), 0);
    for (size_t k = 0; k < m.size(); ++k) {
      c.check(a[coords<typename A::Coords>(q)] == m[k] && b[coords<typename A::Coords>(q)] == m[k] && getc(a, q) == m[k] && getn(b, q) == m[k], "array-index", what + ": element " + str(k) + " is " + str(getc(a, q)) + " expected " + str(m[k]));
      for (size_t i = d.size(); i-- > 0;) { if (++q[i] < d[i]) break; q[i] = 0; }
      c.count("elements_compared");
    }
    std::string s = "["; for (size_t k = 0; k < m.size(); ++k) s += (k ? ", " : "") + sym::repr(m[k]); s += "]";
    c.check(sym::repr(a) == s, "array-printed", what + ": printed " + sym::repr(a) + " expected " + s);
  }
  static void ops(Case& c, A& a, const Dims& d, const std::vector<double>& m) {
    Rng& r = c.rng;
    Dims d2 = d; bool mism = r.chance(1, 4);
    if (mism) { do d2 = rdims(r); while (d2 == d); }
    A b; b.resize(coords<typename A::Coords>(d2)); std::vector<double> mb;
    for (auto& x : b) { x = r.chance(1, 2) ? (double)r.range(1, 9) : r.real(0.1, 5); mb.push_back(x); }
    int op = (int)r.below(3); double k = (double)r.range(1, 9);
    auto f = [&](double x, double y) { return op == 0 ? x + y : op == 1 ? x - y : x / y; };
    bool threw = false; A res;
    try { res = op == 0 ? a + b : op == 1 ? a - b : a / b; } catch (stator::Exception&) { threw = true; }
    c.check(threw == (d != d2), "array-mismatch", "element-wise operation on shapes of " + str(prod(d)) + " and " + str(prod(d2)) + " elements " + (threw ? "was refused" : "was accepted"));
    if (!threw) { std::vector<double> e; for (size_t i = 0; i < m.size(); ++i) e.push_back(f(m[i], mb[i])); compare(c, res, d, e, std::string("result of ") + "+-/"[op]); c.count("array_array_ops"); }
    else c.count("mismatches_refused");
    A rs = op == 0 ? a + k : op == 1 ? a - k : a / k; std::vector<double> e; for (double x : m) e.push_back(f(x, k)); compare(c, rs, d, e, std::string("result with number of ") + "+-/"[op]); c.count("array_number_ops");
    compare(c, a, d, m, "operand afterwards"); compare(c, b, d2, mb, "right operand afterwards");
    A cp = a; c.check(std::hash<A>()(cp) == std::hash<A>()(a), "array-hash", "copy has another hash"); compare(c, cp, d, m, "copy");
  }
  static void run(Case& c) {
    Rng& r = c.rng; A a; Dims d; std::vector<double> m;
    if (D != 0 || CAP) { auto gd = a.getDimensions(); d.assign(gd.begin(), gd.end()); }
    c.check(a.size() == 0 && a.empty(), "array-size", "new array is not empty");
    std::string tr; size_t n = r.range(1, 12);
    for (size_t i = 0; i < n; ++i) switch (r.below(6)) {
      case 0: { d = rdims(r); a.resize(coords<typename A::Coords>(d)); m.clear(); for (auto& x : a) { x = (double)r.range(-50, 50); m.push_back(x); } tr += " resize" + str(d.size()) + ":" + str(prod(d)); c.desc(tr); compare(c, a, d, m, "after resize"); break; }
      case 1: case 2: { if (m.empty()) break; Dims q = rcoord(r, d); double v = r.real(-9, 9); m[flat(d, q)] = v; tr += " set@" + str(flat(d, q)); c.desc(tr); if (r.chance(1, 2)) setn(a, q, v); else a[coords<typename A::Coords>(q)] = v; compare(c, a, d, m, "after a write"); break; }
      case 3: { if (m.empty()) break; tr += " ops"; c.desc(tr); ops(c, a, d, m); break; }
      case 4: { // exceeding a fixed capacity
        if (!CAP) break; Dims e = rdims(r); if (e.empty()) break; for (auto& x : e) if (!x) x = 1; e[r.below(e.size())] = CAP + 1 + r.below(5); A t; bool threw = false;
        try { t.resize(coords<typename A::Coords>(e)); } catch (stator::Exception&) { threw = true; }
        c.check(threw, "array-capacity", "resizing to " + str(prod(e)) + " elements accepted with room for " + str(CAP)); c.count("capacity_refused"); break; }
      case 5: { if constexpr (D == 0) {
          if (d.size() > 1) { bool threw = false; try { a.push_back(1.0); } catch (stator::Exception&) { threw = true; } c.check(threw, "array-push", "push_back to a grid accepted"); compare(c, a, d, m, "after refused push_back"); break; }
          if (d.empty()) d.push_back(0); double v = (double)r.range(-9, 9); a.push_back(v); ++d[0]; m.push_back(v); tr += " push"; c.desc(tr); compare(c, a, d, m, "after push_back");
        } break; }
    }
    if constexpr (D == 0) if (m.size() && d.size() >= 2) { // incompletely specified addresses are refused
      bool t1 = false, t2 = false, t3 = false;
      try { a[0] = 1.0; } catch (stator::Exception&) { t1 = true; }
      try { volatile double v = (double)a[0]; (void)v; } catch (stator::Exception&) { t2 = true; }
      try { if (d.size() == 2) a[0][0][0] = 1.0; else if (d.size() == 3) a[0][0][0][0] = 1.0; else a[0][0][0][0][0] = 1.0; } catch (stator::Exception&) { t3 = true; }
      c.check(t1 && t2 && t3, "array-address", "incomplete or too long address accepted"); compare(c, a, d, m, "after refused addresses"); c.count("addresses_refused");
    }
    c.desc("array of dimension " + str(D) + " capacity " + str(CAP) + ":" + tr); c.nontrivial();
  }
};
template <class A, size_t CAP> struct Line {
  static void compare(Case& c, const A& a, const std::vector<double>& m, const std::string& what) {
    A& b = const_cast<A&>(a);
    c.check(a.size() == m.size() && a.empty() == m.empty() && a.getDimensions() == m.size(), "array-size", what + ": size " + str(a.size()) + " expected " + str(m.size()));
    std::vector<double> it(a.begin(), a.end()), it2(b.begin(), b.end()); c.check(it == m && it2 == m, "array-iteration", what + ": visited " + str(it.size()) + " elements of " + str(m.size()) + ", or wrong ones");
    for (size_t i = 0; i < m.size(); ++i) { c.check(a[i] == m[i] && b[i] == m[i], "array-index", what); c.count("elements_compared"); }
    std::string s = "["; for (size_t k = 0; k < m.size(); ++k) s += (k ? ", " : "") + sym::repr(m[k]); s += "]"; c.check(sym::repr(a) == s, "array-printed", what + ": printed " + sym::repr(a) + " expected " + s);
  }
  static void run(Case& c) {
    Rng& r = c.rng; A a; std::vector<double> m; std::string tr; compare(c, a, m, "new");
    if constexpr (CAP == 0) if (r.chance(1, 3)) { double x = (double)r.range(-9, 9), y = (double)r.range(-9, 9); a = A{x, y, x}; m = {x, y, x}; compare(c, a, m, "initialiser list"); }
    size_t n = r.range(1, 15);
    for (size_t i = 0; i < n; ++i) switch (r.below(5)) {
      case 0: { size_t s = r.below(CAP ? CAP + 4 : 12); bool threw = false; try { a.resize(s); } catch (stator::Exception&) { threw = true; }
        c.check(threw == (CAP && s > CAP), "array-capacity", "resize to " + str(s) + " with capacity " + str(CAP)); if (!threw) { size_t o = m.size(); m.resize(s); for (size_t k = 0; k < std::min(o, s); ++k) c.check(a[k] == m[k], "array-resize", "element lost by resize"); for (size_t k = o; k < s; ++k) a[k] = m[k] = (double)r.range(-9, 9); } else c.count("capacity_refused");
        tr += " resize" + str(s); c.desc(tr); compare(c, a, m, "after resize"); break; }
      case 1: { double v = r.real(-9, 9); bool threw = false; try { a.push_back(v); } catch (stator::Exception&) { threw = true; }
        c.check(threw == (CAP && m.size() == CAP), "array-capacity", "push_back at " + str(m.size()) + " of " + str(CAP)); if (!threw) m.push_back(v); tr += " push"; c.desc(tr); compare(c, a, m, "after push_back"); break; }
      case 2: if (m.size()) { size_t k = r.below(m.size()); m[k] = r.real(-9, 9); a[k] = m[k]; tr += " set"; compare(c, a, m, "after write"); } break;
      case 3: { A b; std::vector<double> mb; size_t s = r.chance(3, 4) ? m.size() : r.below(CAP ? CAP : 12); for (size_t k = 0; k < s; ++k) { mb.push_back((double)r.range(1, 9)); b.push_back(mb.back()); }
        int op = (int)r.below(3); auto f = [&](double x, double y) { return op == 0 ? x + y : op == 1 ? x - y : x / y; }; if (m.empty() || mb.empty()) break;
        bool threw = false; A res; try { res = op == 0 ? a + b : op == 1 ? a - b : a / b; } catch (stator::Exception&) { threw = true; }
        c.check(threw == (s != m.size()), "array-mismatch", "lengths " + str(m.size()) + " and " + str(s)); std::vector<double> e;
        if (!threw) { for (size_t k = 0; k < s; ++k) e.push_back(f(m[k], mb[k])); compare(c, res, e, "element-wise result"); }
        A rs = op == 0 ? a + 3.0 : op == 1 ? a - 3.0 : a / 3.0; e.clear(); for (double x : m) e.push_back(f(x, 3.0)); compare(c, rs, e, "result with a number"); tr += " op"; c.count("array_array_ops"); break; }
      case 4: { A b = a; c.check(b == a, "array-equal", "copy differs"); if (m.size()) { b[r.below(m.size())] += 1; c.check(!(b == a), "array-equal", "changed copy compares equal"); }
        A g; std::vector<double> junk; for (size_t k = 0; k < (CAP ? CAP : 5); ++k) g.push_back(7); g.resize(0); for (double x : m) g.push_back(x); c.check(g == a && std::hash<A>()(g) == std::hash<A>()(a), "array-equal", "array with the same elements but another history differs"); compare(c, g, m, "rebuilt"); break; }
    }
    c.desc("line of capacity " + str(CAP) + ":" + tr); c.nontrivial();
  }
};

// ------------------------------------------------ run-time arrays and dictionaries
static P scal(Rng& r, int d) {
  switch (d <= 0 ? r.below(2) : r.below(6)) { case 0: return num(r.chance(2, 3) ? (double)r.range(-9, 9) : r.real(-4, 4)); case 1: return var(r.chance(1, 3) ? "x" : r.chance(1, 2) ? "y" : "z");
    case 2: return bin(ADD, scal(r, d - 1), scal(r, d - 1)); case 3: return bin(MUL, scal(r, d - 1), scal(r, d - 1)); case 4: return bin(SUB, scal(r, d - 1), scal(r, d - 1)); default: return un(r.chance(1, 2) ? SIN : r.chance(1, 2) ? EXP : NEG, scal(r, d - 1)); }
}
static P pnum(Rng& r) { for (;;) { P p = num(r.chance(2, 3) ? (double)r.range(2, 9) : r.real(1.5, 4)); return r.chance(1, 4) ? num(-p->num) : p; } }
// an array-valued tree of the given shape (nested arrays: shape of sizes)
static P arrlit(Rng& r, const Dims& s, size_t l = 0) { std::vector<P> c; for (size_t i = 0; i < s[l]; ++i) c.push_back(l + 1 < s.size() ? arrlit(r, s, l + 1) : scal(r, 2)); return arr(c); }
static P arrtree(Rng& r, const Dims& s, int d) {
  if (d <= 0) return arrlit(r, s);
  switch (r.below(6)) {
    case 0: case 1: { K k = r.chance(1, 4) ? ADD : r.chance(1, 3) ? SUB : r.chance(1, 2) ? MUL : DIV; return bin(k, arrtree(r, s, d - 1), arrtree(r, s, d - 1)); }
    case 2: { K k = r.chance(1, 4) ? ADD : r.chance(1, 3) ? SUB : r.chance(1, 2) ? MUL : DIV; return bin(k, arrtree(r, s, d - 1), pnum(r)); }
    case 3: { K k = r.chance(1, 4) ? ADD : r.chance(1, 3) ? SUB : r.chance(1, 2) ? MUL : DIV; return r.chance(1, 4) ? un(NEG, arrtree(r, s, d - 1)) : bin(k, pnum(r), arrtree(r, s, d - 1)); }
    default: return arrlit(r, s);
  }
}
static bool allarr(const Val& v) { return !v.bad; }
static Env renv(Rng& r) { Env e; for (const char* n : {"x", "y", "z"}) e[n] = r.real(0.3, 3) * (r.chance(1, 3) ? -1 : 1); return e; }
static void cmpval(Case& c, const P& ref, const Expr& got, const char* what) {
  P g = read(got);
  for (int t = 0; t < 4; ++t) { Env e = renv(c.rng); Val a = veval(ref, e); if (!vusable(a)) continue; std::string d = vdiff(a, veval(g, e)); if (!d.empty()) c.fail("array-elementwise", std::string(what) + " of " + text(ref) + " gave " + text(g) + ": " + d); c.count("values_compared"); c.nontrivial(); }
}
// no operation may be left between two arrays, or an array and a number, once simplified
static bool settled(const P& n) { if (n->k == ARR) return true; return false; }
static P dv(const P& n) { // textbook derivative with respect to x of the scalar trees above
  switch (n->k) {
    case NUM: return num(0); case VAR: return num(n->name == "x");
    case ADD: case SUB: return bin(n->k, dv(n->ch[0]), dv(n->ch[1]));
    case MUL: return bin(ADD, bin(MUL, dv(n->ch[0]), n->ch[1]), bin(MUL, n->ch[0], dv(n->ch[1])));
    case NEG: return un(NEG, dv(n->ch[0])); case SIN: return bin(MUL, dv(n->ch[0]), un(COS, n->ch[0])); case EXP: return bin(MUL, dv(n->ch[0]), n);
    case ARR: { std::vector<P> e; for (auto& x : n->ch) e.push_back(dv(x)); return arr(e); }
    case DICT: { std::vector<P> e; for (auto& x : n->ch) e.push_back(dv(x)); return dict(n->keys, e); }
    default: throw std::logic_error("dv");
  }
}
static void shape(Case& c, const P& got, const P& ref, const std::string& what) {
  c.check(got->k == ref->k, "container-shape", what + " gave " + text(got) + " for " + text(ref));
  if (ref->k == ARR) { c.check(got->ch.size() == ref->ch.size(), "container-shape", what + " gave " + text(got) + " for " + text(ref)); for (size_t i = 0; i < ref->ch.size(); ++i) if (ref->ch[i]->k == ARR || ref->ch[i]->k == DICT) shape(c, got->ch[i], ref->ch[i], what); }
  if (ref->k == DICT) { std::set<std::string> a(got->keys.begin(), got->keys.end()), b(ref->keys.begin(), ref->keys.end()); c.check(a == b && got->keys.size() == ref->keys.size(), "container-shape", what + " gave " + text(got) + " for " + text(ref)); }
}

int main(int argc, char** argv) {
  Harness h("C18");
  h.add("static-grids", 24000, 800000, [](Case& c) {
    switch (c.idx % 8) {
      case 0: Grid<Array<double, RowMajorAddressing<-1u, 2>>, 2, 0>::run(c); break; case 1: Grid<Array<double, RowMajorAddressing<-1u, 3>>, 3, 0>::run(c); break;
      case 2: Grid<Array<double, RowMajorAddressing<-1u, 4>>, 4, 0>::run(c); break; case 3: case 4: Grid<Array<double>, 0, 0>::run(c); break;
      case 5: Grid<Array<double, RowMajorAddressing<12, 2>>, 2, 12>::run(c); break; case 6: Grid<Array<double, RowMajorAddressing<40, 3>>, 3, 40>::run(c); break;
      case 7: Grid<Array<double, RowMajorAddressing<64, 4>>, 4, 64>::run(c); break;
    }
  });
  h.add("static-lines", 8000, 400000, [](Case& c) { if (c.idx & 1) Line<Array<double, LinearAddressing<-1u>>, 0>::run(c); else Line<Array<double, LinearAddressing<9>>, 9>::run(c); });
  h.add("runtime-lines", 6000, 200000, [](Case& c) { // an ArrayRT driven as a sequence
    Rng& r = c.rng; auto a = r.chance(1, 2) ? ArrayRT::create() : ArrayRT::create({Expr(1.0), Expr("x"), Expr("y+2")}); std::vector<P> m; for (auto& e : *a) m.push_back(read(e));
    size_t n = r.range(1, 10);
    for (size_t i = 0; i < n; ++i) {
      if (r.chance(1, 2)) { P p = scal(r, 1); a->push_back(build(p)); m.push_back(p); }
      else if (r.chance(1, 2)) { size_t s = r.below(8); size_t o = m.size(); a->resize(s); m.resize(s); for (size_t k = o; k < s; ++k) { m[k] = scal(r, 1); (*a)[k] = build(m[k]); } }
      else if (m.size()) { size_t k = r.below(m.size()); m[k] = scal(r, 1); (*a)[k] = build(m[k]); }
      const ArrayRT& q = *a; c.check(q.size() == m.size() && q.empty() == m.empty() && q.getDimensions() == m.size() && (size_t)std::distance(q.begin(), q.end()) == m.size(), "array-size", "run-time array of " + str(m.size()));
      size_t k = 0; for (auto& e : q) { c.check(same(read(e), m[k]) && same(read(q[k]), m[k]), "array-index", "run-time element " + str(k)); ++k; c.count("elements_compared"); }
    }
    Expr e(a); c.check(same(read(e), arr(m)), "array-index", "expression of the array"); c.desc("run-time line " + text(arr(m))); c.nontrivial();
  });
  h.add("elementwise", 8000, 300000, [](Case& c) { Renaming rn(c.rng);
    Rng& r = c.rng; Dims s; size_t l = r.chance(3, 4) ? 1 : 2; for (size_t i = 0; i < l; ++i) s.push_back(1 + r.below(4)); bool big = r.chance(1, 60); if (big) s = {widesize(r, 140)};
    P p = arrtree(r, s, big ? 1 : (int)r.range(1, 3)); c.desc(text(p));
    Expr e = r.chance(1, 2) ? build(p) : buildops(p); P before = read(e);
    Expr q = simplify(e); cmpval(c, p, q, "simplification");
    P g = read(q); c.check(g->k == ARR && g->ch.size() == s[0], "container-shape", "simplified " + text(p) + " is " + text(g) + ", not an array of " + str(s[0]));
    Expr t = Expr(sym::repr(e)); cmpval(c, p, t, "reading back"); 
    // substitution
    std::map<std::string, P> m; m["x"] = scal(r, 1); auto D = DictRT::create(); (*D)[Expr(VarRT::create(outn("x")))] = build(m["x"]);
    cmpval(c, subst(p, m), sym::sub(e, Expr(D)), "substitution"); cmpval(c, subst(p, m), sym::sub(q, Expr(D)), "substitution after simplification");
    Env en = renv(r); Val ref = veval(p, en); if (vusable(ref)) { P v = read(sym::sub(e, envdict(en))); c.check(vdiff(ref, veval(v, Env())).empty(), "array-elementwise", "value of " + text(p) + " is " + text(v)); c.count("evaluated"); }
    c.check(same(read(e), before), "operand-changed", "operand became " + text(read(e)));
  });
  h.add("cpp-operators", 6000, 200000, [](Case& c) { // the overloaded operators on array objects, expressions and numbers
    Rng& r = c.rng; Dims s{r.chance(1, 60) ? widesize(r) : 1 + r.below(4)}; P a = arrlit(r, s), b = arrlit(r, s), k = pnum(r);
    auto A = ArrayRT::create(), B = ArrayRT::create(); for (auto& x : a->ch) A->push_back(build(x)); for (auto& x : b->ch) B->push_back(build(x));
    const ArrayRT& Ar = *A; const ArrayRT& Br = *B; Expr Ae(A), Be(B); double kd = k->num; int op = (int)r.below(4), form = (int)r.below(8); auto x = VarRT::create(outn("x")); P xv = var("x");
    auto ap = [&](const auto& l, const auto& q) { return op == 0 ? Expr(l + q) : op == 1 ? Expr(l - q) : op == 2 ? Expr(l * q) : Expr(l / q); };
    K ks[] = {ADD, SUB, MUL, DIV}; P ref; Expr e;
    switch (form) {
      case 0: e = ap(Ar, Br); ref = bin(ks[op], a, b); break; case 1: e = ap(Ar, Be); ref = bin(ks[op], a, b); break; case 2: e = ap(Ae, Br); ref = bin(ks[op], a, b); break; case 3: e = ap(Ae, Be); ref = bin(ks[op], a, b); break;
      case 4: e = ap(Ar, kd); ref = bin(ks[op], a, k); break; case 5: e = ap(kd, Ar); ref = bin(ks[op], k, a); break; case 6: e = ap(Ae, kd); ref = bin(ks[op], a, k); break; default: e = ap(kd, Ae); ref = bin(ks[op], k, a); break;
    }
    c.desc("form " + str(form) + " " + text(ref)); Expr q = simplify(e); P g = read(q);
    c.check(g->k == ARR && g->ch.size() == s[0], "container-shape", "simplified " + text(ref) + " is " + text(g)); cmpval(c, ref, q, "operator"); cmpval(c, ref, e, "unsimplified operator");
    c.check(same(read(Ae), a) && same(read(Be), b), "operand-changed", text(ref)); c.nontrivial(); c.count("form_" + str(form));
  });
  h.add("mismatch", 3000, 100000, [](Case& c) {
    Rng& r = c.rng; size_t n = r.below(5), k = r.below(5); if (r.chance(1, 30)) { n = widesize(r); k = r.chance(1, 2) ? n - 1 - r.below(9) : widesize(r); if (r.chance(1, 2)) std::swap(n, k); } if (n == k) k = n + 1; K op = r.chance(1, 4) ? ADD : r.chance(1, 3) ? SUB : r.chance(1, 2) ? MUL : DIV;
    std::vector<P> a, b; for (size_t i = 0; i < n; ++i) a.push_back(scal(r, 1)); for (size_t i = 0; i < k; ++i) b.push_back(scal(r, 1));
    P p = bin(op, arr(a), arr(b)); if (r.chance(1, 3)) p = arr({num(1), p}); else if (r.chance(1, 3)) p = bin(MUL, num(2), p); c.desc(text(p)); c.nontrivial();
    bool threw = false; P got;
    try { got = read(simplify(build(p))); } catch (stator::Exception&) { threw = true; }
    c.check(threw, "array-mismatch", "simplifying " + text(p) + " gave " + (got ? text(got) : "") + " instead of the library's error");
    threw = false; try { got = read(Expr(text(p))); } catch (stator::Exception&) { threw = true; }
    c.check(threw, "array-mismatch", "reading " + text(p) + " gave " + (got ? text(got) : "") + " instead of the library's error"); c.count("mismatches_refused");
  });
  h.add("containers", 8000, 300000, [](Case& c) { Renaming rn(c.rng);
    Rng& r = c.rng;
    std::function<P(int)> gen = [&](int d) -> P {
      if (d <= 0 || r.chance(1, 4)) return scal(r, 2);
      if (d == 3 && r.chance(1, 60)) return wide(r, widesize(r, 140), r.chance(1, 2), [&](size_t) { return scal(r, 1); });
      std::vector<P> e; size_t n = r.below(4); for (size_t i = 0; i < n; ++i) e.push_back(gen(d - 1));
      if (r.chance(1, 2)) return arr(e);
      std::vector<std::string> ks; const char* names[] = {"x", "y", "k", "foo"}; size_t o = r.below(4); for (size_t i = 0; i < n; ++i) ks.push_back(names[(o + i) % 4]);
      return dict(ks, e);
    };
    P p; do p = gen(3); while (p->k != ARR && p->k != DICT); c.desc(text(p));
    Expr e = build(p); P before = read(e);
    shape(c, read(simplify(e)), p, "simplification"); cmpval(c, p, simplify(e), "simplification");
    Expr d = derivative(e, *VarRT::create(outn("x"))); P dp = dv(p); shape(c, read(d), p, "differentiation"); cmpval(c, dp, d, "derivative");
    std::map<std::string, P> m; m["x"] = scal(r, 1); m["y"] = scal(r, 1); auto D = DictRT::create(); (*D)[Expr(VarRT::create(outn("x")))] = build(m["x"]); (*D)[Expr(VarRT::create(outn("y")))] = build(m["y"]);
    P sp = subst(p, m); Expr s = sym::sub(e, Expr(D)); shape(c, read(s), p, "substitution"); cmpval(c, sp, s, "substitution");
    c.check(same(read(e), before), "operand-changed", "operand became " + text(read(e))); c.nontrivial(); c.count("containers");
  });
  return h.main(argc, argv);
}
