// C24: LaTeX, fully bracketed and rounded output of expressions, polynomials, intervals and matrices
#include "lib.hpp"
#include "model.hpp"
#include <stator/symbolic/polynomial.hpp>
#include <stator/symbolic/interval.hpp>
#include <stator/symbolic/units.hpp>
#include <stator/symbolic/uncertainty.hpp>
using namespace vf;
typedef stator::ReprConfig<stator::Latex_output> LX; typedef stator::ReprConfig<stator::Force_parenthesis> FP; typedef stator::ReprConfig<stator::Latex_output, stator::Force_parenthesis> LF; typedef stator::ReprConfig<stator::Force_parenthesis, stator::Latex_output> FL;
typedef stator::ReprConfig<stator::Rounding_digits<8>> R8; typedef stator::ReprConfig<stator::Latex_output, stator::Rounding_digits<8>> LR8; typedef stator::ReprConfig<stator::Debug_output> DB;

// braces and delimiters pair up; returns "" or what is wrong
static std::string balanced(const std::string& s) {
  std::vector<char> st; auto at = [&](size_t i, const char* t) { return s.compare(i, strlen(t), t) == 0; };
  for (size_t i = 0; i < s.size(); ++i) {
    if (at(i, "\\left")) { i += 5; if (i < s.size() && s[i] == '\\') ++i; if (i >= s.size()) return "\\left at the end"; st.push_back(s[i]); continue; }
    if (at(i, "\\right")) { i += 6; if (i < s.size() && s[i] == '\\') ++i; if (i >= s.size()) return "\\right at the end"; char o = s[i] == ')' ? '(' : s[i] == ']' ? '[' : s[i] == '}' ? '{' : s[i]; if (st.empty() || st.back() != o) return std::string("\\right") + s[i] + " does not match"; st.pop_back(); continue; }
    if (s[i] == '\\' && i + 1 < s.size() && (s[i + 1] == '{' || s[i + 1] == '}')) return "loose escaped brace";
    if (s[i] == '{') st.push_back('g');
    if (s[i] == '}') { if (st.empty() || st.back() != 'g') return "} does not match"; st.pop_back(); }
  }
  return st.empty() ? "" : "something is left open";
}
// LaTeX -> formula text with explicit brackets; throws std::string
struct Latex {
  const std::string& s; size_t p = 0; Latex(const std::string& t) : s(t) {}
  bool at(const char* t) { return s.compare(p, strlen(t), t) == 0; }
  bool eat(const char* t) { if (!at(t)) return false; p += strlen(t); return true; }
  std::string group(const char* end) { std::string o = run(end); if (!eat(end)) throw std::string("missing ") + end; return o; }
  std::string run(const char* end) {
    std::string o; bool sup = false, func = false, funcatom = false;
    while (p < s.size() && !at(end)) {
      bool wasfunc = func, atom = true; func = false;
      if (at("^")) {
        if (sup) throw std::string("double superscript"); if (funcatom) throw std::string("exponent on the argument of a function");
        ++p; std::string e; if (eat("{")) e = group("}"); else { if (p >= s.size() || s[p] == '\\') throw std::string("bad superscript"); e = std::string(1, s[p++]); }
        o += "^(" + e + ")"; sup = true; continue;
      }
      sup = false; funcatom = false;
      if (eat("\\frac{")) { std::string a = group("}"); if (!eat("{")) throw std::string("\\frac needs two groups"); std::string b = group("}"); o += "((" + a + ")/(" + b + "))"; }
      else if (eat("\\mathrm{e}^{")) { o += "(exp(" + group("}") + "))"; sup = true; }
      else if (eat("\\pm\\left|")) o += "(ARBFN(" + group("\\right|") + "))";
      else if (eat("\\left|")) o += "(ABSFN(" + group("\\right|") + "))";
      else if (eat("\\left(")) o += "(" + group("\\right)") + ")";
      else if (eat("\\left[")) o += "[" + group("\\right]") + "]";
      else if (eat("\\left\\{")) o += "{" + group("\\right\\}") + "}";
      else if (eat("\\sin ")) { o += " sin "; func = true; } else if (eat("\\cos ")) { o += " cos "; func = true; } else if (eat("\\ln ")) { o += " ln "; func = true; }
      else if (eat("\\pm")) { o += "±"; atom = false; } else if (eat("\\times ")) { o += "*"; atom = false; }
      else if (isdigit((unsigned char)s[p])) {
        while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.')) o += s[p++];
        if (eat("\\times10^{")) { o += "e"; while (p < s.size() && s[p] != '}') { if (!isdigit((unsigned char)s[p]) && s[p] != '-') throw std::string("bad exponent of a number"); o += s[p++]; } if (!eat("}")) throw std::string("missing }"); sup = true; }
        else if (at("e")) throw std::string("plain exponent of a number");
      }
      else if (isalpha((unsigned char)s[p])) while (p < s.size() && isalpha((unsigned char)s[p])) o += s[p++];
      else if (strchr("+-=,: *()/", s[p])) { atom = s[p] == ')'; o += s[p++]; }
      else throw std::string("unexpected ") + s.substr(p, 8);
      if (wasfunc && atom && !func) funcatom = true;
    }
    return o;
  }
  static std::string plain(const std::string& t) { Latex l(t); std::string o = l.run("\x01"); if (l.p != t.size()) throw std::string("stopped early"); return o; }
};
static bool finite(const P& n) { if (n->k == NUM) return std::isfinite(n->num); for (auto& c : n->ch) if (!finite(c)) return false; return true; }
static P roundnums(const P& n, int digits) { if (n->k == NUM) { char b[64]; snprintf(b, sizeof b, "%.*g", digits, n->num); return num(strtod(b, nullptr)); } auto r = std::make_shared<Node>(*n); for (auto& c : r->ch) c = roundnums(c, digits); return r; }

static void latexsame(Case& c, const P& want, const std::string& lx, const std::string& key) {
  std::string b = balanced(lx); c.check(b.empty(), "unbalanced:" + key, b + " in " + lx);
  std::string pl; P got;
  try { pl = Latex::plain(lx); got = RefParser(pl).parse(); } catch (std::string& e) { c.fail("latex-invalid:" + key, e + " in " + lx + (pl.empty() ? "" : " read as " + pl) + "\nof " + text(want)); }
  std::string why; Verdict v = equivalent(want, got, c.rng, why);
  c.check(v != DIFFERENT, "latex-meaning:" + key, lx + "\nreads as " + text(got) + "\ninstead of " + text(want) + "\n" + why); c.count(v == SAME ? "latex_forms_same" : "latex_forms_inconclusive");
}
static void plainsame(Case& c, const P& want, const std::string& s, const std::string& key) {
  P got, got2; try { got = read(rawparse(s)); got2 = RefParser(s).parse(); } catch (std::exception& e) { c.fail("plain-invalid:" + key, std::string(e.what()) + " reading " + s); } catch (std::string& e) { c.fail("plain-invalid:" + key, e + " reading " + s); }
  std::string why; c.check(equivalent(want, got, c.rng, why) != DIFFERENT && equivalent(want, got2, c.rng, why) != DIFFERENT, "plain-meaning:" + key, s + "\nreads as " + text(got) + "\ninstead of " + text(want) + "\n" + why); c.count("plain_forms_compared");
}
static bool hasabs(const P& n) { if (n->k == ABS || n->k == ARB) return true; for (auto& x : n->ch) if (hasabs(x)) return true; return false; }
static void all(Case& c, const sym::Expr& e) {
  P t = read(e); if (!finite(t)) { c.count("nonfinite_skipped"); return; }
  latexsame(c, t, sym::repr<LX>(e), "plain"); std::string lf = sym::repr<LF>(e); latexsame(c, t, lf, "bracketed"); c.check(lf == sym::repr<FL>(e) || lf.find(':') != std::string::npos, "option-order", lf);
  if (!hasabs(t)) plainsame(c, t, sym::repr<FP>(e), "bracketed");
  P t8 = roundnums(t, 9); latexsame(c, t8, sym::repr<LR8>(e), "rounded"); if (!hasabs(t)) plainsame(c, t8, sym::repr<R8>(e), "rounded");
  std::string d = sym::repr<DB>(e), pl = sym::repr(e); // the debugging form marks the variables
  size_t q; while ((q = d.find("Var<\"")) != std::string::npos) { size_t z = d.find("\">()", q); c.check(z != std::string::npos, "debug-form", d); d = d.substr(0, q) + d.substr(q + 5, z - q - 5) + d.substr(z + 4); }
  c.check(d == pl, "debug-form", "debugging form " + sym::repr<DB>(e) + " of " + pl); if (nodes(t) >= 3) c.nontrivial();
}
static P full(Rng& r, int d, const GenOpt& o) {
  if (d > 0) switch (r.below(10)) { case 0: return un(ABS, full(r, d - 1, o)); case 1: return bin(ACC, r.chance(1, 2) ? var("v") : full(r, d - 1, o), full(r, d - 1, o)); case 2: return bin(POW, full(r, d - 1, o), full(r, d - 1, o)); case 3: return un(ARB, full(r, d - 1, o)); case 4: return bin(DIV, full(r, d - 1, o), full(r, d - 1, o)); case 5: { static const K F[] = {SIN, COS, EXP, LN}; return un(r.pick(F), full(r, d - 1, o)); } default: return gentree(r, d, o); }
  if (r.chance(1, 6)) return num(r.pick(std::vector<double>{1e30, -2.5e-17, 1e-7, 123456789012345678.0, 1e100, 6.02e23, 1e5, 1e17, 1e16, 0.0001, 0.00001}));
  return gentree(r, 0, o);
}
template <size_t N> static void poly(Case& c) {
  Rng& r = c.rng; static constexpr char xs[] = "xi"; sym::Polynomial<N, double, sym::Var<xs>> p; P want = num(0);
  for (size_t i = 0; i <= N; ++i) { double v = r.chance(1, 3) ? 0 : r.chance(1, 5) ? std::ldexp(r.real(-1, 1), (int)r.range(-120, 120)) : r.chance(1, 2) ? (double)r.range(-5, 5) : r.real(-9, 9); p[i] = v; if (v) want = bin(ADD, want, bin(MUL, num(v), i ? bin(POW, var("xi"), num((double)i)) : num(1))); }
  c.desc("polynomial " + sym::repr(p)); auto cmp = [&](std::string s, const char* key, bool lx) {
    c.check(s.size() > 3 && s.substr(0, 2) == "P(" && s.back() == ')', "polynomial-form", s); s = s.substr(2, s.size() - 3);
    if (lx) { c.check(balanced(s).empty(), "unbalanced:polynomial", s); try { s = Latex::plain(s); } catch (std::string& e) { c.fail("latex-invalid:polynomial", e + " in " + s); } }
    P got; try { got = RefParser(s).parse(); } catch (std::string& e) { c.fail("polynomial-form", e + " in " + s); }
    for (int k = 0; k < 5; ++k) { Env env{{"xi", k == 0 ? 0.0 : r.real(0.2, 3)}}; EV a = eval(want, env), b = eval(got, env); if (!wellcond(a)) continue; c.check(agrees(a, b), key, s + " at xi=" + str(env["xi"]) + " is " + str(b.v) + " expected " + str(a.v)); c.count("polynomial_values"); } };
  cmp(sym::repr(p), "polynomial-printed", false); cmp(sym::repr<LX>(p), "polynomial-latex", true); c.nontrivial();
}
template <class M> static void matrix(Case& c) {
  Rng& r = c.rng; M m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = r.real(-9, 9); c.desc(str(m.rows()) + "x" + str(m.cols()) + " matrix");
  std::string s = sym::repr(m), e; if (m.rows() == 1 && m.cols() == 1) e = sym::repr((double)m(0, 0));
  else { e = "{ "; for (int i = 0; i < m.rows(); ++i) { if (m.cols() > 1) e += "{ "; for (int j = 0; j < m.cols(); ++j) e += sym::repr((double)m(i, j)) + " "; if (m.cols() > 1) e += "} "; } e += m.cols() > 1 ? "}" : "}^T"; }
  c.check(s == e, "matrix-printed", "printed " + s + " expected " + e); c.nontrivial();
}
int main(int ac, char** av) {
  Harness h("C24");
  h.add("trees", 12000, 300000, [](Case& c) { GenOpt o; o.units = true; o.unc = true; o.vars = {"x", "y", "zeta", "e"}; P t = full(c.rng, 1 + (int)c.rng.below(4), o); c.desc(text(t)); all(c, build(t)); });
  h.add("operator-pairs", 7000, 7000, [](Case& c) {
    static const K B[] = {ADD, SUB, MUL, DIV, POW, EQ, UNITS, UNC, ACC, NEG, SIN, COS, EXP, LN, ABS, ARB, ARR, DICT}; static const std::vector<P> L{var("x"), num(2), num(-3), num(0.5), num(1e-20), num(-1e22)};
    auto mk = [&](K k, P a, P b) { return k == NEG || k == SIN || k == COS || k == EXP || k == LN || k == ABS || k == ARB ? un(k, a) : k == ARR ? arr({a, b}) : k == DICT ? dict({"u", "v"}, {a, b}) : bin(k, a, b); };
    long i = c.idx; K k1 = B[i % 18]; i /= 18; K k2 = B[i % 18]; i /= 18; P l1 = L[i % 6]; i /= 6; P l2 = c.rng.pick(L), l3 = c.rng.pick(L); P in = mk(k2, l1, l2), t = i % 2 ? mk(k1, in, l3) : mk(k1, l3, in);
    c.desc(text(t)); all(c, build(t)); });
  h.add("computed", 6000, 150000, [](Case& c) { GenOpt o; P t = gen(c.rng, 2 + (int)c.rng.below(3), o); c.desc("from " + text(t)); sym::Expr e = build(t); all(c, simplify(e)); all(c, derivative(e, *sym::VarRT::create("x"))); try { all(c, buildops(t)); } catch (stator::Exception&) {} });
  h.add("wide", 120, 2500, [](Case& c) { Rng& r = c.rng; GenOpt o; o.units = true; o.unc = true; size_t n = widesize(r, 150); P t;
    if (r.chance(2, 3)) t = wide(r, n, r.chance(1, 2), [&](size_t) { return gen(r, (int)r.below(2), o); });
    else { n = std::min<size_t>(n, 60); static const K B[] = {ADD, SUB, MUL, DIV, POW}; t = var("x"); for (size_t i = 0; i < n; ++i) { K k = B[r.below(i < 4 ? 5 : 4)]; P l = r.chance(1, 2) ? var("y") : num((double)r.range(2, 9) / 4); t = r.chance(1, 2) ? bin(k, t, l) : bin(k, l, t); } }
    c.desc(str(nodes(t)) + " nodes: " + text(t)); all(c, build(t)); });
  h.add("compile-time", 4000, 80000, [](Case& c) {
    static constexpr char xs[] = "x", ys[] = "y"; sym::Var<xs> x; sym::Var<ys> y; Rng& r = c.rng; double a = r.chance(1, 3) ? std::ldexp(r.real(-1, 1), (int)r.range(-90, 90)) : r.range(-9, 9) / 4.0, b = r.real(-3, 3), n = (double)r.range(2, 4);
    auto go = [&](auto e) { c.desc(sym::repr(e)); P t = read(sym::Expr(e)); if (!hasabs(t)) { P t1; try { t1 = RefParser(sym::repr(e)).parse(); } catch (std::string& m) { c.fail("compile-time-form", m + " in " + sym::repr(e)); } std::string w; c.check(equivalent(t, t1, c.rng, w) != DIFFERENT, "compile-time-form", sym::repr(e) + " for " + text(t) + "\n" + w); } latexsame(c, t, sym::repr<LX>(e), "compile-time"); latexsame(c, t, sym::repr<LF>(e), "compile-time-bracketed"); if (!hasabs(t)) { P t2; try { t2 = RefParser(sym::repr<FP>(e)).parse(); } catch (std::string& m) { c.fail("plain-invalid:compile-time", m + " in " + sym::repr<FP>(e)); } std::string why; c.check(equivalent(t, t2, c.rng, why) != DIFFERENT, "plain-meaning:compile-time", sym::repr<FP>(e)); } c.nontrivial(); };
    using sym::C; using sym::sin; using sym::cos; using sym::exp; using sym::log; using sym::pow;
    switch (r.below(16)) {
      case 0: go(x * a + y); break; case 1: go(pow(x + a, y) / (x - b)); break; case 2: go(pow(exp(x * y), C<2>())); break; case 3: go(pow(sin(x), C<2>()) + pow(cos(x), C<2>())); break; case 4: go(a / (x / y)); break; case 5: go(x - (y - a)); break;
      case 6: go(C<1, 3>() * x - C<-2, 5>() * y); break; case 7: go(exp(a * x) / log(x / y)); break; case 8: go(pow(pow(x, y), n)); break; case 9: go(pow(x, pow(y, n))); break; case 10: go(sym::abs(x - a) * sin(x * y)); break; case 11: go(-(x + y) * b); break; case 12: go(pow(C<2, 7>() + x, y * a)); break;
      case 13: go(units(x * a, y / x)); break; case 14: go(uncertainty(x, pow(y, n))); break; default: go(sym::equality(x / a, pow(y / b, x))); } });
  h.add("polynomials", 5000, 100000, [](Case& c) { switch (c.rng.below(4)) { case 0: poly<2>(c); break; case 1: poly<5>(c); break; case 2: poly<12>(c); break; default: poly<1>(c); } });
  h.add("intervals", 2000, 40000, [](Case& c) { Rng& r = c.rng; double a = r.chance(1, 2) ? r.range(-9, 9) : std::ldexp(r.real(-1, 1), (int)r.range(-90, 90)), b = a + std::fabs(r.real(0, 5)); std::string s = sym::repr(sym::interval<double>(a, b)); c.desc(s); size_t p = s.find("..."); c.check(p != std::string::npos && strtod(s.substr(0, p).c_str(), nullptr) == a && strtod(s.substr(p + 3).c_str(), nullptr) == b, "interval-printed", s + " of " + str(a) + " and " + str(b)); c.check(balanced(sym::repr<LX>(sym::interval<double>(a, b))).empty(), "unbalanced:interval", s); c.nontrivial(); });
  h.add("matrices", 1500, 30000, [](Case& c) { switch (c.rng.below(7)) { case 0: matrix<Eigen::Matrix<double, 2, 3>>(c); break; case 1: matrix<Eigen::Matrix<double, 3, 2>>(c); break; case 2: matrix<Eigen::Matrix<double, 3, 3>>(c); break; case 3: matrix<Eigen::Matrix<double, 4, 1>>(c); break; case 4: matrix<Eigen::Matrix<double, 1, 4>>(c); break; case 5: matrix<Eigen::Matrix<double, 1, 1>>(c); break; default: matrix<Eigen::Matrix<double, 5, 2>>(c); } });
  return h.main(ac, av);
}
