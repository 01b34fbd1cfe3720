// C19: interval results enclose every value
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/interval.hpp>
#include "common.hpp"
using namespace sym; using namespace vf;
typedef long double LD;

// a number with a bound on its own rounding error
struct Nm { LD v, e; bool ok = true; Nm(LD a, LD b = 0, bool o = true) : v(a), e(b), ok(o && std::isfinite(a) && std::isfinite(b)) {} };
static const LD uu = 0x1p-62L;
static Nm operator+(Nm a, Nm b) { LD v = a.v + b.v; return Nm(v, a.e + b.e + uu * fabsl(v), a.ok && b.ok); }
static Nm operator-(Nm a, Nm b) { LD v = a.v - b.v; return Nm(v, a.e + b.e + uu * fabsl(v), a.ok && b.ok); }
static Nm operator*(Nm a, Nm b) { LD v = a.v * b.v; return Nm(v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e + uu * fabsl(v) + 0x1p-16000L, a.ok && b.ok); }
static Nm operator/(Nm a, Nm b) { if (!(fabsl(b.v) > 4 * b.e)) return Nm(0, 0, false); LD v = a.v / b.v; return Nm(v, (a.e + fabsl(v) * b.e) / (fabsl(b.v) - b.e) + uu * fabsl(v), a.ok && b.ok); }
static Nm operator-(Nm a) { return Nm(-a.v, a.e, a.ok); }
static Nm operator+(double a, Nm b) { return Nm(a) + b; } static Nm operator-(double a, Nm b) { return Nm(a) - b; } static Nm operator*(double a, Nm b) { return Nm(a) * b; } static Nm operator/(double a, Nm b) { return Nm(a) / b; }
static Nm operator+(Nm a, double b) { return a + Nm(b); } static Nm operator-(Nm a, double b) { return a - Nm(b); } static Nm operator*(Nm a, double b) { return a * Nm(b); } static Nm operator/(Nm a, double b) { return a / Nm(b); }
template <int n> Nm pw(Nm a) { if constexpr (n < 0) return Nm(1) / pw<-n>(a); else { Nm r(1); for (int i = 0; i < n; ++i) r = r * a; return r; } }
template <int n> Nm pwi(Nm a) { return pw<n>(a); }
static Nm ab(Nm a) { return Nm(fabsl(a.v), a.e, a.ok); }
template <int n, class X> auto pw(const X& x) { using sym::pow; return pow(x, C<n>()); }
template <int n, class X> auto pwi(const X& x) { using sym::pow; return pow(x, n); }
template <class X> auto ab(const X& x) { using std::abs; using sym::abs; return abs(x); }

template <class I> std::string show(const I& i) { return "[" + str(i.lower()) + ", " + str(i.upper()) + "]"; }
template <class T> interval<T> rint(Rng& r) {
  auto pt = [&]() -> T { switch (r.below(7)) { case 0: return T(0); case 1: return T(r.range(-3, 3)); case 2: return T(r.real(-10, 10)); case 3: return T(r.real(-1, 1)); case 4: return T(std::ldexp(r.real(0.5, 1), (int)r.range(-20, 20)) * (r.chance(1, 2) ? 1 : -1)); case 5: return T(r.range(-100, 100) / 8.0); default: return T(r.real(0, 5)); } };
  T a = pt(), b = r.chance(1, 12) ? a : r.chance(1, 4) ? T(a + T(r.real(0, 0.01))) : pt(); if (a > b) std::swap(a, b); return interval<T>(a, b);
}
template <class T> std::vector<T> points(Rng& r, const interval<T>& i) {
  std::vector<T> p{i.lower(), i.upper()}; auto add = [&](T x) { if (x >= i.lower() && x <= i.upper()) p.push_back(x); };
  add(0); add(1); add(-1); add(std::nextafter(i.lower(), i.upper())); add(std::nextafter(i.upper(), i.lower())); add((i.lower() + i.upper()) / 2);
  for (int k = 0; k < 6; ++k) add(T(i.lower() + (i.upper() - i.lower()) * r.unit())); for (int k = 0; k < 2; ++k) add(T(r.range(-4, 4))); add(T(r.real(-1, 1) * 1e-3)); return p;
}
template <class I> void encloses(Case& c, const I& res, const Nm& v, const std::string& what) {
  if (!v.ok) { c.count("points_undefined"); return; }
  LD t = 2 * v.e + 1e-4000L; 
  c.check((LD)res.lower() <= v.v + t && (LD)res.upper() >= v.v - t, "not-enclosed", what + " = " + show(res) + " lacks the value " + str(v.v));
  c.check(res.lower() <= res.upper(), "empty-interval", what + " = " + show(res)); c.count("points_enclosed");
}
template <class T> void tight(Case& c, const interval<T>& res, LD lo, LD hi, const std::string& what, int u = 4) {
  LD eps = std::numeric_limits<T>::epsilon(), m = std::numeric_limits<T>::min();
  if (!std::isfinite(lo) || !std::isfinite(hi) || fabsl(lo) > std::numeric_limits<T>::max() / 4 || fabsl(hi) > std::numeric_limits<T>::max() / 4) return;
  c.check(res.lower() <= lo + fabsl(lo) * 1e-18L && res.upper() >= hi - fabsl(hi) * 1e-18L, "not-enclosed", what + " = " + show(res) + " narrower than [" + str(lo) + ", " + str(hi) + "]");
  c.check(lo - res.lower() <= u * eps * fabsl(lo) + m && res.upper() - hi <= u * eps * fabsl(hi) + m, "not-tight", what + " = " + show(res) + " wider than [" + str(lo) + ", " + str(hi) + "]"); c.count("tight_compared");
}
template <class T> interval<T> asI(const interval<T>& i) { return i; }

// formulas in one variable, instantiated for symbols, intervals and numbers
#define FORMULAS(F) F(x + 1.0) F(2.5 - x) F(x * 3.0) F(-2.0 * x) F(x / 4.0) F(3.0 / x) F(-x) F(x * x) F(x * x * x) F(x + x) F(x - x) F(x / x) F(pw<2>(x)) F(pw<3>(x)) F(pw<4>(x)) F(pw<5>(x)) F(pwi<2>(x)) F(pwi<3>(x)) F(ab(x)) \
  F(x * x - 2.0 * x + 1.0) F(1.0 / x - 2.0) F((x + 1.0) / (x + 2.0)) F((x + 1.0) * (x - 1.0)) F((1.0 - x) * (1.0 - x) * (2.0 + x)) F(pw<2>(x) - pw<3>(x)) F(-pw<2>(x) + x) F(1.0 / (1.0 + x * x)) F(x / (1.0 + pw<2>(x))) \
  F(ab(x) - x) F(ab(x - 1.0) * ab(x + 1.0)) F(-(x - 3.0)) F(2.0 * (x + 1.0) - 3.0 * (x - 2.0)) F(pw<2>(x + 1.0)) F(pw<3>(2.0 * x - 1.0)) F(pw<2>(x) * pw<2>(1.0 - x)) F(x * (1.0 / x)) F(ab(-x) + 0.5) F((x - 0.25) / (-4.0)) F(5.0 - (3.0 - (1.0 - x))) F(1.0 / (1.0 / x)) F(pwi<4>(x) - 2.0 * pwi<2>(x)) F(ab(pw<3>(x))) F(-ab(x) * x) F(0.1 * x + 0.2) F(x * 0.0) F(x * 1.0 + 0.0)
struct Fm { const char* name; std::function<interval<double>(const interval<double>&)> viasub, direct; std::function<Nm(Nm)> num; };
template <class E> void addf(std::vector<Fm>& v, const char* n, E e) { Var<> x; auto f = e(x); v.push_back({n, [f, x](const interval<double>& i) { return interval<double>(sub(f, Var<>() = i)); }, [e](const interval<double>& i) { return interval<double>(e(i)); }, [e](Nm a) { return Nm(e(a)); }}); }
template <class E> void addd(std::vector<Fm>& v, const char* n, E e, std::function<Nm(Nm)> d) { Var<> x; auto f = derivative(e(x), x); v.push_back({n, [f](const interval<double>& i) { return interval<double>(sub(f, Var<>() = i)); }, nullptr, d}); }
static std::vector<Fm> formulas() {
  std::vector<Fm> v;
#define ADDF(e) addf(v, #e, [](auto x) { return e; });
  FORMULAS(ADDF)
  addd(v, "d/dx x*x*x", [](auto x) { return x * x * x; }, [](Nm a) { return 3.0 * a * a; });
  addd(v, "d/dx x*x/2.0", [](auto x) { return x * x / 2.0; }, [](Nm a) { return a; });
  return v;
}
template <class T> void ops(Case& c) {
  Rng& r = c.rng; typedef interval<T> I; I a = rint<T>(r), b = rint<T>(r); T k = T(r.chance(1, 2) ? r.range(-4, 4) : r.real(-3, 3)); int op = (int)r.below(16); const char* nm[] = {"a+b", "a-b", "a*b", "a/b", "a+k", "k-a", "k*a", "a/k", "k/a", "-a", "abs a", "a^2", "a^3", "a^4", "a^7", "a^8"};
  c.desc(std::string(nm[op]) + " a=" + show(a) + " b=" + show(b) + " k=" + str(k)); c.nontrivial(); c.count(std::string("op ") + nm[op]);
  bool z = b.lower() <= 0 && b.upper() >= 0, za = a.lower() <= 0 && a.upper() >= 0; if ((op == 3 && z) || (op == 7 && k == 0) || (op == 8 && za)) { c.count("zero_divisors"); if (op == 7 || (op == 3 && b.lower() == b.upper()) || (op == 8 && a.lower() == a.upper())) return; }
  I res = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : op == 4 ? a + k : op == 5 ? k - a : op == 6 ? k * a : op == 7 ? a / k : op == 8 ? k / a : op == 9 ? -a : op == 10 ? abs(a) : op == 11 ? I(pow(a, C<2>())) : op == 12 ? I(pow(a, C<3>())) : op == 13 ? I(pow(a, C<4>())) : op == 14 ? I(pow(a, C<7>())) : I(pow(a, C<8>()));
  auto f = [&](Nm x, Nm y) { Nm q(k); switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x / y; case 4: return x + q; case 5: return q - x; case 6: return q * x; case 7: return x / q; case 8: return q / x; case 9: return -x; case 10: return ab(x); case 11: return pw<2>(x); case 12: return pw<3>(x); case 13: return pw<4>(x); case 14: return pw<7>(x); default: return pw<8>(x); } };
  auto pa = points(r, a), pb = points(r, b); for (T x : pa) for (T y : pb) { encloses(c, res, f(Nm(x), Nm(y)), std::string(nm[op])); if (op > 3) break; }
  if ((op == 3 && z) || (op == 8 && za)) return;
  LD lo = HUGE_VALL, hi = -HUGE_VALL; auto add = [&](LD x, LD y) { LD v = f(Nm(x), Nm(y)).v; lo = std::min(lo, v); hi = std::max(hi, v); };
  for (T x : {a.lower(), a.upper()}) for (T y : {b.lower(), b.upper()}) add(x, y); if (op >= 10 && za) add(0, 0);
  if (fabsl(lo) < 1e-30L * (lo != 0) || fabsl(hi) < 1e-30L * (hi != 0)) return;
  tight(c, res, lo, hi, std::string(nm[op]), op > 13 ? 12 : 4);
}

int main(int argc, char** argv) {
  Harness h("C19"); static std::vector<Fm> fs = formulas();
  h.add("single-operations", 60000, 4000000, [](Case& c) { if (c.idx & 1) ops<double>(c); else ops<float>(c); });
  h.add("expressions", 60000, 4000000, [](Case& c) {
    const Fm& f = fs[c.idx % fs.size()]; auto i = rint<double>(c.rng); c.desc(std::string(f.name) + " at " + show(i)); c.nontrivial();
    // an interval on which the formula has no value at all may be refused
    auto safe = [&](const std::function<interval<double>(const interval<double>&)>& g, const interval<double>& q, interval<double>& out) {
      try { out = g(q); return true; } catch (std::exception& e) { for (double x : points(c.rng, q)) c.check(!f.num(Nm(x)).ok, "refused", std::string(f.name) + " on " + show(q) + ": " + e.what()); c.count("refused"); return false; }
    };
    interval<double> s, d, p, t; if (!safe(f.viasub, i, s)) return;
    for (double x : points(c.rng, i)) encloses(c, s, f.num(Nm(x)), std::string("substituting into ") + f.name);
    if (f.direct && safe(f.direct, i, d)) { for (double x : points(c.rng, i)) encloses(c, d, f.num(Nm(x)), std::string("evaluating ") + f.name); }
    if (!safe(f.viasub, interval<double>(i.lower()), p)) return; Nm v = f.num(Nm(i.lower())); encloses(c, p, v, std::string("point interval in ") + f.name);
    if (v.ok && v.v != 0 && std::isfinite(p.lower()) && std::isfinite(p.upper())) { LD w = (LD)p.upper() - p.lower(); c.check(w <= 1e-12L * (1 + fabsl(v.v) + 1e3L * fabsl((LD)i.lower()) * fabsl((LD)i.lower()) * (1 + fabsl((LD)i.lower()) * (1 + fabsl((LD)i.lower()) * (1 + fabsl((LD)i.lower()))))) || std::fabs(i.lower()) < 1e-3, "not-tight", std::string("point interval in ") + f.name + " gave " + show(p)); }
    // inclusion isotonicity: a part of the interval cannot give more
    double a = i.lower() + (i.upper() - i.lower()) * c.rng.unit(), b = i.lower() + (i.upper() - i.lower()) * c.rng.unit(); if (a > b) std::swap(a, b); a = std::max(a, i.lower()); b = std::min(b, i.upper());
    if (a <= b && safe(f.viasub, interval<double>(a, b), t)) { c.check(t.lower() >= s.lower() && t.upper() <= s.upper(), "not-isotone", std::string(f.name) + " on [" + str(a) + ", " + str(b) + "] gives " + show(t) + " outside " + show(s)); c.count("isotone"); }
  });
  h.add("printed", 5000, 100000, [](Case& c) {
    auto i = rint<double>(c.rng); c.desc(show(i)); std::string s = sym::repr(i); c.nontrivial(); size_t p = s.find("...");
    c.check(p != std::string::npos && strtod(s.substr(0, p).c_str(), nullptr) == i.lower() && strtod(s.substr(p + 3).c_str(), nullptr) == i.upper(), "interval-printed", show(i) + " printed as " + s); c.count("printed");
  });
  return h.main(argc, argv);
}
