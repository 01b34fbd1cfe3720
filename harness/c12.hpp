#pragma once
#include <stator/symbolic/symbolic.hpp>
#include "series.hpp"
using namespace sym;
static constexpr char ny1[] = "y"; static constexpr char ny2[] = "y"; static constexpr char nx2[] = "x"; static constexpr char nz[] = "z";
typedef std::vector<long double> Co;
static std::string num17(long double v) { std::ostringstream o; o << std::setprecision(20) << v; return o.str(); }
static std::string show(const Co& v) { std::string s = "{"; for (auto& k : v) s += (s.size() > 1 ? ", " : "") + num17(k); return s + "}"; }
static long double horner(const Co& c, long double x) { long double r = 0; for (size_t i = c.size(); i--;) r = r * x + c[i]; return r; }
static long double mag(const Co& c, long double x) { long double r = 0; for (size_t i = c.size(); i--;) r = r * fabsl(x) + fabsl(c[i]); return r; }
template <class T> struct isPoly { static const bool value = false; };
template <size_t N, class R, class V> struct isPoly<Polynomial<N, R, V>> { static const bool value = true; };
template <class T> struct coeffable { static const bool value = std::is_arithmetic<T>::value || is_C<T>::value; };
// the coefficients an expanded expression stands for; false where it is not a polynomial
template <class T> bool coefs(const T&, Co&, std::enable_if_t<!coeffable<T>::value && !isPoly<T>::value>* = 0) { return false; }
template <class T> bool coefs(const T& t, Co& v, std::enable_if_t<coeffable<T>::value>* = 0) { v.assign(1, (long double)double(t)); return true; }
template <size_t N, class R, class V> bool coefs(const Polynomial<N, R, V>& p, Co& v) {
  if constexpr (!std::is_same<std::decay_t<decltype(V::getName())>, int>::value) if (std::string(V::getName()) != "x") return false;
  v.clear(); for (size_t i = 0; i <= N; ++i) { if constexpr (coeffable<R>::value) v.push_back((long double)double(p[i])); else return false; } return true;
}
template <class R> bool number(const R& r, long double& v) { if constexpr (coeffable<R>::value) { v = double(r); return true; } else return false; }
static void same(Case& c, const char* what, const std::string& t, Co got, Co want, bool exact) {
  long double m = 0; for (auto k : want) m = std::max(m, fabsl(k));
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    long double g = i < got.size() ? got[i] : 0, w = i < want.size() ? want[i] : 0;
    c.count("coefficients_compared");
    c.check(std::isfinite(g) && fabsl(g - w) <= (exact ? 0 : 1e-11L * std::max(m, 1e-30L)), what, t + ": coefficient " + std::to_string(i) + " is " + num17(g) + " expected " + num17(w) + " (" + what + " " + show(got) + ")");
  }
}
template <class E, class Vx> void at(Case& c, const char* what, const std::string& t, const E& e, Vx x, double a, long double w, long double m) {
  long double v;
  if (!number(sub(e, x = a), v)) { c.count("left_symbolic"); return; }
  c.count("values_compared");
  c.check(std::isfinite(v) && fabsl(v - w) <= 1e-11L * m, what, t + " at x=" + num17(a) + ": " + what + " gives " + num17(v) + " expected " + num17(w));
}
static Co recentre(const Co& s, long double a) {     // sum of s[k] (x-a)^k multiplied out
  Co r(s.size(), 0.L); for (size_t i = s.size(); i--;) { for (size_t j = s.size() - 1; j > 0; --j) r[j] = r[j - 1] - a * r[j]; r[0] = s[i] - a * r[0]; } return r;
}
static Co derived(const Co& s) { Co r; for (size_t i = 1; i < s.size(); ++i) r.push_back(i * s[i]); if (r.empty()) r.push_back(0); return r; }
static const double PTS[] = {-3, -2, -1, -.5, 0, .5, 1, 2, 3, 1.5, 7, -11};
// F: 1 Taylor polynomials as well, 2 the constants are all compile-time, so compile-time centres can be used
template <int FL, int ORD, class F> void poly(Case& c, const char* t, F f, Co want, bool exact) {
  c.desc(t);
  Var<> x; Var<nx2> x2; Var<ny1> y; auto e = f(x);
  auto p = try_expand(e);
  Co g; c.check(coefs(p, g), "expansion", std::string(t) + " is a polynomial but expands to " + repr(p));
  same(c, "expansion", t, g, want, exact); c.nontrivial();
  auto p2 = try_expand(p); c.check(coefs(p2, g), "repeated expansion", std::string(t) + " expanded twice is " + repr(p2)); same(c, "repeated expansion", t, g, want, exact);
  same(c, "negated expansion", t, (c.check(coefs(try_expand(-p), g), "expansion", "negation"), g), [&] { Co w; for (auto k : want) w.push_back(-k); return w; }(), exact);
  auto d = derivative(p, x2); if (coefs(d, g)) same(c, "derivative of the expansion", t, g, derived(want), exact);
  auto de = try_expand(derivative(e, x2)); if (coefs(de, g)) same(c, "expansion of the derivative", t, g, derived(want), false);
  for (int i = 0; i < 4; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4);
    long double w = horner(want, a), m = mag(want, a) + 1e-30L;
    at(c, "value of the expansion", t, p, x2, a, w, m);
    at(c, "value of the expansion, other variable", t, sub(p, y = 5.0), x, a, w, m);
    if constexpr (FL & 1) {
      auto T0 = taylor_series<ORD>(e, a, x);
      at(c, "value of the Taylor polynomial", t, T0, x, a + 1, horner(want, a + 1), mag(want, fabs(a) + 1) * 100);
      auto T1 = taylor_series<ORD + 1>(p, a, x2);
      at(c, "value of the Taylor polynomial of the expansion", t, T1, x, a - .75, horner(want, a - .75), mag(want, fabs(a) + 1) * 100);
      Co big; long double s = mag(want, 2 * fabs(a) + 2) * 1e2L;
      if (coefs(try_expand(T0), g)) { big = want; c.count("taylor_polynomials_multiplied_out"); for (size_t k = 0; k < std::max(big.size(), g.size()); ++k) { long double G = k < g.size() ? g[k] : 0, W = k < big.size() ? big[k] : 0; c.check(fabsl(G - W) <= 1e-11L * s, "Taylor polynomial", std::string(t) + " about " + num17(a) + ": multiplied-out coefficient " + std::to_string(k) + " is " + num17(G) + " expected " + num17(W)); } }
      if (i == 0) {
        auto N = taylor_series<ORD>(e, Null(), x); at(c, "value of the Taylor polynomial about 0", t, N, x, a, w, m * 100);
        if constexpr (FL & 2) { auto M = taylor_series<ORD>(e, C<2>(), x); at(c, "value of the Taylor polynomial about 2", t, M, x, a, w, mag(want, fabs(a) + 4) * 100); }
      }
    }
  }
}
// value kept by expansion; o computes the value with an error bound
template <class F, class O> void keep(Case& c, const char* t, F f, O o) {
  c.desc(t);
  Var<> x; Var<ny1> y; Var<nx2> x2; Var<ny2> y2;
  auto e = f(x, y); auto p = try_expand(e); auto q = try_N(e);
  for (int i = 0; i < 6; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4), b = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4);
    if (i > 2) { a = fabs(a) + .125; b = fabs(b) + .25; }
    D w = o(D{mk(a, 0)}, D{mk(b, 0)});
    if (!wellcond(w.v)) continue;
    long double v;
    if (!number(sub(sub(p, x2 = a), y2 = b), v)) { c.count("left_symbolic"); continue; }
    c.count("values_compared"); c.nontrivial();
    c.check(close(w.v, v), "value of the expansion", std::string(t) + " at x=" + num17(a) + " y=" + num17(b) + ": expanded to " + repr(p) + " gives " + num17(v) + " expected " + num17(w.v.v));
    if (number(sub(sub(q, x2 = a), y2 = b), v)) { c.count("numeric_values_compared"); c.check(close(w.v, v), "value with constants as numbers", std::string(t) + " at x=" + num17(a) + " y=" + num17(b) + ": N() gives " + repr(q) + " which is " + num17(v) + " expected " + num17(w.v.v)); }
    if (number(sub(sub(p, y = b), x = a), v)) c.check(close(w.v, v), "value of the expansion", std::string(t) + " at x=" + num17(a) + " y=" + num17(b) + " (y first): expanded to " + repr(p) + " gives " + num17(v) + " expected " + num17(w.v.v));
  }
}
// o is the power series of the formula in x, y held at b
template <int ORD, class F, class O> void tay(Case& c, const char* t, F f, O o) {
  c.desc(t);
  Var<> x; Var<ny1> y; Var<nx2> x2; Var<ny2> y2;
  auto e = f(x, y);
  for (int i = 0; i < 5; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4), b = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4);
    if (i > 1) a = fabs(a) + .125;
    if (i > 2) b = fabs(b) + .25;
    S s = cst({mk(a, 0)}); s.c[1] = K(1.0);
    S r = o(s, cst({mk(b, 0)}));
    Co s0; bool ok = true; long double err = 0;
    for (int k = 0; k <= ORD; ++k) { s0.push_back(r.c[k].v.v); ok = ok && r.c[k].v.ok && r.c[k].v.e * 1e6L <= 1e-4L * std::max(fabsl(r.c[k].v.v), 1e-2L); err = std::max(err, r.c[k].v.e); }
    if (!ok) continue;
    auto T0 = taylor_series<ORD>(e, a, x2);
    long double v; const double hs[] = {0, 1, -1, .5, 2};
    for (double h : hs) {
      long double w = horner(s0, (long double)(a + h) - a), m = mag(s0, h);
      if (!number(sub(sub(T0, y2 = b), x = a + h), v)) { c.count("left_symbolic"); continue; }
      c.count("taylor_values_compared"); c.nontrivial();
      c.check(std::isfinite(v) && fabsl(v - w) <= 1e-10L * m + 1e5L * err * (1 + fabsl(h)) + 1e-300L, "Taylor polynomial", std::string(t) + " of order " + std::to_string(ORD) + " about x=" + num17(a) + " with y=" + num17(b) + " at x=" + num17(a + h) + " is " + num17(v) + " expected " + num17(w));
    }
    auto Ty = sub(T0, y2 = b); Co g, R = recentre(s0, a); long double m = mag(s0, fabs(a) + 1);
    if (coefs(try_expand(Ty), g)) { c.count("taylor_polynomials_multiplied_out"); for (size_t k = 0; k < std::max(g.size(), R.size()); ++k) { long double G = k < g.size() ? g[k] : 0, W = k < R.size() ? R[k] : 0; c.check(fabsl(G - W) <= 1e-10L * m + 1e5L * err * m, "Taylor polynomial", std::string(t) + " of order " + std::to_string(ORD) + " about " + num17(a) + ": multiplied-out coefficient " + std::to_string(k) + " is " + num17(G) + " expected " + num17(W)); } }
  }
}
// p with its variable replaced by something else
template <class P, class F> void subst(Case& c, const char* t, P p, Co pc, F f, Co q, bool inx) {
  c.desc(t);
  Var<> x; Var<nx2> x2; Var<ny1> y; Var<ny2> y2;
  auto u = f(x, y); auto e = sub(p, x2 = u); auto ex = try_expand(e);
  for (int i = 0; i < 5; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(PTS) : c.rng.real(-3, 4);
    long double in = horner(q, a), w = horner(pc, in), m = mag(pc, mag(q, a)) + 1e-30L, v;
    auto go = [&](const char* what, auto& E) { bool k = inx ? number(sub(E, x = a), v) : number(sub(E, y2 = a), v); if (!k) { c.count("left_symbolic"); return; } c.count("substitutions_compared"); c.nontrivial(); c.check(std::isfinite(v) && fabsl(v - w) <= 1e-11L * m, what, std::string(t) + " at " + num17(a) + " is " + num17(v) + " expected " + num17(w)); };
    go("polynomial substituted", e); go("polynomial substituted and expanded", ex);
  }
}
