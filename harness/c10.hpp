#pragma once
#if VF_RT
#include "lib.hpp"
#else
#include <stator/symbolic/symbolic.hpp>
#endif
#include "ct.hpp"
using namespace vf; using namespace sym;
static constexpr char ny1[] = "y"; static constexpr char ny2[] = "y"; static constexpr char nx2[] = "x"; static constexpr char nz[] = "z";

#if VF_RT
static EV rtvalue(const Expr& e, const Env& env) { EV v = eval(read(e), env); if (!v.ok) v.v = v.p; return v; }
static std::string show(const Expr& e) { return text(read(e)); }
#endif
// the number an evaluated compile-time expression stands for; false if it is still symbolic
template <class R> bool value(const R& r, long double& v) {
  if constexpr (std::is_arithmetic<R>::value) { v = r; return true; }
  else if constexpr (is_C<R>::value) { v = double(r); return true; }
  else {
#if VF_RT
    EV e = rtvalue(Expr(r), Env()); v = e.v; return true;
#else
    return false;
#endif
  }
}
static std::string num17(long double v) { std::ostringstream o; o << std::setprecision(20) << v; return o.str(); }
static void judge(Case& c, const char* what, const char* t, double a, double b, const D& o, long double got) {
  c.count("values_compared");
  c.check(close(o.v, got), what, std::string(t) + " at x=" + num17(a) + " y=" + num17(b) + ": " + what + " gives " + num17(got) + " expected " + num17(o.v.v));
}
template <class E> void point(Case& c, const char* what, const char* t, const E& e, double a, double b, const D& o) {
  Var<> x; Var<ny2> y; Var<nx2> x2; Var<nz> z;
  long double v;
  if (!wellcond(o.v)) return;
  // a different name must not be replaced, whatever the order of substitution
  if (value(sub(sub(e, x = a), y = b), v)) { judge(c, what, t, a, b, o, v); c.nontrivial(); } else c.count("left_symbolic");
  if (value(sub(sub(e, y = b), x2 = a), v)) judge(c, what, t, a, b, o, v);
  if (value(sub(sub(sub(e, z = 77.0), x2 = a), y = b), v)) judge(c, what, t, a, b, o, v);
#if VF_RT
  judge(c, (std::string(what) + ", converted").c_str(), t, a, b, o, rtvalue(Expr(e), {{"x", a}, {"y", b}}).v);
#endif
}
template <int FL, class F, class O, class OX, class OY>
void run(Case& c, const char* t, F f, O o, OX ox, OY oy) {
  c.desc(t);
  Var<> x; Var<ny1> y; Var<nx2> x2; Var<ny2> y2;
  auto e = f(x, y);
  auto dx = derivative(e, x2); auto dy = derivative(e, y2);
  const double pts[] = {-3, -2, -1, -.5, 0, .5, 1, 2, 3, 1.5};
  for (int i = 0; i < 6; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(pts) : c.rng.real(-3, 4), b = c.rng.chance(1, 2) ? c.rng.pick(pts) : c.rng.real(-3, 4);
    if (i > 3) { a = fabs(a) + .125; b = fabs(b) + .25; }
    D A{mk(a, 0)}, B{mk(b, 0)};
    D v = o(A, B), vx = ox(A, B), vy = oy(A, B);
    if (wellcond(v.v)) { long double g; if (value(f(a, b), g)) judge(c, "direct computation", t, a, b, v, g); }
    point(c, "compile-time evaluation", t, e, a, b, v);
    // derivatives are claimed where the formula itself is defined
    if (wellcond(v.v)) { point(c, "derivative in x", t, dx, a, b, vx); point(c, "derivative in y", t, dy, a, b, vy); }
    if constexpr (FL & 1) point(c, "compile-time simplification", t, try_simplify(e), a, b, v);
    if constexpr (FL & 2) if (wellcond(v.v)) { point(c, "simplified derivative in x", t, try_simplify(dx), a, b, vx); point(c, "simplified derivative in y", t, try_simplify(dy), a, b, vy); }
#if VF_RT
    Env env{{"x", a}, {"y", b}};
    Expr r(e);
    if (wellcond(v.v)) {
      judge(c, "run-time substitution", t, a, b, v, rtvalue(sub(r, envdict(env)), env).v);
      judge(c, "run-time substitution by equations", t, a, b, v, rtvalue(sub(sub(r, Var<>() = a), Var<ny2>() = b), env).v);
      judge(c, "run-time simplification", t, a, b, v, rtvalue(simplify(r), env).v);
      { Expr s = sub(r, Var<ny1>() = b); judge(c, "fast substitution", t, a, b, v, fast_sub(s, Var<nx2>() = a)); }
      { D w = o(A, A); if (wellcond(w.v)) judge(c, "variable renamed", t, a, a, w, rtvalue(sub(r, y = Expr("x")), env).v); }
      if (wellcond(vx.v)) { judge(c, "run-time derivative in x", t, a, b, vx, rtvalue(simplify(derivative(r, Var<>())), env).v); judge(c, "run-time derivative by name", t, a, b, vx, rtvalue(simplify(derivative(r, Expr("x"))), env).v); }
      if (wellcond(vy.v)) judge(c, "run-time derivative in y", t, a, b, vy, rtvalue(simplify(derivative(r, Var<ny2>())), env).v);
    }
    c.check(Expr(e) == r, "conversion", std::string(t) + ": two conversions differ");
#endif
  }
}

// the value of a small formula, as it is and simplified
template <class F, class O> void shape(Case& c, const char* t, F f, O o) {
  c.desc(t);
  Var<> x; Var<ny1> y; Var<nx2> x2; Var<ny2> y2;
  auto e = f(x, y);
  auto s = try_simplify(e); auto s2 = try_simplify(s);
  for (int i = 0; i < 5; ++i) {
    double a = i == 0 ? 1.5 : c.rng.real(-3, 4), b = c.rng.real(-3, 4);
    if (i > 2) { a = fabs(a) + .125; b = fabs(b) + .25; }
    D v = o(D{mk(a, 0)}, D{mk(b, 0)}); long double g;
    if (!wellcond(v.v)) continue;
    if (value(f(a, b), g)) judge(c, "direct computation", t, a, b, v, g);
    if (value(sub(sub(e, x2 = a), y2 = b), g)) { judge(c, "compile-time evaluation", t, a, b, v, g); c.nontrivial(); } else c.count("left_symbolic");
    if (value(sub(sub(s, x2 = a), y2 = b), g)) judge(c, "compile-time simplification", t, a, b, v, g);
    if (value(sub(sub(s2, y2 = b), x2 = a), g)) judge(c, "repeated simplification", t, a, b, v, g);
  }
}
