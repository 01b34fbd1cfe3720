#pragma once
#define VF_MAXO 14
#include <stator/symbolic/ad.hpp>
#include "series.hpp"
using namespace vf; using namespace sym;
static constexpr char nx2[] = "x";
static std::string num17(long double v) { std::ostringstream o; o << std::setprecision(20) << v; return o.str(); }
static bool cmp(const EV& r, double g, long double scale) { return std::isfinite(g) && fabsl(g - r.v) <= 1e4L * r.e + 1e-12L * fabsl(r.v) + 1e-14L * scale; }
template <class F, class O, class OX> void run(Case& c, const char* t, F f, O o, OX ox) {
  c.desc(t);
  Var<> x; Var<nx2> x2;
  auto e = f(x);
  const double pts[] = {-3, -2, -1, -.5, 0, 0, .5, 1, 2, 3, 1.5};
  for (int i = 0; i < 8; ++i) {
    double a = c.rng.chance(1, 2) ? c.rng.pick(pts) : c.rng.real(-3, 4); if (i > 4) a = fabs(a) + .125;
    S s; s = cst({mk(a, 0)}); s.c[1] = K(1.0);
    S r = o(s);
    auto g = sym::ad<MAXO - 1>(e, x = a);
    auto g3 = sym::ad<3>(e, x2 = a); auto g0 = sym::ad<0>(e, x2 = a); auto g1 = sym::ad<1>(e, x = a);
    long double scale = 0; bool all = true;
    for (int k = 0; k < MAXO && all; ++k) {
      const EV& v = r.c[k].v;
      all = v.ok && v.e * 1e5L <= 1e-4L * std::max(fabsl(v.v), 1e-2L);
      if (!all) break;
      scale = std::max(scale, fabsl(v.v));
      c.count("coefficients_compared"); c.nontrivial();
      auto msg = [&](double got, int N) { return std::string(t) + " at x=" + num17(a) + ": coefficient " + std::to_string(k) + " of ad<" + std::to_string(N) + "> is " + num17(got) + " expected " + num17(v.v); };
      c.check(cmp(v, g[k], scale), "coefficient", msg(g[k], MAXO - 1));
      if (k <= 3) c.check(cmp(v, g3[k], scale), "coefficient", msg(g3[k], 3));
      if (k <= 1) c.check(cmp(v, g1[k], scale), "coefficient", msg(g1[k], 1));
      if (k == 0) c.check(cmp(v, g0[0], scale), "coefficient", msg(g0[0], 0));
      if (k == 1) {
        D d = ox(D{mk(a, 0)});
        if (wellcond(d.v)) { c.count("derivatives_compared"); c.check(fabsl(d.v.v - g[1]) <= 1e4L * (d.v.e + v.e) + 1e-12L * fabsl(v.v), "derivative", std::string(t) + " at x=" + num17(a) + ": second coefficient " + num17(g[1]) + " but the derivative is " + num17(d.v.v)); }
        auto dv = sub(derivative(e, x), x = a);
        if constexpr (std::is_arithmetic<decltype(dv)>::value || is_C<decltype(dv)>::value) if (wellcond(d.v)) c.check(fabsl(double(dv) - g[1]) <= 1e4L * (d.v.e + v.e) + 1e-12L * fabsl(v.v), "derivative", std::string(t) + " at x=" + num17(a) + ": second coefficient " + num17(g[1]) + " but the symbolic derivative is " + num17(double(dv)));
      }
    }
  }
}
