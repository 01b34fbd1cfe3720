// C17: numeric root searches - every evaluation point, the reported success and the returned point are watched
#include <stator/symbolic/numeric.hpp>
#include <cfloat>
#include "pref.hpp"
using namespace vf;
namespace num = stator::numeric;
typedef std::array<double, 3> S3;

struct Fun {
  std::string name;
  std::function<S3(double)> f;          // value and two derivatives
  double lo = -HUGE_VAL, hi = HUGE_VAL; // where it is smooth
  std::vector<double> roots, extrema;
  double slo, shi;                      // where starting points are drawn
  bool wild = false;                    // values so large or small that products of the derivatives leave the range of double
};
static Fun shift_scale(Fun g, double a, double s, double k) { // k*g((x-a)/s)
  Fun h = g; h.name += " at " + str(a) + " scale " + str(s) + " times " + str(k);
  auto f = g.f; h.f = [f, a, s, k](double x) { S3 r = f((x - a) / s); return S3{{k * r[0], k / s * r[1], k / s / s * r[2]}}; };
  auto m = [&](double x) { return a + s * x; };
  for (auto& x : h.roots) x = m(x); for (auto& x : h.extrema) x = m(x);
  h.lo = m(g.lo); h.hi = m(g.hi); h.slo = m(g.slo); h.shi = m(g.shi);
  return h;
}
static double find(const std::function<S3(double)>& f, int d, double a, double b) { for (int i = 0; i < 200; ++i) { double m = (a + b) / 2; if ((f(m)[d] < 0) == (f(a)[d] < 0)) a = m; else b = m; } return a; }
// with an axis scaled to the ends of the range of double
static Fun pick(Case& c, bool& hasroot, bool extreme = false) {
  Fun g; hasroot = true; int k = (int)c.rng.below(12);
  switch (k) {
    case 0: case 1: { // polynomial with separated roots
      int n = (int)c.rng.range(1, 6); RP p(1); p.v[0] = p.m[0] = c.rng.chance(1, 2) ? 1 : -1; double x = -c.rng.real(0, 3) * n / 2;
      for (int i = 0; i < n; ++i) { x += c.rng.real(0.5, 3); g.roots.push_back(x); RP q(2); q.v[0] = -x; q.v[1] = 1; q.m[0] = std::fabs(x); q.m[1] = 1; p = rmul(p, q); }
      if (c.rng.chance(1, 3)) { RP q(3); double a = c.rng.real(-3, 3), b = c.rng.real(0.5, 2); q.v[0] = a * a + b * b; q.v[1] = -2 * a; q.v[2] = 1; p = rmul(p, q); }
      RP d = rder(p), dd = rder(d); g.f = [p, d, dd](double x) { return S3{{(double)rval(p, x).v, (double)rval(d, x).v, (double)rval(dd, x).v}}; };
      for (size_t i = 0; i + 1 < g.roots.size(); ++i) g.extrema.push_back(find(g.f, 1, g.roots[i], g.roots[i + 1]));
      g.slo = g.roots.front() - 4; g.shi = g.roots.back() + 4; g.name = "polynomial " + rstr(p); break; }
    case 2: g.name = "sin"; g.f = [](double x) { return S3{{std::sin(x), std::cos(x), -std::sin(x)}}; }; for (int i = -6; i <= 6; ++i) g.roots.push_back(i * M_PI), g.extrema.push_back(i * M_PI + M_PI / 2); g.lo = -6.5 * M_PI; g.hi = 6.5 * M_PI; g.slo = -15; g.shi = 15; break;
    case 3: { double q = c.rng.real(0.1, 20); g.name = "exp-" + str(q); g.f = [q](double x) { return S3{{std::exp(x) - q, std::exp(x), std::exp(x)}}; }; g.roots = {std::log(q)}; g.slo = -6; g.shi = 6; break; }
    case 4: { double q = c.rng.real(-2, 3); g.name = "log-" + str(q); g.f = [q](double x) { return S3{{std::log(x) - q, 1 / x, -1 / (x * x)}}; }; g.roots = {std::exp(q)}; g.lo = 1e-6; g.slo = 0.01; g.shi = 30; break; }
    case 5: g.name = "x-cos"; g.f = [](double x) { return S3{{x - std::cos(x), 1 + std::sin(x), std::cos(x)}}; }; g.roots = {0.73908513321516064166}; g.slo = -3; g.shi = 3; break;
    case 6: g.name = "atan"; g.f = [](double x) { double d = 1 + x * x; return S3{{std::atan(x), 1 / d, -2 * x / (d * d)}}; }; g.roots = {0}; g.slo = -20; g.shi = 20; break;
    case 7: g.name = "x/(1+x^2)"; g.f = [](double x) { double d = 1 + x * x; return S3{{x / d, (1 - x * x) / (d * d), 2 * x * (x * x - 3) / (d * d * d)}}; }; g.roots = {0}; g.extrema = {-1, 1}; g.slo = -6; g.shi = 6; break;
    case 8: { double q = c.rng.real(0.5, 30); g.name = "sqrt-" + str(q); g.f = [q](double x) { return S3{{std::sqrt(x) - q, 0.5 / std::sqrt(x), -0.25 / (x * std::sqrt(x))}}; }; g.roots = {q * q}; g.slo = 0.01 * q * q; g.shi = 5 * q * q; break; } // NaN below zero
    case 9: { double q = c.rng.real(0.2, 3); g.name = "x^2+" + str(q); g.f = [q](double x) { return S3{{x * x + q, 2 * x, 2}}; }; g.extrema = {0}; g.slo = -5; g.shi = 5; hasroot = false; break; }
    case 10: g.name = "cosh"; g.f = [](double x) { return S3{{std::cosh(x), std::sinh(x), std::cosh(x)}}; }; g.extrema = {0}; g.slo = -5; g.shi = 5; hasroot = false; break;
    default: { double q = c.rng.real(0.2, 3); g.name = "-x^2-" + str(q); g.f = [q](double x) { return S3{{-x * x - q, -2 * x, -2}}; }; g.extrema = {0}; g.slo = -5; g.shi = 5; hasroot = false; break; }
  }
  if (extreme) {
    int e = (int)c.rng.range(300, 1000); if (c.rng.chance(1, 2)) e = -e; else if (c.rng.chance(1, 3)) e = 1023 - std::ilogb(std::max(std::fabs(g.slo), std::fabs(g.shi))) - 1;
    g = shift_scale(g, 0, std::ldexp(1.0, e), std::ldexp(c.rng.chance(1, 2) ? 1.0 : -1.0, std::min(e, 980) + (int)c.rng.range(-20, 20))); g.wild = true; c.count("extreme_positions");
  } else
  if (k != 8 || c.rng.chance(1, 2)) if (c.rng.chance(1, 2)) {
    double s = std::ldexp(c.rng.chance(1, 2) ? 1.0 : 1.5, (int)c.rng.range(-12, 12)), a = c.rng.chance(1, 3) ? 0.0 : s * c.rng.range(-40, 40);
    int e = c.rng.chance(1, 4) ? (int)c.rng.range(-900, 900) : (int)c.rng.range(-20, 20);
    g = shift_scale(g, a, s, std::ldexp(c.rng.chance(1, 2) ? 1.0 : -1.0, e)); if (e < -250 || e > 250) { g.wild = true; c.count("extreme_scales"); }
  }
  return g;
}
static double nearest(const Fun& g, double x) { double d = HUGE_VAL, b = 0; for (double r : g.roots) if (std::fabs(x - r) < d) { d = std::fabs(x - r); b = r; } return b; }

struct Watch { const Fun& g; double lo, hi; mutable long n = 0; mutable long outside = 0; mutable double bad = 0; mutable long nan = 0;
  S3 operator()(double x) const { ++n; if (!(x >= lo && x <= hi)) { ++outside; bad = x; } S3 r = g.f(x); if (std::isnan(r[0])) ++nan; return r; } };

static void search(Case& c, bool easy, bool extreme = false) {
  bool hasroot; Fun g = pick(c, hasroot, extreme); if (easy && !hasroot) return;
  double x0 = 0, lo = -HUGE_VAL, hi = HUGE_VAL; int digits = c.rng.chance(1, 2) ? 26 : (int)c.rng.range(8, 45);
  bool start_on_root = false;
  if (easy) {
    double r = c.rng.pick(g.roots); auto s = g.f(r);
    double w = std::fabs(s[1] / (std::fabs(s[2]) + 1e-30)); double scale = g.shi - g.slo; w = std::min(w, 0.1 * scale) * 0.02;
    x0 = r + (c.rng.chance(1, 2) ? w : -w) * c.rng.unit();
    lo = c.rng.chance(1, 2) ? -HUGE_VAL : r - 1.5 * w - 0.01 * scale; hi = c.rng.chance(1, 2) ? HUGE_VAL : r + 1.5 * w + 0.01 * scale;
    lo = std::max(lo, g.lo); hi = std::min(hi, g.hi); if (x0 <= lo || x0 >= hi) return;
  } else {
    switch (c.rng.below(6)) {
      case 0: if (!g.roots.empty()) { x0 = c.rng.pick(g.roots); if (g.f(x0)[0] == 0) start_on_root = true; break; }
      case 1: if (!g.extrema.empty()) { double e = c.rng.pick(g.extrema); x0 = c.rng.chance(1, 4) ? e : e + (c.rng.chance(1, 2) ? 1 : -1) * std::max(std::fabs(e), extreme ? 0 : 1e-8) * std::pow(10.0, c.rng.real(-15, -3)); break; } // beside a stationary point
      default: x0 = c.rng.real(g.slo, g.shi);
    }
    int b = (int)c.rng.below(4);
    if (b & 1) lo = c.rng.chance(1, 8) ? x0 : x0 - c.rng.unit() * (g.shi - g.slo);
    if (b & 2) hi = c.rng.chance(1, 8) ? x0 : x0 + c.rng.unit() * (g.shi - g.slo);
    if (extreme && c.rng.chance(1, 3)) { lo = c.rng.chance(1, 2) ? -DBL_MAX : lo; hi = c.rng.chance(1, 2) ? DBL_MAX : hi; }
    lo = std::max(lo, g.lo); hi = std::min(hi, g.hi);
    if (x0 < lo) x0 = lo; if (x0 > hi) x0 = hi;
  }
  if (!(lo <= x0 && x0 <= hi)) return;
  size_t iters = c.rng.chance(1, 3) ? (size_t)c.rng.range(1, 60) : 0; if (easy) iters = 0;
  int which = (int)c.rng.below(2); if (g.wild && easy) which = 0;
  if (extreme) digits = std::max(digits, 20);
  std::string what = which ? "halleys_method" : "newton_raphson";
  c.desc(what + " on " + g.name + " from " + str(x0) + " in [" + str(lo) + "," + str(hi) + "] iterations " + str(iters) + " digits " + str(digits));
  Watch w{g, lo, hi}; double x = x0; bool ok;
  auto f = [&](double t) { return w(t); };
  if (which) ok = num::halleys_method(f, x, lo, hi, iters, digits); else ok = num::newton_raphson(f, x, lo, hi, iters, digits);
  c.count("evaluations", w.n); if (w.nan) c.count("runs_meeting_NaN");
  c.check(!w.outside, "search-outside", what + " evaluated the function at " + str(w.bad) + " outside [" + str(lo) + "," + str(hi) + "]");
  if (iters) c.check(w.n <= (long)(1 + 5 * iters), "search-iterations", what + " made " + str(w.n) + " evaluations with an iteration limit of " + str(iters));
  if (ok) {
    c.check(x >= lo && x <= hi, "search-result-outside", "returned " + str(x));
    double r = nearest(g, x), prec = std::ldexp(1.0, 1 - digits); auto s = g.f(x);
    // the size of the last step bounds the distance to the root only up to the curvature there
    double noise = g.roots.empty() ? 0 : 64 * 0x1p-52 * (std::fabs(g.f(r)[0]) / (0x1p-52 * 1) + 0) / std::max(std::fabs(g.f(r)[1]), 1e-300);
    double tol = 4 * prec * std::fabs(x) + 64 * 0x1p-52 * std::fabs(g.shi - g.slo) + 8 * noise * 0x1p-6;
    c.check(s[0] == 0 || (!g.roots.empty() && std::fabs(x - r) <= tol), "search-false-success", what + " reported success at " + str(x) + " where the function is " + str(s[0]) + "; nearest root " + (g.roots.empty() ? std::string("none") : str(r)));
    c.count("successes");
  } else c.count("failures");
  if (start_on_root) { c.check(ok && x == x0, "search-start-on-root", what + " did not return the root it was started on"); c.count("started_on_root"); }
  if (easy) c.check(ok, "search-gives-up", what + " failed although started next to the simple root " + str(nearest(g, x0)) + "; stopped at " + str(x));
  c.nontrivial();
}

// single steps, checked one by one against the invariants they maintain
static void steps(Case& c) {
  bool hasroot; Fun g = pick(c, hasroot);
  double lo = std::max(g.lo, c.rng.chance(1, 3) ? -HUGE_VAL : g.slo - 1), hi = std::min(g.hi, c.rng.chance(1, 3) ? HUGE_VAL : g.shi + 1); double x = c.rng.real(g.slo, g.shi);
  if (!(x > lo && x < hi)) return;
  double prec = std::ldexp(1.0, -(int)c.rng.range(10, 45));
  Watch w{g, lo, hi}; auto f = [&](double t) { return w(t); };
  std::string d = "steps on " + g.name + " from " + str(x) + " in [" + str(lo) + "," + str(hi) + "]:"; c.desc(d);
  S3 st = g.f(x);
  for (int i = 0; i < 12; ++i) {
    int k = (int)c.rng.below(4); if (g.wild && (k == 1 || k == 2)) k = 0; double ox = x, ol = lo, oh = hi; S3 os = st; if (std::isnan(st[0])) return;
    static const char* names[] = {" newton", " halley", " schroeder", " bisection"}; d += names[k]; c.desc(d);
    int r = k == 0 ? num::newton_raphson_step(f, st, x, lo, hi, prec) : k == 1 ? num::halley_step(f, st, x, lo, hi, prec) : k == 2 ? num::schroeder_step(f, st, x, lo, hi, prec) : num::bisection_step(f, st, x, lo, hi, prec);
    c.check(r >= 0 && r <= 2, "step-status", "status " + str(r));
    c.check(!w.outside, "search-outside", "evaluated at " + str(w.bad));
    c.check(lo >= ol && hi <= oh && (lo <= x || r == 0) && (x <= hi || r == 0), "step-bounds", "bounds went from [" + str(ol) + "," + str(oh) + "] to [" + str(lo) + "," + str(hi) + "], x from " + str(ox) + " to " + str(x));
    if (r == 0) { c.check(x == ox && lo == ol && hi == oh && st == os, "step-failed-changed", "a failed step changed its state"); c.count("steps_failed"); continue; }
    S3 now = g.f(x); c.check(st == now || std::isnan(now[0]), "step-state", "the function state is not the one at the returned point");
    if (k < 3 && r == 1) c.check(std::fabs(st[0]) <= std::fabs(os[0]), "step-increase", "an accepted step increased the function from " + str(os[0]) + " to " + str(st[0]));
    if (k == 0) { double want = ox - os[0] / os[1]; c.check(std::fabs(x - want) <= 8 * 0x1p-52 * (std::fabs(ox) + std::fabs(want)), "step-newton", "the Newton step from " + str(ox) + " went to " + str(x) + " instead of " + str(want)); }
    if (k == 1) { LD f0 = os[0], f1 = os[1], f2 = os[2], want = ox - 2 * f0 * f1 / (2 * f1 * f1 - f0 * f2), cond = (2 * f1 * f1 + std::fabs(f0 * f2)) / std::fabs(2 * f1 * f1 - f0 * f2); c.check(std::fabs(x - want) <= 16 * 0x1p-52L * cond * (std::fabs((LD)ox) + std::fabs(want)), "step-halley", "the Halley step from " + str(ox) + " went to " + str(x) + " instead of " + str((double)want)); }
    if (k == 2) { LD f0 = os[0], f1 = os[1], f2 = os[2], t = f0 / f1, u = f2 * f0 * f0 / (2 * f1 * f1 * f1), want = ox - t - u; c.check(std::fabs(x - want) <= 16 * 0x1p-52L * (std::fabs((LD)ox) + std::fabs(t) + std::fabs(u)), "step-schroeder", "the Schroeder step from " + str(ox) + " went to " + str(x) + " instead of " + str((double)want)); }
    if (k == 3) { c.check(x == (double)(((LD)ol + (LD)oh) / 2), "step-bisection", "the bisection step went to " + str(x)); if (r == 1) { auto a = g.f(lo)[0], b = g.f(hi)[0]; c.check(std::signbit(a) != std::signbit(b), "step-bisection", "no sign change over the new bounds [" + str(lo) + "," + str(hi) + "]"); } }
    c.count("steps");
    if (r == 2) { if (k == 3 || k == 0) { double root = nearest(g, x); c.check(st[0] == 0 || k == 3 || (!g.roots.empty() && std::fabs(x - root) <= 4 * prec * std::fabs(x) + 64 * 0x1p-52 * std::fabs(g.shi - g.slo)), "search-false-success", "a step reported convergence at " + str(x)); } c.count("steps_converged"); break; }
  }
  c.nontrivial();
}

template <class Real> void bisect(Case& c, bool extreme = false) {
  bool hasroot; Fun g = pick(c, hasroot, extreme);
  int digits = c.rng.chance(1, 2) ? std::numeric_limits<Real>::digits / 2 : (int)c.rng.range(4, std::numeric_limits<Real>::digits + 4);
  Real lo, hi;
  if (!g.roots.empty() && c.rng.chance(3, 4)) { double r = c.rng.pick(g.roots), w = g.shi - g.slo; lo = r - w * std::pow(10.0, c.rng.real(-4, 0)); hi = r + w * std::pow(10.0, c.rng.real(-4, 0)); }
  else { lo = c.rng.real(g.slo, g.shi); hi = c.rng.real(g.slo, g.shi); if (c.rng.chance(7, 8) && lo > hi) std::swap(lo, hi); }
  if (extreme && c.rng.chance(1, 3)) { if (c.rng.chance(1, 2)) lo = -DBL_MAX; if (c.rng.chance(1, 2)) hi = DBL_MAX; }
  lo = std::max<Real>(lo, g.lo); hi = std::min<Real>(hi, g.hi);
  if (c.rng.chance(1, 30)) hi = HUGE_VAL; if (c.rng.chance(1, 30)) lo = -HUGE_VAL;
  size_t iters = c.rng.chance(1, 4) ? (size_t)c.rng.range(1, 80) : 0;
  c.desc("bisection of " + g.name + " on [" + str((double)lo) + "," + str((double)hi) + "] iterations " + str(iters) + " digits " + str(digits) + " bits " + str(std::numeric_limits<Real>::digits));
  long n = 0; bool outside = false;
  auto F = [&](Real x) -> Real { ++n; if (!(x >= lo && x <= hi)) outside = true; return (Real)g.f((double)x)[0]; };
  Real x = 12345; bool ok = num::bisection(F, x, lo, hi, iters, digits);
  c.check(!outside, "search-outside", "bisection evaluated outside the interval");
  c.count("evaluations", n);
  if (iters) c.check(n <= (long)(2 + iters), "search-iterations", "bisection made " + str(n) + " evaluations with an iteration limit of " + str(iters));
  bool valid = lo < hi && !std::isinf(lo) && !std::isinf(hi);
  if (!valid) { c.check(!ok, "bisection-invalid-interval", "success on an invalid interval"); c.count("invalid_intervals"); return; }
  Real a = (Real)g.f((double)lo)[0], b = (Real)g.f((double)hi)[0]; if (std::isnan(a) || std::isnan(b) || a == 0 || b == 0) return;
  bool change = (a < 0) != (b < 0);
  if (!change) { c.check(!ok, "bisection-no-change", "success at " + str((double)x) + " without a sign change at the ends"); c.count("no_sign_change"); return; }
  if (!iters) c.check(ok, "bisection-fails", "failed although the sign changes over the interval");
  if (!ok) { c.count("iteration_limit_hit"); return; }
  c.check(x >= lo && x <= hi, "search-result-outside", "returned " + str((double)x));
  Real delta = std::ldexp((Real)1, 1 - digits) * std::fabs(x) * (Real)1.01 + 4 * std::numeric_limits<Real>::epsilon() * std::max(std::fabs(x), std::numeric_limits<Real>::min() * (Real)1);
  if (std::numeric_limits<Real>::digits > 53) delta = std::max<Real>(delta, 4 * 0x1p-53 * std::fabs(x));
  Real l = std::max(lo, x - delta), h = std::min(hi, x + delta); Real fl = (Real)g.f((double)l)[0], fh = (Real)g.f((double)h)[0], fx = (Real)g.f((double)x)[0];
  c.check(fx == 0 || (fl < 0) != (fh < 0) || (!g.roots.empty() && std::fabs(x - nearest(g, x)) <= delta) || fl == 0 || fh == 0, "bisection-precision", "returned " + str((double)x) + " but the sign does not change within " + str((double)delta) + " of it");
  c.count("bisections_succeeded"); c.nontrivial();
}

// functions that become NaN: every search terminates and does not claim success there
static void nans(Case& c) {
  double edge = c.rng.real(-1, 3), root = edge + c.rng.real(-2, 2); bool above = c.rng.chance(1, 2); int kind = (int)c.rng.below(3);
  auto f = [=](double x) { S3 r{{x - root, 1, 0}}; if (above ? x > edge : x < edge) { r[0] = NAN; if (kind > 0) r[1] = NAN; if (kind > 1) r[2] = NAN; } return r; };
  auto cubic = [=](double x) { S3 r{{(x - root) * (x - root) * (x - root) - 0.3, 3 * (x - root) * (x - root), 6 * (x - root)}}; if (above ? x > edge : x < edge) { r[0] = NAN; if (kind > 0) r[1] = NAN; if (kind > 1) r[2] = NAN; } return r; };
  bool cu = c.rng.chance(1, 2); double x0 = c.rng.real(-4, 6), lo = x0 - c.rng.real(0, 5), hi = x0 + c.rng.real(0, 5); bool inf = c.rng.chance(1, 3); if (inf) { lo = -HUGE_VAL; hi = HUGE_VAL; }
  int which = (int)c.rng.below(3); long n = 0; bool outside = false;
  c.desc("NaN " + std::string(above ? "above " : "below ") + str(edge) + " root " + str(root) + (cu ? " cubic" : " linear") + " from " + str(x0) + " [" + str(lo) + "," + str(hi) + "] method " + str(which));
  double r = cu ? root + std::cbrt(0.3) : root;
  auto F = [&](double x) { ++n; if (n > 2000000) throw std::runtime_error("two million evaluations"); if (!(x >= lo && x <= hi)) outside = true; return cu ? cubic(x) : f(x); };
  double x = x0; bool ok;
  try { ok = which == 0 ? num::newton_raphson(F, x, lo, hi) : which == 1 ? num::halleys_method(F, x, lo, hi) : num::bisection([&](double t) { return F(t)[0]; }, x, lo, hi); }
  catch (std::runtime_error& e) { c.fail("search-endless", e.what()); }
  c.check(!outside, "search-outside", "evaluated outside the interval");
  if (ok) c.check(std::fabs(x - r) <= 1e-6 * std::max(1.0, std::fabs(r)), "search-false-success", "success at " + str(x) + " but the root is " + str(r));
  c.count(ok ? "nan_success" : "nan_failure"); c.nontrivial();
}

int main(int argc, char** argv) {
  Harness h("C17");
  h.add("search", 300000, 12000000, [](Case& c) { search(c, false); });
  h.add("near-root", 60000, 2000000, [](Case& c) { search(c, true); });
  h.add("steps", 60000, 2000000, steps);
  h.add("bisection", 120000, 5000000, [](Case& c) { switch (c.idx % 4) { case 0: bisect<float>(c); break; case 1: bisect<long double>(c); break; default: bisect<double>(c); } });
  h.add("extreme-positions", 80000, 3000000, [](Case& c) { if (c.idx % 2) search(c, false, true); else bisect<double>(c, true); });
  h.add("nan", 60000, 2000000, nans);
  return h.main(argc, argv);
}
