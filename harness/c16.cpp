// C16: root counts, sign-change tests, root bounds and isolation against known roots
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/polynomial.hpp>
#include "proots.hpp"
using namespace sym; using namespace vf;
#ifndef CONDLIM
#define CONDLIM 1e-11L
#endif
static size_t nroots(const PR& p, LD a, LD b) { size_t n = 0; for (LD r : p.real) if (r > a && r <= b) ++n; return n; }
// is x a safe distance from every root (and its rounding)?
static bool clear(const PR& p, LD x) { for (LD r : p.real) if (std::fabs(x - r) <= 1e-6L * std::max(std::fabs(x), std::fabs(r))) return false; return true; }
static double point(Case& c, const PR& p) {
  for (int i = 0; i < 50; ++i) {
    double x;
    switch (c.rng.below(6)) {
      case 0: x = c.rng.chance(1, 2) ? INFINITY : -INFINITY; break;
      case 1: x = 0; break;
      case 2: x = c.rng.range(-20, 20) / 4.0; break;
      case 3: if (p.real.size() >= 2) { size_t k = c.rng.below(p.real.size() - 1); x = (double)((p.real[k] + p.real[k + 1]) / 2); break; } // between two neighbours
      case 4: if (!p.real.empty()) { LD r = c.rng.pick(p.real); x = (double)(r * (1 + (c.rng.chance(1, 2) ? 1 : -1) * 0.01L)); break; } // just beside a root
      default: x = c.rng.real(-15, 15);
    }
    if (std::isinf(x) || clear(p, x)) return x;
  }
  return INFINITY;
}
// reference sign variations of coefficients; -1 when a sign is in doubt
static int variations(const RP& a, LD eps) { int n = 0, last = 0; for (size_t i = 0; i < a.size(); ++i) { if (a.m[i] == 0) continue; bool z = a.v[i] == 0; if (!z && std::fabs(a.v[i]) < eps * a.m[i]) return -1; if (z && eps > 0 && a.m[i] > 0) return -1; int s = z ? 0 : a.v[i] > 0 ? 1 : -1; if (s && last && s != last) ++n; if (s) last = s; } return n; }

template <size_t N> struct Run {
  static void all(Case& c, const PR& p) {
    Polynomial<N, double> f; for (size_t i = 0; i <= p.degree(); ++i) f[i] = p.coef[i];
    const auto f0 = f;
    c.desc("order " + str(N) + " " + p.str());
    RP F = rp(f); LD eps = p.exact ? 0 : 1e-9L;
    const size_t pos = nroots(p, 0, HUGE_VALL);
    // Sturm
    auto chain = sturm_chain(f);
    ErrChain ec(p.coef);
    if (!ec.certain) c.count("sturm_uncertain");
    else {
      for (int rep = 0; rep < 4; ++rep) {
        double a = rep == 0 ? -INFINITY : point(c, p), b = rep == 0 ? INFINITY : point(c, p);
        if (!ec.certain_at(a) || !ec.certain_at(b)) { c.count("sturm_uncertain_points"); continue; }
        size_t want = nroots(p, std::min(a, b), std::max(a, b)), got = chain.roots(a, b);
        c.check(got == want, "sturm-count", "Sturm chain counts " + str(got) + " roots in (" + str(a) + "," + str(b) + ") instead of " + str(want) + "; " + p.str());
        c.count("sturm_counts");
      }
      auto g0 = chain.get(0); c.check(std::equal(g0.begin(), g0.end(), f.begin()), "sturm-chain", "first member is not the polynomial");
      auto g1 = chain.get(1); RP D = rder(F); for (size_t i = 0; i <= N; ++i) c.check(std::fabs((LD)g1[i] - D.at(i)) <= 1e-15L * D.mag(i), "sturm-chain", "second member is not the derivative");
      if (p.degree() == N) { // the sign pattern is decreasing along the axis: counts add up over a partition
        double xs[4] = {point(c, p), point(c, p), point(c, p), point(c, p)}; std::sort(xs, xs + 4);
        if (ec.certain_at(xs[0]) && ec.certain_at(xs[1]) && ec.certain_at(xs[2]) && ec.certain_at(xs[3])) {
        size_t s = chain.roots(xs[0], xs[1]) + chain.roots(xs[1], xs[2]) + chain.roots(xs[2], xs[3]);
        c.check(s == chain.roots(xs[0], xs[3]), "sturm-additive", "counts over a partition do not add up for " + p.str()); c.count("sturm_partitions"); }
      }
    }
    // sign-change tests
    {
      size_t got = descartes_rule_of_signs(f); int want = variations(F, 0);
      c.check((int)got == want, "descartes-count", "descartes_rule_of_signs is " + str(got) + " instead of " + str(want) + " for " + p.str());
      c.check(got >= pos && (got - pos) % 2 == 0, "descartes-bound", "descartes_rule_of_signs is " + str(got) + " for " + str(pos) + " positive roots; " + p.str());
      bool anyzero = false; for (LD r : p.real) anyzero |= r == 1;
      RP B = rcompose(rrev(F), 1, 1); int vb = variations(B, eps);
      if (vb >= 0) {
        size_t n = nroots(p, 0, 1) - (anyzero ? 1 : 0); size_t g = budan_01_test(f);
        c.check(g >= n && (g - n) % 2 == 0 && (int)g == vb, "budan-01", "budan_01_test is " + str(g) + " for " + str(n) + " roots in (0,1) and " + str(vb) + " sign changes; " + p.str()); c.count("budan_tests");
      }
      double a = point(c, p), b = point(c, p); if (p.exact && c.rng.chance(1, 2)) { a = (double)c.rng.range(-8, 8); b = a + (double)(1 << c.rng.below(4)); }
      if (a > b) std::swap(a, b);
      if (std::isfinite(a) && std::isfinite(b) && a < b) {
        RP S = rcompose(rrev(rcompose(rcompose(F, 1, a), b - a, 0)), 1, 1); LD e2 = p.exact && a == std::floor(a) && b == std::floor(b) ? 0 : 1e-9L; bool big = false; for (auto m : S.m) if (m > 0x1p52L) big = true; if (big) e2 = 1e-9L;
        int vs = variations(S, e2);
        if (vs >= 0) {
          size_t n = 0; for (LD r : p.real) if (r > a && r < b) ++n; size_t g = alesina_galuzzi_test(f, a, b);
          c.check(g >= n && (g - n) % 2 == 0 && (int)g == vs, "alesina-galuzzi", "alesina_galuzzi_test(" + str(a) + "," + str(b) + ") is " + str(g) + " for " + str(n) + " roots and " + str(vs) + " sign changes; " + p.str()); c.count("interval_tests");
        }
      }
    }
    // bounds on the positive roots
    {
      double ub = LMQ_upper_bound(f), lb = LMQ_lower_bound(f);
      if (pos) {
        LD hi = p.real.back(), lo = *std::upper_bound(p.real.begin(), p.real.end(), 0.0L);
        c.check(ub >= hi * (1 - 1e-9L), "upper-bound", "LMQ_upper_bound " + str(ub) + " is below the root " + str((double)hi) + "; " + p.str());
        c.check(lb <= lo * (1 + 1e-9L), "lower-bound", "LMQ_lower_bound " + str(lb) + " is above the root " + str((double)lo) + "; " + p.str());
        c.count("bounds");
      }
      c.check(ub >= 0 && lb >= 0 && !std::isnan(ub) && !std::isnan(lb), "bound-nan", "bounds " + str(lb) + " .. " + str(ub) + "; " + p.str());
      if (descartes_rule_of_signs(f) == 0 && N > 0) c.check(ub == 0, "upper-bound-none", "no sign change but upper bound " + str(ub));
      const double ub2 = LMQ_upper_bound(reflect_poly(f)); for (LD r : p.real) if (r < 0) { c.check(ub2 >= -r * (1 - 1e-9L), "upper-bound", "LMQ_upper_bound of the reflected polynomial " + str(ub2) + " is below " + str((double)-r) + "; " + p.str()); break; }
    }
    // isolation (documented to need non-zero constant and leading coefficients)
    if (N > 0 && p.degree() == N && p.coef[0] != 0) {
      isolate(c, f, p, "VCA", VCA_real_root_bounds(f));
      isolate(c, f, p, "VAS", VAS_real_root_bounds(f));
    }
    c.check(std::equal(f.begin(), f.end(), f0.begin()), "poly-operand-changed", "the argument was altered");
    c.nontrivial();
  }
  template <class B> static void isolate(Case& c, const Polynomial<N, double>& f, const PR& p, const char* name, const B& bounds) {
    std::vector<std::pair<double, double>> b; for (auto& x : bounds) b.push_back(std::make_pair((double)x.first, (double)x.second));
    std::sort(b.begin(), b.end());
    std::ostringstream o; o << std::setprecision(17) << name << " bounds"; for (auto& x : b) o << " [" << x.first << "," << x.second << "]"; o << " for " << p.str();
    std::vector<LD> pos; for (LD r : p.real) if (r > 0) pos.push_back(r);
    c.check(b.size() == pos.size(), "isolation-count", o.str());
    for (size_t i = 0; i < b.size(); ++i) {
      LD tol = 1e-9L * pos[i];
      c.check(std::isfinite(b[i].first) && std::isfinite(b[i].second) && b[i].first <= b[i].second, "isolation-interval", o.str());
      c.check(pos[i] >= b[i].first - tol && pos[i] <= b[i].second + tol, "isolation-contains", o.str());
      if (i) c.check(b[i - 1].second <= b[i].first + tol, "isolation-disjoint", o.str());
      for (size_t j = 0; j < pos.size(); ++j) if (j != i) c.check(!(pos[j] > b[i].first + 1e-9L * pos[j] && pos[j] < b[i].second - 1e-9L * pos[j]), "isolation-several", o.str());
      c.count("isolating_intervals");
    }
  }
};
template <size_t N> struct High {
  static LD val(const Polynomial<N, double>& f, LD x, LD& mag) { LD v = 0; mag = 0; for (size_t i = N + 1; i-- > 0;) { v = v * x + f[i]; mag = mag * x + std::fabs((LD)f[i]); } return v; }
  // the bounds leave no sign change beyond them (the coefficients are given, the roots are not known)
  static void bounds(Case& c) {
    Polynomial<N, double> f; std::string d = "order " + str(N) + ":";
    const size_t deg = c.rng.chance(1, 4) ? c.rng.range(N / 2, N) : N; const int spread = (int)c.rng.pick(std::vector<int>{0, 3, 12, 40});
    const int neg = (int)c.rng.range(1, 5);
    for (size_t i = 0; i <= deg; ++i) if (i == 0 || i == deg || c.rng.chance(3, 4)) f[i] = (c.rng.chance(neg, 6) ? -1 : 1) * c.rng.real(0.5, 9.5) * std::pow(10.0, c.rng.real(-spread, spread));
    if (c.rng.chance(1, 2)) { // many coefficients of the opposite sign below the leading one: the leading term is used many times
      for (size_t i = 0; i < deg; ++i) f[i] = -std::fabs(f[i]); f[deg] = std::fabs(f[deg]);
      if (c.rng.chance(1, 2)) f[c.rng.below(4)] *= 1e30;
    }
    for (size_t i = 0; i <= deg; ++i) if (f[i] != 0) d += " " + str(f[i]) + "x^" + str(i);
    c.desc(d);
    const double ub = LMQ_upper_bound(f), lb = LMQ_lower_bound(f);
    c.check(!std::isnan(ub) && !std::isnan(lb) && ub >= 0 && lb >= 0, "bound-nan", "bounds " + str(lb) + " .. " + str(ub) + "; " + d);
    for (LD k : {1.000001L, 1.01L, 1.1L, 1.5L, 2.0L, 10.0L}) {
      LD m; LD x = ub == 0 ? k : ub * k; LD v = val(f, x, m);
      if (std::isfinite(m) && std::fabs(v) > 1e-15L * m) { c.check((v > 0) == (f[deg] > 0), "upper-bound", "the sign changes beyond LMQ_upper_bound " + str(ub) + ", at " + str((double)x) + "; " + d); c.count("beyond_upper_bound"); }
      if (lb <= 0) continue;
      x = lb / k; v = val(f, x, m);
      if (std::isfinite(m) && std::fabs(v) > 1e-15L * m) { c.check((v > 0) == (f[0] > 0), "lower-bound", "the sign changes below LMQ_lower_bound " + str(lb) + ", at " + str((double)x) + "; " + d); c.count("below_lower_bound"); }
    }
    c.nontrivial();
  }
  // trinomials x^N - b x^k + c with two positive roots
  static void isolate(Case& c) {
    const size_t k = c.rng.range(1, N - 1); const double r1 = c.rng.real(0.6, 1.2), r2 = r1 * c.rng.real(1.2, 2.5);
    // b and c from the two roots: r^N - b r^k + c = 0
    LD b = (std::pow((LD)r2, (LD)N) - std::pow((LD)r1, (LD)N)) / (std::pow((LD)r2, (LD)k) - std::pow((LD)r1, (LD)k)), c0 = b * std::pow((LD)r1, (LD)k) - std::pow((LD)r1, (LD)N);
    Polynomial<N, double> f; f[N] = 1; f[k] = (double)-b; f[0] = (double)c0; const double s = c.rng.chance(1, 2) ? -1 : 1; if (s < 0) for (size_t i = 0; i <= N; ++i) f[i] = -f[i];
    std::string d = "x^" + str(N) + " - " + str((double)b) + " x^" + str(k) + " + " + str((double)c0); c.desc(d);
    for (int vas = 0; vas < 2; ++vas) {
      std::vector<std::pair<double, double>> v; if (vas) for (auto& x : VAS_real_root_bounds(f)) v.push_back(std::make_pair((double)x.first, (double)x.second)); else for (auto& x : VCA_real_root_bounds(f)) v.push_back(std::make_pair((double)x.first, (double)x.second));
      std::sort(v.begin(), v.end()); std::string o = std::string(vas ? "VAS" : "VCA") + " bounds"; for (auto& x : v) o += " [" + str(x.first) + "," + str(x.second) + "]"; o += " for the roots " + str(r1) + " and " + str(r2) + " of " + d;
      c.check(v.size() == 2, "isolation-count", o);
      const double r[2] = {r1, r2}; const double t = 1e-8;
      for (int i = 0; i < 2; ++i) { c.check(v[i].first <= r[i] * (1 + t) && v[i].second >= r[i] * (1 - t), "isolation-contains", o); c.check(!(v[i].first < r[1 - i] * (1 - t) && v[i].second > r[1 - i] * (1 + t)), "isolation-several", o); c.count("isolating_intervals_high_order"); }
    }
    c.nontrivial();
  }
};
typedef void (*Sfn)(Case&, const PR&);
static Sfn runs[] = {Run<1>::all, Run<1>::all, Run<2>::all, Run<3>::all, Run<4>::all, Run<5>::all, Run<6>::all, Run<7>::all, Run<8>::all, Run<9>::all, Run<10>::all};
static const size_t MAXN = 10;
static size_t order(Case& c, size_t deg) { size_t n = deg; if (c.rng.chance(1, 5)) n = std::min(MAXN, deg + c.rng.range(1, 3)); return n; }

int main(int argc, char** argv) {
  Harness h("C16");
  h.add("constructed", 60000, 3000000, [](Case& c) {
    size_t deg = c.rng.below(9); int mode = c.rng.chance(1, 3) ? 0 : (int)c.rng.below(5);
    PR p = genroots(c.rng, deg, mode, c.rng.chance(1, 2));
    if (p.cond > CONDLIM) { c.count("skipped_ill_conditioned"); return; }
    runs[order(c, deg)](c, p); c.count("degree_" + str(deg)); c.count("mode_" + str(mode)); if (p.exact) c.count("exact_coefficients");
  });
  h.add("random-coefficients", 40000, 2000000, [](Case& c) {
    size_t deg = c.rng.range(1, 10); PR p;
    if (!genrandom(c.rng, deg, (int)c.rng.below(4), p) || p.cond > CONDLIM) { c.count("skipped_ill_conditioned"); return; }
    runs[order(c, deg)](c, p); c.count("degree_" + str(deg)); c.count("real_roots_" + str(p.real.size()));
  });
  h.add("high-order", 2000, 60000, [](Case& c) {
    static void (*const fn[])(Case&) = {High<24>::bounds, High<33>::bounds, High<34>::bounds, High<40>::bounds, High<24>::isolate, High<33>::isolate, High<34>::isolate};
    size_t i = c.rng.below(7); fn[i](c); c.count(i < 4 ? "bounds" : "isolate");
  });
  return h.main(argc, argv);
}
