// C15: real roots of polynomials with known roots
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/polynomial.hpp>
#include "proots.hpp"
using namespace sym; using namespace vf;
#ifndef CONDLIM
#define CONDLIM 1e-9L
#endif

template <class S> void compare(Case& c, const S& got, const PR& p, const std::string& how, LD relcond) {
  std::ostringstream o; o << std::setprecision(17) << how << " returned"; for (auto x : got) o << " " << x; o << "; expected " << p.str();
  c.check(got.size() == p.real.size(), "root-count", o.str());
  for (size_t i = 0; i < got.size(); ++i) {
    if (i) c.check(got[i - 1] <= got[i], "root-order", o.str());
    // the iterative methods bisect to half of the digits, the formulas up to cubics are accurate to the conditioning
    const LD rel = p.degree() > 3 ? std::max(3e-7L, relcond * 100) : 200 * relcond + 1e-14L;
    LD tol = rel * std::fabs(p.real[i]) + (p.real[i] == 0 ? 0 : 1e-300L);
    c.check(std::fabs((LD)got[i] - p.real[i]) <= tol, "root-value", "root " + str(i) + ": " + o.str());
    c.count("roots_compared");
  }
  c.count("solutions");
}

template <size_t N> struct Solve {
  static void all(Case& c, const PR& p) {
    Polynomial<N, double> f; for (size_t i = 0; i <= p.degree(); ++i) f[i] = p.coef[i];
    const auto f0 = f;
    c.desc("order " + str(N) + " " + p.str());
    try {
      run(c, f, p, std::integral_constant<bool, (N > 3)>());
    } catch (std::exception& e) { c.fail("solve-throws", std::string(e.what()) + " for " + p.str()); }
    c.check(std::equal(f.begin(), f.end(), f0.begin()), "poly-operand-changed", "the argument was altered");
    c.nontrivial();
  }
  static void run(Case& c, const Polynomial<N, double>& f, const PR& p, std::true_type) {
    // the Sturm method (also the default one, and the one used once a root at zero is removed) needs a chain that double arithmetic can represent
    const ErrChain ec(p.coef); const bool sturm = p.degree() <= 3 || ec.certain; if (sturm && p.degree() > 3 && ec.zeros) c.count("sturm_degree_drops");
    if (!sturm) { c.count("sturm_uncertain"); if (p.coef[0] == 0 || f[N] == 0) return; }
    if (sturm) compare(c, solve_real_roots(f), p, "solve_real_roots", p.cond);
    if (sturm) compare(c, solve_real_roots<PolyRootBounder::STURM>(f), p, "solve_real_roots<STURM>", p.cond);
    compare(c, solve_real_roots<PolyRootBounder::VCA>(f), p, "solve_real_roots<VCA>", p.cond);
    compare(c, solve_real_roots<PolyRootBounder::VAS>(f), p, "solve_real_roots<VAS>", p.cond);
  }
  static void run(Case& c, const Polynomial<N, double>& f, const PR& p, std::false_type) {
    compare(c, solve_real_roots(f), p, "solve_real_roots", p.cond);
  }
};
typedef void (*Sfn)(Case&, const PR&);
static Sfn solvers[] = {Solve<0>::all, Solve<1>::all, Solve<2>::all, Solve<3>::all, Solve<4>::all, Solve<5>::all, Solve<6>::all, Solve<7>::all, Solve<8>::all, Solve<9>::all, Solve<10>::all};
static const size_t MAXN = 10;

// order of the polynomial type >= degree (vanishing leading coefficients)
static size_t order(Case& c, size_t deg) { size_t n = deg; if (c.rng.chance(1, 4)) n = std::min(MAXN, deg + c.rng.range(1, 3)); return n; }

int main(int argc, char** argv) {
  Harness h("C15");
  h.add("constructed", 40000, 2000000, [](Case& c) {
    size_t deg = c.rng.below(9); int mode = (int)c.rng.below(5);
    PR p = genroots(c.rng, deg, mode);
    if (p.cond > CONDLIM) { c.count("skipped_ill_conditioned"); return; }
    solvers[order(c, deg)](c, p); c.count("degree_" + str(deg)); c.count("mode_" + str(mode));
  });
  h.add("low-order", 60000, 3000000, [](Case& c) {
    size_t deg = c.rng.range(1, 3); int mode = (int)c.rng.below(5);
    PR p = genroots(c.rng, deg, mode);
    if (p.cond > CONDLIM) { c.count("skipped_ill_conditioned"); return; }
    solvers[c.rng.chance(1, 5) ? order(c, deg) : deg](c, p); c.count("degree_" + str(deg));
  });
  h.add("random-coefficients", 30000, 1500000, [](Case& c) {
    size_t deg = c.rng.range(1, 10); PR p;
    if (!genrandom(c.rng, deg, (int)c.rng.below(4), p) || p.cond > CONDLIM) { c.count("skipped_ill_conditioned"); return; }
    if (c.rng.chance(1, 5) && deg < MAXN) { // add a root at zero
      p.coef.insert(p.coef.begin(), 0.0); p.real.push_back(0); std::sort(p.real.begin(), p.real.end()); ++deg; p.cond = pcond(p); if (p.cond > CONDLIM) return;
    }
    solvers[order(c, deg)](c, p); c.count("degree_" + str(deg)); c.count("real_roots_" + str(p.real.size()));
  });
  // formulas at the ends of the range of double: roots of any representable magnitude
  h.add("extreme", 40000, 2000000, [](Case& c) {
    auto mag = [&](int w) { return std::pow(10.0L, (LD)c.rng.real(-w, w)) * (c.rng.chance(1, 2) ? 1 : -1); };
    PR p; size_t deg = c.rng.range(1, 2);
    if (deg == 1) { LD r = mag(280), a = mag(std::min(280.0L, 285 - std::fabs(std::log10(std::fabs(r))))); p.coef = {(double)(-r * a), (double)a}; }
    else {
      LD r1 = mag(280), r2 = c.rng.chance(1, 2) ? mag(280) : r1 * mag(3); LD b = -(r1 + r2), q = r1 * r2;
      if (c.rng.chance(1, 6)) { b = mag(140); q = b * b * (LD)c.rng.real(0.3, 5); }
      if (c.rng.chance(1, 10)) b = 0;
      LD room = 285 - std::max(std::fabs(std::log10(std::fabs(q))), b == 0 ? 0.0L : std::fabs(std::log10(std::fabs(b))));
      if (room < 0) return;
      LD a = mag((int)room); p.coef = {(double)(q * a), (double)(b * a), (double)a};
    }
    // the roots of the polynomial as it is stored
    if (deg == 1) p.real = {-(LD)p.coef[0] / p.coef[1]};
    else {
      LD a = p.coef[2], b = (LD)p.coef[1] / a, q = (LD)p.coef[0] / a, d = b * b - 4 * q, m = b * b + std::fabs(4 * q);
      if (std::fabs(d) < 1e-3L * m) return;
      if (d < 0) p.cplx.push_back(CL(-b / 2, std::sqrt(-d) / 2)); else { LD r1 = -(b + std::copysign(std::sqrt(d), b)) / 2; p.real = {r1, q / r1}; std::sort(p.real.begin(), p.real.end()); }
    }
    p.cond = 1e-12L; solvers[deg](c, p); c.count("extreme_degree_" + str(deg)); if (fabsl(p.coef[1] / (LD)p.coef.back()) > 2e154L) c.count("large_linear_coefficient");
  });
  h.add("extreme-cubics", 60000, 3000000, [](Case& c) {
    const int W = (int)c.rng.range(1, 140);
    auto mag = [&](LD w) { return std::pow(10.0L, (LD)c.rng.real(-w, w)) * (c.rng.chance(1, 2) ? 1 : -1); };
    auto close = [](LD a, LD b) { return std::fabs(a - b) < 0.1L * std::max(std::fabs(a), std::fabs(b)); };
    PR p; LD r1 = mag(W), b, q; const bool cp = c.rng.chance(1, 2);
    if (!cp) {
      LD r2 = c.rng.chance(1, 2) ? mag(W) : r1 * mag(3), r3 = c.rng.chance(1, 2) ? mag(W) : r2 * mag(3);
      if (c.rng.chance(1, 8)) r2 = -r1; // no linear term in one factor
      if (c.rng.chance(1, 8)) r3 = -(r1 + r2); // no quadratic term (almost)
      if (r3 == 0 || close(r1, r2) || close(r1, r3) || close(r2, r3)) return;
      b = -(r2 + r3); q = r2 * r3; p.real = {r1, r2, r3};
    } else {
      LD s = std::fabs(c.rng.chance(1, 3) ? r1 * mag(1) : mag(W)), re = c.rng.chance(1, 8) ? 0 : s * (LD)c.rng.real(-1, 1), im = s * (LD)c.rng.real(0.2, 1);
      b = -2 * re; q = re * re + im * im; p.real = {r1}; p.cplx = {CL(re, im)};
    }
    if (c.rng.chance(1, 3)) { // all of them large or small
      const LD shift = mag(100); r1 *= shift; b *= shift; q *= shift * shift;
      for (LD& x : p.real) x *= shift;
      for (auto& z : p.cplx) z *= std::fabs(shift);
      if (shift < 0) for (auto& z : p.cplx) z = -z;
    }
    // the factors of the cubic have to be representable as well
    const LD small = cp ? std::min(std::fabs(r1), std::sqrt(q)) : std::min({std::fabs(p.real[0]), std::fabs(p.real[1]), std::fabs(p.real[2])});
    if (small < 1e-140L) return;
    const LD a = mag(3), co[4] = {-r1 * q * a, (q - r1 * b) * a, (b - r1) * a, a};
    for (LD x : co) { if (x != 0 && (std::fabs(x) > 1e290L || std::fabs(x) < 1e-290L)) return; p.coef.push_back((double)x); }
    // the roots of the polynomial as it is stored
    for (LD& x : p.real) for (int k = 0; k < 4; ++k) {
      const LD f = ((p.coef[3] * x + p.coef[2]) * x + p.coef[1]) * x + p.coef[0], d = (3 * (LD)p.coef[3] * x + 2 * (LD)p.coef[2]) * x + p.coef[1];
      x -= f / d;
    }
    std::sort(p.real.begin(), p.real.end()); p.cond = pcond(p);
    if (!(p.cond < 1e-12L)) { c.count("skipped_ill_conditioned"); return; }
    solvers[3](c, p); c.count("extreme_cubics"); c.count(cp ? "cubic_with_pair" : "cubic_three_real");
    for (int i = 0; i < 3; ++i) if (std::fabs((LD)p.coef[i] / p.coef[3]) > 2e154L) c.count("large_coefficient_" + str(i));
  });
  // small-integer polynomials on which the double-precision Sturm chain loses its sign pattern (recorded finding)
  h.add("degenerate-chain", 2, 2, [](Case& c) {
    PR p;
    if (c.idx == 0) { p.coef = {2, -8, 1, 2, 4, 6, 6, 3}; p.real = {-1.5183053530672097L, 0.26765810008328322L, 0.6676970864115056L}; }
    else { p.coef = {4, -1, 2, -3, 4, 1, -6, 0, 6, -8, 4}; }
    Polynomial<10, double> f; for (size_t i = 0; i < p.coef.size(); ++i) f[i] = p.coef[i];
    c.desc("degenerate chain " + p.str()); c.nontrivial();
    if (c.idx == 0) { compare(c, solve_real_roots<PolyRootBounder::VAS>(change_order<7>(f)), p, "solve_real_roots<VAS>", 1e-12L); compare(c, solve_real_roots(change_order<7>(f)), p, "solve_real_roots", 1e-12L); }
    else { compare(c, solve_real_roots<PolyRootBounder::VAS>(f), p, "solve_real_roots<VAS>", 1e-12L); compare(c, solve_real_roots(f), p, "solve_real_roots", 1e-12L); }
  });
  return h.main(argc, argv);
}
