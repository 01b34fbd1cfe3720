// Polynomials with known roots (constructed, or found independently and
// accepted only when their character is beyond doubt).
#pragma once
#include <complex>
#include "pref.hpp"
namespace vf {
  typedef std::complex<LD> CL;
  struct PR {
    std::vector<LD> real;      // sorted
    std::vector<CL> cplx;      // one of each conjugate pair
    std::vector<double> coef;  // degree+1 coefficients (as given to the library)
    LD cond = 0;               // worst relative root perturbation caused by rounding of the coefficients
    bool exact = false;
    size_t degree() const { return coef.size() - 1; }
    std::string str() const { std::ostringstream o; o << std::setprecision(17) << "real roots"; for (LD r : real) o << " " << (double)r; o << " complex"; for (auto z : cplx) o << " " << (double)z.real() << "+-" << (double)z.imag() << "i"; o << " coefficients"; for (double x : coef) o << " " << x; return o.str(); }
  };
  inline CL peval(const std::vector<double>& a, CL z) { CL r = 0; for (size_t i = a.size(); i-- > 0;) r = r * z + (LD)a[i]; return r; }
  inline CL pder(const std::vector<double>& a, CL z) { CL r = 0; for (size_t i = a.size(); i-- > 1;) r = r * z + (LD)a[i] * (LD)i; return r; }
  inline LD pmag(const std::vector<double>& a, LD x) { LD r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + std::fabs((LD)a[i]); return r; }
  // worst perturbation of a root by relative coefficient errors, relative to the distance to the nearest other root
  inline LD pcond(const PR& p) {
    std::vector<CL> all; for (LD r : p.real) all.push_back(r); for (auto z : p.cplx) { all.push_back(z); all.push_back(std::conj(z)); }
    LD worst = 0;
    for (size_t i = 0; i < all.size(); ++i) {
      LD dist = HUGE_VALL; for (size_t j = 0; j < all.size(); ++j) if (j != i) dist = std::min(dist, std::abs(all[i] - all[j]));
      dist = std::min(dist, std::abs(all[i]) == 0 ? dist : std::abs(all[i]));
      if (dist == HUGE_VALL) dist = 1;
      LD d = std::abs(pder(p.coef, all[i]));
      worst = std::max(worst, 0x1p-52L * pmag(p.coef, std::abs(all[i])) / (d * dist));
    }
    return worst;
  }
  // mode 0 exact dyadic, 1 moderate real, 2 several magnitudes, 3 mode 1 rescaled by powers of two, 4 clusters of complex pairs; ncplx pairs chosen at random
  inline PR genroots(Rng& r, size_t deg, int mode, bool allow_zero = true) {
    for (;;) {
      PR p; RP f(1); LD lead = mode == 0 ? (LD)(r.chance(1, 2) ? 1 : r.range(1, 5)) * (r.chance(1, 2) ? 1 : -1) : (LD)r.real(0.1, 10) * (r.chance(1, 2) ? 1 : -1);
      f.v[0] = lead; f.m[0] = std::fabs(lead);
      size_t left = deg; bool bad = false;
      unsigned pc = (unsigned)r.below(4);
      while (left) {
        if (left >= 2 && r.chance(mode == 4 ? 3 : pc, 5)) {
          LD a, b;
          if (mode == 0) { a = r.range(-4, 4); b = r.range(1, 4); }
          else if (mode == 2) { LD s = std::pow(10.0L, r.real(-3, 3)); a = s * r.real(-1, 1); b = s * r.real(0.2, 1); }
          else { a = r.real(-5, 5); b = r.real(0.3, 4); }
          for (auto z : p.cplx) if (std::abs(z - CL(a, b)) < 0.2L * std::max(std::abs(z), (LD)1e-3)) bad = true;
          p.cplx.push_back(CL(a, b)); left -= 2;
          RP q(3); q.v = {a * a + b * b, -2 * a, 1}; q.m = {a * a + b * b, 2 * std::fabs(a), 1}; f = rmul(f, q);
        } else {
          LD x;
          if (allow_zero && r.chance(1, 12)) x = 0;
          else if (mode == 0) x = (LD)r.range(-16, 16) / (1 << r.below(3));
          else if (mode == 2) x = std::pow(10.0L, r.real(-3, 3)) * (r.chance(1, 2) ? 1 : -1);
          else x = r.real(-10, 10);
          if (x == 0 && !allow_zero) { x = 1; }
          for (LD q : p.real) if (q == x || std::fabs(q - x) < (mode == 0 ? 0.2L : mode == 2 ? 0.3L * std::max(std::fabs(q), std::fabs(x)) : 0.2L)) bad = true;
          if (mode != 2 && mode != 0 && std::fabs(x) < 0.05L && x != 0) bad = true;
          p.real.push_back(x); left -= 1;
          RP q(2); q.v = {-x, 1}; q.m = {std::fabs(x), 1}; f = rmul(f, q);
        }
        if (bad) break;
      }
      if (bad) continue;
      p.exact = mode == 0;
      if (mode == 3) {
        int k = (int)r.range(-25, 25), j = (int)r.range(-200, 200); // root' = root * 2^k
        for (auto& x : p.real) x = std::ldexp(x, k);
        for (auto& z : p.cplx) z = CL(std::ldexp(z.real(), k), std::ldexp(z.imag(), k));
        for (size_t i = 0; i <= deg; ++i) f.v[i] = std::ldexp(f.v[i], k * (int)(deg - i) + j);
      }
      for (size_t i = 0; i <= deg; ++i) { p.coef.push_back((double)f.v[i]); if (p.exact && ((LD)p.coef[i] != f.v[i] || f.m[i] * 4096 > 0x1p53L)) p.exact = false; }
      bool rng = true; for (double x : p.coef) if (!std::isfinite(x) || (x != 0 && (std::fabs(x) < 1e-290 || std::fabs(x) > 1e290))) rng = false;
      if (!rng) continue;
      std::sort(p.real.begin(), p.real.end());
      p.cond = pcond(p);
      return p;
    }
  }
  // random coefficients, roots by the Aberth iteration; returns false unless the real/complex split is certain
  inline bool genrandom(Rng& r, size_t deg, int mode, PR& p) {
    p = PR();
    for (size_t i = 0; i <= deg; ++i) p.coef.push_back(mode == 0 ? (double)r.range(-9, 9) : mode == 1 ? r.real(-1, 1) : mode == 2 ? r.real(-1, 1) * std::ldexp(1.0, (int)r.range(-12, 12)) : r.chance(1, 3) ? 0.0 : (double)r.range(-100, 100));
    if (p.coef[deg] == 0) p.coef[deg] = 1;
    if (p.coef[0] == 0) p.coef[0] = -1;
    std::vector<CL> z(deg); LD R = std::pow(std::fabs((LD)p.coef[0] / p.coef[deg]), 1.0L / deg);
    for (size_t i = 0; i < deg; ++i) z[i] = std::polar(R * (0.7L + 0.6L * (LD)r.unit()), 2 * 3.14159265358979L * (i + 0.37L) / deg);
    bool conv = false;
    for (int it = 0; it < 300 && !conv; ++it) {
      conv = true;
      for (size_t i = 0; i < deg; ++i) {
        CL n = peval(p.coef, z[i]), d = pder(p.coef, z[i]); if (n == CL(0)) continue;
        CL q = n / d, s = 0; for (size_t j = 0; j < deg; ++j) if (j != i) s += CL(1) / (z[i] - z[j]);
        CL w = q / (CL(1) - q * s);
        if (!std::isfinite(w.real()) || !std::isfinite(w.imag())) return false;
        z[i] -= w; if (std::abs(w) > 1e-16L * std::abs(z[i])) conv = false;
      }
    }
    if (!conv) return false;
    size_t nc = 0;
    for (auto x : z) {
      LD a = std::abs(x);
      if (std::fabs(x.imag()) < 1e-12L * a) p.real.push_back(x.real());
      else if (std::fabs(x.imag()) > 1e-4L * a) { if (x.imag() > 0) p.cplx.push_back(x); else ++nc; }
      else return false;
    }
    if (p.cplx.size() != nc || p.real.size() + 2 * nc != deg) return false;
    std::sort(p.real.begin(), p.real.end());
    for (LD x : p.real) { // a real root changes the sign
      LD h = 1e-10L * std::fabs(x); if (!(peval(p.coef, x - h).real() * peval(p.coef, x + h).real() < 0)) return false;
    }
    p.cond = pcond(p); p.exact = false;
    return true;
  }
  // Sturm chain with running error bounds of double arithmetic; the chain can only
  // be relied on where rounding leaves the leading coefficients and signs certain
  struct ErrChain {
    std::vector<std::vector<LD>> v, e; bool certain = true; size_t zeros = 0;
    explicit ErrChain(std::vector<double> a) {
      const LD u = 0x1.04p-53L;
      while (a.size() > 1 && a.back() == 0) a.pop_back();
      while (a.size() > 1 && a.front() == 0) a.erase(a.begin());
      std::vector<LD> p(a.begin(), a.end()), pe(a.size(), 0), d, de;
      for (size_t i = 1; i < a.size(); ++i) { d.push_back((LD)a[i] * i); de.push_back((LD)(double)d.back() == d.back() ? 0 : u * std::fabs(d.back())); }
      v.push_back(p); e.push_back(pe); if (d.empty()) return; v.push_back(d); e.push_back(de);
      while (v.back().size() > 1) {
        auto f = v[v.size() - 2], fe = e[e.size() - 2], g = v.back(), ge = e.back();
        std::vector<LD> sc(f.size()); for (size_t i = 0; i < f.size(); ++i) sc[i] = std::fabs(f[i]);
        for (size_t k = f.size() - 1; k + 1 >= g.size(); --k) {
          LD q = f[k] / g.back(), qe = fe[k] / std::fabs(g.back()) + std::fabs(q) * (ge.back() / std::fabs(g.back()) + u);
          for (size_t j = 0; j < g.size(); ++j) { size_t t = k + j + 1 - g.size(); LD pr = q * g[j]; sc[t] += std::fabs(pr); fe[t] += qe * std::fabs(g[j]) + std::fabs(q) * ge[j] + u * std::fabs(pr); f[t] -= pr; fe[t] += u * std::fabs(f[t]); }
          if (k == 0) break;
        }
        f.resize(g.size() - 1); fe.resize(g.size() - 1);
        // a coefficient that vanishes exactly (no rounding at all) lowers the degree
        while (!f.empty() && f.back() == 0 && fe.back() == 0) { f.pop_back(); fe.pop_back(); }
        // one that vanishes, with no more rounding error than its own terms cause, does so too
        while (f.size() > 1 && std::fabs(f.back()) <= fe.back() / 256 && fe.back() * 257 / 256 <= 0x1p-50L * sc[f.size() - 1]) { f.pop_back(); fe.pop_back(); ++zeros; }
        if (f.empty()) return;
        if (fe.back() > 1e-3L * std::fabs(f.back())) { certain = false; return; }
        for (auto& x : f) x = -x;
        v.push_back(f); e.push_back(fe);
      }
    }
    bool certain_at(double x) const {
      if (!certain) return false;
      if (std::isinf(x)) return true;
      for (size_t i = 0; i < v.size(); ++i) { LD s = 0, m = 0, er = 0, a = std::fabs((LD)x); for (size_t k = v[i].size(); k-- > 0;) { s = s * x + v[i][k]; m = m * a + std::fabs(v[i][k]); er = er * a + e[i][k]; } if (std::fabs(s) < 4 * er + 1e-13L * m) return false; }
      return true;
    }
  };
}
