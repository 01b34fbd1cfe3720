// Independent polynomial arithmetic on coefficient vectors, carrying the sum
// of magnitudes of the terms of each coefficient (for rounding-error bounds).
#pragma once
#include "common.hpp"
namespace vf {
  typedef long double LD;
  struct RP {
    std::vector<LD> v, m; // value, magnitude
    RP() {}
    explicit RP(size_t n) : v(n, 0), m(n, 0) {}
    size_t size() const { return v.size(); }
    LD at(size_t i) const { return i < v.size() ? v[i] : 0; }
    LD mag(size_t i) const { return i < m.size() ? m[i] : 0; }
  };
  template <class P> RP rp(const P& f) { RP r(f.size()); for (size_t i = 0; i < f.size(); ++i) { r.v[i] = f[i]; r.m[i] = std::fabs((LD)f[i]); } return r; }
  inline RP radd(const RP& a, const RP& b, int sign) { RP r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) { r.v[i] = a.at(i) + sign * b.at(i); r.m[i] = a.mag(i) + b.mag(i); } return r; }
  inline RP rmul(const RP& a, const RP& b) { RP r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { r.v[i + j] += a.v[i] * b.v[j]; r.m[i + j] += a.m[i] * b.m[j]; } return r; }
  inline RP rscale(const RP& a, LD k) { RP r(a); for (auto& x : r.v) x *= k; for (auto& x : r.m) x *= std::fabs(k); return r; }
  inline RP rder(const RP& a) { if (a.size() <= 1) return RP(1); RP r(a.size() - 1); for (size_t i = 0; i < r.size(); ++i) { r.v[i] = a.v[i + 1] * (i + 1); r.m[i] = a.m[i + 1] * (i + 1); } return r; }
  inline RP rpow(const RP& a, int n) { RP r(1); r.v[0] = r.m[0] = 1; while (n--) r = rmul(r, a); return r; }
  // f(p x + q)
  inline RP rcompose(const RP& a, LD p, LD q) { RP r(1), x(2); x.v[1] = p; x.m[1] = std::fabs(p); x.v[0] = q; x.m[0] = std::fabs(q); r.v[0] = a.v.back(); r.m[0] = a.m.back(); for (size_t i = a.size() - 1; i-- > 0;) { r = rmul(r, x); r.v[0] += a.v[i]; r.m[0] += a.m[i]; } return r; }
  inline RP rrev(const RP& a) { RP r(a); std::reverse(r.v.begin(), r.v.end()); std::reverse(r.m.begin(), r.m.end()); return r; }
  struct VM { LD v, m; };
  inline VM rval(const RP& a, LD x) { VM r{0, 0}; for (size_t i = a.size(); i-- > 0;) { r.v = r.v * x + a.v[i]; r.m = r.m * std::fabs(x) + a.m[i]; } return r; }
  inline std::string rstr(const RP& a) { std::ostringstream o; o << std::setprecision(17); for (size_t i = 0; i < a.size(); ++i) o << (i ? "," : "{") << a.v[i]; o << "}"; return o.str(); }

  template <class P> std::string pstr(const P& f) { std::ostringstream o; o << std::setprecision(17); for (size_t i = 0; i < f.size(); ++i) o << (i ? "," : "{") << f[i]; o << "}"; return o.str(); }
  // compare a library polynomial with the reference; exact when everything is an integer below 2^mantissa
  template <class T, class P> void pcheck(Case& c, const P& got, const RP& want, const char* key, const std::string& what, LD slack = 0, bool exactints = true) {
    bool ints = exactints;
    for (size_t i = 0; i < want.size() && ints; ++i) if (want.v[i] != std::floor(want.v[i]) || want.m[i] > std::ldexp((LD)1, std::numeric_limits<T>::digits)) ints = false;
    LD eps = std::numeric_limits<T>::is_integer ? 0 : std::numeric_limits<T>::epsilon();
    size_t n = std::max<size_t>(got.size(), want.size());
    for (size_t i = 0; i < n; ++i) {
      LD g = i < got.size() ? (LD)got[i] : 0, w = want.at(i), tol = ints ? 0 : 8 * (n + 2) * eps * want.mag(i) + slack * want.mag(i) + 4 * (LD)std::numeric_limits<T>::denorm_min() * (std::numeric_limits<T>::is_integer ? 0 : 1);
      if (!(std::fabs(g - w) <= tol)) c.fail(key, what + ": coefficient " + str(i) + " is " + str((double)g) + " instead of " + str((double)w) + "; got " + pstr(got) + " want " + rstr(want));
    }
    c.count(ints ? "coefficients_exact" : "coefficients_rounded", n);
  }
  // random coefficients: mode 0 small ints, 1 ints with zeros, 2 reals, 3 wide scales, 4 powers of two
  inline double rcoef(Rng& r, int mode) {
    switch (mode) {
      case 0: return (double)r.range(-12, 12);
      case 1: return r.chance(1, 2) ? 0.0 : (double)r.range(-200, 200);
      case 2: return r.real(-10, 10);
      case 3: return r.chance(1, 5) ? 0.0 : r.real(-1, 1) * std::ldexp(1.0, (int)r.range(-40, 40));
      default: return (r.chance(1, 2) ? 1 : -1) * std::ldexp(1.0, (int)r.range(-8, 8));
    }
  }
  inline double rarg(Rng& r, int mode) {
    static const double sp[] = {0.0, -0.0, 1, -1, 2, -2, 0.5, -0.5, 3, 10, 1e-3, -7};
    if (mode < 2) return r.chance(1, 3) ? sp[r.below(6)] : (double)r.range(-6, 6);
    if (r.chance(1, 4)) return r.pick(sp);
    return r.real(-4, 4) * (r.chance(1, 4) ? std::ldexp(1.0, (int)r.range(-10, 10)) : 1);
  }
}
