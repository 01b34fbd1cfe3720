// C14: polynomial division and deflation identities
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/polynomial.hpp>
#include "pref.hpp"
using namespace sym; using namespace vf;
typedef Var<> X;

template <size_t N, size_t M, class T> void divide(Case& c) {
  // modes: 0 exact integers (f = q g + r, leading coefficient of g a power of two), 1..4 random
  int mode = (int)c.rng.below(5); if (std::is_same<T, float>::value && mode == 3) mode = 2;
  Polynomial<N, T> f; Polynomial<M, T> g; bool exact = false; RP Q, R;
  size_t dg = M; // true degree of g
  if (M > 0 && c.rng.chance(2, 5)) dg = c.rng.below(M + 1);
  for (size_t i = 0; i <= dg; ++i) g[i] = (T)rcoef(c.rng, mode);
  if (c.rng.chance(1, 5)) for (size_t i = 0; i < dg; ++i) if (c.rng.chance(1, 2)) g[i] = 0;
  if (g[dg] == 0) g[dg] = 1;
  if (mode == 0 && c.rng.chance(3, 4)) {
    exact = true;
    // any integer: the quotient of exact multiples is exact
    g[dg] = (T)((c.rng.chance(1, 2) ? 1 : -1) * (c.rng.chance(1, 2) ? 1 << c.rng.below(4) : c.rng.range(1, 199)));
    Q = RP(N - dg + 1); for (size_t i = 0; i < Q.size(); ++i) { Q.v[i] = c.rng.range(-6, 6); Q.m[i] = std::fabs(Q.v[i]); }
    R = RP(std::max<size_t>(dg, 1)); for (size_t i = 0; i < dg; ++i) { R.v[i] = c.rng.chance(1, 3) ? 0 : c.rng.range(-20, 20); R.m[i] = std::fabs(R.v[i]); }
    RP F = radd(rmul(Q, rp(g)), R, 1);
    // both scaled by a power of two, to the smallest numbers: the same quotient
    int sc = c.rng.chance(1, 5) ? (std::is_same<T, float>::value ? (int)c.rng.range(-149, 90) : (int)c.rng.range(c.rng.chance(1, 2) ? -1074 : -1000, 900)) : 0;
    for (size_t i = 0; i <= N; ++i) f[i] = (T)std::ldexp(F.at(i), sc);
    if (sc) { for (size_t i = 0; i <= M; ++i) g[i] = (T)std::ldexp((LD)g[i], sc); for (auto& v : R.v) v = std::ldexp(v, sc); c.count("scaled_divisions"); }
  } else {
    for (size_t i = 0; i <= N; ++i) f[i] = (T)rcoef(c.rng, mode);
    if (c.rng.chance(1, 4)) for (size_t i = N, z = c.rng.below(N + 1); z-- > 0; --i) f[i] = 0;
  }
  c.desc("divide N=" + str(N) + " M=" + str(M) + " " + pstr(f) + " / " + pstr(g));
  const auto f0 = f; const auto g0 = g;
  auto res = gcd(f, g);
  auto q = std::get<0>(res); auto r = std::get<1>(res);
  static_assert(std::tuple_size<decltype(res)>::value == 2, "quotient and remainder");
  RP rq = rp(q), rr = rp(r), G = rp(g);
  RP back = radd(rmul(rq, G), rr, 1);
  LD eps = std::numeric_limits<T>::epsilon();
  for (size_t i = 0; i < rq.size(); ++i) c.check(std::isfinite((double)rq.v[i]), "division-not-finite", "quotient " + pstr(q));
  for (size_t i = 0; i < back.size() || i <= N; ++i) {
    LD want = i <= N ? (LD)f[i] : 0, tol = 8 * (N + 3) * eps * (back.mag(i) + std::fabs(want));
    if (exact) tol = 0;
    c.check(std::fabs(back.at(i) - want) <= tol, "division-identity", "quotient x divisor + remainder has coefficient " + str(i) + " = " + str((double)back.at(i)) + " instead of " + str((double)want) + "; q=" + pstr(q) + " r=" + pstr(r));
    c.count("residuals");
  }
  for (size_t i = dg; i < r.size(); ++i) c.check(r[i] == 0, "remainder-degree", "the remainder " + pstr(r) + " is not of lower degree than the divisor (degree " + str(dg) + ")");
  if (exact) {
    for (size_t i = 0; i <= N; ++i) c.check((LD)q[i] == Q.at(i), "division-exact", "quotient " + pstr(q) + " instead of " + rstr(Q));
    for (size_t i = 0; i < r.size(); ++i) c.check((LD)r[i] == R.at(i), "division-exact", "remainder " + pstr(r) + " instead of " + rstr(R));
    c.count("exact_divisions");
  }
  if (dg < M) c.count("vanishing_leading_divisor");
  c.check(std::equal(f.begin(), f.end(), f0.begin()) && std::equal(g.begin(), g.end(), g0.begin()), "poly-operand-changed", "an operand was altered");
  c.nontrivial();
}

template <size_t N, class T> void deflate(Case& c) {
  int mode = (int)c.rng.below(5); if (std::is_same<T, float>::value && mode == 3) mode = 2; bool exact = mode == 0;
  double root;
  switch (c.rng.below(6)) {
    case 0: root = c.rng.chance(1, 2) ? 0.0 : -0.0; break;
    case 1: case 2: root = (double)c.rng.range(-5, 5); break;
    case 3: root = std::ldexp(c.rng.chance(1, 2) ? 1.0 : -1.0, (int)c.rng.range(-6, 6)); exact = exact && root == std::floor(root); break;
    case 4: root = c.rng.real(-1, 1) * std::ldexp(1.0, (int)c.rng.range(-30, 30)); exact = false; break;
    default: root = c.rng.real(-3, 3); exact = false;
  }
  root = (T)root;
  RP b(N); for (size_t i = 0; i < N; ++i) { b.v[i] = (T)rcoef(c.rng, mode); b.m[i] = std::fabs(b.v[i]); }
  if (c.rng.chance(1, 4)) { b.v[c.rng.below(N)] = 0; }
  if (c.rng.chance(1, 5) && N > 1) { b.v[N - 1] = 0; if (c.rng.chance(1, 2)) b.v[0] = 0; }
  RP x(2); x.v[1] = x.m[1] = 1; x.v[0] = -(LD)root; x.m[0] = std::fabs((LD)root);
  RP F = rmul(b, x);
  Polynomial<N, T> f; for (size_t i = 0; i <= N; ++i) f[i] = (T)F.v[i];
  if (root == 0) f[0] = 0;
  c.desc("deflate N=" + str(N) + " root=" + str(root) + " of " + pstr(f));
  const auto f0 = f;
  auto g = deflate_polynomial(f, root);
  static_assert(std::is_same<decltype(g), Polynomial<N - 1, T>>::value, "order of the deflated polynomial");
  RP back = rmul(rp(g), x);
  LD eps = std::numeric_limits<T>::epsilon(), S = 0, pw = 1;
  for (size_t i = 0; i <= N; ++i) { S += F.m[i] * pw; pw *= std::fabs((LD)root); }
  pw = 1;
  for (size_t i = 0; i <= N; ++i) {
    LD tol = root == 0 || exact ? 0 : 16 * (N + 3) * eps * (S / pw + back.mag(i) + F.m[i]);
    if (root != 0) pw *= std::fabs((LD)root);
    c.check(std::isfinite((double)back.at(i)) && std::fabs(back.at(i) - (LD)f[i]) <= tol, "deflation-identity", "(x - root) x " + pstr(g) + " has coefficient " + str(i) + " = " + str((double)back.at(i)) + " instead of " + str((double)f[i]));
    c.count("residuals");
  }
  if (exact || root == 0) for (size_t i = 0; i < N; ++i) c.check((LD)g[i] == (LD)(T)b.v[i], "deflation-exact", "deflated polynomial " + pstr(g) + " instead of " + rstr(b)), c.count("exact_deflations");
  if (root == 0) { auto z = deflate_polynomial(f, Null()); for (size_t i = 0; i < N; ++i) c.check(z[i] == g[i], "deflation-null", "deflating a symbolic zero differs from deflating 0.0"); }
  c.check(std::equal(f.begin(), f.end(), f0.begin()), "poly-operand-changed", "the operand was altered");
  for (auto v : b.v) if (v != 0) c.nontriv = true;
}

// A root much smaller (or larger) than all the others: one of the two documented recurrences is free of cancellation, and
// the deflation must be as accurate as that one (coefficient by coefficient, not only as a residual at the root).
template <size_t N, class T> void separated(Case& c) {
  RP b(N); for (size_t i = 0; i < N; ++i) { b.v[i] = (T)(c.rng.real(0.5, 1) * (c.rng.chance(1, 2) ? 1 : -1)); b.m[i] = std::fabs(b.v[i]); }
  int e = (int)c.rng.range(6, std::is_same<T, float>::value ? 12 : 30);
  double root = (T)(c.rng.real(0.5, 1) * (c.rng.chance(1, 2) ? 1 : -1) * (c.rng.chance(1, 2) ? std::ldexp(1.0, -e) : std::ldexp(1.0, e + 1)));
  RP x(2); x.v[1] = x.m[1] = 1; x.v[0] = -(LD)root; x.m[0] = std::fabs((LD)root);
  RP F = rmul(b, x); Polynomial<N, T> f; for (size_t i = 0; i <= N; ++i) f[i] = (T)F.v[i];
  c.desc("deflate the separated root N=" + str(N) + " root=" + str(root) + " of " + pstr(f));
  auto g = deflate_polynomial(f, root);
  RP back = rmul(rp(g), x); LD eps = std::numeric_limits<T>::epsilon();
  for (size_t i = 0; i <= N; ++i) {
    LD tol = 64 * (N + 3) * eps * (back.mag(i) + F.m[i]);
    c.check(std::isfinite((double)back.at(i)) && std::fabs(back.at(i) - (LD)f[i]) <= tol, "deflation-accuracy", "(x - root) x " + pstr(g) + " has coefficient " + str(i) + " = " + str((double)back.at(i)) + " instead of " + str((double)f[i]));
    c.count("separated_residuals");
  }
  c.nontrivial();
}

// multi-step: deflate root after root down to a constant, each step exactly undone by multiplication
template <size_t N> struct Chain {
  static void go(Case& c, const Polynomial<N, double>& f, std::vector<double> roots) {
    if (roots.empty()) return;
    size_t k = c.rng.below(roots.size()); double r = roots[k]; roots.erase(roots.begin() + k);
    auto g = deflate_polynomial(f, r);
    RP want(1); want.v[0] = want.m[0] = 1; for (double q : roots) { RP x(2); x.v[1] = x.m[1] = 1; x.v[0] = -q; x.m[0] = std::fabs(q); want = rmul(want, x); }
    LD lead = f[N]; want = rscale(want, lead);
    for (size_t i = 0; i < N; ++i) c.check((LD)g[i] == want.at(i), "deflation-chain", "removing " + str(r) + " from " + pstr(f) + " gives " + pstr(g) + " instead of " + rstr(want));
    c.count("chain_steps");
    Chain<N - 1>::go(c, g, roots);
  }
};
template <> struct Chain<0> { static void go(Case& c, const Polynomial<0, double>& f, std::vector<double>) {} };
template <size_t N> void chain(Case& c) {
  std::vector<double> roots; for (size_t i = 0; i < N; ++i) roots.push_back((double)c.rng.range(-4, 4));
  RP p(1); p.v[0] = p.m[0] = (LD)(c.rng.chance(1, 2) ? 1 : -3); for (double q : roots) { RP x(2); x.v[1] = x.m[1] = 1; x.v[0] = -q; x.m[0] = std::fabs(q); p = rmul(p, x); }
  Polynomial<N, double> f; for (size_t i = 0; i <= N; ++i) f[i] = (double)p.v[i];
  std::string d; for (double q : roots) d += " " + str(q);
  c.desc("deflation chain roots" + d);
  Chain<N>::go(c, f, roots); c.nontrivial();
}

typedef void (*Fn)(Case&);
template <size_t N, class T, size_t... M> void rows(std::vector<Fn>& v, std::index_sequence<M...>) { Fn a[] = {divide<N, M, T>...}; v.insert(v.end(), std::begin(a), std::end(a)); }
template <class T, size_t... N> void defl(std::vector<Fn>& v, std::index_sequence<N...>) { Fn a[] = {deflate<N + 1, T>...}; v.insert(v.end(), std::begin(a), std::end(a)); }
template <class T, size_t... N> void seps(std::vector<Fn>& v, std::index_sequence<N...>) { Fn a[] = {separated<N + 1, T>...}; v.insert(v.end(), std::begin(a), std::end(a)); }
template <size_t... N> void chains(std::vector<Fn>& v, std::index_sequence<N...>) { Fn a[] = {chain<N + 1>...}; v.insert(v.end(), std::begin(a), std::end(a)); }
template <class T, size_t... N> void all(std::vector<Fn>& v, std::index_sequence<N...>) { int d[] = {(rows<N + 1, T>(v, std::make_index_sequence<N + 1>()), 0)...}; (void)d; }

int main(int argc, char** argv) {
  Harness h("C14");
  static std::vector<Fn> dv, df, ch, sp;
  all<double>(dv, std::make_index_sequence<9>()); all<float>(dv, std::make_index_sequence<4>()); all<long double>(dv, std::make_index_sequence<2>());
  defl<double>(df, std::make_index_sequence<11>()); defl<float>(df, std::make_index_sequence<4>());
  seps<double>(sp, std::make_index_sequence<10>()); seps<float>(sp, std::make_index_sequence<4>());
  chains(ch, std::make_index_sequence<9>());
  h.add("divide", 250000, 12000000, [](Case& c) { dv[c.idx % dv.size()](c); });
  h.add("deflate", 200000, 10000000, [](Case& c) { df[c.idx % df.size()](c); });
  h.add("separated", 60000, 3000000, [](Case& c) { sp[c.idx % sp.size()](c); });
  h.add("chain", 60000, 3000000, [](Case& c) { ch[c.idx % ch.size()](c); });
  return h.main(argc, argv);
}
