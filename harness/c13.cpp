// C13: polynomial arithmetic and transforms against independent coefficient arithmetic
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/polynomial.hpp>
#include "pref.hpp"
using namespace sym; using namespace vf;
static constexpr const char ystr[] = "y";
typedef Var<> X; typedef Var<ystr> Y;

template <class T> T cast(double d) { return std::numeric_limits<T>::is_integer ? (T)std::round(std::min(1000.0, std::max(-1000.0, d))) : (T)d; }
template <size_t N, class T, class V = X> Polynomial<N, T, V> mk(Case& c, int mode) {
  Polynomial<N, T, V> p;
  for (size_t i = 0; i <= N; ++i) p[i] = cast<T>(rcoef(c.rng, mode));
  if (c.rng.chance(1, 4)) { size_t z = c.rng.below(N + 1); for (size_t i = N + 1; i-- > N + 1 - z;) p[i] = 0; }
  if (c.rng.chance(1, 6)) { size_t z = c.rng.below(N + 1); for (size_t i = 0; i < z; ++i) p[i] = 0; }
  return p;
}
template <class A, class B> struct Store { typedef decltype(store(A() * B())) type; };

template <size_t N, size_t M, class T1, class T2, class V = X> void binary(Case& c) {
  typedef typename Store<T1, T2>::type T;
  int mode = std::is_integral<T>::value ? 0 : (int)c.rng.below(5);
  auto f = mk<N, T1, V>(c, mode); auto g = mk<M, T2, V>(c, mode);
  c.desc("binary N=" + str(N) + " M=" + str(M) + " " + pstr(f) + " , " + pstr(g));
  const auto f0 = f; const auto g0 = g;
  auto F = rp(f), G = rp(g);
  pcheck<T>(c, try_expand(f + g), radd(F, G, 1), "poly-add", "f+g");
  pcheck<T>(c, try_expand(f - g), radd(F, G, -1), "poly-sub", "f-g");
  pcheck<T>(c, try_expand(f * g), rmul(F, G), "poly-mul", "f*g");
  pcheck<T>(c, simplify(f * g), rmul(F, G), "poly-mul", "simplify(f*g)");
  pcheck<T>(c, try_expand(g * f), rmul(F, G), "poly-mul", "g*f");
  pcheck<T>(c, try_expand(g - f), radd(G, F, -1), "poly-sub", "g-f");
  pcheck<T>(c, try_expand((f + g) * (f - g)), rmul(radd(F, G, 1), radd(F, G, -1)), "poly-nest", "(f+g)*(f-g)", 0, false);
  // values of the unexpanded expressions
  double x = rarg(c.rng, mode);
  auto v = rval(radd(F, G, 1), x); LD e = 16 * (N + M + 4) * (LD)std::numeric_limits<double>::epsilon();
  if (std::is_same<T, float>::value) e = 16 * (N + M + 4) * (LD)std::numeric_limits<float>::epsilon();
  auto near = [&](LD got, VM w, const char* what) { c.check(std::fabs(got - w.v) <= e * w.m + 1e-300L, "poly-value", std::string(what) + " at " + str(x) + " is " + str((double)got) + " instead of " + str((double)w.v)); c.count("values"); };
  near(sub(f + g, V() = x), v, "sub(f+g)");
  near(sub(f * g, V() = x), rval(rmul(F, G), x), "sub(f*g)");
  near(sub(f - g, V() = x), rval(radd(F, G, -1), x), "sub(f-g)");
  c.check(std::equal(f.begin(), f.end(), f0.begin()) && std::equal(g.begin(), g.end(), g0.begin()), "poly-operand-changed", "an operand was altered");
  bool nz = false; for (size_t i = 1; i <= N; ++i) nz |= f[i] != 0;
  if (nz || N == 0) c.nontrivial();
}

template <size_t N, class T, size_t D, class V> void derivs(Case& c, const Polynomial<N, T, V>& f, double x, LD eps) {
  auto a = eval_derivatives<D>(f, (T)x);
  c.check(a.size() == D + 1, "poly-eval-derivatives", "wrong number of derivatives");
  RP r = rp(f);
  for (size_t d = 0; d <= D; ++d) {
    auto w = rval(r, (T)x);
    c.check(std::fabs((LD)a[d] - w.v) <= 8 * (N + D + 2) * eps * w.m + 1e-300L, "poly-eval-derivatives", "eval_derivatives<" + str(D) + ">[" + str(d) + "] at " + str(x) + " is " + str((double)a[d]) + " instead of " + str((double)w.v));
    r = rder(r); c.count("derivative_values");
  }
}

template <size_t N, class T, class V> typename std::enable_if<(N > 0)>::type dcheck(Case& c, const Polynomial<N, T, V>& f) {
  RP r = rder(rp(f));
  auto d = derivative(f, V());
  static_assert(std::is_same<decltype(d), Polynomial<N - 1, T, V>>::value, "order of the derivative");
  pcheck<T>(c, d, r, "poly-derivative", "derivative");
  auto d2 = derivative(f, typename std::conditional<std::is_same<V, X>::value, Y, X>::type());
  static_assert(std::is_same<decltype(d2), Null>::value, "derivative in another variable");
  auto lo = change_order<N - 1>(f);
  RP t = rp(f); t.v.pop_back(); t.m.pop_back();
  pcheck<T>(c, lo, t, "poly-change-order", "change_order<N-1>");
}
template <size_t N, class T, class V> typename std::enable_if<(N == 0)>::type dcheck(Case& c, const Polynomial<N, T, V>& f) { static_assert(std::is_same<decltype(derivative(f, V())), Null>::value, "constant"); }

template <size_t N, class T, class V = X> void unary(Case& c) {
  typedef typename std::conditional<std::is_integral<T>::value, double, T>::type TF;
  int mode = std::is_integral<T>::value ? (int)c.rng.below(2) : (int)c.rng.below(5);
  auto f = mk<N, T, V>(c, mode); const auto f0 = f;
  T k = cast<T>(mode < 2 ? (double)c.rng.range(-9, 9) : c.rng.chance(1, 6) ? 0.0 : rcoef(c.rng, mode));
  double x = rarg(c.rng, mode);
  c.desc("unary N=" + str(N) + " " + pstr(f) + " k=" + str(k) + " x=" + str(x));
  RP F = rp(f);
  LD eps = std::numeric_limits<TF>::epsilon();
  RP K(1); K.v[0] = k; K.m[0] = std::fabs((LD)k);
  pcheck<T>(c, -f, rscale(F, -1), "poly-negate", "-f");
  pcheck<T>(c, try_expand(f * k), rscale(F, k), "poly-scalar", "f*k");
  pcheck<T>(c, try_expand(k * f), rscale(F, k), "poly-scalar", "k*f");
  pcheck<T>(c, try_expand(f + k), radd(F, K, 1), "poly-scalar", "f+k");
  pcheck<T>(c, try_expand(k + f), radd(F, K, 1), "poly-scalar", "k+f");
  pcheck<T>(c, try_expand(f - k), radd(F, K, -1), "poly-scalar", "f-k");
  pcheck<T>(c, try_expand(k - f), radd(K, F, -1), "poly-scalar", "k-f");
  if (k != 0) {
    RP q(F); for (auto& z : q.v) z /= k; for (auto& z : q.m) z /= std::fabs((LD)k);
    pcheck<std::conditional_t<std::is_integral<T>::value, double, T>>(c, try_expand(f / k), q, "poly-scalar", "f/k", 4 * eps, false);
  }
  { RP xx(2); xx.v[1] = xx.m[1] = 1; pcheck<T>(c, try_expand(f * V()), rmul(F, xx), "poly-times-x", "f*x"); pcheck<T>(c, try_expand(V() * f), rmul(F, xx), "poly-times-x", "x*f"); 
    pcheck<T>(c, try_expand(f + V()), radd(F, xx, 1), "poly-plus-x", "f+x"); pcheck<T>(c, try_expand(V() - f), radd(xx, F, -1), "poly-plus-x", "x-f"); }
  pcheck<T>(c, try_expand(f + C<3>()), radd(F, [] { RP r(1); r.v[0] = r.m[0] = 3; return r; }(), 1), "poly-const", "f+C<3>");
  pcheck<T>(c, try_expand(C<-2>() * f), rscale(F, -2), "poly-const", "C<-2>*f");
  dcheck(c, f);
  // powers
  bool small = true; for (auto z : F.v) if (std::fabs(z) > 12) small = false;
  if (!std::is_integral<T>::value || small) {
    pcheck<T>(c, try_expand(pow(f, C<2>())), rpow(F, 2), "poly-pow", "f^2", 4 * eps);
    pcheck<T>(c, try_expand(pow(f, C<3>())), rpow(F, 3), "poly-pow", "f^3", 8 * eps);
    pcheck<T>(c, try_expand(pow(f, C<1>())), F, "poly-pow", "f^1");
  }
  // construction
  { Polynomial<N + 2, T, V> up(f); pcheck<T>(c, up, F, "poly-promote", "promotion"); for (size_t i = N + 1; i <= N + 2; ++i) c.check(up[i] == 0, "poly-promote", "new leading coefficients are not zero");
    pcheck<T>(c, change_order<N + 1>(f), F, "poly-change-order", "change_order<N+1>"); pcheck<T>(c, change_order<N>(f), F, "poly-change-order", "change_order<N>");
    Polynomial<N, T, V> it(f.begin(), f.end()); pcheck<T>(c, it, F, "poly-range-ctor", "range constructor");
    Polynomial<N, T, V> partial(f.begin(), f.begin() + (N + 1) / 2); RP pr(F); for (size_t i = (N + 1) / 2; i <= N; ++i) pr.v[i] = pr.m[i] = 0; pcheck<T>(c, partial, pr, "poly-range-ctor", "short range constructor");
    std::vector<T> longer(N + 2 + c.rng.below(3), T(1)); bool thrown = false; try { Polynomial<N, T, V> bad(longer.begin(), longer.end()); } catch (std::exception&) { thrown = true; }
    c.check(thrown, "poly-range-too-long", "a range of " + str(longer.size()) + " coefficients was accepted by order " + str(N));
    Polynomial<N, T, V> z; for (auto q : z) c.check(q == 0, "poly-default", "default polynomial is not zero"); }
  // evaluation
  for (int rep = 0; rep < 3; ++rep) {
    double xx = rep ? rarg(c.rng, mode) : x;
    LD got = sub(f, V() = xx); auto w = rval(F, xx); LD e2 = std::numeric_limits<decltype(store(T() * double()))>::epsilon();
    bool ints = mode < 2 && xx == std::floor(xx) && w.m < 0x1p53;
    c.check(std::fabs(got - w.v) <= (ints ? 0 : 8 * (N + 2) * e2 * w.m + 1e-300L), "poly-eval", "f(" + str(xx) + ") is " + str((double)got) + " instead of " + str((double)w.v)); c.count("values");
  }
  { int xi = (int)c.rng.range(-4, 4); LD got = sub(f, V() = xi); auto w = rval(F, xi); c.check(std::fabs(got - w.v) <= 8 * (N + 2) * eps * w.m, "poly-eval", "f(int " + str(xi) + ") is " + str((double)got) + " instead of " + str((double)w.v)); }
  c.check(sub(f, V() = Null()) == f[0], "poly-eval", "f(0) is not the constant coefficient");
  for (int s = 0; s < 2; ++s) {
    double inf = s ? -INFINITY : INFINITY; size_t top = N; while (top > 0 && f[top] == 0) --top;
    double want = top == 0 ? (double)f[0] : ((f[top] > 0) == !(s && (top % 2)) ? INFINITY : -INFINITY);
    double got = sub(f, V() = inf);
    c.check(got == want, "poly-limit", "limit at " + str(inf) + " is " + str(got) + " instead of " + str(want)); c.count("limits");
  }
  // the same sign at infinity however large or small the coefficients are, down to a single unit of the leading one
  if (!std::is_integral<T>::value) {
    auto g = f; int sc = std::is_same<T, float>::value ? (int)c.rng.range(-140, 80) : (int)c.rng.range(-1070, 900); size_t from = c.rng.chance(1, 2) ? 0 : c.rng.below(N + 1); for (size_t i = from; i <= N; ++i) g[i] = (T)std::ldexp((LD)g[i], sc);
    if (c.rng.chance(1, 4)) g[N] = std::numeric_limits<T>::denorm_min() * (c.rng.chance(1, 2) ? 1 : -1);
    for (int s = 0; s < 2; ++s) {
      double inf = s ? -INFINITY : INFINITY; size_t top = N; while (top > 0 && g[top] == 0) --top;
      double want = top == 0 ? (double)g[0] : ((g[top] > 0) == !(s && (top % 2)) ? INFINITY : -INFINITY), got = sub(g, V() = inf);
      c.check(got == want, "poly-limit", "limit of " + pstr(g) + " at " + str(inf) + " is " + str(got) + " instead of " + str(want)); c.count("limits_of_extreme_coefficients");
    }
  }
  { auto ff = sub(f, typename std::conditional<std::is_same<V, X>::value, Y, X>::type() = 2.0); pcheck<T>(c, ff, F, "poly-sub-other", "substitution of another variable");
    auto fr = sub(f, V() = typename std::conditional<std::is_same<V, X>::value, Y, X>::type()); static_assert(!std::is_same<decltype(fr), Polynomial<N, T, V>>::value, "renamed"); pcheck<T>(c, fr, F, "poly-rename", "renaming the variable"); }
  c.check(std::equal(f.begin(), f.end(), f0.begin()), "poly-operand-changed", "the operand was altered");
  for (size_t i = 1; i <= N; ++i) if (f[i] != 0) c.nontriv = true;
  if (N == 0) c.nontrivial();
}

template <size_t N, class T, class V = X> void transforms(Case& c) {
  int mode = (int)c.rng.below(5);
  auto f = mk<N, T, V>(c, mode); const auto f0 = f;
  double t = rarg(c.rng, mode), k = c.rng.chance(1, 8) ? 0.0 : rarg(c.rng, mode); double x = rarg(c.rng, mode);
  c.desc("transforms N=" + str(N) + " " + pstr(f) + " t=" + str(t) + " k=" + str(k) + " x=" + str(x));
  RP F = rp(f); LD eps = std::numeric_limits<T>::epsilon();
  pcheck<T>(c, shift_function(f, t), rcompose(F, 1, t), "poly-shift", "shift_function(f," + str(t) + ")", 8 * eps);
  pcheck<T>(c, shift_function(f, Unity()), rcompose(F, 1, 1), "poly-shift", "shift_function(f,1)", 8 * eps);
  pcheck<T>(c, reflect_poly(f), rcompose(F, -1, 0), "poly-reflect", "reflect_poly");
  pcheck<T>(c, scale_poly(f, (T)k), rcompose(F, (T)k, 0), "poly-scale", "scale_poly(f," + str(k) + ")", 4 * eps);
  pcheck<T>(c, invert_taylor_shift(f), rcompose(rrev(F), 1, 1), "poly-invert-shift", "invert_taylor_shift", 8 * eps);
  { auto g = reflect_poly(reflect_poly(f)); c.check(std::equal(g.begin(), g.end(), f.begin()), "poly-reflect", "reflecting twice is not the identity"); }
  derivs<N, T, 0>(c, f, x, eps); derivs<N, T, 1>(c, f, x, eps); derivs<N, T, 2>(c, f, x, eps); derivs<N, T, N>(c, f, x, eps); derivs<N, T, N + 2>(c, f, x, eps);
  // documented error estimate really bounds the error of evaluation
  if (std::is_same<T, double>::value) {
    LD got = sub(f, V() = x), w = rval(F, x).v, m = rval(F, x).m, p = precision(f, x);
    c.check(std::fabs(got - w) <= p * 1.01L + 0x1p-60L * m + 1e-300L, "poly-precision", "evaluation at " + str(x) + " is off by " + str((double)std::fabs(got - w)) + " but the error estimate is " + str((double)p));
    c.check(p <= 64 * (N + 1) * 0x1p-52 * m + 1e-300L, "poly-precision", "error estimate " + str((double)p) + " is far above the rounding error bound for magnitude " + str((double)m));
    c.check(precision(f, (double)INFINITY) == 0, "poly-precision", "non-zero error estimate at infinity"); c.count("precision_estimates");
  }
  // Moebius bookkeeping: transformed argument maps back to the original one
  {
    MobiusTransform<double> M(1, 0, 0, 1); RP P = F; // P(y) = (denominator)^N f(M(y))
    std::string ops; LD mag = 1;
    auto g = f;
    for (int i = 0, n = (int)c.rng.range(1, 4); i < n; ++i) {
      switch (c.rng.below(3)) {
        case 0: { double s = (double)c.rng.range(1, 4); M.shift(s); g = shift_function(g, s); P = rcompose(P, 1, s); ops += " shift" + str(s); break; }
        case 1: { double s = (double)c.rng.range(1, 4); M.scale(s); g = scale_poly(g, (T)s); P = rcompose(P, s, 0); ops += " scale" + str(s); break; }
        default: M.invert_taylor_shift(); g = invert_taylor_shift(g); P = rcompose(rrev(P), 1, 1); ops += " invert"; break;
      }
    }
    pcheck<T>(c, g, P, "poly-compose-transforms", "after" + ops, 64 * eps);
    double y = c.rng.real(0.01, 5); LD den = (LD)M[2] * y + M[3], num = (LD)M[0] * y + M[1];
    auto a = rval(P, y); auto b = rval(F, num / den); LD s = std::pow(den, (LD)N);
    c.check(std::fabs(a.v - b.v * s) <= 1e-12L * (a.m + std::fabs(s) * b.m) * (std::is_same<T, float>::value ? 1e6L : 1), "poly-moebius", "after" + ops + " the Moebius transform does not describe the transformed polynomial");
    c.check(std::fabs(M.eval(y) - (double)(num / den)) <= 1e-12 * std::fabs((double)(num / den)), "poly-moebius", "eval");
    if (M[0] != 0 || M[2] != 0) { double lim = M.eval(INFINITY); LD want = M[2] != 0 ? (LD)M[0] / M[2] : INFINITY; c.check(lim == (double)want || std::fabs(lim - (double)want) < 1e-12 * std::fabs((double)want), "poly-moebius", "limit at infinity is " + str(lim) + " after" + ops); }
    c.count("moebius");
  }
  c.check(std::equal(f.begin(), f.end(), f0.begin()), "poly-operand-changed", "the operand was altered");
  for (size_t i = 1; i <= N; ++i) if (f[i] != 0) c.nontriv = true;
}

// construction from lists, ranges and other orders in storage that held something else; printed form
template <size_t N, class T> void construct(Case& c) {
  typedef Polynomial<N, T> P; alignas(P) unsigned char mem[sizeof(P)];
  std::vector<T> a; const size_t n = c.rng.below(N + 2); int mode = std::is_integral<T>::value ? 0 : (int)c.rng.below(5);
  for (size_t i = 0; i < n; ++i) a.push_back(c.rng.chance(1, 4) ? T(0) : cast<T>(rcoef(c.rng, mode)));
  std::string d = "N=" + str(N) + " from"; for (T x : a) d += " " + str((double)x); c.desc(d);
  auto same = [&](const P& p, const char* what) { for (size_t i = 0; i <= N; ++i) c.check(p[i] == (i < n ? a[i] : T(0)), "poly-construct", std::string(what) + ": coefficient " + str(i) + " is " + str((double)p[i]) + "; " + d); c.count("coefficients_constructed"); };
  auto dirty = [&] { for (auto& b : mem) b = (unsigned char)(1 + c.rng.below(0x3f)); };
  dirty(); { P* p = new (mem) P; for (size_t i = 0; i <= N; ++i) c.check((*p)[i] == T(0), "poly-construct", "default constructor leaves coefficient " + str(i) + " at " + str((double)(*p)[i])); }
  dirty(); P* p = new (mem) P(a.begin(), a.end()); same(*p, "range"); const P q = *p; same(q, "copy");
  dirty(); switch (n) { case 0: p = new (mem) P(std::initializer_list<T>{}); same(*p, "list"); break; case 1: p = new (mem) P{a[0]}; same(*p, "list"); break;
    case 2: if constexpr (N >= 1) { p = new (mem) P{a[0], a[1]}; same(*p, "list"); } break; case 3: if constexpr (N >= 2) { p = new (mem) P{a[0], a[1], a[2]}; same(*p, "list"); } break; }
  { bool threw = false; std::vector<T> b(N + 2 + c.rng.below(3), T(1)); try { P t(b.begin(), b.end()); } catch (std::exception&) { threw = true; } c.check(threw, "poly-construct", "a range of " + str(b.size()) + " coefficients was accepted"); }
  { typedef Polynomial<N + 3, T> Q; alignas(Q) unsigned char m2[sizeof(Q)]; for (auto& b : m2) b = (unsigned char)(1 + c.rng.below(0x3f)); Q* w = new (m2) Q(q); for (size_t i = 0; i <= N + 3; ++i) c.check((*w)[i] == (i < n ? a[i] : T(0)), "poly-construct", "raised to order " + str(N + 3) + ": coefficient " + str(i) + " is " + str((double)(*w)[i])); }
  // printed form: P(c*x^k + ... + c*x + c), the non-zero terms only, highest first
  for (int latex = 0; latex < 2; ++latex) {
    std::string s = latex ? sym::repr<stator::ReprConfig<stator::Latex_output>>(q) : sym::repr(q), want = "P("; bool any = false;
    for (size_t i = N + 1; i-- > 0;) { if (q[i] == T(0) && !(i == 0 && !any)) continue; if (any) want += " + "; any = true; want += latex ? sym::repr<stator::ReprConfig<stator::Latex_output>>(q[i]) : sym::repr(q[i]); if (i) want += "*x"; if (i > 1) want += latex ? "^{" + std::to_string(i) + "}" : "^" + std::to_string(i); }
    want += ")"; c.check(s == want, "poly-printed", "printed " + s + " expected " + want); c.count("printed");
  }
  c.nontrivial();
}

typedef void (*Fn)(Case&);
template <size_t N, size_t... M> void rows(std::vector<Fn>& v, std::index_sequence<M...>) { Fn a[] = {binary<N, M, double, double>...}; v.insert(v.end(), std::begin(a), std::end(a)); }

int main(int argc, char** argv) {
  Harness h("C13");
  static std::vector<Fn> bin; auto s = std::make_index_sequence<7>();
  rows<0>(bin, s); rows<1>(bin, s); rows<2>(bin, s); rows<3>(bin, s); rows<4>(bin, s); rows<5>(bin, s); rows<6>(bin, s);
  static std::vector<Fn> mixed = {binary<1, 2, int, int>, binary<3, 3, int, int>, binary<4, 2, int, int>, binary<0, 3, int, int>, binary<5, 5, int, int>, binary<2, 3, int, double>, binary<3, 1, double, int>, binary<4, 4, float, float>, binary<2, 5, float, float>,
    binary<3, 0, float, double>, binary<2, 2, long double, long double>, binary<3, 4, long, long>, binary<2, 4, double, double, Y>, binary<5, 3, int, double, Y>,
    binary<8, 8, double, double>, binary<9, 12, double, double>, binary<12, 3, double, double>, binary<16, 2, double, double>, binary<1, 16, double, double>, binary<17, 17, double, double>, binary<11, 10, int, int>};
  static std::vector<Fn> un = {unary<0, double>, unary<1, double>, unary<2, double>, unary<3, double>, unary<4, double>, unary<5, double>, unary<6, double>, unary<8, double>, unary<11, double>, unary<1, int>, unary<2, int>, unary<3, int>, unary<5, int>, unary<3, float>, unary<3, double, Y>};
  static std::vector<Fn> tr = {transforms<0, double>, transforms<1, double>, transforms<2, double>, transforms<3, double>, transforms<4, double>, transforms<5, double>, transforms<6, double>, transforms<7, double>, transforms<9, double>, transforms<12, double>, transforms<15, double>, transforms<3, double, Y>};
  h.add("binary", 150000, 6000000, [](Case& c) { bin[c.idx % bin.size()](c); });
  h.add("mixed", 40000, 2000000, [](Case& c) { mixed[c.idx % mixed.size()](c); });
  h.add("unary", 60000, 3000000, [](Case& c) { un[c.idx % un.size()](c); });
  h.add("transforms", 60000, 3000000, [](Case& c) { tr[c.idx % tr.size()](c); });
  static std::vector<Fn> co = {construct<0, double>, construct<1, double>, construct<2, double>, construct<3, double>, construct<5, double>, construct<9, double>, construct<17, double>, construct<2, int>, construct<6, int>, construct<4, float>, construct<3, long double>};
  h.add("construction", 20000, 600000, [](Case& c) { co[c.idx % co.size()](c); });
  return h.main(argc, argv);
}
