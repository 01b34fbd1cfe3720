// C25: volumes and surfaces of balls and boxes in any dimension
#include "common.hpp"
#include <stator/geometry/box.hpp>
#include <stator/geometry/sphere.hpp>
#include <stator/geometry/point.hpp>
using namespace vf; using namespace stator::geometry; using stator::Vector;
typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L;
static LD unitVol(size_t d) { return d == 0 ? 1 : d == 1 ? 2 : unitVol(d - 2) * 2 * PI / d; }
static LD ipow(LD x, size_t n) { LD r = 1; for (size_t i = 0; i < n; ++i) r *= x; return r; }
template <class S> S value(Rng& r, int kind, size_t D) {
  if (std::is_integral<S>::value) return (S)r.range(1, D > 6 ? 4 : 50);
  LD lim = std::is_same<S, float>::value ? 30.0L : 250.0L, e = lim / (D + 1);
  switch (kind) {
    case 0: return (S)(LD)r.range(1, 9);
    case 1: return (S)(0.25L + r.real(0, 3));
    case 2: return (S)std::pow(10.0L, (LD)r.real(-1, 1) * (e > 12 ? 12 : e));
    default: return (S)std::ldexp(1.0L, (int)r.range(-3, 3));
  }
}
template <class S> bool normal(LD x) { return std::is_integral<S>::value || x == 0 || (std::fabs(x) < (LD)std::numeric_limits<S>::max() / 4 && std::fabs(x) > (LD)std::numeric_limits<S>::min() * 4); }
template <class S> void close(Case& c, S got, LD want, size_t D, const std::string& key, const std::string& what) {
  if (!normal<S>(want)) { c.count("out_of_range"); return; }
  LD tol = std::is_integral<S>::value ? 0 : (LD)std::numeric_limits<S>::epsilon() * (16 + 4 * D) * std::fabs(want);
  c.check(std::fabs((LD)got - want) <= tol, key, what + ": " + str((LD)got) + " expected " + str(want)); c.count(key + "_checked");
}
template <class S, size_t D> Vector<S, D> vec(Rng& r) { Vector<S, D> v; for (size_t i = 0; i < D; ++i) v[i] = std::is_integral<S>::value ? (S)r.range(-20, 20) : (S)(LD)r.real(-3, 3); return v; }

template <class S, size_t D> void ball(Case& c) {
  Rng& r = c.rng; S R = value<S>(r, (int)r.below(4), D); if (r.chance(1, 15)) R = 0;
  std::string w = "ball of " + str(D) + " dimensions, radius " + str((LD)R) + (std::is_same<S, float>::value ? " (float)" : std::is_same<S, LD>::value ? " (long double)" : ""); c.desc(w);
  Vector<S, D> ctr = vec<S, D>(r); Ball<S, D> b(R, ctr), b0(R); InverseBall<S, D> ib(R, ctr);
  c.check(b.radius() == R && b.center() == ctr && b0.radius() == R && b0.center() == Vector<S, D>::Zero() && ib.radius() == R && ib.center() == ctr, "accessor", w);
  LD V = unitVol(D) * ipow(R, D), A = D * unitVol(D) * ipow(R, D - 1);
  bool ok = normal<S>(ipow(R, D)) && normal<S>(ipow(R, D - 1));
  if (ok) { close<S>(c, volume(b), V, D, "ball-volume", w); close<S>(c, area(b), A, D, "ball-area", w); close<S>(c, volume(b0), V, D, "ball-volume", w); close<S>(c, area(b0), A, D, "ball-area", w); }
  // scaling, and the surface as the change of the volume with an outward offset
  S k = (S)(LD)r.range(2, 3); Ball<S, D> bk(R * k, ctr);
  if (ok && normal<S>(V) && normal<S>(A) && normal<S>(ipow((LD)R * k, D)) && R > 0) { close<S>(c, volume(bk), (LD)volume(b) * ipow(k, D), 4 * D, "ball-scaling", w); close<S>(c, area(bk), (LD)area(b) * ipow(k, D - 1), 4 * D, "ball-scaling", w);
    if (!std::is_same<S, float>::value) { LD h = (LD)R * 1e-5L / D; LD up = volume(Ball<LD, D>((LD)R + h)), dn = volume(Ball<LD, D>((LD)R - h)), dv = (up - dn) / (2 * h); c.check(std::fabs(dv - (LD)area(b)) <= 1e-8L * std::fabs(dv), "ball-offset", w + ": volume grows by " + str(dv) + " per offset, surface " + str((LD)area(b))); } }
  c.check((volume(Point<S, D>(ctr)) == 0) && (area(Point<S, D>(ctr)) == 0) && Point<S, D>(ctr).center() == ctr, "point", w);
  c.nontrivial();
}
template <class S, size_t D> void box(Case& c) {
  Rng& r = c.rng; Vector<S, D> lo = vec<S, D>(r), hi; std::vector<LD> e; std::string w = "box of " + str(D) + " dimensions, extents"; int kind = (int)r.below(4);
  for (size_t i = 0; i < D; ++i) { if (kind == 2) lo[i] = 0; S x = value<S>(r, kind, D); if (r.chance(1, 10 * D)) x = 0; hi[i] = lo[i] + x; e.push_back((LD)(S)(hi[i] - lo[i])); w += " " + str(e.back()); }
  c.desc(w); AABox<S, D> b(hi, lo);
  c.check(b.max() == hi && b.min() == lo, "accessor", w); Vector<S, D> dim = b.dimensions(); for (size_t i = 0; i < D; ++i) c.check((LD)dim[i] == e[i], "accessor", w);
  LD V = 1, A = 0; bool ok = true; for (LD x : e) { V *= x; ok = ok && normal<S>(V); } LD small = 0;
  for (size_t i = 0; i < D; ++i) { LD f = 1; for (size_t j = 0; j < D; ++j) if (j != i) { f *= e[j]; ok = ok && normal<S>(f); } A += 2 * f; if (f > small) small = f; }
  if (!ok) { c.count("out_of_range"); return; }
  close<S>(c, volume(b), V, D, "box-volume", w); close<S>(c, area(b), A, D, "box-area", w);
  // moving the box changes nothing, scaling scales, exchanging axes changes nothing
  if (std::is_integral<S>::value || kind == 3 || kind == 0) { S k = 2; Vector<S, D> z = Vector<S, D>::Zero(), s; for (size_t i = 0; i < D; ++i) s[i] = (S)(e[D - 1 - i] * k); AABox<S, D> q(s, z); close<S>(c, volume(q), V * ipow(2, D), 2 * D, "box-scaling", w); close<S>(c, area(q), A * ipow(2, D - 1), 2 * D, "box-scaling", w); }
  if (std::is_same<S, double>::value) { LD m = 1e300L; for (LD x : e) m = std::min(m, x); if (m > 0) { LD h = m * 1e-6L / D, up = 1, dn = 1; for (LD x : e) { up *= x + 2 * h; dn *= x - 2 * h; } LD dv = (up - dn) / (2 * h); c.check(std::fabs(dv - (LD)area(b)) <= 1e-8L * std::fabs(dv), "box-offset", w); } }
  c.nontrivial();
}
template <template <class, size_t> class F, class S, size_t... D> void dispatch(Case& c, std::index_sequence<D...>) { static void (*t[])(Case&) = {&F<S, D + 1>::run...}; t[c.rng.below(sizeof...(D))](c); }
template <class S, size_t D> struct BallF { static void run(Case& c) { ball<S, D>(c); } };
template <class S, size_t D> struct BoxF { static void run(Case& c) { box<S, D>(c); } };

int main(int ac, char** av) {
  Harness h("C25");
  h.add("ball-double", 30000, 600000, [](Case& c) { dispatch<BallF, double>(c, std::make_index_sequence<24>()); });
  h.add("ball-float", 15000, 300000, [](Case& c) { dispatch<BallF, float>(c, std::make_index_sequence<16>()); });
  h.add("ball-long", 15000, 300000, [](Case& c) { dispatch<BallF, LD>(c, std::make_index_sequence<16>()); });
  h.add("ball-high", 6000, 60000, [](Case& c) { switch (c.rng.below(12)) { case 0: ball<double, 33>(c); break; case 1: ball<double, 64>(c); break; case 2: ball<double, 99>(c); break; case 3: ball<double, 100>(c); break; case 4: ball<double, 171>(c); break; case 5: ball<double, 200>(c); break; case 6: ball<double, 255>(c); break; case 7: ball<float, 35>(c); break; case 8: ball<float, 40>(c); break; case 9: ball<float, 41>(c); break; case 10: ball<LD, 45>(c); break; default: ball<LD, 120>(c); } });
  h.add("box-double", 30000, 600000, [](Case& c) { dispatch<BoxF, double>(c, std::make_index_sequence<12>()); });
  h.add("box-float", 15000, 300000, [](Case& c) { dispatch<BoxF, float>(c, std::make_index_sequence<8>()); });
  h.add("box-int", 15000, 300000, [](Case& c) { if (c.rng.below(2)) dispatch<BoxF, long>(c, std::make_index_sequence<8>()); else dispatch<BoxF, int>(c, std::make_index_sequence<4>()); });
  h.add("box-long", 15000, 300000, [](Case& c) { dispatch<BoxF, LD>(c, std::make_index_sequence<8>()); });
  return h.main(ac, av);
}
