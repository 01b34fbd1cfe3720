// C23: fixed-capacity vectors behave as sequences (see tools/gen_c23.py for the compile-time lists)
#include "common.hpp"
#include <tuple>
#include <stator/exception.hpp>
#include <stator/orphan/stack_vector.hpp>
using namespace vf; using stator::orphan::StackVector;

// an element that knows whether it holds something
struct Tok {
  std::string v; static long live;
  Tok() : v() { ++live; } Tok(const std::string& s) : v(s) { ++live; } Tok(const Tok& o) : v(o.v) { ++live; } Tok& operator=(const Tok&) = default; ~Tok() { --live; }
  bool operator==(const Tok& o) const { return v == o.v; } bool operator!=(const Tok& o) const { return v != o.v; } bool operator<(const Tok& o) const { return v < o.v; }
};
long Tok::live = 0;
std::ostream& operator<<(std::ostream& o, const Tok& t) { return o << (t.v.empty() ? "UNSET" : t.v); }

template <class T> struct Make;
template <> struct Make<int> { static int make(Rng& r) { return (int)r.range(-4, 4); } static std::string print(int x) { return str(x); } };
template <> struct Make<double> { static double make(Rng& r) { return r.chance(1, 2) ? (double)r.range(-3, 3) : (double)r.range(-64, 64) / 32; } static std::string print(double x) { return str(x); } };
template <> struct Make<Tok> { static Tok make(Rng& r) { std::string s(1 + r.below(r.chance(1, 4) ? 40 : 3), 'a'); for (char& c : s) c = 'a' + r.below(3); return Tok(s); } static std::string print(const Tok& t) { return t.v; } };
typedef std::pair<double, int> PR; typedef std::tuple<int, Tok, double> TP;
template <> struct Make<PR> { static PR make(Rng& r) { return {Make<double>::make(r), Make<int>::make(r)}; } static std::string print(const PR& p) { return "[" + str(p.first) + ", " + str(p.second) + "]"; } };
template <> struct Make<TP> { static TP make(Rng& r) { return TP{Make<int>::make(r), Make<Tok>::make(r), Make<double>::make(r)}; } static std::string print(const TP& p) { return "[" + str(std::get<0>(p)) + " " + std::get<1>(p).v + " " + str(std::get<2>(p)) + " ]"; } };

template <class T, size_t N> void same(Case& c, const StackVector<T, N>& a, const std::vector<T>& m, const std::string& what) {
  StackVector<T, N>& b = const_cast<StackVector<T, N>&>(a);
  c.check(a.size() == m.size() && a.empty() == m.empty() && b.size() == m.size(), "size", what + ": size " + str(a.size()) + " expected " + str(m.size()));
  c.check(std::vector<T>(a.begin(), a.end()) == m && std::vector<T>(b.begin(), b.end()) == m && std::vector<T>(a.cbegin(), a.cend()) == m, "forward-iteration", what);
  std::vector<T> rv(m.rbegin(), m.rend());
  c.check(std::vector<T>(a.rbegin(), a.rend()) == rv && std::vector<T>(b.rbegin(), b.rend()) == rv && std::vector<T>(a.crbegin(), a.crend()) == rv, "reverse-iteration", what);
  for (size_t i = 0; i < m.size(); ++i) c.check(a[i] == m[i] && b[i] == m[i] && a.at(i) == m[i], "element", what + ": element " + str(i));
  if (!m.empty()) { c.check(a.back() == m.back() && b.back() == m.back() && a.front() == m.front(), "front-back", what); b.back() = m.back(); }
  std::string e = "StackVector{ "; for (const T& x : m) e += Make<T>::print(x) + " "; e += "}";
  std::ostringstream os; os << a; c.check(os.str() == e, "printed", what + ": printed " + os.str() + " expected " + e);
  std::vector<T> again; for (const auto& x : a) again.push_back(x);
  c.check(again == m, "range-for", what); c.count("states_compared");
}

template <class T, size_t N> void history(Case& c, bool fill = false) {
  Rng& r = c.rng; typedef StackVector<T, N> V;
  long live0 = Tok::live; std::vector<V> vs(3); std::vector<std::vector<T>> ms(3); std::string tr = "capacity " + str(N) + ":";
  size_t steps = r.range(3, 25);
  if (fill) { steps = r.range(3, 10); size_t n = N - r.below(6); for (size_t k = 0; k < n; ++k) { T x = Make<T>::make(r); vs[0].push_back(x); ms[0].push_back(x); } tr += " filled to " + str(n); c.desc(tr); }
  for (size_t s = 0; s < steps; ++s) {
    size_t i = r.below(3), j = r.below(3); V& v = vs[i]; std::vector<T>& m = ms[i];
    switch (r.below(14)) {
      case 0: case 1: case 2: if (m.size() < N) { T x = Make<T>::make(r); tr += " push" + str(i); c.desc(tr); v.push_back(x); m.push_back(x); } break;
      case 3: if (m.size() && m.size() < N) { tr += " pushself" + str(i); c.desc(tr); size_t k = r.below(m.size()); v.push_back(v[k]); T t = m[k]; m.push_back(t); } break;
      case 4: case 5: if (!m.empty()) { tr += " pop" + str(i); c.desc(tr); T x = v.pop_back(); c.check(x == m.back(), "pop", tr + ": popped another element"); m.pop_back(); } break;
      case 6: if (m.size() + ms[j].size() <= N) { tr += " extend" + str(i) + str(j); c.desc(tr); v.extend(vs[j]); std::vector<T> t = ms[j]; m.insert(m.end(), t.begin(), t.end()); } break;
      case 7: tr += " copy" + str(i) + str(j); c.desc(tr); v = vs[j]; { auto t = ms[j]; m = t; } break;
      case 8: { tr += " sort" + str(i); c.desc(tr); std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); break; }
      case 9: if (!m.empty()) { size_t k = r.below(m.size()); T x = Make<T>::make(r); tr += " set" + str(i); c.desc(tr); if (r.chance(1, 2)) v[k] = x; else *(v.begin() + k) = x; m[k] = x; } break;
      case 10: { T a = Make<T>::make(r), b = Make<T>::make(r), d = Make<T>::make(r); size_t k = r.below(4); tr += " list" + str(i) + ":" + str(k); c.desc(tr);
        if (k == 0) v = V{}; else if (k == 1) v = V{a}; else if (k == 2) v = V{a, b}; else v = V{a, b, d};
        m.clear(); if (k > 0) m.push_back(a); if (k > 1) m.push_back(b); if (k > 2) m.push_back(d); if (m.size() > N) m.resize(N); break; }
      case 11: { tr += " grow" + str(i); c.desc(tr); StackVector<T, N + 3> w(v); same(c, w, m, tr); for (int q = 0; q < 3; ++q) { T x = Make<T>::make(r); w.push_back(x); m.push_back(x); } same(c, w, m, tr + " pushed"); for (int q = 0; q < 3; ++q) { w.pop_back(); m.pop_back(); } same(c, w, m, tr + " popped"); c.count("enlarged"); break; }
      case 12: { tr += " compare" + str(i) + str(j); c.desc(tr); const V &a = vs[i], &b = vs[j];
        c.check((a == b) == (ms[i] == ms[j]), "equality", tr + ": == says " + str(a == b) + " for contents of " + str(ms[i].size()) + " and " + str(ms[j].size()) + " elements");
        c.check((a != b) == (ms[i] != ms[j]), "equality", tr + ": != says " + str(a != b));
        c.check((a < b) == (ms[i] < ms[j]) && (a > b) == (ms[i] > ms[j]) && (a <= b) == (ms[i] <= ms[j]) && (a >= b) == (ms[i] >= ms[j]), "ordering", tr);
        V f; for (const T& x : ms[i]) f.push_back(x);
        c.check(f == a && !(f != a), "equality", tr + ": a vector of the same elements, built afresh, is not equal"); c.count("comparisons"); break; }
      case 13: { tr += " swap" + str(i) + str(j); c.desc(tr); if (r.chance(1, 2)) std::swap(vs[i], vs[j]); else vs[i].swap(vs[j]); std::swap(ms[i], ms[j]); break; }
    }
    for (size_t k = 0; k < 3; ++k) same(c, vs[k], ms[k], tr + " -> vector " + str(k));
  }
  // refused accesses
  { size_t i = r.below(3); size_t k = ms[i].size() + r.below(3); bool threw = false; try { (void)vs[i].at(k); } catch (std::out_of_range&) { threw = true; } c.check(threw, "at-range", tr + ": at(" + str(k) + ") of a vector of " + str(ms[i].size()) + " elements accepted"); }
  vs.clear(); ms.clear(); c.check(Tok::live == live0, "elements-leaked", tr); c.nontrivial();
}

#ifdef STATOR_DEBUG
// with the library's debugging aid on, leaving the capacity is refused and changes nothing
template <class T, size_t N> void guarded(Case& c) {
  Rng& r = c.rng; StackVector<T, N> v; std::vector<T> m; std::string tr = "capacity " + str(N) + ":"; size_t n = r.range(N, 4 * N + 4);
  for (size_t i = 0; i < n; ++i) {
    bool push = r.chance(2, 3), threw = false; tr += push ? " push" : " pop"; c.desc(tr);
    if (push) { T x = Make<T>::make(r); try { v.push_back(x); } catch (stator::Exception&) { threw = true; } c.check(threw == (m.size() == N), "overflow", tr); if (!threw) m.push_back(x); }
    else { try { T x = v.pop_back(); if (!m.empty()) c.check(x == m.back(), "pop", tr); } catch (stator::Exception&) { threw = true; } c.check(threw == m.empty(), "underflow", tr); if (!threw) m.pop_back(); }
    if (threw) c.count("refused"); same(c, v, m, tr);
  }
  c.nontrivial();
}
#endif

int main(int ac, char** av) {
#ifdef STATOR_DEBUG
  Harness g("C23");
  g.add("guarded", 3000, 60000, [](Case& c) { switch (c.rng.below(4)) { case 0: guarded<int, 1>(c); break; case 1: guarded<int, 4>(c); break; case 2: guarded<Tok, 3>(c); break; default: guarded<PR, 5>(c); } });
  return g.main(ac, av);
#endif
  Harness h("C23");
  auto add = [&](std::string n, GroupFn f) { h.add(n, 8000, 200000, f); };
  add("int", [](Case& c) { switch (c.rng.below(5)) { case 0: history<int, 1>(c); break; case 1: history<int, 2>(c); break; case 2: history<int, 4>(c); break; case 3: history<int, 7>(c); break; default: history<int, 33>(c); } });
  add("double", [](Case& c) { switch (c.rng.below(4)) { case 0: history<double, 1>(c); break; case 1: history<double, 3>(c); break; case 2: history<double, 6>(c); break; default: history<double, 20>(c); } });
  add("object", [](Case& c) { switch (c.rng.below(3)) { case 0: history<Tok, 2>(c); break; case 1: history<Tok, 5>(c); break; default: history<Tok, 12>(c); } });
  add("pair", [](Case& c) { if (c.rng.below(2)) history<PR, 3>(c); else history<PR, 9>(c); });
  add("tuple", [](Case& c) { if (c.rng.below(2)) history<TP, 3>(c); else history<TP, 9>(c); });
  h.add("large", 160, 4000, [](Case& c) { switch (c.rng.below(5)) { case 0: history<int, 128>(c, true); break; case 1: history<int, 256>(c, true); break; case 2: history<int, 300>(c, true); break; case 3: history<double, 260>(c, true); break; default: history<Tok, 257>(c, true); } });
  return h.main(ac, av);
}
