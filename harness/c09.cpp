#include <cstddef>
#include <new>
// an allocator that can be told to fail once
static thread_local long g_countdown = -1; static long g_injected = 0;
static void* vf_alloc(size_t n) {
  if (g_countdown >= 0 && g_countdown-- == 0) { ++g_injected; throw std::bad_alloc(); }
  extern void* vf_malloc(size_t); return vf_malloc(n);
}
#include <cstdlib>
void* vf_malloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return vf_alloc(n); }
void* operator new[](size_t n) { return vf_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "hist.hpp"
using namespace vf;
typedef std::vector<std::pair<sym::Expr, std::string>> Pool; // expression and what it was when made

static bool small(const sym::Expr& e) { return nodes(read(e)) < 60; }
struct Stats { long ops = 0, drops = 0, threw = 0, faults = 0; std::string bad; };
// one history: operations, drops, failures; every live result is re-read against what it was when made
static void history(uint64_t seed, int steps, bool faults, Stats& st) {
  Rng r(seed); Pool pool;
  auto add = [&](const sym::Expr& e) { if (small(e)) pool.push_back({e, ident(read(e))}); };
  for (int i = 0; i < 3; ++i) add(build(histtree(r, 2)));
  for (int i = 0; i < steps && st.bad.empty(); ++i) {
    while (pool.size() < 2) add(build(histtree(r, 1)));
    int op = (int)r.below(NOPS);
    size_t a = r.below(pool.size()), b = r.below(pool.size()), c = r.below(pool.size());
    std::vector<uint64_t> rs{r.next()};
    long cd = faults && r.chance(1, 2) ? (long)r.below(r.chance(1, 2) ? 12 : 120) : -1;
    try {
      Rng q(rs[0]);
      g_countdown = cd;
      sym::Expr e = perform(op, q, pool[a].first, pool[b].first, pool[c].first);
      g_countdown = -1;
      ++st.ops; add(e);
    } catch (std::bad_alloc&) { ++st.faults; }
    catch (std::exception&) { ++st.threw; }
    g_countdown = -1;
    // operands may go before results are looked at
    int n = (int)r.below(3);
    for (int k = 0; k < n && !pool.empty(); ++k) { size_t d = r.below(pool.size()); if (r.chance(1, 2)) { pool[d] = pool.back(); pool.pop_back(); } else pool.erase(pool.begin() + d); ++st.drops; }
    if (r.chance(1, 4)) for (auto& p : pool) if (ident(read(p.first)) != p.second) { st.bad = "after " + std::string(opn(op)) + " an expression made as " + p.second + " reads " + ident(read(p.first)); break; }
    if (r.chance(1, 6) && !pool.empty()) for (int w = 0; w < 5; ++w) observe(pool[r.below(pool.size())].first, w, r, pool[r.below(pool.size())].first);
  }
  for (auto& p : pool) if (st.bad.empty() && ident(read(p.first)) != p.second) st.bad = "at the end an expression made as " + p.second + " reads " + ident(read(p.first));
  // drop in a random order
  while (!pool.empty()) { size_t d = r.below(pool.size()); pool.erase(pool.begin() + d); }
}
static void judge(Case& c, int steps, bool faults) {
  uint64_t seed = c.rng.next();
  c.desc("history " + str(seed) + " of " + str(steps) + " steps" + (faults ? " with failing allocations" : ""));
  Stats s1, s2;
  history(seed, steps, faults, s1);
  c.check(s1.bad.empty(), "result-changed", s1.bad);
  size_t b1 = __sanitizer_get_current_allocated_bytes();
  history(seed, steps, faults, s2);
  size_t b2 = __sanitizer_get_current_allocated_bytes();
  c.check(s2.bad.empty(), "result-changed", s2.bad);
  c.check(b2 <= b1, "memory-grows", "repeating a history whose expressions are all gone leaves " + str(b2 - b1) + " more bytes allocated");
  c.count("operations", s1.ops + s2.ops); c.count("drops", s1.drops + s2.drops); c.count("library_exceptions", s1.threw + s2.threw); c.count("allocation_failures", s1.faults + s2.faults); c.count("quiescent_points", 2);
  c.nontrivial();
}
// compile-time wrappers must keep their operands alive by value
template <class F> static void lifetime(Case& c, const std::string& name, F f, const std::string& want) {
  c.desc("lifetime of " + name);
  auto held = f();           // every temporary of f is gone now
  std::vector<std::string> noise; for (int i = 0; i < 8; ++i) noise.push_back(std::string(24 + i, 'q'));
  sym::Expr e(held);
  std::string got = sym::repr(e);
  c.check(got == want, "lifetime", name + " reads " + got + " instead of " + want);
  c.count("held_expressions");
}
int main(int argc, char** argv) {
  Harness h("C09");
  h.add("histories", 1600, 40000, [](Case& c) { judge(c, 10 + (int)c.rng.below(50), false); });
  h.add("failing-allocations", 1600, 40000, [](Case& c) { judge(c, 10 + (int)c.rng.below(40), true); });
  h.add("exceptions", 600, 10000, [](Case& c) {
    // an operation that fails leaves no memory behind
    P t = histtree(c.rng, 3); uint64_t s = c.rng.next();
    c.desc("failing operations on " + text(t));
    sym::Expr a = build(t), b = build(histtree(c.rng, 2));
    size_t base = 0; long threw = 0;
    for (int round = 0; round < 3; ++round) {
      for (int op = 0; op < NOPS; ++op) { Rng q(s + op); try { perform(op, q, a, b, a); } catch (std::exception&) { ++threw; } }
      size_t now = __sanitizer_get_current_allocated_bytes();
      if (round == 1) base = now;
      if (round == 2) c.check(now <= base, "memory-grows", "each round of failing operations leaves " + str(now - base) + " more bytes");
    }
    c.check(same(read(a), t), "result-changed", "the operand now reads " + text(read(a)));
    c.count("library_exceptions", threw);
    c.nontrivial();
  });
  h.add("results-outlive-operands", 2500, 50000, [](Case& c) {
    // build a result from temporaries only, then read it
    P t = histtree(c.rng, 3), u = histtree(c.rng, 2);
    c.desc(text(t) + " with " + text(u));
    int op = (int)c.rng.below(NOPS); uint64_t s = c.rng.next();
    std::string want, got; sym::Expr keep;
    try {
      { Rng q(s); sym::Expr a = build(t), b = build(u); sym::Expr res = perform(op, q, a, b, b); want = ident(read(res)); }
      { Rng q(s); keep = perform(op, q, build(t), build(u), build(u)); }
    } catch (stator::Exception&) { return; }
    std::vector<sym::Expr> noise; for (int i = 0; i < 5; ++i) noise.push_back(build(u));
    got = ident(read(keep));
    c.check(got == want, "result-changed", std::string(opn(op)) + " of temporaries reads " + got + " instead of " + want);
    c.nontrivial();
  });
  h.add("compile-time-lifetime", 400, 4000, [](Case& c) {
    using namespace sym;
    Var<> x;
    std::string nm = "v"; int n = (int)c.rng.below(30); for (int i = 0; i < n; ++i) nm += char('a' + c.rng.below(26));
    double k = c.rng.range(2, 90) / 8.0; std::string ks = numtext(k);
    lifetime(c, "sin of a temporary", [&] { return sym::sin(sym::Expr(VarRT::create(nm)) + sym::Expr(k)); }, "sin (" + nm + "+" + ks + ")");
    lifetime(c, "variable times temporary", [&] { auto q = x * k; return q + 1.5; }, "x*" + ks + "+1.5");
    lifetime(c, "power of a local", [&] { auto q = x + k; auto w = sym::pow(q, C<2>()); return w * q; }, "(x+" + ks + ")^2*(x+" + ks + ")");
    lifetime(c, "nested functions", [&] { return sym::exp(sym::cos(sym::log(x + k)) - x); }, "exp (cos (ln (x+" + ks + "))-x)");
    lifetime(c, "mixed with run-time", [&] { sym::Expr r(nm); return r * sym::Expr(x + k); }, nm + "*(x+" + ks + ")");
    lifetime(c, "equation", [&] { auto q = x + k; return sym::equality(q, x * k); }, "x+" + ks + "=x*" + ks);
    lifetime(c, "negation", [&] { auto q = -(x + k); return q; }, "-(x+" + ks + ")");
    c.nontrivial();
  });
  return h.main(argc, argv);
}
