#include "hist.hpp"
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
using namespace vf;
struct Obs { std::string id, rp, lx; size_t h; };
static Obs take(const sym::Expr& e) { return Obs{ident(read(e)), sym::repr(e), sym::repr<stator::ReprConfig<stator::Latex_output>>(e), std::hash<sym::Expr>()(e)}; }
static std::string changed(const Obs& a, const Obs& b) { return a.id != b.id ? "structure " + a.id + " became " + b.id : a.rp != b.rp ? "printed form " + a.rp + " became " + b.rp : a.lx != b.lx ? "LaTeX form changed: " + a.lx + " became " + b.lx : a.h != b.h ? "hash changed" : ""; }

// sub-expressions reachable from an expression
struct Children : sym::detail::VisitorHelper<Children, int> {
  std::vector<sym::Expr> out;
  int apply(const double&) { return 0; } int apply(const sym::VarRT&) { return 0; }
  template <class O> int apply(const sym::UnaryOp<sym::Expr, O>& o) { out.push_back(o.getArg()); return 0; }
  template <class O> int apply(const sym::BinaryOp<sym::Expr, O, sym::Expr>& o) { out.push_back(o.getLHS()); out.push_back(o.getRHS()); return 0; }
  int apply(const sym::ArrayRT& a) { for (const auto& i : a) out.push_back(i); return 0; }
  int apply(const sym::DictRT& d) { for (const auto& i : d) { out.push_back(i.first); out.push_back(i.second); } return 0; }
};

struct Task { int op; uint64_t seed; size_t a, b, c; std::string want; bool observe; int what; };
static std::string runtask(const Task& t, const std::vector<sym::Expr>& pool, sym::Expr* keep = nullptr) {
  Rng q(t.seed);
  if (t.observe) { std::string s = observe(pool[t.a], t.what, q, pool[t.b]); if (t.what == 5) { try { s += ident(read(simplify(pool[t.a]))); } catch (stator::Exception&) { s += "refused"; } } return s; }
  try { sym::Expr e = perform(t.op, q, pool[t.a], pool[t.b], pool[t.c]); if (keep) *keep = e; return ident(read(e)); }
  catch (stator::Exception& x) { return "refused"; }
}
int main(int argc, char** argv) {
  Harness h("C08");
#ifndef VF_TSAN
  h.add("operands-unchanged", 1500, 40000, [](Case& c) {
    // after every operation everything alive still reads as before
    Rng& r = c.rng; std::vector<sym::Expr> pool; std::vector<Obs> obs; std::string hist;
    auto add = [&](const sym::Expr& e) { if (nodes(read(e)) < 60) { pool.push_back(e); obs.push_back(take(e)); } };
    for (int i = 0; i < 3; ++i) add(build(histtree(r, 2)));
    // sub-expressions are held separately too
    int n = 8 + (int)r.below(20);
    for (int s = 0; s < n; ++s) {
      size_t a = r.below(pool.size()), b = r.below(pool.size()), cc = r.below(pool.size());
      if (r.chance(1, 4)) { Children ch; pool[a]->visit(ch); for (auto& x : ch.out) add(x); continue; }
      int op = (int)r.below(NOPS);
      hist = std::string(opn(op)) + " on " + obs[a].rp + " , " + obs[b].rp + " , " + obs[cc].rp;
      c.desc(hist);
      try { sym::Expr e = perform(op, r, pool[a], pool[b], pool[cc]); add(e); } catch (stator::Exception&) { c.count("library_exceptions"); }
      if (r.chance(1, 3)) observe(pool[a], (int)r.below(6), r, pool[b]);
      for (size_t i = 0; i < obs.size(); ++i) { std::string d = changed(obs[i], take(pool[i])); c.check(d.empty(), "changed", "after " + hist + ": " + d); }
      c.count("expressions_rechecked", obs.size());
      while (pool.size() > 24) { size_t k = r.below(pool.size()); pool.erase(pool.begin() + k); obs.erase(obs.begin() + k); }
    }
    c.nontrivial();
  });
  h.add("independent-of-history", 1500, 30000, [](Case& c) {
    // the same operation gives the same result whatever happened before, and whether or not its operands are shared
    Rng& r = c.rng; P ta = histtree(r, 3), tb = histtree(r, 2), tc = histtree(r, 2);
    int op = (int)r.below(NOPS); uint64_t s = r.next();
    c.desc(std::string(opn(op)) + " on " + text(ta) + " , " + text(tb) + " , " + text(tc));
    auto go = [&](const sym::Expr& x, const sym::Expr& y, const sym::Expr& z) -> std::string { Rng q(s); try { return ident(read(perform(op, q, x, y, z))); } catch (stator::Exception& e) { return "refused"; } };
    std::string want = go(build(ta), build(tb), build(tc)); // operands held by nobody else
    sym::Expr a = build(ta), b = build(tb), cc = build(tc);
    sym::Expr a2 = a, b2 = b; std::vector<sym::Expr> hold{a, b, cc, a};
    c.check(go(a, b, cc) == want, "depends-on-sharing", "shared operands give " + go(a, b, cc) + " instead of " + want);
    for (int i = 0; i < 6; ++i) { Rng q(r.next()); try { perform((int)r.below(NOPS), q, hold[r.below(4)], hold[r.below(4)], hold[r.below(4)]); } catch (stator::Exception&) {} observe(hold[r.below(4)], (int)r.below(6), r, hold[r.below(4)]); }
    c.check(go(a, b, cc) == want, "depends-on-history", "after other operations the result is " + go(a, b, cc) + " instead of " + want);
    c.check(go(build(ta), build(tb), build(tc)) == want, "depends-on-history", "fresh operands now give another result than " + want);
    c.nontrivial();
  });
#endif
  auto threads = [](Case& c, int maxthreads) {
    Rng& r = c.rng;
    std::vector<sym::Expr> pool; std::string d;
    for (int i = 0; i < 5; ++i) { P t = histtree(r, 3); pool.push_back(build(t)); }
    // expressions sharing sub-expressions
    for (int i = 0; i < 5; ++i) { Rng q(r.next()); try { sym::Expr e = perform((int)r.below(NOPS), q, pool[r.below(pool.size())], pool[r.below(pool.size())], pool[r.below(pool.size())]); if (nodes(read(e)) < 80) pool.push_back(e); } catch (stator::Exception&) {} }
    for (auto& e : pool) d += sym::repr(e) + " ; ";
    int nt = 2 + (int)r.below(maxthreads - 1), per = 6 + (int)r.below(8);
    c.desc(str(nt) + " threads on " + d);
    std::vector<std::vector<Task>> tasks(nt);
    bool same_task = r.chance(1, 3);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {
      Task k; k.observe = r.chance(1, 2); k.what = (int)r.below(6); k.op = (int)r.below(NOPS); k.seed = r.next(); k.a = r.below(pool.size()); k.b = r.below(pool.size()); k.c = r.below(pool.size());
      if (same_task && t) k = tasks[0][i];
      tasks[t].push_back(k);
    }
    bool serial_first = r.chance(1, 2);
    auto serial = [&] { for (auto& v : tasks) for (auto& k : v) k.want = runtask(k, pool); };
    if (serial_first) serial();
    std::vector<Obs> before; if (serial_first) for (auto& e : pool) before.push_back(take(e));
    // when the threads go first, first-use initialisation happens concurrently
    std::vector<std::vector<std::string>> got(nt);
    std::atomic<int> ready{0}; std::atomic<long> stamp{0};
    std::vector<std::vector<long>> order(nt);
    std::vector<std::vector<sym::Expr>> results(nt);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) {
      uint64_t ds = r.next();
      std::vector<sym::Expr> mine = pool; // own holders of the same shared expressions
      th.emplace_back([&, t, ds, mine]() mutable {
        Rng q(ds);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
        for (auto& k : tasks[t]) {
          switch (q.below(6)) { case 0: sched_yield(); break; case 1: usleep(q.below(60)); break; case 2: { volatile int z = 0; for (int i = 0; i < (int)q.below(3000); ++i) z = z + 1; } break; default: break; }
          order[t].push_back(stamp.fetch_add(1, std::memory_order_relaxed));
          sym::Expr keep;
          got[t].push_back(runtask(k, mine, &keep));
          order[t].push_back(stamp.fetch_add(1, std::memory_order_relaxed));
          if (keep && q.chance(1, 2)) results[t].push_back(keep);
          if (q.chance(1, 5)) { mine[q.below(mine.size())] = pool[k.a]; mine = pool; }
        }
        mine.clear();
      });
    }
    for (auto& t : th) t.join();
    if (!serial_first) serial();
    for (int t = 0; t < nt; ++t) for (size_t i = 0; i < tasks[t].size(); ++i)
      c.check(got[t][i] == tasks[t][i].want, "thread-result", std::string(tasks[t][i].observe ? "observation" : opn(tasks[t][i].op)) + " in a thread gives " + got[t][i] + " instead of " + tasks[t][i].want);
    for (size_t i = 0; i < before.size(); ++i) { std::string w = changed(before[i], take(pool[i])); c.check(w.empty(), "changed", w); }
    // which interleaving was that?
    std::vector<int> who(stamp.load()); for (int t = 0; t < nt; ++t) for (long s : order[t]) who[s] = t;
    std::string o; int switches = 0; for (size_t i = 0; i < who.size(); ++i) { o += char('0' + who[i]); if (i && who[i] != who[i - 1]) ++switches; }
    static std::unordered_set<uint64_t> seen; if (seen.insert(hashs(o)).second) c.count("distinct_interleavings");
    c.count("operations_in_threads", nt * per); c.count("thread_switches_observed", switches); c.count("threads", nt);
    if (switches >= nt) c.nontrivial();
  };
#ifdef VF_TSAN
  h.add("threads", 2000, 30000, [=](Case& c) { threads(c, 6); });
  h.add("many-threads", 300, 4000, [=](Case& c) { threads(c, 16); });
  h.add("hand-over", 600, 8000, [](Case& c) {
    // expressions made in one thread, used and dropped in another
    Rng& r = c.rng; P t = histtree(r, 3); uint64_t s = r.next();
    c.desc("hand-over of " + text(t));
    std::mutex m; std::condition_variable cv; std::vector<sym::Expr> q; bool done = false; long n = 0; std::string want = ident(t), bad;
    sym::Expr shared = build(t);
    std::thread cons([&] { while (true) { sym::Expr e; { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return done || !q.empty(); }); if (q.empty()) return; e = q.back(); q.pop_back(); } std::string g = ident(read(e)); if (g != want) bad = g; try { simplify(e); } catch (stator::Exception&) {} sym::repr(e); ++n; } });
    for (int i = 0; i < 12; ++i) { sym::Expr e = i % 3 ? build(t) : shared; { std::lock_guard<std::mutex> l(m); q.push_back(e); } cv.notify_one(); Rng k(s + i); try { perform((int)k.below(NOPS), k, e, shared, e); } catch (stator::Exception&) {} }
    { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_one(); cons.join();
    c.check(bad.empty(), "thread-result", "handed-over expression reads " + bad + " instead of " + want);
    c.count("handed_over", n);
    c.nontrivial();
  });
#else
  h.add("threads-unmonitored-memory", 400, 10000, [=](Case& c) { threads(c, 8); });
#endif
  return h.main(argc, argv);
}
