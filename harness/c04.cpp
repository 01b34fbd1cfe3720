#include "lib.hpp"
#include "model.hpp"
using namespace vf;
static bool purenum(const P& n) { if (n->k == VAR || n->k == ARR || n->k == DICT || n->k == EQ || n->k == UNITS || n->k == UNC || n->k == ACC || n->k == ARB) return false; for (auto& c : n->ch) if (!purenum(c)) return false; return true; }
static int judge(Case& c, const P& t, const sym::Expr& e, const std::string& how) {
  sym::Expr s;
  try { s = simplify(e); } catch (stator::Exception& x) {
    if (contains(t, ARR)) { c.count("refused"); return 0; }
    c.fail("refused", std::string("simplification of ") + text(t) + " throws " + x.what());
  }
  P r = read(s), t2 = read(e);
  c.check(same(t2, t) || how == "operators", "argument-changed", "the argument is now " + text(t2));
  std::set<std::string> v0, v1; vars(t, v0); vars(r, v1);
  for (auto& v : v1) c.check(v0.count(v), "new-variable", "simplified form " + text(r) + " mentions " + v);
  if (t->k == EQ || t->k == ARR || t->k == DICT) c.check(r->k == t->k && r->ch.size() == t->ch.size(), "shape:" + how, "simplified to " + text(r));
  sym::Expr s2 = simplify(s); P r2 = read(s2);
  int used = 0;
  for (int k = 0; k < 6; ++k) {
    Env env = genenv(c.rng, v0);
    if (c.rng.chance(1, 10)) for (auto& p : env) if (c.rng.chance(1, 2)) p.second = (double)c.rng.range(-3, 3);
    Val a = veval(t, env);
    if (!vusable(a)) { c.count("assignments_skipped"); continue; }
    ++used;
    std::string d = vdiff(a, veval(r, env));
    c.check(d.empty(), "value:" + how, "simplified to " + text(r) + "\nat " + envtext(env) + d);
    d = vdiff(a, veval(r2, env));
    c.check(d.empty(), "value-twice:" + how, "simplified to " + text(r) + " and then to " + text(r2) + "\nat " + envtext(env) + d);
    // the library's own evaluation
    Val lib;
    try { lib = veval(read(simplify(sub(s, envdict(env)))), {}); } catch (stator::Exception& x) { c.fail("evaluation-refused", std::string("evaluating the simplified form ") + text(r) + " throws " + x.what()); }
    d = vdiff(a, lib);
    c.check(d.empty(), "value-evaluated:" + how, "simplified to " + text(r) + "\nat " + envtext(env) + d);
    if (v0.empty()) {
      if (purenum(t)) c.check(r->k == NUM, "not-a-number:" + how, "no variables, but simplified to " + text(r));
      break;
    }
  }
  c.count("assignments_compared", used);
  if (used && nodes(t) >= 3) c.nontrivial();
  if (canon(r) != canon(t)) c.count("simplified_to_something_else");
  return used;
}
int main(int argc, char** argv) {
  Harness h("C04");
  // two nested operators over every kind of leaf: where the rewrite rules live
  h.add("rule-shapes", 24000, 400000, [](Case& c) { Renaming rn(c.rng);
    static const std::vector<P> L{var("x"), var("y"), num(0), num(1), num(-1), num(2), num(0.5), num(-3)};
    static const K B[] = {ADD, SUB, MUL, DIV, POW}; static const K F[] = {NEG, SIN, COS, EXP, LN, ABS};
    auto op = [&](Rng& r, P a, P b) { int k = (int)r.below(7); return k < 5 ? bin(B[k], a, b) : un(F[r.below(6)], a); };
    Rng& r = c.rng;
    P l = r.chance(2, 3) ? op(r, r.pick(L), r.pick(L)) : r.pick(L), q = r.chance(1, 2) ? op(r, r.pick(L), r.pick(L)) : r.pick(L);
    if (r.chance(1, 6)) q = l;
    P t = op(r, l, q);
    if (r.chance(1, 3)) t = op(r, r.chance(1, 2) ? t : r.pick(L), r.chance(1, 2) ? r.pick(L) : t);
    c.desc(text(t));
    judge(c, t, build(t), "shapes");
  });
  h.add("trees", 16000, 400000, [](Case& c) { Renaming rn(c.rng);
    GenOpt o; o.abs = true;
    P t = gen(c.rng, 2 + (int)c.rng.below(4), o);
    c.desc(text(t));
    judge(c, t, build(t), "trees");
  });
  h.add("numbers-only", 8000, 150000, [](Case& c) {
    GenOpt o; o.abs = true; o.vars = {};
    P t = gen(c.rng, 1 + (int)c.rng.below(4), o);
    c.desc(text(t));
    judge(c, t, build(t), "numbers");
  });
  h.add("containers", 9000, 150000, [](Case& c) { Renaming rn(c.rng);
    GenOpt o; Rng& r = c.rng;
    auto el = [&]() { return gen(r, (int)r.below(4), o); };
    std::function<P(int)> box = [&](int d) -> P {
      switch (r.below(d > 0 ? 6 : 1)) {
        case 1: { std::vector<P> e; int n = (int)r.below(4); for (int i = 0; i < n; ++i) e.push_back(r.chance(1, 3) ? box(d - 1) : el()); return arr(e); }
        case 2: { std::vector<std::string> k; std::vector<P> e; static const char* nm[] = {"a", "b", "c", "x"}; int n = (int)r.below(4); for (int i = 0; i < n; ++i) { k.push_back(nm[i]); e.push_back(r.chance(1, 3) ? box(d - 1) : el()); } return dict(k, e); }
        case 3: return bin(EQ, r.chance(1, 3) ? box(d - 1) : el(), r.chance(1, 3) ? box(d - 1) : el());
        case 4: { std::vector<P> a, b; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { a.push_back(el()); b.push_back(el()); } static const K B[] = {ADD, SUB, MUL, DIV}; return bin(r.pick(B), arr(a), arr(b)); }
        case 5: { std::vector<P> a; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) a.push_back(el()); static const K B[] = {ADD, SUB, MUL, DIV}; P s = num(r.range(1, 9) / 2.0); return r.chance(1, 2) ? bin(r.pick(B), arr(a), s) : bin(MUL, s, arr(a)); }
        default: return el();
      }
    };
    P t = box(2);
    c.desc(text(t));
    judge(c, t, build(t), "containers");
  });
  h.add("operators", 8000, 150000, [](Case& c) { Renaming rn(c.rng);
    // built with the overloaded operators (which may fold identities already)
    GenOpt o; o.abs = true;
    P t = gen(c.rng, 2 + (int)c.rng.below(3), o);
    c.desc("operators: " + text(t));
    judge(c, t, buildops(t), "operators");
  });
  h.add("units-and-uncertainty", 5000, 80000, [](Case& c) { Renaming rn(c.rng);
    GenOpt o; Rng& r = c.rng;
    std::function<P(int)> q = [&](int d) -> P {
      P v = gen(r, (int)r.below(3), o);
      switch (r.below(d > 0 ? 5 : 2)) {
        case 0: return bin(UNITS, v, r.chance(1, 2) ? var("m") : bin(DIV, var("m"), var("s")));
        case 1: return bin(UNC, v, num(r.range(1, 9) / 8.0));
        case 2: return bin(MUL, q(d - 1), q(d - 1));
        case 3: return bin(DIV, q(d - 1), q(d - 1));
        default: return r.chance(1, 2) ? bin(MUL, q(d - 1), v) : bin(MUL, v, q(d - 1));
      }
    };
    P t = q(2);
    c.desc(text(t));
    // an uncertainty is evaluated as value + k * error, so products of uncertain values are out of its reach
    if (contains(t, UNC)) { P x = t; std::function<bool(const P&)> bad = [&](const P& n) { if (n->k == MUL || n->k == DIV) { for (auto& y : n->ch) if (contains(y, UNC)) return true; } for (auto& y : n->ch) if (bad(y)) return true; return false; }; if (bad(x)) { simplify(build(t)); return; } }
    judge(c, t, build(t), "units");
  });
  h.add("large", 60, 1000, [](Case& c) {
    // long chains and moderately deep nests terminate and keep their value
    GenOpt o; o.pow = false; o.funcs = false; o.div = false;
    P t = gen(c.rng, 3, o);
    int n = 20 + (int)c.rng.below(60);
    for (int i = 0; i < n; ++i) { P q = gen(c.rng, 1, o); K k = c.rng.chance(1, 2) ? ADD : c.rng.chance(1, 2) ? SUB : MUL; if (k == MUL) q = num(c.rng.range(1, 9) / 4.0); t = c.rng.chance(1, 2) ? bin(k, t, q) : bin(k, q, t); if (c.rng.chance(1, 5)) t = un(NEG, t); }
    c.desc(text(t));
    judge(c, t, build(t), "large");
  });
  h.add("wide", 250, 5000, [](Case& c) {
    GenOpt o; Rng& r = c.rng; size_t n = widesize(r, 150); if (r.chance(2, 3)) { o.div = o.pow = false; o.funcs = n < 40; }
    auto el = [&](size_t) { return gen(r, (int)r.below(3), o); };
    static const K B[] = {ADD, SUB, MUL, DIV};
    P t = wide(r, n, r.chance(1, 2), el);
    if (t->k == ARR) switch (r.below(4)) { case 0: t = bin(r.pick(B), t, wide(r, n, false, el)); break; case 1: t = bin(r.pick(B), t, num(2.5)); break; case 2: t = bin(r.pick(B), num(2.5), t); break; default: break; }
    c.desc(str(n) + " entries: " + text(t));
    judge(c, t, build(t), "wide");
  });
  return h.main(argc, argv);
}
