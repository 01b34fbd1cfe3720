#include "lib.hpp"
#include "model.hpp"
using namespace vf;

static void roundtrip(Case& c, const sym::Expr& e, const std::string& how, bool simplified) {
  P a = read(e);
  std::string s = sym::repr(e);
  sym::Expr back;
  try { back = rawparse(s); } catch (std::exception& x) { c.fail("unparseable:" + how, "prints as " + s + " which is rejected: " + x.what() + "\ntree " + text(a)); }
  P b = read(back);
  std::string why;
  switch (equivalent(a, b, c.rng, why)) {
    case DIFFERENT: c.fail("meaning:" + how, "tree " + text(a) + "\nprints as " + s + "\nwhich reads as " + text(b) + "\n" + why); break;
    case UNKNOWN: c.count("inconclusive"); break;
    case SAME: c.count("round_trips:" + how); if (nodes(a) >= 3) c.nontrivial(); break;
  }
  std::ostringstream os; os << e;
  c.check(os.str() == s, "stream-differs", "operator<< gives " + os.str() + " and repr gives " + s);
  // printing and reading settles (the order of dictionary entries is unspecified)
  std::function<bool(const P&)> bigdict = [&](const P& n) { if (n->k == DICT && n->ch.size() > 1) return true; for (auto& x : n->ch) if (bigdict(x)) return true; return false; };
  if (!bigdict(a)) {
    std::string prev = s, s1 = sym::repr(back);
    int rounds = 0;
    for (; rounds < 40 && s1 != prev; ++rounds) { prev = s1; s1 = sym::repr(rawparse(prev)); }
    c.check(s1 == prev, "reprint", "prints as " + s + "; reading and printing does not settle: " + prev + " becomes " + s1);
    c.count("rounds_to_settle:" + str(rounds));
    if (simplified) {
      c.count("settled_texts");
    }
  }
}
int main(int argc, char** argv) {
  Harness h("C03");
  // every pair of nested operators on each side, with signs: systematically
  h.add("operator-pairs", 7000, 7000, [](Case& c) {
    static const K B[] = {ADD, SUB, MUL, DIV, POW, EQ, UNITS, UNC, NEG, SIN, COS, EXP, LN, ARR, DICT};
    static const std::vector<P> leaves{var("x"), num(2), num(-3), num(0.5), num(1e-20), num(-1e22)};
    long i = c.idx;
    auto mkop = [&](K k, P a, P b) { return k == NEG || k == SIN || k == COS || k == EXP || k == LN ? un(k, a) : k == ARR ? arr({a, b}) : k == DICT ? dict({"u", "v"}, {a, b}) : bin(k, a, b); };
    K k1 = B[i % 15]; i /= 15; K k2 = B[i % 15]; i /= 15;
    P l1 = c.rng.pick(leaves), l2 = c.rng.pick(leaves), l3 = c.rng.pick(leaves);
    P in = mkop(k2, l1, l2), t;
    switch (i % 3) { case 0: t = mkop(k1, in, l3); break; case 1: t = mkop(k1, l3, in); break; default: t = mkop(k1, in, mkop(B[c.rng.below(15)], l3, l1)); }
    c.desc(text(t));
    roundtrip(c, build(t), "built", false);
  });
  h.add("trees", 24000, 500000, [](Case& c) {
    GenOpt o; o.units = true; o.unc = true; o.vars = {"x", "y", "zeta"};
    P t = gentree(c.rng, 2 + (int)c.rng.below(4), o);
    c.desc(text(t));
    roundtrip(c, build(t), "built", false);
  });
  h.add("through-operators", 9000, 200000, [](Case& c) {
    GenOpt o; o.units = true; o.unc = true;
    P t = gentree(c.rng, 2 + (int)c.rng.below(3), o);
    c.desc(text(t));
    sym::Expr e;
    try { e = buildops(t); } catch (stator::Exception&) { c.count("refused_by_operators"); return; }
    roundtrip(c, e, "operators", false);
  });
  h.add("simplified", 14000, 300000, [](Case& c) {
    GenOpt o; o.units = true; o.unc = c.rng.chance(1, 3);
    P t = gentree(c.rng, 2 + (int)c.rng.below(3), o);
    c.desc("simplify " + text(t));
    sym::Expr e;
    try { e = simplify(build(t)); } catch (stator::Exception&) { c.count("refused_by_simplify"); return; }
    // infinities and NaN are no finite numbers
    P a = read(e); std::function<bool(const P&)> fin = [&](const P& n) { if (n->k == NUM && !std::isfinite(n->num)) return false; for (auto& x : n->ch) if (!fin(x)) return false; return true; };
    if (!fin(a)) { c.count("nonfinite_skipped"); return; }
    roundtrip(c, e, "simplified", true);
  });
  h.add("derived", 9000, 200000, [](Case& c) {
    GenOpt o;
    P t = gen(c.rng, 2 + (int)c.rng.below(3), o);
    c.desc("derivative and substitution in " + text(t));
    sym::Expr e = build(t), d, s;
    try { d = derivative(e, *sym::VarRT::create("x")); } catch (stator::Exception&) { c.count("refused"); return; }
    s = sub(d, sym::Expr(sym::equality(sym::Expr(sym::VarRT::create("x")), build(gen(c.rng, 2, o)))));
    auto fin = [](const P& p) { std::function<bool(const P&)> f = [&](const P& n) { if (n->k == NUM && !std::isfinite(n->num)) return false; for (auto& x : n->ch) if (!f(x)) return false; return true; }; return f(p); };
    roundtrip(c, d, "derivative", false);
    if (fin(read(s))) roundtrip(c, s, "substituted", false);
    sym::Expr q = simplify(d);
    if (fin(read(q))) roundtrip(c, q, "simplified-derivative", true);
  });
  h.add("wide", 300, 6000, [](Case& c) {
    GenOpt o; o.units = true; o.unc = true;
    P t = wide(c.rng, widesize(c.rng), c.rng.chance(1, 2), [&](size_t) { return gen(c.rng, (int)c.rng.below(3), o); });
    if (c.rng.chance(1, 3)) t = bin(ADD, t, num(2)); else if (c.rng.chance(1, 3)) t = arr({num(1), t});
    c.desc(str(nodes(t)) + " nodes: " + text(t));
    roundtrip(c, build(t), "built", false);
  });
  // long chains of one or of several operators, to the left, to the right, or nested anyhow
  h.add("long", 300, 6000, [](Case& c) {
    Rng& r = c.rng; int n = 10 + (int)r.below(70), side = (int)r.below(3), mix = (int)r.below(3); static const K B[] = {ADD, SUB, MUL, DIV, POW}; K k0 = B[r.below(4)];
    P t = var("x");
    for (int i = 0; i < n; ++i) { K k = mix == 0 ? k0 : mix == 1 ? B[r.below(2) + (k0 > SUB ? 2 : 0)] : B[r.below(4)]; P l = r.chance(1, 2) ? num((double)r.range(2, 9) / 4) : var(r.chance(1, 2) ? "x" : "y"); bool left = side == 0 || (side == 2 && r.chance(1, 2)); t = left ? bin(k, t, l) : bin(k, l, t); if (r.chance(1, 9)) t = un(r.chance(1, 2) ? NEG : SIN, t); }
    c.desc(str(nodes(t)) + " nodes: " + text(t));
    roundtrip(c, build(t), "built", false);
  });
  return h.main(argc, argv);
}
