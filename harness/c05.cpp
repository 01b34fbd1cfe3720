#include "lib.hpp"
#include "model.hpp"
using namespace vf;
static constexpr char NX[] = "x", NY[] = "y";
static sym::Expr V(const std::string& s) { return sym::Expr(sym::VarRT::create(outn(s))); }
static void compare(Case& c, const P& want, const sym::Expr& got, const std::string& key, const std::string& ctx) {
  P g = read(got);
  std::set<std::string> v0, v1; vars(want, v0); vars(g, v1);
  for (auto& v : v1) c.check(v0.count(v), key + ":variable", ctx + "\nresult " + text(g) + " mentions " + v + "; expected " + text(want));
  if (canon(g) == canon(want)) { c.count("structurally_equal"); return; }
  bool any = false;
  for (int i = 0; i < 6; ++i) {
    Env env = genenv(c.rng, v0);
    Val a = veval(want, env);
    if (vusable(a)) { any = true; auto d = vdiff(a, veval(g, env)); c.check(d.empty(), key, ctx + "\nresult " + text(g) + "\nexpected " + text(want) + "\nat " + envtext(env) + d); }
  }
  c.count(any ? "value_equal" : "inconclusive");
}
int main(int argc, char** argv) {
  Harness h("C05");
  auto tree = [](Rng& r, int d) { GenOpt o; o.vars = {"x", "y", "z", "xx"}; o.units = r.chance(1, 3); o.unc = r.chance(1, 4); return gentree(r, d, o); };
  auto rep = [](Rng& r) -> P {
    GenOpt o; o.vars = {"x", "y", "z", "w"};
    switch (r.below(5)) { case 0: return num(gennum(r, o)); case 1: return var(r.pick(std::vector<std::string>{"x", "y", "z", "w"})); case 2: return bin(r.chance(1, 2) ? ADD : POW, var("x"), num(1 + r.below(3))); default: return gen(r, 2, o); }
  };
  h.add("single", 14000, 300000, [=](Case& c) { Renaming rn(c.rng);
    P t = tree(c.rng, 1 + (int)c.rng.below(4)), v = rep(c.rng);
    std::string x = c.rng.pick(std::vector<std::string>{"x", "y", "z", "xx", "absent"});
    c.desc("sub(" + text(t) + ", " + x + "=" + text(v) + ")");
    sym::Expr e = build(t), val = build(v);
    sym::Expr eq(sym::BinaryOp<sym::Expr, sym::detail::Equality, sym::Expr>::create(V(x), val));
    std::string before = sym::repr(e); size_t hb = std::hash<sym::Expr>()(e);
    P want = subst(t, {{x, v}});
    sym::Expr r1, r2; bool t1 = false, t2 = false;
    try { r1 = sub(e, eq); } catch (stator::Exception&) { t1 = true; }
    auto d = sym::DictRT::create(); (*d)[V(x)] = val;
    try { r2 = sub(e, sym::Expr(d)); } catch (stator::Exception&) { t2 = true; }
    bool arrays = contains(want, ARR);
    if ((t1 || t2) && !arrays) c.fail("refused", "substitution throws");
    c.check(t1 == t2, "forms-disagree", "equation and dictionary forms differ in refusing");
    if (t1) { c.count("refused"); return; }
    compare(c, want, r1, "single", "equation form");
    compare(c, want, r2, "dictionary", "dictionary form");
    c.check(r1 == r2 || !(canon(read(r1)) == canon(read(r1))) || canon(read(r1)) == canon(read(r2)), "forms-disagree", sym::repr(r1) + " against " + sym::repr(r2));
    c.check(sym::repr(e) == before && std::hash<sym::Expr>()(e) == hb && same(read(e), t), "original-altered", "original is now " + text(read(e)));
    c.check(same(read(val), v), "replacement-altered", "replacement is now " + text(read(val)));
    std::set<std::string> vs; vars(t, vs);
    if (!vs.count(x)) c.count("absent_variable");
    if (vs.count(x) && nodes(t) > 1) c.nontrivial();
  });
  h.add("simultaneous", 12000, 250000, [=](Case& c) { Renaming rn(c.rng);
    P t = tree(c.rng, 2 + (int)c.rng.below(3));
    std::map<std::string, P> m; auto d = sym::DictRT::create();
    std::string ds;
    std::vector<std::string> names{"x", "y", "z", "xx", "absent"};
    int mode = (int)c.rng.below(4);
    if (mode == 0) { m["x"] = var("y"); m["y"] = var("x"); if (c.rng.chance(1, 2)) { m["y"] = var("z"); m["z"] = var("x"); } }
    else for (auto& n : names) if (c.rng.chance(1, 2)) m[n] = rep(c.rng);
    std::vector<std::string> keys; for (auto& p : m) keys.push_back(p.first);
    for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[c.rng.below(i)]);
    for (auto& k : keys) { (*d)[V(k)] = build(m[k]); ds += k + ":" + text(m[k]) + " "; }
    c.desc("sub(" + text(t) + ", {" + ds + "})");
    sym::Expr e = build(t), dict(d), r;
    std::string db = sym::repr(dict);
    P want = subst(t, m);
    try { r = sub(e, dict); } catch (stator::Exception&) { c.check(contains(want, ARR), "refused", "substitution throws"); c.count("refused"); return; }
    compare(c, want, r, "simultaneous", "dictionary form");
    c.check(same(read(e), t), "original-altered", "original is now " + text(read(e)));
    c.check(sym::repr(dict) == db, "replacement-altered", "dictionary is now " + sym::repr(dict));
    if (m.size() > 1) c.nontrivial();
  });
  h.add("evaluate", 9000, 200000, [=](Case& c) { Renaming rn(c.rng);
    GenOpt o; P t = gen(c.rng, 2 + (int)c.rng.below(4), o);
    std::set<std::string> vs; vars(t, vs);
    Env env = genenv(c.rng, vs);
    c.desc(text(t) + " at " + envtext(env));
    Val a = veval(t, env);
    if (!vusable(a)) return;
    sym::Expr e = build(t);
    auto d = vdiff(a, veval(read(simplify(sub(e, envdict(env)))), {}));
    c.check(d.empty(), "evaluate", "all variables at once: " + d);
    // one after the other, in a random order, as constants
    std::vector<std::string> ord(vs.begin(), vs.end()); for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[c.rng.below(i)]);
    sym::Expr f = e;
    for (auto& v : ord) { f = sub(f, sym::Expr(sym::equality(V(v), sym::Expr(env[v])))); if (c.rng.chance(1, 2)) f = simplify(f); }
    d = vdiff(a, veval(read(simplify(f)), {}));
    c.check(d.empty(), "evaluate-stepwise", "one variable after the other: " + d);
    // simplifying first does not matter
    d = vdiff(a, veval(read(simplify(sub(simplify(e), envdict(env)))), {}));
    c.check(d.empty(), "evaluate-simplified", "simplified first: " + d);
    if (vs.size()) c.nontrivial();
  });
  h.add("shared-and-refused", 4000, 50000, [=](Case& c) { Renaming rn(c.rng);
    P s = tree(c.rng, 2), t0 = tree(c.rng, 2), v = rep(c.rng);
    c.desc("shared " + text(s) + " in " + text(t0) + " x=" + text(v));
    sym::Expr sh = build(s);
    // the same node used several times, with a replacement that shares it too
    using namespace sym;
    sym::Expr e(BinaryOp<sym::Expr, sym::detail::Add, sym::Expr>::create(sh, sym::Expr(BinaryOp<sym::Expr, sym::detail::Multiply, sym::Expr>::create(sh, build(t0)))));
    P t = bin(ADD, s, bin(MUL, s, t0));
    sym::Expr val(BinaryOp<sym::Expr, sym::detail::Subtract, sym::Expr>::create(sh, V("x")));
    P want = subst(t, {{"x", bin(SUB, s, var("x"))}});
    sym::Expr eq(BinaryOp<sym::Expr, sym::detail::Equality, sym::Expr>::create(V("x"), val));
    try {
      sym::Expr r = sub(e, eq);
      compare(c, want, r, "shared", "equation form");
      c.check(same(read(sh), s) && same(read(e), t), "original-altered", "original is now " + text(read(e)));
    } catch (stator::Exception&) { c.check(contains(want, ARR), "refused", "substitution throws"); }
    // replacements that are no equation / dictionary
    for (auto& bad : {num(2), var("x"), bin(ADD, var("x"), num(1)), arr({var("x")}), un(SIN, var("x"))}) {
      bool threw = false;
      try { sub(e, build(bad)); } catch (stator::Exception&) { threw = true; }
      c.check(threw, "not-refused", "substituting " + text(bad) + " is accepted");
    }
    c.nontrivial();
  });
  h.add("absent", 4000, 50000, [=](Case& c) { Renaming rn(c.rng);
    GenOpt o; o.vars = {"x", "y", "xx"}; P t = gentree(c.rng, 3, o), v = rep(c.rng);
    c.desc("absent in " + text(t));
    sym::Expr e = build(t), r;
    for (auto* n : {"q", "X", "xxx", "yx"}) {
      try { r = sub(e, sym::Expr(sym::BinaryOp<sym::Expr, sym::detail::Equality, sym::Expr>::create(V(n), build(v)))); } catch (stator::Exception&) { c.check(contains(t, ARR), "refused", "throws"); continue; }
      if (!contains(t, ARR)) c.check(canon(read(r)) == canon(t), "absent-changes", std::string("substituting ") + n + " gives " + text(read(r)));
      sym::Expr d; auto dd = sym::DictRT::create(); (*dd)[V(n)] = build(v);
      r = sub(e, sym::Expr(dd));
      if (!contains(t, ARR)) c.check(canon(read(r)) == canon(t), "absent-changes", std::string("substituting {") + n + "} gives " + text(read(r)));
    }
    c.nontrivial();
  });
  h.add("compile-time-forms", 6000, 120000, [=](Case& c) {
    P t = tree(c.rng, 1 + (int)c.rng.below(4)), v = rep(c.rng);
    sym::Var<NX> x; sym::Var<NY> y;
    sym::Expr e = build(t), val = build(v), r; std::string before = sym::repr(e);
    GenOpt o; double k = gennum(c.rng, o);
    int mode = (int)c.rng.below(5);
    P w = mode == 0 ? num(k) : mode == 1 ? v : mode == 2 ? var("y") : mode == 3 ? bin(MUL, num(2), var("y")) : un(SIN, var("x"));
    c.desc("sub(" + text(t) + ", x=" + text(w) + ") with a compile-time variable");
    P want = subst(t, {{"x", w}});
    try {
      switch (mode) { case 0: r = sub(e, x = k); break; case 1: r = sub(e, x = val); break; case 2: r = sub(e, x = y); break; case 3: r = sub(e, x = sym::C<2>() * y); break; default: r = sub(e, x = sin(x)); }
    } catch (stator::Exception&) { c.check(contains(want, ARR), "refused", "substitution throws"); c.count("refused"); return; }
    compare(c, want, r, "compile-time", "compile-time variable");
    c.check(sym::repr(e) == before, "original-altered", "original is now " + sym::repr(e));
    std::set<std::string> vs; vars(t, vs); if (vs.count("x") && nodes(t) > 1) c.nontrivial();
  });
  h.add("fast", 9000, 200000, [=](Case& c) {
    GenOpt o; o.vars = {"x"}; P t = gen(c.rng, 1 + (int)c.rng.below(5), o);
    bool other = c.rng.chance(1, 6), cont = c.rng.chance(1, 6);
    if (other) t = c.rng.chance(1, 2) ? bin(ADD, t, var("xx")) : bin(MUL, var("y"), t);
    if (cont) { auto b = c.rng.below(4); t = b == 0 ? arr({t, num(1)}) : b == 1 ? bin(EQ, t, num(1)) : b == 2 ? bin(UNITS, t, var("x")) : bin(UNC, t, num(1)); if (c.rng.chance(1, 2)) t = bin(SUB, num(3), t); }
    double k = gennum(c.rng, o); sym::Var<NX> x; sym::Var<NY> y;
    c.desc("fast_sub(" + text(t) + ", x=" + str(k) + ")");
    sym::Expr e = build(t); double got = 0; bool threw = false; std::string before = sym::repr(e);
    try { got = fast_sub(e, x = k); } catch (stator::Exception&) { threw = true; }
    c.check(threw == (other || cont), threw ? "fast:refused" : "fast:not-refused", threw ? "fast substitution throws" : "gives " + str(got));
    c.check(sym::repr(e) == before, "original-altered", "original is now " + sym::repr(e));
    if (threw) { c.count("fast_refused"); c.nontrivial(); return; }
    Val a = veval(t, {{"x", k}});
    if (!vusable(a)) return;
    auto d = vdiff(a, veval(num(got), {}));
    c.check(d.empty(), "fast:value", d); c.count("fast_compared");
    std::set<std::string> vs; vars(t, vs);
    if (vs.count("x")) { bool th = false; try { fast_sub(e, y = k); } catch (stator::Exception&) { th = true; } c.check(th, "fast:other-variable", "x is taken for y"); }
    if (nodes(t) > 1) c.nontrivial();
  });
  // many entries in the dictionary, many places to put them
  h.add("wide", 400, 8000, [=](Case& c) {
    Rng& r = c.rng; size_t nv = widesize(r, 80), n = widesize(r, 150); GenOpt o; o.vars = {}; for (size_t i = 0; i < nv; ++i) o.vars.push_back(widename(i));
    auto leaf = [&] { return r.chance(3, 4) ? var(r.pick(o.vars)) : num((double)r.range(1, 9)); };
    P t;
    switch (r.below(4)) {
      case 0: t = wide(r, n, false, [&](size_t) { return gen(r, (int)r.below(3), o); }); break;
      case 1: t = wide(r, n, true, [&](size_t) { return gen(r, (int)r.below(3), o); }); break;
      case 2: t = leaf(); for (size_t i = 0; i < n; ++i) { K k = r.chance(1, 2) ? ADD : SUB; t = r.chance(1, 2) ? bin(k, t, leaf()) : bin(k, leaf(), t); } break;
      default: t = gen(r, 5, o);
    }
    std::map<std::string, P> m; auto d = sym::DictRT::create();
    bool perm = r.chance(1, 3); std::vector<std::string> to = o.vars; for (size_t i = to.size(); i > 1; --i) std::swap(to[i - 1], to[r.below(i)]);
    for (size_t i = 0; i < nv; ++i) if (perm || r.chance(5, 6)) { m[o.vars[i]] = perm ? var(to[i]) : r.chance(1, 2) ? num((double)(i + 1)) : r.chance(1, 2) ? var(r.pick(o.vars)) : bin(ADD, var(r.pick(o.vars)), num((double)i)); }
    std::vector<std::string> keys; for (auto& p : m) keys.push_back(p.first);
    for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
    for (auto& k : keys) (*d)[V(k)] = build(m[k]);
    c.desc("sub(" + text(t) + ", " + str(m.size()) + " entries)");
    sym::Expr e = build(t), dict(d); P want = subst(t, m);
    compare(c, want, sub(e, dict), "wide", "dictionary of " + str(m.size()) + " entries");
    c.check(same(read(e), t), "original-altered", "original is now " + text(read(e)));
    c.count("dictionary_entries", m.size()); c.nontrivial();
  });
  return h.main(argc, argv);
}
