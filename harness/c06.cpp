#include "lib.hpp"
#include "model.hpp"
using namespace vf;
// textbook differentiation of the model tree
static P D(const P& n, const std::string& x) {
  auto a = [&] { return n->ch[0]; }; auto b = [&] { return n->ch[1]; };
  switch (n->k) {
    case NUM: return num(0);
    case VAR: return num(n->name == x ? 1 : 0);
    case ADD: return bin(ADD, D(a(), x), D(b(), x));
    case SUB: return bin(SUB, D(a(), x), D(b(), x));
    case MUL: return bin(ADD, bin(MUL, D(a(), x), b()), bin(MUL, a(), D(b(), x)));
    case DIV: return bin(SUB, bin(DIV, D(a(), x), b()), bin(DIV, bin(MUL, a(), D(b(), x)), bin(MUL, b(), b())));
    case POW: {
      std::set<std::string> v; vars(b(), v);
      P t = bin(MUL, bin(MUL, b(), D(a(), x)), bin(POW, a(), bin(SUB, b(), num(1))));
      if (!v.count(x)) return t;
      return bin(ADD, t, bin(MUL, bin(MUL, D(b(), x), un(LN, a())), n));
    }
    case EQ: return bin(EQ, D(a(), x), D(b(), x));
    case NEG: return un(NEG, D(a(), x));
    case SIN: return bin(MUL, un(COS, a()), D(a(), x));
    case COS: return un(NEG, bin(MUL, un(SIN, a()), D(a(), x)));
    case EXP: return bin(MUL, n, D(a(), x));
    case LN: return bin(DIV, D(a(), x), a());
    case ABS: return bin(MUL, bin(DIV, n, a()), D(a(), x));
    case UNITS: return bin(UNITS, D(a(), x), b());
    case ARR: case DICT: { auto r = std::make_shared<Node>(*n); for (auto& c : r->ch) c = D(c, x); return r; }
    default: throw std::logic_error("D");
  }
}
static bool smooth(const P& n, const Env& e) { // away from the kinks of |.| and domain edges
  if (n->k == ABS || n->k == LN || n->k == POW) { EV v = eval(n->ch[0], e); if (n->k != POW && (!v.ok || fabsl(v.v) < 1e-4L)) return false; }
  for (auto& c : n->ch) if (!smooth(c, e)) return false;
  return true;
}
static bool moderate(const P& n, const Env& e) { EV v = eval(n, e); if (n->k <= ABS && n->k != EQ && v.ok && (fabsl(v.v) > 1e25L || (v.v != 0 && fabsl(v.v) < 1e-25L))) return false; for (auto& c : n->ch) if (!moderate(c, e)) return false; return true; }
static int judge(Case& c, const P& want, const P& got, const P& orig, const std::string& key) {
  std::set<std::string> vs; vars(orig, vs);
  std::set<std::string> vg; vars(got, vg);
  for (auto& v : vg) c.check(vs.count(v), "new-variable", "derivative " + text(got) + " mentions " + v);
  int used = 0;
  for (int i = 0; i < 7; ++i) {
    Env env = genenv(c.rng, vs);
    if (!smooth(orig, env) || !moderate(orig, env) || !vusable(veval(orig, env))) { c.count("points_skipped"); continue; }
    Val a = veval(want, env);
    if (!vusable(a)) { c.count("points_skipped"); continue; }
    ++used;
    auto d = vdiff(a, veval(got, env));
    c.check(d.empty(), key, "derivative " + text(got) + "\nexpected " + text(want) + "\nat " + envtext(env) + d);
  }
  c.count("points_compared", used);
  return used;
}
int main(int argc, char** argv) {
  Harness h("C06");
  auto run = [](Case& c, const P& t, const std::string& x, const std::string& key) {
    c.desc("d/d" + x + " " + text(t));
    sym::Expr e = build(t);
    auto xv = sym::VarRT::create(outn(x));
    sym::Expr d1 = derivative(e, *xv), d2 = derivative(e, sym::Expr(xv));
    c.check(same(read(d1), read(d2)), "forms-disagree", "derivative by variable and by expression differ");
    if (x == "x" && !Renaming::cur()) c.check(same(read(derivative(e, sym::Var<>())), read(d1)), "forms-disagree", "derivative by a compile-time variable differs");
    c.check(same(read(e), t), "original-altered", "original is now " + text(read(e)));
    P want = D(t, x);
    int used = judge(c, want, read(simplify(d1)), t, key);
    std::set<std::string> vs; vars(t, vs);
    if (!vs.count(x)) {
      P z = read(simplify(d1));
      if (!contains(t, ARR) && !contains(t, DICT) && !contains(t, EQ) && !contains(t, UNITS) && used) c.check(z->k == NUM && z->num == 0, "absent-not-zero", "derivative is " + text(z));
    }
    // of the simplified expression and the second derivative
    P t2 = read(simplify(e));
    if (used && !contains(t2, UNC)) judge(c, want, read(simplify(derivative(simplify(e), *xv))), t, key + ":of-simplified");
    if (used && nodes(t) < 20) {
      std::string y = c.rng.chance(1, 2) ? x : "y";
      judge(c, D(want, y), read(simplify(derivative(simplify(d1), *sym::VarRT::create(outn(y))))), t, key + ":second");
    }
    if (used && vs.count(x) && nodes(t) >= 2) c.nontrivial();
  };
  h.add("compositions", 9000, 150000, [=](Case& c) { Renaming rn(c.rng);
    // every pair and triple of operators
    static const std::vector<P> L{var("x"), var("y"), num(2), num(0.5), num(3), num(-1.5)};
    static const K B[] = {ADD, SUB, MUL, DIV, POW}; static const K F[] = {NEG, SIN, COS, EXP, LN, ABS};
    auto op = [&](int k, P a, P b) { return k < 5 ? bin(B[k], a, b) : un(F[k - 5], a); };
    Rng& r = c.rng; long i = c.idx;
    int k1 = i % 11; i /= 11; int k2 = i % 11; i /= 11; int k3 = i % 12;
    P in = op(k2, r.pick(L), r.pick(L));
    if (k3 < 11) in = r.chance(1, 2) ? op(k3, in, r.pick(L)) : op(k3, r.pick(L), in);
    P t = r.chance(1, 2) ? op(k1, in, r.pick(L)) : op(k1, r.pick(L), in);
    if (k1 >= 5) t = op(k1, in, in);
    run(c, t, r.chance(5, 6) ? "x" : "y", "compositions");
  });
  h.add("trees", 9000, 200000, [=](Case& c) { Renaming rn(c.rng);
    GenOpt o; o.abs = true; o.vars = {"x", "y", "z"};
    P t = gen(c.rng, 2 + (int)c.rng.below(3), o);
    run(c, t, c.rng.pick(std::vector<std::string>{"x", "x", "x", "y", "q"}), "trees");
  });
  h.add("containers", 5000, 100000, [=](Case& c) { Renaming rn(c.rng);
    GenOpt o; Rng& r = c.rng; o.abs = true;
    std::function<P(int)> box = [&](int d) -> P {
      switch (d > 0 ? r.below(6) : 0) {
        case 1: { std::vector<P> e; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) e.push_back(box(d - 1)); return arr(e); }
        case 2: { std::vector<std::string> k; std::vector<P> e; static const char* nm[] = {"a", "x", "c"}; int n = (int)r.below(4); for (int i = 0; i < n; ++i) { k.push_back(nm[i]); e.push_back(box(d - 1)); } return dict(k, e); }
        case 3: return bin(EQ, box(d - 1), box(d - 1));
        case 4: return bin(UNITS, gen(r, 2, o), var("m"));
        case 5: { std::vector<P> a, b; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { a.push_back(gen(r, 2, o)); b.push_back(gen(r, 2, o)); } return bin(r.chance(1, 2) ? ADD : SUB, arr(a), arr(b)); }
        default: return gen(r, 2, o);
      }
    };
    P t = box(2);
    // empty containers have nothing to differentiate
    if (t->k == ARR && t->ch.empty()) return;
    run(c, t, "x", "containers");
    if (contains(t, UNITS)) {
      P g = read(derivative(build(t), *sym::VarRT::create(outn("x"))));
      std::function<int(const P&)> cnt = [&](const P& n) { int k = n->k == UNITS; for (auto& y : n->ch) k += cnt(y); return k; };
      c.check(cnt(g) >= 1, "unit-lost", "derivative " + text(g) + " has no unit");
    }
  });
  h.add("refused", 3000, 30000, [=](Case& c) { Renaming rn(c.rng);
    // an uncertain value has no derivative: refused, wherever it stands
    GenOpt o; Rng& r = c.rng;
    P u = bin(UNC, gen(r, 1, o), num(0.5)), t = u;
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i) { static const K B[] = {ADD, SUB, MUL, DIV, POW}; P q = gen(r, 1, o); t = r.chance(1, 3) ? un(r.chance(1, 2) ? SIN : NEG, t) : r.chance(1, 2) ? bin(r.pick(B), t, q) : bin(r.pick(B), q, t); }
    c.desc("d/dx " + text(t));
    bool threw = false;
    try { derivative(build(t), *sym::VarRT::create(outn("x"))); } catch (stator::Exception&) { threw = true; }
    c.check(threw, "not-refused", "the derivative of an uncertain value is given");
    // with respect to something that is no variable
    sym::Expr bad = build(bin(ADD, var("x"), num(1)));
    threw = false;
    try { derivative(sym::Expr(2.0), bad); } catch (stator::Exception&) { threw = true; }
    c.check(threw, "not-refused", "differentiating with respect to x+1 is accepted");
    c.nontrivial();
  });
  h.add("wide", 200, 4000, [=](Case& c) {
    GenOpt o; Rng& r = c.rng; size_t n = widesize(r, 150);
    P t;
    if (r.chance(2, 3)) t = wide(r, n, r.chance(1, 2), [&](size_t) { return gen(r, (int)r.below(3), o); });
    else { o.pow = o.div = false; t = var("x"); for (size_t i = 0; i < n; ++i) { K k = r.chance(1, 2) ? ADD : SUB; P l = gen(r, 1, o); t = r.chance(1, 2) ? bin(k, t, l) : bin(k, l, t); } }
    run(c, t, "x", "wide");
  });
  return h.main(argc, argv);
}
