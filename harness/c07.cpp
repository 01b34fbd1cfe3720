#include "lib.hpp"
#include "model.hpp"
#include <unordered_map>
using namespace vf;
static sym::Expr V(const std::string& s) { return sym::Expr(sym::VarRT::create(outn(s))); }
static std::string ident(const P& n) { std::string s = std::string(opname(n->k)) + "<" + n->name + (n->k == NUM ? numtext(n->num) : ""); for (auto& k : n->keys) s += k + ";"; for (auto& c : n->ch) s += ident(c) + ","; return s + ">"; }
static size_t H(const sym::Expr& e) { return std::hash<sym::Expr>()(e); }
// same tree, built in another way: other entry orders, shared or copied parts, dead entries first
static sym::Expr rebuild(const P& n, Rng& r, std::map<std::string, sym::Expr>& pool) {
  using namespace sym;
  std::string key = ident(n);
  if (r.chance(1, 4)) { auto it = pool.find(key); if (it != pool.end()) return it->second; }
  sym::Expr e;
  if (n->k == DICT) {
    auto d = DictRT::create();
    int pre = (int)r.below(40);
    // grow the table first, so that iteration order differs
    (void)pre;
    std::vector<size_t> ord(n->keys.size()); for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    for (size_t i : ord) { if (r.chance(1, 3)) (*d)[V(n->keys[i])] = sym::Expr(12345.0); }
    for (size_t i : ord) (*d)[V(n->keys[i])] = rebuild(n->ch[i], r, pool);
    e = sym::Expr(d);
  } else if (n->k == ARR) { auto a = ArrayRT::create(); for (auto& c : n->ch) a->push_back(rebuild(c, r, pool)); e = sym::Expr(a); }
  else if (n->ch.empty()) e = build(n);
  else {
    std::vector<sym::Expr> c; for (auto& x : n->ch) c.push_back(rebuild(x, r, pool));
    switch (n->k) {
#define B(KK, OP) case KK: e = sym::Expr(BinaryOp<sym::Expr, sym::detail::OP, sym::Expr>::create(c[0], c[1])); break;
#define U1(KK, OP) case KK: e = sym::Expr(UnaryOp<sym::Expr, sym::detail::OP>::create(c[0])); break;
      B(ADD, Add) B(SUB, Subtract) B(MUL, Multiply) B(DIV, Divide) B(POW, Power) B(EQ, Equality) B(UNITS, Units) B(UNC, Uncertainty) B(ACC, ArrayAccess)
      U1(NEG, Negate) U1(SIN, Sine) U1(COS, Cosine) U1(EXP, Exp) U1(LN, Log) U1(ABS, Absolute) U1(ARB, Arbsign)
      default: throw std::logic_error("rebuild");
    }
  }
  pool[key] = e;
  return e;
}
static P tree(Rng& r, int d) {
  GenOpt o; o.units = o.unc = true; o.vars = {"x", "y", "xy"};
  P t = gentree(r, d, o);
  if (r.chance(1, 10)) t = un(r.chance(1, 2) ? ABS : ARB, t);
  if (r.chance(1, 12)) t = bin(ACC, t, gentree(r, 1, o));
  return t;
}
// a tree that differs in one small place
static P tweak(const P& n, Rng& r) {
  auto m = std::make_shared<Node>(*n);
  if (!n->ch.empty() && r.chance(2, 3)) { size_t i = r.below(n->ch.size()); m->ch[i] = tweak(n->ch[i], r); return m; }
  switch (n->k) {
    case NUM: m->num = r.chance(1, 3) ? std::nextafter(n->num, 1e300) : r.chance(1, 2) ? -n->num : n->num + 1; break;
    case VAR: m->name = n->name == "x" ? "y" : n->name == "y" ? "x" : "x"; break;
    case ARR: if (r.chance(1, 2) || n->ch.empty()) m->ch.push_back(num(1)); else if (n->ch.size() > 1) std::swap(m->ch[0], m->ch[1]); else m->ch.pop_back(); break;
    case DICT: if (n->keys.empty() || r.chance(1, 2)) { if (std::find(n->keys.begin(), n->keys.end(), "zz") == n->keys.end()) { m->keys.push_back("zz"); m->ch.push_back(num(1)); } } else if (r.chance(1, 2)) { m->keys[0] = "other"; } else { m->keys.pop_back(); m->ch.pop_back(); } break;
    default:
      if (isbin(n->k)) { if (r.chance(1, 2)) std::swap(m->ch[0], m->ch[1]); else { static const K B[] = {ADD, SUB, MUL, DIV, POW, EQ, UNITS, UNC, ACC}; m->k = r.pick(B); } }
      else { static const K F[] = {NEG, SIN, COS, EXP, LN, ABS, ARB}; m->k = r.pick(F); }
  }
  return m;
}
static void pair(Case& c, const P& a, const P& b, const sym::Expr& x, const sym::Expr& y) {
  bool want = same(a, b);
  c.check((x == y) == want, want ? "equal-not-equal" : "different-equal", text(a) + (want ? " not equal to " : " equal to ") + text(b));
  c.check((y == x) == want, "asymmetric", text(b) + " against " + text(a));
  c.check((x != y) == !want, "inequality", "!= disagrees with == for " + text(a) + " and " + text(b));
  if (want) c.check(H(x) == H(y), "hash", "equal expressions hash to " + str(H(x)) + " and " + str(H(y)) + ": " + sym::repr(x) + " and " + sym::repr(y));
  else c.count(H(x) == H(y) ? "hash_collisions" : "hash_differs");
  c.check(x == x && y == y, "irreflexive", text(a));
  c.count(want ? "equal_pairs" : "different_pairs");
}
int main(int argc, char** argv) {
  Harness h("C07");
  h.add("rebuilt-equal", 14000, 300000, [](Case& c) { Renaming rn(c.rng);
    P a = tree(c.rng, 1 + (int)c.rng.below(5));
    c.desc(text(a));
    std::map<std::string, sym::Expr> p1, p2;
    sym::Expr x = build(a), y = rebuild(a, c.rng, p1), z = rebuild(a, c.rng, p2);
    pair(c, a, a, x, y); pair(c, a, a, y, z); pair(c, a, a, x, z);
    // through printing where it can be read back to the same tree
    if (nodes(a) > 1) c.nontrivial();
  });
  h.add("near-misses", 16000, 300000, [](Case& c) { Renaming rn(c.rng);
    P a = tree(c.rng, 1 + (int)c.rng.below(4)), b = tweak(a, c.rng);
    c.desc(text(a) + " | " + text(b));
    std::map<std::string, sym::Expr> pool;
    sym::Expr x = rebuild(a, c.rng, pool), y = rebuild(b, c.rng, pool);
    pair(c, a, b, x, y);
    c.nontrivial();
  });
  h.add("unrelated", 6000, 100000, [](Case& c) { Renaming rn(c.rng);
    P a = tree(c.rng, (int)c.rng.below(3)), b = tree(c.rng, (int)c.rng.below(3));
    c.desc(text(a) + " | " + text(b));
    pair(c, a, b, build(a), build(b));
    c.nontrivial();
  });
  h.add("transitive-classes", 400, 8000, [](Case& c) { Renaming rn(c.rng);
    // a population with many duplicates: == must partition it exactly as the trees do, and agree with hashes
    std::vector<P> t; std::vector<sym::Expr> e; std::map<std::string, sym::Expr> pool;
    for (int i = 0; i < 14; ++i) { P a = i && c.rng.chance(1, 2) ? t[c.rng.below(t.size())] : tree(c.rng, (int)c.rng.below(3)); if (i && c.rng.chance(1, 4)) a = tweak(a, c.rng); t.push_back(a); e.push_back(rebuild(a, c.rng, pool)); }
    std::string d; for (auto& a : t) d += text(a) + " ; ";
    c.desc(d);
    for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < t.size(); ++j) pair(c, t[i], t[j], e[i], e[j]);
    c.nontrivial();
  });
  h.add("zeros-and-numbers", 3000, 30000, [](Case& c) { Renaming rn(c.rng);
    // numbers compare and hash as numbers
    static const double sp[] = {0.0, -0.0, 1, -1, 1e-310, 5e-324, 1e308, 0.1, 0.30000000000000004, INFINITY, -INFINITY};
    double a = c.rng.chance(1, 2) ? c.rng.pick(sp) : (double)c.rng.range(-5, 5), b = c.rng.chance(1, 2) ? c.rng.pick(sp) : (double)c.rng.range(-5, 5);
    P u = c.rng.chance(1, 2) ? bin(ADD, var("x"), num(a)) : num(a), v = u->k == NUM ? num(b) : bin(ADD, var("x"), num(b));
    c.desc(text(u) + " | " + text(v));
    pair(c, u, v, build(u), build(v));
    // comparison with plain numbers and variables
    sym::Expr e(a);
    c.check((e == sym::Expr(b)) == (a == b), "number-comparison", "constant");
    sym::Expr x = V("x");
    c.check(x == V("x") && !(x == V("y")) && !(x == e) && !(e == x), "variable-comparison", "variable");
    c.nontrivial();
  });
  h.add("dictionary-history", 1500, 30000, [](Case& c) { Renaming rn(c.rng);
    // arbitrary expressions as keys: a dictionary is a map
    auto dp = sym::DictRT::create();
    std::vector<std::pair<P, P>> model; std::string hist;
    std::vector<P> keys; int nk = 2 + (int)c.rng.below(12);
    for (int i = 0; i < nk; ++i) { P k = tree(c.rng, (int)c.rng.below(3)); if (i && c.rng.chance(1, 2)) k = tweak(keys[c.rng.below(keys.size())], c.rng); keys.push_back(k); }
    std::map<std::string, sym::Expr> pool;
    auto find = [&](const P& k) { for (size_t i = 0; i < model.size(); ++i) if (same(model[i].first, k)) return (int)i; return -1; };
    for (int s = 0; s < 30; ++s) {
      P k = c.rng.pick(keys); sym::Expr ke = rebuild(k, c.rng, pool);
      int at = find(k);
      switch (c.rng.below(4)) {
        case 0: { P v = num(s); hist += "[" + text(k) + "]=" + str(s) + " "; c.desc(hist); (*dp)[ke] = build(v); if (at < 0) model.push_back({k, v}); else model[at].second = v; break; }
        case 1: {
          hist += "insert " + text(k) + " "; c.desc(hist);
          P v = num(1000 + s); auto r = dp->insert(std::make_pair(ke, build(v)));
          c.check(r.second == (at < 0), "insert-result", "insert reports " + str(r.second)); if (at < 0) model.push_back({k, v});
          c.check(r.first != dp->end() && same(read(r.first->second), at < 0 ? v : model[at].second), "insert-result", "insert points at another entry");
          break;
        }
        case 2: {
          auto it = dp->find(ke);
          c.check((it != dp->end()) == (at >= 0), "find", std::string(at < 0 ? "finds an absent key " : "does not find the key ") + text(k));
          if (at >= 0) c.check(same(read(it->second), model[at].second) && same(read(it->first), k), "find", "wrong entry for " + text(k));
          break;
        }
        default: {
          bool threw = false; sym::Expr v;
          try { v = dp->at(ke); } catch (std::exception&) { threw = true; }
          c.check(threw == (at < 0), "at", "at() " + std::string(threw ? "throws for a present key " : "returns for an absent key ") + text(k));
          if (at >= 0) c.check(same(read(v), model[at].second), "at", "wrong value for " + text(k));
        }
      }
      c.check(dp->size() == model.size() && dp->empty() == model.empty(), "size", "size " + str(dp->size()) + " expected " + str(model.size()));
    }
    // each entry exactly once, and equality of the whole with a fresh copy made in another order
    std::vector<bool> seen(model.size());
    for (auto& p : *dp) { int at = find(read(p.first)); c.check(at >= 0 && !seen[at] && same(read(p.second), model[at].second), "iteration", "entry " + sym::repr(p.first)); seen[at] = true; }
    auto q = sym::DictRT::create();
    for (size_t i = model.size(); i-- > 0;) (*q)[rebuild(model[i].first, c.rng, pool)] = build(model[i].second);
    sym::Expr a(dp), b(q);
    c.check(a == b && b == a, "equal-not-equal", "dictionaries with the same entries differ: " + sym::repr(a) + " and " + sym::repr(b));
    c.check(H(a) == H(b), "hash", "equal dictionaries hash differently: " + sym::repr(a) + " and " + sym::repr(b));
    if (!model.empty()) { (*q)[build(model[0].first)] = sym::Expr(-77.0); c.check(!(a == b) && !(b == a), "different-equal", "dictionaries with different values are equal"); }
    c.nontrivial();
  });
  h.add("large-dictionaries", 80, 1500, [](Case& c) { Renaming rn(c.rng);
    int n = 20 + (int)c.rng.below(120);
    std::vector<std::string> k; for (int i = 0; i < n; ++i) { std::string s; int v = i; do { s += char('a' + v % 26); v /= 26; } while (v); k.push_back(s + "q"); }
    auto a = sym::DictRT::create(), b = sym::DictRT::create();
    c.desc("dictionaries of " + str(n) + " entries in opposite orders");
    for (int i = 0; i < n; ++i) (*a)[V(k[i])] = sym::Expr(double(i));
    for (int i = n; i-- > 0;) (*b)[V(k[i])] = sym::Expr(double(i));
    sym::Expr x(a), y(b);
    c.check(x == y && H(x) == H(y), "hash", "equal dictionaries differ or hash differently");
    c.check(H(sym::Expr(sym::sin(x))) == H(sym::Expr(sym::sin(y))), "hash", "expressions of equal dictionaries hash differently");
    c.nontrivial();
  });
  // containers and chains that differ, if at all, in one place of many
  h.add("wide", 400, 8000, [](Case& c) {
    Rng& r = c.rng; size_t n = widesize(r); P a;
    if (r.chance(2, 3)) a = wide(r, n, r.chance(1, 2), [&](size_t) { return tree(r, (int)r.below(2)); });
    else { n %= 120; a = var("x"); bool left = r.chance(1, 2); for (size_t i = 0; i < n; ++i) { K k = r.chance(1, 2) ? ADD : MUL; P l = tree(r, 0); a = left ? bin(k, a, l) : bin(k, l, a); } }
    P b = a; if (a->k == ARR || a->k == DICT) { auto m = std::make_shared<Node>(*a); size_t i = r.chance(1, 2) ? n - 1 - r.below(std::min<size_t>(n, 3)) : r.below(n); m->ch[i] = tweak(m->ch[i], r); b = m; } else b = tweak(a, r);
    c.desc(str(n) + ": " + text(a) + " | " + text(b));
    std::map<std::string, sym::Expr> p1, p2;
    sym::Expr x = build(a), y = rebuild(a, r, p1), z = rebuild(b, r, p2);
    pair(c, a, a, x, y); pair(c, a, b, x, z); pair(c, a, b, y, z); c.nontrivial();
  });
  return h.main(argc, argv);
}
