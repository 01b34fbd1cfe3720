// Further library-independent views of formula trees.
#pragma once
#include "gen.hpp"
namespace vf {
  // Canonical text in which only brackets that cannot matter are dropped:
  // sums and products are flattened, signs are moved out.
  inline std::string canon(const P& n);
  inline void canon_sum(const P& n, bool neg, std::vector<std::string>& out) {
    if (n->k == ADD) { canon_sum(n->ch[0], neg, out); canon_sum(n->ch[1], neg, out); return; }
    if (n->k == SUB) { canon_sum(n->ch[0], neg, out); canon_sum(n->ch[1], !neg, out); return; }
    if (n->k == NEG) { canon_sum(n->ch[0], !neg, out); return; }
    std::string t = canon(n);
    if (!t.empty() && t[0] == '~') { neg = !neg; t = t.substr(1); }
    out.push_back((neg ? "-" : "+") + t);
  }
  inline void canon_prod(const P& n, bool inv, bool& neg, std::vector<std::string>& out) {
    if (n->k == MUL) { canon_prod(n->ch[0], inv, neg, out); canon_prod(n->ch[1], inv, neg, out); return; }
    if (n->k == DIV) { canon_prod(n->ch[0], inv, neg, out); canon_prod(n->ch[1], !inv, neg, out); return; }
    if (n->k == NEG) { neg = !neg; canon_prod(n->ch[0], inv, neg, out); return; }
    std::string t = canon(n);
    if (!t.empty() && t[0] == '~') { neg = !neg; t = t.substr(1); }
    out.push_back((inv ? "/" : "*") + t);
  }
  inline std::string canon(const P& n) {
    switch (n->k) {
      case NUM: { std::string s = numtext(fabs(n->num)); return std::signbit(n->num) && n->num != 0 ? "~" + s : s; }
      case VAR: return n->name;
      case ADD: case SUB: { std::vector<std::string> o; canon_sum(n, false, o); std::string s = "("; for (auto& x : o) s += x; return s + ")"; }
      case NEG: {
        // a negated atom or product keeps its sign in front
        P a = n->ch[0];
        if (a->k == ADD || a->k == SUB) { std::vector<std::string> o; canon_sum(n, false, o); std::string s = "("; for (auto& x : o) s += x; return s + ")"; }
        std::string t = canon(a);
        return t[0] == '~' ? t.substr(1) : "~" + t;
      }
      case MUL: case DIV: { std::vector<std::string> o; bool neg = false; canon_prod(n, false, neg, o); std::string s = neg ? "~<" : "<"; for (auto& x : o) s += x; return s + ">"; }
      case DICT: {
        std::map<std::string, std::string> m; for (size_t i = 0; i < n->keys.size(); ++i) m[n->keys[i]] = canon(n->ch[i]);
        std::string s = "dict("; for (auto& p : m) s += p.first + ":" + p.second + ","; return s + ")";
      }
      default: { std::string s = std::string(opname(n->k)) + "("; for (auto& c : n->ch) s += canon(c) + ","; return s + ")"; }
    }
  }
  // A total numeric interpretation in which containers, units, ... are opaque
  // functions of their parts: differing values mean differing structure.
  inline EV opaque(const P& n, const Env& env) {
    auto mix2 = [&](const EV& a, const EV& b, long double w, long double p, long double q) {
      return op2(ADD, op2(MUL, mk(w, 0), op2(MUL, op2(ADD, a, mk(p, 0)), op2(ADD, b, mk(q, 0)))), op2(MUL, a, mk(0.25L, 0)));
    };
    switch (n->k) {
      case UNITS: return mix2(opaque(n->ch[0], env), opaque(n->ch[1], env), 1.1875L, 0.375L, 1.21875L);
      case UNC: return mix2(opaque(n->ch[0], env), opaque(n->ch[1], env), 0.8125L, 2.375L, -0.71875L);
      case EQ: return mix2(opaque(n->ch[0], env), opaque(n->ch[1], env), -1.5L, 0.875L, 3.21875L);
      case ACC: return mix2(opaque(n->ch[0], env), opaque(n->ch[1], env), 2.25L, -1.375L, 0.46875L);
      case ARB: return op2(ADD, op1(ABS, opaque(n->ch[0], env)), mk(5.375L, 0));
      case ARR: { EV v = mk(0.6875L + n->ch.size(), 0); int i = 0; for (auto& c : n->ch) { ++i; v = op2(ADD, v, op2(MUL, mk(0.75L + 0.3125L * i, 0), opaque(c, env))); } return v; }
      case DICT: { EV v = mk(7.4375L + n->ch.size(), 0); for (size_t i = 0; i < n->ch.size(); ++i) v = op2(ADD, v, op2(MUL, mk(0.5L + (long double)(hashs(n->keys[i]) % 1024) / 256, 0), opaque(n->ch[i], env))); return v; }
      case ADD: case SUB: case MUL: case DIV: case POW: return op2(n->k, opaque(n->ch[0], env), opaque(n->ch[1], env));
      case NEG: case SIN: case COS: case EXP: case LN: case ABS: return op1(n->k, opaque(n->ch[0], env));
      default: return eval(n, env);
    }
  }
  enum Verdict { SAME, DIFFERENT, UNKNOWN };
  // Do two trees denote the same expression? SAME/DIFFERENT are conclusive.
  inline Verdict equivalent(const P& a, const P& b, Rng& r, std::string& why, int tries = 6) {
    if (canon(a) == canon(b)) return SAME;
    std::set<std::string> vs; vars(a, vs); vars(b, vs);
    Verdict v = UNKNOWN;
    for (int i = 0; i < tries; ++i) {
      Env env = genenv(r, vs);
      EV x = opaque(a, env);
      if (!wellcond(x)) continue;
      EV y = opaque(b, env);
      if (agrees(x, y)) { v = SAME; continue; }
      if (y.ok && !wellcond(y)) continue;
      why = "at " + envtext(env) + ": " + str(x.v) + " against " + (y.ok ? str(y.v) : std::string("an undefined value"));
      return DIFFERENT;
    }
    return v;
  }
  // random trees over the whole printable language
  inline P gentree(Rng& r, int depth, const GenOpt& o) {
    if (depth > 0) {
      int w = (int)r.below(24);
      if (w == 0) { std::vector<P> c; int n = (int)r.below(4); for (int i = 0; i < n; ++i) c.push_back(gentree(r, depth - 1, o)); return arr(c); }
      if (w == 1) {
        std::vector<std::string> ks; std::vector<P> c; int n = (int)r.below(4); static const char* nm[] = {"x", "y", "k", "abc", "q"};
        for (int i = 0; i < n; ++i) { std::string k = r.pick(nm); if (std::find(ks.begin(), ks.end(), k) != ks.end()) continue; ks.push_back(k); c.push_back(gentree(r, depth - 1, o)); }
        return dict(ks, c);
      }
      if (w <= 3 && o.units) return bin(UNITS, gentree(r, depth - 1, o), r.chance(1, 2) ? var(r.chance(1, 2) ? "m" : "s") : gentree(r, depth - 1, o));
      if (w <= 5 && o.unc) return bin(UNC, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w == 6) return bin(EQ, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 9) return bin(ADD, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 11) return bin(SUB, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 13) return bin(MUL, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 15) return bin(DIV, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 18) return bin(POW, gentree(r, depth - 1, o), gentree(r, depth - 1, o));
      if (w <= 20) return un(NEG, gentree(r, depth - 1, o));
      if (w <= 22) { static const K f[] = {SIN, COS, EXP, LN}; return un(r.pick(f), gentree(r, depth - 1, o)); }
    }
    if (o.vars.size() && r.chance(3, 5)) return var(r.pick(o.vars));
    return num(gennum(r, o));
  }
}
