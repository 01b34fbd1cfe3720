// Library-independent formula model: AST, reference parser, long-double
// evaluator with running error bounds, random generators.
#pragma once
#include "common.hpp"

namespace vf {
  enum K { NUM, VAR, ADD, SUB, MUL, DIV, POW, EQ, NEG, SIN, COS, EXP, LN, ABS, ARB, ARR, DICT, UNITS, UNC, ACC };
  struct Node;
  typedef std::shared_ptr<const Node> P;
  struct Node {
    K k; double num = 0; std::string name; std::vector<P> ch; std::vector<std::string> keys;
  };
  inline P num(double v) { auto n = std::make_shared<Node>(); n->k = NUM; n->num = v; return n; }
  inline P var(std::string s) { auto n = std::make_shared<Node>(); n->k = VAR; n->name = s; return n; }
  inline P un(K k, P a) { auto n = std::make_shared<Node>(); n->k = k; n->ch = {a}; return n; }
  inline P bin(K k, P a, P b) { auto n = std::make_shared<Node>(); n->k = k; n->ch = {a, b}; return n; }
  inline P arr(std::vector<P> c) { auto n = std::make_shared<Node>(); n->k = ARR; n->ch = c; return n; }
  inline P dict(std::vector<std::string> keys, std::vector<P> c) { auto n = std::make_shared<Node>(); n->k = DICT; n->keys = keys; n->ch = c; return n; }

  inline bool isbin(K k) { return k == ADD || k == SUB || k == MUL || k == DIV || k == POW || k == EQ || k == UNITS || k == UNC || k == ACC; }
  inline const char* opname(K k) {
    static const char* n[] = {"num", "var", "+", "-", "*", "/", "^", "=", "neg", "sin", "cos", "exp", "ln", "abs", "arb", "arr", "dict", "{}", "±", "[]"};
    return n[k];
  }
  inline std::string numtext(double v) {
    std::ostringstream o; o << std::setprecision(17) << v; return o.str();
  }
  // fully bracketed rendering; with negatives bracketed
  inline std::string text(const P& n) {
    switch (n->k) {
      case NUM: return (n->num < 0 || std::signbit(n->num)) ? "(" + numtext(n->num) + ")" : numtext(n->num);
      case VAR: return n->name;
      case NEG: return "(-" + text(n->ch[0]) + ")";
      case SIN: case COS: case EXP: case LN: case ABS: case ARB: return std::string(opname(n->k)) + "(" + text(n->ch[0]) + ")";
      case ARR: { std::string s = "["; for (size_t i = 0; i < n->ch.size(); ++i) s += (i ? ", " : "") + text(n->ch[i]); return s + "]"; }
      case DICT: { std::string s = "{"; for (size_t i = 0; i < n->ch.size(); ++i) s += (i ? ", " : "") + n->keys[i] + ":" + text(n->ch[i]); return s + "}"; }
      case UNITS: return "(" + text(n->ch[0]) + "{" + text(n->ch[1]) + "})";
      case ACC: return "(" + text(n->ch[0]) + "[" + text(n->ch[1]) + "])";
      default: return "(" + text(n->ch[0]) + opname(n->k) + text(n->ch[1]) + ")";
    }
  }
  inline bool same(const P& a, const P& b) {
    if (a->k != b->k) return false;
    if (a->k == NUM) return a->num == b->num;
    if (a->k == VAR) return a->name == b->name;
    if (a->ch.size() != b->ch.size()) return false;
    if (a->k == DICT) {
      std::map<std::string, P> m; for (size_t i = 0; i < b->ch.size(); ++i) m[b->keys[i]] = b->ch[i];
      for (size_t i = 0; i < a->ch.size(); ++i) { auto it = m.find(a->keys[i]); if (it == m.end() || !same(a->ch[i], it->second)) return false; }
      return true;
    }
    for (size_t i = 0; i < a->ch.size(); ++i) if (!same(a->ch[i], b->ch[i])) return false;
    return true;
  }
  inline void vars(const P& n, std::set<std::string>& s) { if (n->k == VAR) s.insert(n->name); for (auto& c : n->ch) vars(c, s); }
  inline size_t nodes(const P& n) { size_t r = 1; for (auto& c : n->ch) r += nodes(c); return r; }
  inline size_t depth(const P& n) { size_t r = 0; for (auto& c : n->ch) r = std::max(r, depth(c)); return r + 1; }
  inline bool contains(const P& n, K k) { if (n->k == k) return true; for (auto& c : n->ch) if (contains(c, k)) return true; return false; }
  inline P subst(const P& n, const std::map<std::string, P>& m) {
    if (n->k == VAR) { auto it = m.find(n->name); return it == m.end() ? n : it->second; }
    auto r = std::make_shared<Node>(*n);
    for (auto& c : r->ch) c = subst(c, m);
    return r;
  }

  // ------------------------------------------------------------ evaluation
  typedef std::map<std::string, double> Env;
  // p is the value computed without regard to its conditioning
  struct EV { long double v = 0, e = 0; bool ok = false; long double p = NAN; };
  const long double U = 2.3e-16L;
  inline EV mk(long double v, long double e) {
    EV r; r.v = v; r.e = e; r.p = v;
    r.ok = std::isfinite(v) && std::isfinite(e) && fabsl(v) < 1e150L && (v == 0 || fabsl(v) > 1e-150L);
    return r;
  }
  // small integers are exact and stay exact under + - *
  inline bool exactint(const EV& a) { return a.e == 0 && a.v == floorl(a.v) && fabsl(a.v) < 1e12L; }
  inline EV op2c(K k, const EV& a, const EV& b) {
    if (!a.ok || !b.ok) return EV();
    if (exactint(a) && exactint(b)) {
      long double v = 2e12L;
      if (k == ADD) v = a.v + b.v; else if (k == SUB) v = a.v - b.v; else if (k == MUL) v = a.v * b.v;
      if (fabsl(v) < 1e12L) return mk(v, 0);
    }
    switch (k) {
      case ADD: { long double v = a.v + b.v; return mk(v, a.e + b.e + U * fabsl(v)); }
      case SUB: { long double v = a.v - b.v; return mk(v, a.e + b.e + U * fabsl(v)); }
      case UNITS:
      case MUL: { long double v = a.v * b.v; return mk(v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e + U * fabsl(v)); }
      case UNC: { const long double kk = 0.7390851332L; long double v = a.v + kk * b.v; return mk(v, a.e + b.e + U * (fabsl(v) + fabsl(b.v))); }
      case DIV: {
        if (b.v == 0 || fabsl(b.v) <= 100 * b.e) return EV();
        long double v = a.v / b.v; return mk(v, (a.e + fabsl(v) * b.e) / (fabsl(b.v) - b.e) + U * fabsl(v));
      }
      case POW: {
        if (a.v == 0) {
          if (a.e != 0) return EV();
          if (b.v > 0) return mk(0, 0);
          if (b.v == 0 && b.e == 0) return mk(1, U);
          return EV();
        }
        bool bi = (b.v == floorl(b.v)) && b.e == 0;
        if (a.v < 0 && !bi) return EV();
        if (a.e / fabsl(a.v) > 0.001L) return EV();
        long double v = powl(a.v, b.v);
        return mk(v, fabsl(v) * (fabsl(b.v) * a.e / fabsl(a.v) * 1.1L + (bi ? 0 : fabsl(logl(fabsl(a.v))) * b.e) + 4 * U));
      }
      default: return EV();
    }
  }
  inline EV op2(K k, const EV& a, const EV& b) {
    EV r = op2c(k, a, b);
    switch (k) {
      case ADD: r.p = a.p + b.p; break;
      case SUB: r.p = a.p - b.p; break;
      case MUL: case UNITS: r.p = a.p * b.p; break;
      case DIV: r.p = a.p / b.p; break;
      case POW: r.p = powl(a.p, b.p); break;
      default: r.p = r.ok ? r.v : NAN;
    }
    return r;
  }
  inline EV op1c(K k, const EV& a) {
    if (!a.ok) return EV();
    switch (k) {
      case NEG: return mk(-a.v, a.e);
      case SIN: if (fabsl(a.v) > 1e8L) return EV(); return mk(sinl(a.v), a.e + U);
      case COS: if (fabsl(a.v) > 1e8L) return EV(); return mk(cosl(a.v), a.e + U);
      case EXP: { if (a.e > 0.01L || fabsl(a.v) > 300) return EV(); long double v = expl(a.v); return mk(v, v * (a.e * 1.1L + 2 * U)); }
      case LN: { if (a.v <= 0 || a.v <= 100 * a.e) return EV(); long double v = logl(a.v); return mk(v, a.e / (a.v - a.e) + U * fabsl(v) + U); }
      case ABS: return mk(fabsl(a.v), a.e);
      default: return EV();
    }
  }
  inline EV op1(K k, const EV& a) {
    EV r = op1c(k, a);
    switch (k) {
      case NEG: r.p = -a.p; break;
      case SIN: r.p = sinl(a.p); break;
      case COS: r.p = cosl(a.p); break;
      case EXP: r.p = expl(a.p); break;
      case LN: r.p = logl(a.p); break;
      case ABS: r.p = fabsl(a.p); break;
      default: r.p = NAN;
    }
    return r;
  }
  inline EV eval(const P& n, const Env& env) {
    switch (n->k) {
      case NUM: return mk(n->num, n->num == std::floor(n->num) ? 0 : U * fabs(n->num));
      case VAR: { auto it = env.find(n->name); if (it == env.end()) return EV(); return mk(it->second, 0); }
      case ADD: case SUB: case MUL: case DIV: case POW: case UNITS: case UNC: return op2(n->k, eval(n->ch[0], env), eval(n->ch[1], env));
      case NEG: case SIN: case COS: case EXP: case LN: case ABS: return op1(n->k, eval(n->ch[0], env));
      default: return EV();
    }
  }
  // well-conditioned: the oracle's own error bound is far below the value
  inline bool wellcond(const EV& a) { return a.ok && a.e * 1e4L <= 1e-5L * std::max(fabsl(a.v), 1e-3L); }
  inline bool close(const EV& ref, long double got) {
    if (!std::isfinite(got)) return false;
    return fabsl(got - ref.v) <= 1e4L * ref.e + 1e-13L * fabsl(ref.v) + 1e-300L;
  }
  inline bool close2(const EV& a, const EV& b) {
    return fabsl(a.v - b.v) <= 1e4L * (a.e + b.e) + 1e-13L * fabsl(a.v) + 1e-300L;
  }

  // a result whose own error bound is useless still agrees when its plain value does
  inline bool agrees(const EV& ref, const EV& got) { return got.ok ? close2(ref, got) : close(ref, got.p); }

  // structured values: scalars, arrays, dictionaries, equations
  struct Val { K k = NUM; EV s; std::vector<Val> ch; std::vector<std::string> keys; bool bad = false; };
  inline Val badval() { Val v; v.bad = true; return v; }
  inline Val sv(EV e) { Val v; v.s = e; return v; }
  inline Val vop2(K k, const Val& a, const Val& b) {
    if (a.bad || b.bad) return badval();
    if (a.k == NUM && b.k == NUM) return sv(op2(k, a.s, b.s));
    if (k != ADD && k != SUB && k != MUL && k != DIV) return badval();
    if (a.k == ARR && b.k == ARR) {
      if (a.ch.size() != b.ch.size()) return badval();
      Val r; r.k = ARR; for (size_t i = 0; i < a.ch.size(); ++i) r.ch.push_back(vop2(k, a.ch[i], b.ch[i])); return r;
    }
    if (a.k == ARR && b.k == NUM) { Val r; r.k = ARR; for (auto& c : a.ch) r.ch.push_back(vop2(k, c, b)); return r; }
    if (a.k == NUM && b.k == ARR) { Val r; r.k = ARR; for (auto& c : b.ch) r.ch.push_back(vop2(k, a, c)); return r; }
    return badval();
  }
  inline Val vneg(Val a) {
    if (a.bad) return a;
    if (a.k == NUM) return sv(op1(NEG, a.s));
    if (a.k != ARR) return badval();
    for (auto& c : a.ch) { c = vneg(c); if (c.bad) return badval(); }
    return a;
  }
  inline Val veval(const P& n, const Env& env) {
    switch (n->k) {
      case ARR: { Val r; r.k = ARR; for (auto& c : n->ch) r.ch.push_back(veval(c, env)); return r; }
      case DICT: { Val r; r.k = DICT; r.keys = n->keys; for (auto& c : n->ch) r.ch.push_back(veval(c, env)); return r; }
      case EQ: { Val r; r.k = EQ; for (auto& c : n->ch) r.ch.push_back(veval(c, env)); return r; }
      case NUM: case VAR: return sv(eval(n, env));
      case NEG: case SIN: case COS: case EXP: case LN: case ABS: {
        Val a = veval(n->ch[0], env);
        if (a.bad) return a;
        if (a.k == NUM) return sv(op1(n->k, a.s));
        if (a.k == ARR && n->k == NEG) return vneg(a);
        return badval();
      }
      case ADD: case SUB: case MUL: case DIV: case POW: case UNITS: case UNC: return vop2(n->k, veval(n->ch[0], env), veval(n->ch[1], env));
      default: return badval();
    }
  }
  // ref must be usable everywhere for a comparison to be counted
  inline bool vusable(const Val& a) {
    if (a.bad) return false;
    if (a.k == NUM) return wellcond(a.s);
    for (auto& c : a.ch) if (!vusable(c)) return false;
    return true;
  }
  // returns "" when equal
  inline std::string vdiff(const Val& ref, const Val& got, std::string path = "") {
    if (got.bad) return path + ": result has no defined value";
    if (ref.k != got.k) return path + ": shape differs (" + opname(ref.k) + " expected, " + opname(got.k) + " found)";
    if (ref.k == NUM) {
      if (!got.s.ok && agrees(ref.s, got.s)) return "";
      if (!got.s.ok) return path + ": expected " + str(ref.s.v) + " but the result is not finite/defined";
      if (!close2(ref.s, got.s)) return path + ": expected " + str(ref.s.v) + " got " + str(got.s.v);
      return "";
    }
    if (ref.ch.size() != got.ch.size()) return path + ": expected " + str(ref.ch.size()) + " elements, got " + str(got.ch.size());
    if (ref.k == DICT) {
      std::map<std::string, size_t> m; for (size_t i = 0; i < got.keys.size(); ++i) m[got.keys[i]] = i;
      for (size_t i = 0; i < ref.keys.size(); ++i) {
        auto it = m.find(ref.keys[i]);
        if (it == m.end()) return path + ": key " + ref.keys[i] + " missing";
        auto d = vdiff(ref.ch[i], got.ch[it->second], path + "{" + ref.keys[i] + "}");
        if (!d.empty()) return d;
      }
      return "";
    }
    for (size_t i = 0; i < ref.ch.size(); ++i) { auto d = vdiff(ref.ch[i], got.ch[i], path + "[" + str(i) + "]"); if (!d.empty()) return d; }
    return "";
  }

  // ------------------------------------------------------ reference parser
  // The conventional reading of the formula language; throws std::string.
  struct RefParser {
    std::string s; size_t p = 0; std::string tok; size_t nodesMade = 0; bool sawAccess = false;
    explicit RefParser(const std::string& t) : s(t) { advance(); }
    static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }
    static bool alp(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    void advance() {
      while (p < s.size() && s[p] == ' ') ++p;
      tok.clear();
      if (p >= s.size()) return;
      if (dig(s[p])) {
        size_t q = p; bool dot = false, ex = false;
        while (q < s.size()) {
          if (dig(s[q])) { ++q; continue; }
          if (s[q] == '.') { if (dot || ex) throw std::string("bad decimal point"); dot = true; ++q; continue; }
          if (s[q] == 'e' || s[q] == 'E') {
            if (ex) throw std::string("double exponent");
            ex = true; ++q;
            if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q;
            if (q >= s.size() || !dig(s[q])) throw std::string("malformed exponent");
            continue;
          }
          break;
        }
        tok = s.substr(p, q - p); p = q; return;
      }
      if (alp(s[p])) { size_t q = p; while (q < s.size() && alp(s[q])) ++q; tok = s.substr(p, q - p); p = q; return; }
      if ((unsigned char)s[p] == 0xc2 && p + 1 < s.size() && (unsigned char)s[p + 1] == 0xb1) { tok = "±"; p += 2; return; }
      if (std::strchr("=+-*/^{}()[],:", s[p]) && s[p]) { tok = s.substr(p, 1); ++p; return; }
      throw std::string("unknown character");
    }
    static int lbp(const std::string& t) {
      if (t == "=") return 10; if (t == "+" || t == "-") return 20; if (t == "*" || t == "/") return 30;
      if (t == "^") return 40; if (t == "[") return 50; if (t == "{") return 60; if (t == "±") return 70;
      if (t == ")" || t == "]" || t == "}" || t == "," || t == ":") return -1;
      return -2;
    }
    void expect(const char* t) { if (tok != t) throw std::string("expected ") + t; advance(); }
    P atom(int minbp) {
      std::string t = tok;
      if (t.empty()) throw std::string("unexpected end");
      advance();
      if (dig(t[0])) return num(strtod(t.c_str(), nullptr));
      // a sign applies to what follows, but to nothing its surroundings would not have captured
      if (t == "+") return expr(std::max(21, minbp));
      if (t == "-") { P a = expr(std::max(21, minbp)); return un(NEG, a); }
      if (t == "(") { P a = expr(0); expect(")"); return a; }
      if (t == "[") {
        std::vector<P> e;
        if (tok == "]") { advance(); return arr(e); }
        while (true) { e.push_back(expr(0)); if (tok == "]") break; expect(","); }
        advance(); return arr(e);
      }
      if (t == "{") {
        std::vector<std::string> keys; std::vector<P> e;
        if (tok == "}") { advance(); return dict(keys, e); }
        while (true) {
          P key = expr(0); if (key->k != VAR) throw std::string("dictionary key is no variable");
          expect(":"); P v = expr(0);
          auto it = std::find(keys.begin(), keys.end(), key->name);
          if (it == keys.end()) { keys.push_back(key->name); e.push_back(v); } else e[it - keys.begin()] = v;
          if (tok == "}") break; expect(",");
        }
        advance(); return dict(keys, e);
      }
      const int FN = 1000000;
      if (t == "sin") return un(SIN, expr(FN)); if (t == "cos") return un(COS, expr(FN));
      if (t == "exp") return un(EXP, expr(FN)); if (t == "ln") return un(LN, expr(FN));
      if (t == "ABSFN") return un(ABS, expr(FN)); if (t == "ARBFN") return un(ARB, expr(FN));
      if (alp(t[0])) return var(t);
      throw std::string("not an operand: ") + t;
    }
    P expr(int minbp) {
      if (++nodesMade > 100000) throw std::string("too big");
      P l = atom(minbp);
      int maxbp = 1 << 30; // after a closing bracket only operators binding no tighter follow
      while (!tok.empty()) {
        int b = lbp(tok);
        if (b == -2) throw std::string("expected an operator");
        if (b < minbp || b > maxbp) break;
        std::string t = tok; advance();
        if (t == "{") { P r = expr(0); expect("}"); l = bin(UNITS, l, r); maxbp = 60; continue; }
        if (t == "[") { sawAccess = true; P r = expr(0); expect("]"); l = bin(ACC, l, r); maxbp = 50; continue; }
        K k = t == "=" ? EQ : t == "+" ? ADD : t == "-" ? SUB : t == "*" ? MUL : t == "/" ? DIV : t == "^" ? POW : UNC;
        int r = (t == "=" || t == "^") ? b : b + 1;
        l = bin(k, l, expr(r));
      }
      return l;
    }
    P parse() { P e = expr(0); if (!tok.empty()) throw std::string("trailing symbols"); return e; }
  };

  // ------------------------------------------------------------ generators
  struct GenOpt {
    std::vector<std::string> vars{"x", "y", "z"};
    bool funcs = true, pow = true, neg = true, abs = false, div = true;
    bool units = false, unc = false;
    int specialNums = 2; // weight of 0/1/-1/2
    bool negNums = true;
  };
  inline double gennum(Rng& r, const GenOpt& o) {
    static const double sp[] = {0, 1, 2, 3, 0.5, 1, 0, 4, 10};
    double v;
    switch (r.below(5 + o.specialNums)) {
      case 0: v = r.range(0, 9); break;
      case 1: v = r.range(1, 400) / 16.0; break;
      case 2: v = r.range(1, 9999) / 1000.0; break;
      case 3: v = r.range(1, 30) / 10.0; break;
      case 4: v = r.unit() * 3; break;
      default: v = r.pick(sp);
    }
    if (o.negNums && r.chance(1, 6)) v = -v;
    return v == 0 ? 0.0 : v;
  }
  inline P gen(Rng& r, int depth, const GenOpt& o) {
    if (depth <= 0 || r.chance(1, 8)) {
      if (!o.vars.empty() && r.chance(3, 5)) return var(r.pick(o.vars));
      return num(gennum(r, o));
    }
    int w = (int)r.below(20);
    if (w < 4) return bin(ADD, gen(r, depth - 1, o), gen(r, depth - 1, o));
    if (w < 7) return bin(SUB, gen(r, depth - 1, o), gen(r, depth - 1, o));
    if (w < 11) return bin(MUL, gen(r, depth - 1, o), gen(r, depth - 1, o));
    if (w < 13 && o.div) return bin(DIV, gen(r, depth - 1, o), gen(r, depth - 1, o));
    if (w < 15 && o.pow) {
      if (r.chance(2, 3)) return bin(POW, gen(r, depth - 1, o), num(r.pick(std::vector<double>{0.0, 1.0, 2.0, 3.0, 2.0, -1.0, -2.0, 0.5, 4.0, 1.5})));
      return bin(POW, gen(r, depth - 1, o), gen(r, depth - 1, o));
    }
    if (w < 17 && o.funcs) { static const K f[] = {SIN, COS, EXP, LN}; return un(r.pick(f), gen(r, depth - 1, o)); }
    if (w < 18 && o.neg) return un(NEG, gen(r, depth - 1, o));
    if (w < 19 && o.abs) return un(ABS, gen(r, depth - 1, o));
    if (w < 19) { P a = gen(r, depth - 1, o); static const K f[] = {ADD, SUB, MUL, ADD}; return bin(r.pick(f), a, a); }
    return bin(MUL, num(gennum(r, o)), bin(MUL, num(gennum(r, o)), gen(r, depth - 1, o)));
  }
  inline Env genenv(Rng& r, const std::set<std::string>& vs) {
    Env e;
    int mode = (int)r.below(4);
    for (auto& v : vs) {
      double x;
      switch (mode) {
        case 0: x = r.real(0.2, 2.5); break;
        case 1: x = r.real(-2, 2); break;
        case 2: x = (double)r.range(1, 5); break;
        default: x = r.real(0.5, 1.5); break;
      }
      e[v] = x;
    }
    return e;
  }
  inline std::string envtext(const Env& e) { std::string s; for (auto& p : e) s += p.first + "=" + numtext(p.second) + " "; return s; }
}
