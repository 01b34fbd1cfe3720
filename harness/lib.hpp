// Bridge between the model (gen.hpp) and the run-time expressions of stator.
#pragma once
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/parser.hpp>
#include <stator/repr.hpp>
#include "gen.hpp"

namespace vf {
  // While a Renaming lives, the names of the model appear in the library as
  // other, easily confused names: a common start or end, differing only in
  // length or case, long ones, anagrams, names looking like functions.
  struct Renaming {
    std::map<std::string, std::string> to, from; std::vector<std::string> fam; size_t used = 0;
    static Renaming*& cur() { static thread_local Renaming* p = nullptr; return p; }
    explicit Renaming(Rng& r) {
      cur() = this;
      const std::string tails = "xyzabcXYZqwk";
      std::string a = "velocity", b = "thetemperatureoftheoutermostwall";
      switch (r.below(12)) {
        case 0: for (char t : tails) fam.push_back(a + t); break;
        case 1: for (char t : tails) fam.push_back(t + a); break;
        case 2: for (size_t i = 1; i <= 12; ++i) fam.push_back(std::string(i + 4 * (i > 6), 'v')); break;
        case 3: for (char t : tails) fam.push_back(b + t); break;
        case 4: for (char t : tails) fam.push_back(b.substr(0, 16) + t + b.substr(16)); break;
        case 5: fam = {"sinx", "sine", "cosx", "expx", "lnx", "absx", "pix", "ex", "PI", "Sin", "E", "infx"}; break;
        case 6: { std::string s = "abcd"; do fam.push_back(s); while (fam.size() < 12 && std::next_permutation(s.begin(), s.end())); break; }
        case 7: for (int i = 0; i < 12; ++i) fam.push_back(std::string(1, i & 1 ? 'g' : 'G') + (i & 2 ? 'h' : 'H') + (i & 4 ? 'k' : 'K') + (i & 8 ? 'm' : 'M')); break;
        case 8: for (size_t i = 0; i < 12; ++i) fam.push_back(b.substr(0, 8 + i)); break;
        default: cur() = nullptr;
      }
      for (size_t i = fam.size(); i > 1; --i) std::swap(fam[i - 1], fam[r.below(i)]);
    }
    ~Renaming() { cur() = nullptr; }
    Renaming(const Renaming&) = delete;
  };
  inline std::string outn(const std::string& n) {
    Renaming* r = Renaming::cur(); if (!r) return n;
    auto it = r->to.find(n); if (it != r->to.end()) return it->second;
    std::string s = r->fam[r->used % r->fam.size()]; for (size_t i = 0; i < r->used / r->fam.size(); ++i) s += "j";
    ++r->used; r->to[n] = s; r->from[s] = n; return s;
  }
  inline std::string inn(const std::string& n) {
    Renaming* r = Renaming::cur(); if (!r) return n;
    auto it = r->from.find(n); return it == r->from.end() ? "<" + n + ">" : it->second;
  }
  // the renaming in force, for messages
  inline std::string names() { Renaming* r = Renaming::cur(); std::string s; if (r) for (auto& p : r->to) s += " " + p.first + "=" + p.second; return s; }
  // AST -> Expr through the public construction interface, no simplification
  inline sym::Expr build(const P& n) {
    using namespace sym;
    switch (n->k) {
      case NUM: return Expr(n->num);
      case VAR: return Expr(VarRT::create(outn(n->name)));
      case ADD: return Expr(BinaryOp<Expr, sym::detail::Add, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case SUB: return Expr(BinaryOp<Expr, sym::detail::Subtract, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case MUL: return Expr(BinaryOp<Expr, sym::detail::Multiply, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case DIV: return Expr(BinaryOp<Expr, sym::detail::Divide, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case POW: return Expr(BinaryOp<Expr, sym::detail::Power, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case EQ: return Expr(BinaryOp<Expr, sym::detail::Equality, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case UNITS: return Expr(BinaryOp<Expr, sym::detail::Units, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case UNC: return Expr(BinaryOp<Expr, sym::detail::Uncertainty, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case ACC: return Expr(BinaryOp<Expr, sym::detail::ArrayAccess, Expr>::create(build(n->ch[0]), build(n->ch[1])));
      case NEG: return Expr(UnaryOp<Expr, sym::detail::Negate>::create(build(n->ch[0])));
      case SIN: return Expr(UnaryOp<Expr, sym::detail::Sine>::create(build(n->ch[0])));
      case COS: return Expr(UnaryOp<Expr, sym::detail::Cosine>::create(build(n->ch[0])));
      case EXP: return Expr(UnaryOp<Expr, sym::detail::Exp>::create(build(n->ch[0])));
      case LN: return Expr(UnaryOp<Expr, sym::detail::Log>::create(build(n->ch[0])));
      case ABS: return Expr(UnaryOp<Expr, sym::detail::Absolute>::create(build(n->ch[0])));
      case ARB: return Expr(UnaryOp<Expr, sym::detail::Arbsign>::create(build(n->ch[0])));
      case ARR: { auto a = ArrayRT::create(); for (auto& c : n->ch) a->push_back(build(c)); return Expr(a); }
      case DICT: { auto d = DictRT::create(); for (size_t i = 0; i < n->ch.size(); ++i) (*d)[Expr(VarRT::create(outn(n->keys[i])))] = build(n->ch[i]); return Expr(d); }
    }
    throw std::logic_error("build");
  }

  // the same through the overloaded operators and functions users call
  inline sym::Expr buildops(const P& n) {
    using namespace sym;
    switch (n->k) {
      case ADD: return Expr(buildops(n->ch[0]) + buildops(n->ch[1]));
      case SUB: return Expr(buildops(n->ch[0]) - buildops(n->ch[1]));
      case MUL: return Expr(buildops(n->ch[0]) * buildops(n->ch[1]));
      case DIV: return Expr(buildops(n->ch[0]) / buildops(n->ch[1]));
      case POW: return Expr(sym::pow(buildops(n->ch[0]), buildops(n->ch[1])));
      case EQ: return Expr(sym::equality(buildops(n->ch[0]), buildops(n->ch[1])));
      case NEG: return Expr(-buildops(n->ch[0]));
      case SIN: return Expr(sym::sin(buildops(n->ch[0])));
      case COS: return Expr(sym::cos(buildops(n->ch[0])));
      case EXP: return Expr(sym::exp(buildops(n->ch[0])));
      case LN: return Expr(sym::log(buildops(n->ch[0])));
      case ABS: return Expr(sym::abs(buildops(n->ch[0])));
      case UNITS: return Expr(sym::units(buildops(n->ch[0]), buildops(n->ch[1])));
      case UNC: return Expr(sym::uncertainty(buildops(n->ch[0]), buildops(n->ch[1])));
      case ARR: { auto a = ArrayRT::create(); for (auto& c : n->ch) a->push_back(buildops(c)); return Expr(a); }
      case DICT: { auto d = DictRT::create(); for (size_t i = 0; i < n->ch.size(); ++i) (*d)[Expr(VarRT::create(outn(n->keys[i])))] = buildops(n->ch[i]); return Expr(d); }
      default: return build(n);
    }
  }

  // Expr -> AST
  P read(const sym::Expr& e);
  struct Reader : sym::detail::VisitorHelper<Reader, P> {
    P apply(const double& v) { return num(v); }
    P apply(const sym::VarRT& v) { return var(inn(v.getName())); }
    template <class Op> P apply(const sym::UnaryOp<sym::Expr, Op>& o) { return un(kind(Op()), read(o.getArg())); }
    template <class Op> P apply(const sym::BinaryOp<sym::Expr, Op, sym::Expr>& o) { return bin(kind(Op()), read(o.getLHS()), read(o.getRHS())); }
    P apply(const sym::ArrayRT& a) { std::vector<P> c; for (const auto& i : a) c.push_back(read(i)); return arr(c); }
    P apply(const sym::DictRT& d) {
      std::map<std::string, P> m; size_t n = 0;
      for (const auto& i : d) { P k = read(i.first); m[k->k == VAR ? k->name : "<" + text(k) + ">"] = read(i.second); ++n; }
      std::vector<std::string> keys; std::vector<P> c;
      for (auto& p : m) { keys.push_back(p.first); c.push_back(p.second); }
      if (n != m.size()) keys.push_back("<duplicate keys>"), c.push_back(num(0));
      return dict(keys, c);
    }
    static K kind(sym::detail::Add) { return ADD; } static K kind(sym::detail::Subtract) { return SUB; }
    static K kind(sym::detail::Multiply) { return MUL; } static K kind(sym::detail::Divide) { return DIV; }
    static K kind(sym::detail::Power) { return POW; } static K kind(sym::detail::Equality) { return EQ; }
    static K kind(sym::detail::ArrayAccess) { return ACC; } static K kind(sym::detail::Units) { return UNITS; }
    static K kind(sym::detail::Uncertainty) { return UNC; } static K kind(sym::detail::Negate) { return NEG; }
    static K kind(sym::detail::Sine) { return SIN; } static K kind(sym::detail::Cosine) { return COS; }
    static K kind(sym::detail::Log) { return LN; } static K kind(sym::detail::Exp) { return EXP; }
    static K kind(sym::detail::Absolute) { return ABS; } static K kind(sym::detail::Arbsign) { return ARB; }
  };
  inline P read(const sym::Expr& e) {
    if (!e) throw std::logic_error("null expression returned");
    Reader r; return e->visit(r);
  }
  inline sym::Expr envdict(const Env& env) {
    auto d = sym::DictRT::create();
    for (auto& p : env) (*d)[sym::Expr(sym::VarRT::create(outn(p.first)))] = sym::Expr(p.second);
    return sym::Expr(d);
  }
  // sizes well past the small ones, at and around the powers of two
  inline size_t widesize(Rng& r, size_t top = 300) {
    static const size_t w[] = {9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300};
    for (;;) { size_t n = r.chance(1, 3) ? 9 + r.below(top - 8) : r.pick(w); if (n <= top) return n; }
  }
  inline std::string widename(size_t i) { std::string s; do { s += char('a' + i % 26); i /= 26; } while (i); return s + "q"; }
  // an array or dictionary of n entries, each of element(i)
  template <class F> P wide(Rng& r, size_t n, bool d, F element) {
    std::vector<P> e; std::vector<std::string> k; std::vector<size_t> o(n);
    for (size_t i = 0; i < n; ++i) { o[i] = i; e.push_back(element(i)); }
    for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    for (size_t i = 0; i < n; ++i) k.push_back(widename(o[i]));
    return d ? dict(k, e) : arr(e);
  }
  // parse without the simplification of the Expr constructor
  inline sym::Expr rawparse(const std::string& s) {
    sym::detail::ExprTokenizer t(s);
    sym::Expr e = t.parseExpression();
    if (!t.empty()) throw std::runtime_error("trailing symbols: " + s);
    return e;
  }
}
