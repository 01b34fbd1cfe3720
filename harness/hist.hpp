// Random operations of the public run-time interface over a pool of live expressions.
#pragma once
#include "lib.hpp"
#include "model.hpp"
#include "textgen.hpp"
namespace vf {
  inline std::string ident(const P& n) { std::string s = std::string(opname(n->k)) + "<" + n->name + (n->k == NUM ? (std::isnan(n->num) ? std::string("nan") : numtext(n->num)) : ""); std::map<std::string, P> m; if (n->k == DICT) { for (size_t i = 0; i < n->keys.size(); ++i) m[n->keys[i]] = n->ch[i]; for (auto& p : m) s += p.first + ":" + ident(p.second) + ","; } else for (auto& c : n->ch) s += ident(c) + ","; return s + ">"; }
  inline sym::Expr Vx(const std::string& s) { return sym::Expr(sym::VarRT::create(s)); }
  static constexpr char hist_y[] = "y";
  inline P histtree(Rng& r, int d) { GenOpt o; o.units = o.unc = true; return gentree(r, d, o); }
  enum Op { PARSE, BUILD, OPS, ADD_, SUB_, MUL_, DIV_, POW_, UNARY, SIMPLIFY, SUBEQ, SUBDICT, DERIV, ARRAY, DICTN, UNITS_, EQUAL_, COPY, BAD_PARSE, BAD_SUB, BAD_DERIV, BAD_ARRAY, ACCESS, FORMS, FASTSUB, MIXED, CONTAINER, NOPS };
  inline const char* opn(int o) { static const char* n[] = {"parse", "build", "operators", "+", "-", "*", "/", "^", "function", "simplify", "substitute", "substitute-dict", "derivative", "array", "dict", "units", "equation", "copy", "bad-parse", "bad-sub", "bad-derivative", "bad-array", "access", "named-forms", "fast-substitute", "mixed-operands", "container"}; return n[o]; }
  // performs one operation; the operands are pool members a, b, c
  inline sym::Expr perform(int op, Rng& r, const sym::Expr& a, const sym::Expr& b, const sym::Expr& c) {
    using namespace sym;
    switch (op) {
      case PARSE: { TextGen g(r); return sym::Expr(g.make(1 + (int)r.below(2))); }
      case BUILD: return build(histtree(r, 1 + (int)r.below(3)));
      case OPS: return buildops(histtree(r, 1 + (int)r.below(3)));
      case ADD_: return sym::Expr(a + b); case SUB_: return sym::Expr(a - b); case MUL_: return sym::Expr(a * b); case DIV_: return sym::Expr(a / b);
      case POW_: return sym::Expr(sym::pow(a, b));
      case UNARY: switch (r.below(6)) { case 0: return sym::Expr(-a); case 1: return sym::Expr(sym::sin(a)); case 2: return sym::Expr(sym::cos(a)); case 3: return sym::Expr(sym::exp(a)); case 4: return sym::Expr(sym::log(a)); default: return sym::Expr(sym::abs(a)); }
      case SIMPLIFY: return simplify(a);
      case SUBEQ: return sub(a, sym::Expr(sym::equality(Vx(r.chance(1, 2) ? "x" : "y"), b)));
      case SUBDICT: { auto d = DictRT::create(); (*d)[Vx("x")] = b; if (r.chance(1, 2)) (*d)[Vx("y")] = c; return sub(a, sym::Expr(d)); }
      case DERIV: return derivative(a, *VarRT::create(r.chance(1, 2) ? "x" : "y"));
      case ARRAY: { auto p = ArrayRT::create(); p->push_back(a); if (r.chance(2, 3)) p->push_back(b); if (r.chance(1, 3)) p->push_back(c); return sym::Expr(p); }
      case DICTN: { auto d = DictRT::create(); (*d)[Vx("k")] = a; (*d)[r.chance(1, 2) ? b : Vx("j")] = c; return sym::Expr(d); }
      case UNITS_: return r.chance(1, 2) ? sym::Expr(sym::units(a, b)) : sym::Expr(sym::uncertainty(a, b));
      case EQUAL_: return sym::Expr(sym::equality(a, b));
      case COPY: { sym::Expr q = a; sym::Expr w(std::move(q)); sym::Expr z; z = w; z = z; return z; }
      case BAD_PARSE: { static const char* t[] = {"(x+", "x**2", "{1:2}", "[1,2", "2x", "", "1.2.3", "x+[1,2", "sin", "{x:1,y}"}; return sym::Expr(std::string(r.pick(t))); }
      case BAD_SUB: return sub(a, r.chance(1, 2) ? sym::Expr(3.0) : sym::Expr(sym::sin(b)));
      case BAD_DERIV: return derivative(sym::Expr(sym::sin(sym::Expr(sym::uncertainty(a, b)))), *VarRT::create("x"));
      case BAD_ARRAY: { auto p = ArrayRT::create(), q = ArrayRT::create(); p->push_back(a); q->push_back(b); q->push_back(c); return sym::Expr(sym::Expr(p) + sym::Expr(q)); }
      case ACCESS: { auto p = ArrayRT::create(); p->push_back(a); p->push_back(b); sym::Expr e(p); return e->_type_idx >= 0 ? (*p)[r.below(2)] : e; }
      // the overloads taking compile-time variables, references to variables and dictionaries
      case FORMS: switch (r.below(9)) {
        case 0: return derivative(a, Var<>());
        case 1: return derivative(a, Var<hist_y>());
        case 2: return derivative(a, Vx(r.chance(1, 2) ? "x" : "y"));
        case 3: return sub(a, Var<>() = b);
        case 4: return sub(a, Var<hist_y>() = 1.25);
        case 5: return sub(a, Var<hist_y>() = sym::Expr(b * c));
        case 6: { auto d = DictRT::create(); (*d)[Vx("y")] = b; (*d)[sym::Expr(Var<>())] = c; return sub(a, *d); }
        case 7: return sub(a, *VarRT::create("x") = b);
        default: return derivative(a, sym::Expr(Var<>() * 2.0)); // not a variable: refused
      }
      case FASTSUB: { sym::Expr t = sub(a, Var<hist_y>() = 0.5); double v = fast_sub(t, Var<>() = 1.5); return std::isfinite(v) ? sym::Expr(v) : sym::Expr(0.0); }
      case MIXED: switch (r.below(8)) {
        case 0: return sym::Expr(a + 2.5); case 1: return sym::Expr(3 * a); case 2: return sym::Expr(a - Var<>());
        case 3: return sym::Expr(Var<hist_y>() / a); case 4: return sym::Expr(sym::pow(a, 2)); case 5: return sym::Expr(a * C<1, 2>());
        case 6: return sym::Expr(sym::sin(Var<>() * 2.0) + a); default: return simplify(sym::Expr(Unity() * a + Null()));
      }
      case CONTAINER: {
        auto p = ArrayRT::create({a, b, c}); auto d = DictRT::create(); (*d)[a] = b; (*d)[a] = c; (*d)[Vx("k")] = a;
        switch (r.below(5)) {
          case 0: { sym::Expr e(p); return e.as<ArrayRT>()[r.below(3)]; }
          case 1: { sym::Expr e(d), k = r.chance(1, 4) ? Vx("absent") : a; if (e.as<DictRT>().find(k) == e.as<DictRT>().end()) stator_throw() << "absent"; return e.as<DictRT>().at(k); }
          case 2: { sym::Expr e(p); return sym::Expr(std::vector<sym::Expr>(e.as<ArrayRT>().begin(), e.as<ArrayRT>().end()).back()); }
          case 3: { sym::Expr e(d); return sym::Expr(e.as<ArrayRT>()[0]); } // wrong kind: refused
          default: { sym::Expr e(p), f(d); return sym::Expr(sym::equality(e, f)); }
        }
      }
    }
    throw std::logic_error("perform");
  }
  // read-only observations of an expression, as a text
  inline std::string observe(const sym::Expr& e, int what, Rng& r, const sym::Expr& o) {
    switch (what) {
      case 0: return sym::repr(e);
      case 1: return str(std::hash<sym::Expr>()(e));
      case 2: return e == o ? "equal" : "different";
      case 3: return sym::repr<stator::ReprConfig<stator::Latex_output>>(e);
      case 4: { std::ostringstream s; s << e; return s.str(); }
      default: return ident(read(e));
    }
  }
}
