#pragma once
#include "gen.hpp"
namespace vf {
  // random well-formed formula texts, with random spacing, brackets and signs
  struct TextGen {
    Rng& r; std::vector<std::string> vars{"x", "y", "ab", "x", "y", "ab", "x", "y", "e", "sinx", "lnE", "aLongVariableName"}; bool eq = false; bool spaces = true;
    std::vector<std::string> t;
    explicit TextGen(Rng& r_) : r(r_) {}
    std::string number() {
      switch (r.below(8)) {
        case 0: return str(r.range(0, 9));
        case 1: return str(r.range(0, 99)) + "." + str(r.range(0, 999));
        case 2: return str(r.range(1, 9)) + "e" + (r.chance(1, 2) ? "-" : r.chance(1, 2) ? "+" : "") + str(r.range(0, 2));
        case 3: return str(r.range(1, 9)) + "." + str(r.range(0, 99)) + "E" + (r.chance(1, 2) ? "-" : "") + str(r.range(0, 2));
        case 4: return str(r.range(1, 9)) + ".";
        case 5: return "0." + str(r.range(1, 99));
        default: return str(r.range(1, 4));
      }
    }
    void sign() { int n = r.chance(1, 5) ? 1 + (int)r.below(2) : 0; if (r.chance(1, 40)) n = 4; for (int i = 0; i < n; ++i) t.push_back(r.chance(3, 4) ? "-" : "+"); }
    void primary(int d) {
      int w = (int)r.below(10);
      if (d <= 0 || w < 5) { t.push_back(r.chance(1, 2) ? number() : r.pick(vars)); return; }
      if (w < 7) { int n = 1 + (r.chance(1, 6) ? (int)r.below(3) : 0); for (int i = 0; i < n; ++i) t.push_back("("); expr(d - 1); for (int i = 0; i < n; ++i) t.push_back(")"); return; }
      static const char* f[] = {"sin", "cos", "exp", "ln"};
      t.push_back(r.pick(f)); sign(); primary(d - 1);
    }
    void expr(int d) {
      static const char* ops[] = {"+", "-", "*", "/", "^", "^", "*", "-"};
      int n = 1 + (int)r.below(4);
      if (r.chance(1, 10)) n += 3;
      for (int i = 0; i < n; ++i) {
        if (i) t.push_back(r.pick(ops));
        sign(); primary(d);
      }
    }
    static bool alpha(const std::string& s) { return RefParser::alp(s[0]); }
    static bool alnum(const std::string& s) { return RefParser::alp(s[0]) || RefParser::dig(s[0]); }
    std::string join(Rng& q, int spaceChance) {
      std::string s;
      for (size_t i = 0; i < t.size(); ++i) {
        if (i && alpha(t[i]) && alnum(t[i - 1])) s += " ";
        if (q.chance(spaceChance, 10)) s += std::string(1 + q.below(3), ' ');
        s += t[i];
      }
      if (q.chance(spaceChance, 20)) s += "  ";
      return s;
    }
    std::string make(int d) { t.clear(); expr(d); if (eq && r.chance(1, 4)) { t.push_back("="); expr(d); } return join(r, spaces ? (int)r.below(4) : 0); }
  };
}
