#include "lib.hpp"
#include "textgen.hpp"
using namespace vf;

static void value_case(Case& c, const std::string& s, bool small) {
  P ref;
  try { ref = RefParser(s).parse(); } catch (std::string& e) { throw std::logic_error("generator made an ill-formed text: " + s + ": " + e); }
  c.desc(s);
  sym::Expr e, raw;
  try { e = sym::Expr(s); raw = rawparse(s); } catch (std::exception& x) { c.fail("rejected", std::string("well-formed text rejected: ") + x.what()); }
  P got = read(e), graw = read(raw);
  std::set<std::string> vs; vars(ref, vs);
  std::set<std::string> gv; vars(graw, gv);
  c.check(vs == gv, "variables", "the parsed expression mentions other variables than the text: " + text(graw));
  int used = 0;
  for (int k = 0; k < 6; ++k) {
    Env env = genenv(c.rng, vs);
    Val rv = veval(ref, env);
    if (!vusable(rv)) { c.count("assignments_skipped_illconditioned"); continue; }
    ++used;
    auto d = vdiff(rv, veval(graw, env));
    c.check(d.empty(), "value:parse", "conventional reading " + text(ref) + " at " + envtext(env) + d + "\nparsed as " + text(graw));
    d = vdiff(rv, veval(got, env));
    c.check(d.empty(), "value:constructed", "conventional reading " + text(ref) + " at " + envtext(env) + d + "\nconstructed as " + text(got));
    sym::Expr num = simplify(sub(e, envdict(env)));
    d = vdiff(rv, veval(read(num), {}));
    c.check(d.empty(), "value:evaluated", "conventional reading " + text(ref) + " at " + envtext(env) + d + "\nlibrary evaluates to " + text(read(num)));
    if (rv.k == NUM) c.check(read(num)->k == NUM, "value:not-a-number", "all variables replaced at " + envtext(env) + " but the result is " + text(read(num)));
  }
  c.count("assignments_compared", used);
  if (used && nodes(ref) >= (small ? 2 : 3)) c.nontrivial();
}

int main(int argc, char** argv) {
  Harness h("C01");
  // exhaustive-ish short operator chains with signs: where precedence lives
  static const std::vector<std::string> ops{"+", "-", "*", "/", "^"}, sg{"", "-", "+", "--"};
  h.add("chains", 16000, 200000, [](Case& c) {
    uint64_t i = uint64_t(c.idx);
    std::string s; int n;
    if (c.idx < 2 * 4 * 4 * 4 * 25 * 2) { n = 3; } else { n = 4; i = c.rng.next(); }
    static const char* at[] = {"2", "x", "y", "1.5"};
    static const char* fn[] = {"", "", "", "sin ", "exp"};
    for (int k = 0; k < n; ++k) {
      if (k) { s += ops[i % 5]; i /= 5; }
      s += sg[i % 4]; i /= 4;
      if (n == 4) { s += fn[i % 5]; i /= 5; }
      s += at[(k + i) % 4];
    }
    value_case(c, s, true);
  });
  h.add("grammar", 24000, 600000, [](Case& c) {
    TextGen g(c.rng); g.eq = c.rng.chance(1, 6);
    value_case(c, g.make(1 + (int)c.rng.below(3)), false);
  });
  h.add("spacing-and-brackets", 6000, 150000, [](Case& c) {
    TextGen g(c.rng); g.eq = c.rng.chance(1, 6);
    std::string s = g.make(2);
    Rng q(c.idx);
    std::string s2 = g.join(q, 0), s3 = g.join(q, 9), s4 = "((" + s + "))";
    c.desc(s + " | " + s3);
    P a = read(rawparse(s2));
    c.check(same(a, read(rawparse(s))), "spacing", s2 + " parses as " + text(a));
    c.check(same(a, read(rawparse(s3))), "spacing", s3 + " parses as " + text(read(rawparse(s3))) + " but without spaces as " + text(a));
    c.check(same(a, read(rawparse(s4))), "brackets", s4 + " parses as " + text(read(rawparse(s4))) + " but without the brackets as " + text(a));
    // bracket every operand that already is an atom
    std::string s5; bool prevfn = false;
    for (auto& t : g.t) { bool at = TextGen::alnum(t) && t != "sin" && t != "cos" && t != "exp" && t != "ln"; s5 += at ? "(" + t + ")" : (TextGen::alpha(t) ? " " + t + " " : t); (void)prevfn; }
    c.check(same(a, read(rawparse(s5))), "brackets", s5 + " parses as " + text(read(rawparse(s5))) + " but " + s2 + " as " + text(a));
    c.nontrivial();
  });
  h.add("numbers", 4000, 60000, [](Case& c) {
    // every decimal literal denotes the nearest double
    std::string s;
    int nd = 1 + (int)c.rng.below(c.rng.chance(1, 4) ? 300 : 24);
    if (c.rng.chance(1, 8)) s += std::string(c.rng.below(30), '0');
    for (int i = 0; i < nd; ++i) s += char('0' + c.rng.below(10));
    if (c.rng.chance(2, 3)) { s += "."; int m = (int)c.rng.below(19); for (int i = 0; i < m; ++i) s += char('0' + c.rng.below(10)); }
    if (c.rng.chance(1, 2)) { s += c.rng.chance(1, 2) ? "e" : "E"; s += c.rng.pick(std::vector<std::string>{"", "+", "-"}); s += str(c.rng.range(0, c.rng.chance(1, 4) ? 340 : 280)); }
    double want = strtod(s.c_str(), nullptr);
    if (!std::isfinite(want)) return;
    c.desc(s);
    sym::Expr e(s);
    P p = read(e);
    c.check(p->k == NUM && p->num == want, "literal", "literal " + s + " read as " + text(p) + " instead of " + numtext(want));
    sym::Expr m("-" + s); p = read(m);
    c.check(p->k == NUM && p->num == -want, "literal", "literal -" + s + " read as " + text(p));
    // inside a larger text, and from a character array
    std::string l = c.rng.chance(1, 2) ? "[ " + s + ",x]" : "{k:" + s + " }"; sym::Expr w(l.c_str()); p = read(w);
    c.check((p->k == ARR || p->k == DICT) && p->ch[0]->k == NUM && p->ch[0]->num == want, "literal", "literal in " + l + " read as " + text(p));
    if (want) { p = read(sym::Expr("z^" + s)); c.check(p->k == VAR ? want == 1 : p->k == POW && p->ch[1]->k == NUM && p->ch[1]->num == want, "literal", "exponent " + s + " read as " + text(p)); }
    c.nontrivial();
  });
  return h.main(argc, argv);
}
