#include "lib.hpp"
#include "model.hpp"
#include "textgen.hpp"
using namespace vf;

static std::string show(const std::string& s) {
  std::string o; for (unsigned char ch : s) { if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += ch; } return "<<" + o + ">>";
}
// nesting as the parser sees it: brackets, signs, functions and right-associative operators
static int nesting(const std::string& s) {
  int n = 0; for (char ch : s) if (strchr("([{+-^=s c e l", ch) && ch) ++n; return n;
}
static void outcome(Case& c, const std::string& s) {
  c.desc(show(s));
  bool ref = true, access = false; std::string why; P tree;
  try { RefParser p(s); tree = p.parse(); access = p.sawAccess; } catch (std::string& e) { ref = false; why = e; }
  bool raw = true; sym::Expr re;
  std::string what;
  try { re = rawparse(s); } catch (stator::Exception& e) { raw = false; what = e.what(); } catch (std::exception& e) { if (std::string(e.what()).rfind("trailing symbols", 0) != 0) c.fail("foreign-exception", std::string("not the library's exception: ") + typeid(e).name() + " " + e.what()); raw = false; what = e.what(); }
  // element access and mismatched arrays may be refused while the tree is assembled
  bool arrays = ref && contains(tree, ARR);
  if (!ref && raw) c.fail("accepted-malformed", "the text is ill-formed (" + why + ") but was read as " + text(read(re)));
  if (ref && !raw && !access && !arrays) c.fail("rejected-wellformed", "the well-formed text was rejected: " + what);
  bool full = true; sym::Expr e;
  try { e = sym::Expr(s); } catch (stator::Exception& x) { full = false; what = x.what(); c.check(!what.empty(), "empty-message", "exception without a message"); }
  catch (std::exception& x) { c.fail("foreign-exception", std::string("not the library's exception: ") + typeid(x).name() + " " + x.what()); }
  if (full && !ref) c.fail("accepted-malformed", "the text is ill-formed (" + why + ") but was constructed as " + text(read(e)));
  if (!full && ref && !access && !arrays) c.fail("rejected-wellformed", "the well-formed text was rejected by the constructor: " + what);
  c.count(full ? "accepted" : "refused");
  if (ref) c.count("wellformed");
  if (!full) { if (s.size() > 1) c.nontrivial(); return; }
  // usable afterwards
  for (const sym::Expr& x : {re, e}) {
    std::string p = sym::repr(x), l = sym::repr<stator::ReprConfig<stator::Latex_output>>(x);
    std::ostringstream os; os << x;
    c.check(os.str() == p && !p.empty(), "printing", "streamed " + os.str() + " but repr is " + p);
    size_t h1 = std::hash<sym::Expr>()(x), h2 = std::hash<sym::Expr>()(x);
    c.check(h1 == h2, "hash", "hash changes");
    bool nan = false; std::function<void(const P&)> f = [&](const P& n) { if (n->k == NUM && std::isnan(n->num)) nan = true; for (auto& y : n->ch) f(y); }; f(read(x));
    if (!nan) c.check(x == x, "compare", "not equal to itself");
    try { sym::Expr y = simplify(x); sym::repr(y); } catch (stator::Exception&) { if (!access && !arrays) c.fail("simplify-refuses", "accepted text cannot be simplified"); }
  }
  c.nontrivial();
}
static const char* TOK[] = {"+", "-", "*", "/", "^", "=", "(", ")", "[", "]", "{", "}", ",", ":", "\xc2\xb1", "x", "y", "ab", "sin", "cos", "exp", "ln", "1", "2.5", "0", "1e3", "1E-2", "3.", ".5", "1e", "e", "s", " ", "  ", "1.2.3", "1e5e5", "inf", "nan", "pi", "|", "%", "\xc2", "\xb1", "_", "#", "\t", "\n", "0x1p3", "1e400", "1e-400", "sinx", "sin(", "ln-", "00", "1e+", "{x:", "[1,"};
static std::string tokens(Rng& r, int n) { std::string s; for (int i = 0; i < n; ++i) { s += r.pick(TOK); if (r.chance(1, 12)) s += std::string(1, (char)r.below(256)); } return s; }
static std::string valid(Rng& r) {
  if (r.chance(1, 2)) { TextGen g(r); g.eq = r.chance(1, 6); return g.make(1 + (int)r.below(3)); }
  GenOpt o; o.units = true; o.unc = true;
  return sym::repr(build(gentree(r, 1 + (int)r.below(4), o)));
}
static std::string mutate(Rng& r, std::string s) {
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(9)) {
      case 0: if (!s.empty()) s.erase(std::min(p, s.size() - 1), 1); break;
      case 1: s.insert(p, 1, (char)r.below(256)); break;
      case 2: s.insert(p, r.pick(TOK)); break;
      case 3: if (p < s.size()) s[p] = "+-*/^=()[]{},:xe.0 1"[r.below(20)]; break;
      case 4: s = s.substr(0, p); break;
      case 5: if (!s.empty()) { size_t q = r.below(s.size()); std::swap(s[q], s[std::min(p, s.size() - 1)]); } break;
      case 6: { size_t q = r.below(s.size() + 1), l = r.below(6); s.insert(p, s.substr(q, l)); break; }
      case 7: if (p < s.size()) s[p] = (char)(s[p] ^ (1 << r.below(8))); break;
      case 8: s.insert(p, 1, '\0'); break;
    }
  }
  return s;
}
int main(int argc, char** argv) {
  Harness h("C02");
  h.add("short-exhaustive", 16000, 60000, [](Case& c) {
    // all strings of up to three symbols over the whole token alphabet (sampled in a fixed stride in quick mode)
    const uint64_t N = sizeof(TOK) / sizeof(*TOK);
    uint64_t i = c.h.tier == "thorough" ? (uint64_t)c.idx * 3 + c.rng.below(3) : (uint64_t)c.idx * 11 + c.rng.below(11);
    std::string s;
    if (c.idx < 60) s = TOK[i % N];
    else if (c.idx < 3200) { s = std::string(TOK[c.idx % N]) + TOK[(c.idx / N) % N]; }
    else { s = std::string(TOK[i % N]) + TOK[(i / N) % N] + TOK[(i / N / N) % N]; }
    outcome(c, s);
  });
  h.add("bytes", 6000, 200000, [](Case& c) {
    std::string s; int n = (int)c.rng.below(24);
    for (int i = 0; i < n; ++i) s += (char)c.rng.below(256);
    outcome(c, s);
  });
  h.add("token-soup", 12000, 400000, [](Case& c) { outcome(c, tokens(c.rng, 1 + (int)c.rng.below(14))); });
  h.add("mutated", 16000, 500000, [](Case& c) { outcome(c, mutate(c.rng, valid(c.rng))); });
  h.add("valid", 5000, 100000, [](Case& c) { outcome(c, valid(c.rng)); });
  h.add("truncated", 1500, 30000, [](Case& c) {
    // every prefix of a valid text
    std::string s = valid(c.rng); if (s.size() > 60) s.resize(60);
    for (size_t i = 0; i <= s.size(); ++i) outcome(c, s.substr(0, i));
  });
  h.add("long-and-deep", 160, 2500, [](Case& c) {
    std::string s; int n;
    switch (c.idx % 12) {
      case 0: n = 1 + (int)c.rng.below(120); s = std::string(n, '(') + "x" + std::string(n - (c.rng.chance(1, 3) ? 1 : 0), ')'); break;
      case 1: n = 1 + (int)c.rng.below(120); s = std::string(n, '-') + "x"; break;
      case 2: n = 1 + (int)c.rng.below(100); s = "x"; for (int i = 0; i < n; ++i) s += "^x"; break;
      case 3: n = 1 + (int)c.rng.below(250); s = "x"; for (int i = 0; i < n; ++i) { s += "+-*/"[c.rng.below(4)]; s += "y"; } break;
      case 4: n = 1 + (int)c.rng.below(80); for (int i = 0; i < n; ++i) s += "sin("; s += "x" + std::string(n, ')'); break;
      case 5: n = 1 + (int)c.rng.below(60); s = std::string(n, '[') + "1" + std::string(n, ']'); break;
      case 6: n = 1 + (int)c.rng.below(60); for (int i = 0; i < n; ++i) s += "{x:"; s += "1" + std::string(n, '}'); break;
      case 7: n = 1 + (int)c.rng.below(4000); s = std::string(n, '1' + c.rng.below(9)); break;
      case 8: n = 1 + (int)c.rng.below(4000); s = std::string(n, ' ') + "x" + std::string(n, ' '); break;
      case 9: n = 1 + (int)c.rng.below(4000); s = std::string(n, 'a' + c.rng.below(26)); break;
      case 10: n = 1 + (int)c.rng.below(300); s = "["; for (int i = 0; i < n; ++i) s += (i ? ",x" : "x"); s += "]"; break;
      default: n = 1 + (int)c.rng.below(300); s = "{"; for (int i = 0; i < n; ++i) { s += i ? "," : ""; int k = i; do { s += char('a' + k % 26); k /= 26; } while (k); s += ":1"; } s += "}"; break;
    }
    outcome(c, s);
  });
  return h.main(argc, argv);
}
