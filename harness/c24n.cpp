// C24: numbers and text helpers
#include "common.hpp"
#include <stator/repr.hpp>
#include <stator/string.hpp>
using namespace vf;
typedef stator::ReprConfig<stator::Latex_output> LX;
template <class F> F rd(const std::string& s, size_t* n = nullptr) { char* e; F v; if (std::is_same<F, float>::value) v = (F)strtof(s.c_str(), &e); else if (std::is_same<F, double>::value) v = (F)strtod(s.c_str(), &e); else v = (F)strtold(s.c_str(), &e); if (n) *n = e - s.c_str(); return v; }
template <class F> F any(Rng& r) {
  F v = 0; typedef std::numeric_limits<F> L;
  switch (r.below(9)) {
    case 0: { static const long double sp[] = {0, 1, 0.1L, 0.5L, 1.0L / 3, 2, 10, 100, 1e5L, 1e-5L, 123456, 1e15L, 1e16L, 1e17L, 1e-4L, 0.00012345L, 1e21L, 1e22L, 1e23L}; v = (F)r.pick(sp); break; }
    case 1: { static const F sp[] = {L::max(), L::min(), L::denorm_min(), L::epsilon(), 1 + L::epsilon(), 1 - L::epsilon() / 2, L::min() * 3, L::max() / 3, L::min() / 4}; v = r.pick(sp); break; }
    case 2: v = (F)r.range(0, 1000000); break;
    case 3: v = (F)r.range(0, 100000) / (F)1000; break;
    case 4: v = (F)(int64_t)(r.next() >> 1); break;
    case 5: v = std::ldexp((F)r.unit(), (int)r.range(L::min_exponent - L::digits, L::max_exponent)); break;
    case 6: v = std::ldexp((F)(r.next() >> (64 - std::min(63, L::digits))), (int)r.range(L::min_exponent - L::digits, L::max_exponent - L::digits)); break;
    case 7: v = std::pow((F)10, (F)r.range(-30, 30)); if (r.chance(1, 2)) v = std::nextafter(v, r.chance(1, 2) ? (F)0 : L::max()); break;
    default: v = (F)r.real(0, 10); if (sizeof(F) > 8) v += (F)(r.unit() * 1e-18L); }
  if (r.chance(1, 2)) v = -v; return std::isfinite(v) ? v : (F)1;
}
static std::string unlatex(std::string s) { size_t p = s.find("\\times10^{"); if (p == std::string::npos) return s; if (s.back() != '}') return "not closed"; return s.substr(0, p) + "e" + s.substr(p + 10, s.size() - p - 11); }
template <class F, int R> void rounded(Case& c, F v) {
  typedef stator::ReprConfig<stator::Rounding_digits<R>> C; typedef stator::ReprConfig<stator::Latex_output, stator::Rounding_digits<R>> CL; int dg = std::numeric_limits<F>::max_digits10 - R;
  std::string s = stator::repr<C>(v), e; char b[128]; snprintf(b, sizeof b, "%.*Lg", dg, (long double)v); e = b;
  c.check(s == e, "rounded", "printed " + s + " expected " + e); size_t n; rd<F>(s, &n); c.check(n == s.size(), "rounded", s); std::string l = stator::repr<CL>(v); c.check(unlatex(l) != "not closed" && rd<long double>(unlatex(l), &n) == rd<long double>(s) && n == unlatex(l).size(), "rounded-latex", l + " for " + s); c.count("rounded_forms");
}
template <class F> void number(Case& c) {
  F v = any<F>(c.rng); { char b[80]; snprintf(b, sizeof b, "%La", (long double)v); c.desc(b); }
  std::string s = stator::repr(v); size_t n; F w = rd<F>(s, &n);
  c.check(n == s.size() && w == v && std::signbit(w) == std::signbit(v), "number", "printed as " + s + " which reads as " + str((long double)w) + " instead of " + str((long double)v));
  std::string l = stator::repr<LX>(v), u = unlatex(l); w = rd<F>(u, &n); c.check(n == u.size() && w == v && std::signbit(w) == std::signbit(v), "number-latex", "printed as " + l);
  int digits = 0; bool lead = true; for (char ch : s) { if (ch == 'e') break; if (isdigit((unsigned char)ch)) { if (ch != '0') lead = false; if (!lead) ++digits; } } c.check(digits <= std::numeric_limits<F>::max_digits10 || s.find('e') == std::string::npos, "digits", s);
  rounded<F, 1>(c, v); rounded<F, 2>(c, v); rounded<F, 4>(c, v); rounded<F, 6>(c, v); if (std::numeric_limits<F>::max_digits10 > 12) rounded<F, 12>(c, v); c.nontrivial(); c.count("numbers");
}
template <class I> void integer(Case& c) {
  Rng& r = c.rng; typedef std::numeric_limits<I> L; I v = r.chance(1, 8) ? L::max() : r.chance(1, 8) ? L::min() : r.chance(1, 3) ? (I)r.range(0, 20) : (I)r.next(); std::ostringstream o; o << (L::is_signed ? "" : "") << +v; c.desc(o.str());
  c.check(stator::repr(v) == o.str() && stator::repr<LX>(v) == o.str(), "integer", stator::repr(v) + " for " + o.str()); c.nontrivial();
}
static std::string rtext(Rng& r, size_t n, const char* al) { std::string s; size_t k = strlen(al); for (size_t i = 0; i < n; ++i) s += al[r.below(k)]; return s; }
template <size_t N> void consts(Case& c) {
  Rng& r = c.rng; static_assert(N > 0, ""); char a[N + 1] = {}, b[N + 1] = {}; for (size_t i = 0; i < N; ++i) a[i] = b[i] = "abx"[r.below(3)]; size_t k = r.below(N); if (r.chance(1, 2)) b[k] = "abx"[r.below(3)];
  stator::StringConst<N> x(a), y(b), z(x), d; c.desc(std::string(a) + " and " + b); c.check((x == y) == !strcmp(a, b), "constant-equality", std::string(a) + " and " + b); c.check(z == x && !memcmp(z.buf, a, N + 1) && x.size() == N && !memcmp(x.buf, a, N + 1), "constant-copy", a); for (char ch : d.buf) c.check(ch == 0, "constant-empty", ""); c.nontrivial();
}
int main(int ac, char** av) {
  Harness h("C24");
  h.add("double", 40000, 2000000, number<double>); h.add("float", 30000, 1000000, number<float>); h.add("long-double", 30000, 1000000, number<long double>);
  h.add("integers", 8000, 100000, [](Case& c) { switch (c.rng.below(9)) { case 0: integer<int>(c); break; case 1: integer<unsigned>(c); break; case 2: integer<long>(c); break; case 3: integer<unsigned long>(c); break; case 4: integer<long long>(c); break; case 5: integer<short>(c); break; case 6: integer<signed char>(c); break; case 7: integer<unsigned char>(c); break; default: integer<unsigned long long>(c); } });
  h.add("strip", 10000, 200000, [](Case& c) {
    Rng& r = c.rng; std::string w = r.chance(1, 2) ? " \t" : rtext(r, r.below(4), " \txyz,"), s = rtext(r, r.below(12), " \txyzab,"); if (r.chance(1, 8)) s = std::string(r.below(200), ' ') + s + std::string(r.below(200), '\t'); bool def = w == " \t" && r.chance(1, 2); c.desc("strip <" + s + "> of <" + w + ">");
    size_t a = 0, b = s.size(); while (a < b && w.find(s[a]) != std::string::npos) ++a; while (b > a && w.find(s[b - 1]) != std::string::npos) --b;
    std::string g = def ? stator::strip(s) : stator::strip(s, w); c.check(g == s.substr(a, b - a), "strip", "<" + g + "> expected <" + s.substr(a, b - a) + ">"); c.nontrivial(); });
  h.add("search-replace", 15000, 300000, [](Case& c) {
    Rng& r = c.rng; const char* al = r.chance(1, 2) ? "ab" : "abce+"; std::string in = rtext(r, r.below(r.chance(1, 10) ? 400 : 14), al), from = rtext(r, r.chance(1, 15) ? 0 : 1 + r.below(4), al), to = rtext(r, r.below(6), al); if (r.chance(1, 6)) to = from + to; if (r.chance(1, 8)) in += from; c.desc("<" + in + "> <" + from + "> by <" + to + ">");
    std::string o; size_t n = 0; for (size_t i = 0; i < in.size();) { if (!from.empty() && in.compare(i, from.size(), from) == 0) { o += to; i += from.size(); ++n; } else o += in[i++]; }
    auto g = stator::search_replace(in, from, to); c.check(g.first == o && g.second == n, "search-replace", "<" + g.first + "> with " + str(g.second) + " replacements, expected <" + o + "> with " + str(n)); if (n) c.nontrivial(); });
  h.add("format", 12000, 200000, [](Case& c) {
    Rng& r = c.rng; static char big[70000]; std::string t = rtext(r, r.chance(1, 10) ? r.below(60000) : r.below(40), "abc 012%"); int w = (int)r.range(-40, 300), p = (int)r.range(0, 60), i = (int)r.next(); double d = any<double>(r); std::string g, f; long l = (long)r.next(); auto ref = [&](const char* fmt, auto... a) { f = fmt; int n = snprintf(big, sizeof big, fmt, a...); g = stator::string_format(fmt, a...); c.desc("format " + f); std::string e(big, n); c.check(g == e, "format", f + " gives " + str(g.size()) + " characters: " + g.substr(0, 200) + " expected " + e.substr(0, 200)); };
    switch (r.below(9)) { case 0: ref("%s", t.c_str()); break; case 1: ref("%*d|%s", w, i, t.c_str()); break; case 2: ref("%.*f", p, d); break; case 3: ref("%s%s%%", t.c_str(), t.substr(0, 100).c_str()); break; case 4: ref("%c", 0); break; case 5: ref("%ld %g %x", l, d, (unsigned)i); break; case 6: ref(""); break; case 7: ref("%*s%e", w, t.substr(0, 50).c_str(), d); break; default: ref("plain"); } c.nontrivial(); });
  h.add("constant-strings", 4000, 40000, [](Case& c) { switch (c.rng.below(4)) { case 0: consts<1>(c); break; case 1: consts<2>(c); break; case 2: consts<5>(c); break; default: consts<17>(c); } });
  return h.main(ac, av);
}
