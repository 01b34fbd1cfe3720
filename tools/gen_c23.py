#!/usr/bin/env python3
"""Programs of random compile-time list and configuration operations with the
results a sequence would give, compared at run time."""
import sys, os, random
bdir, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
nf, nc = (4, 60) if tier == 'quick' else (16, 150)
TYPES = {'int': (-9, 9), 'size_t': (0, 12), 'char': (97, 122), 'long long': (-10**12, 10**12), 'bool': (0, 1), 'unsigned char': (0, 255), 'short': (-300, 300)}
def lit(t, v):
    if t == 'bool': return 'true' if v else 'false'
    return '(%s)(%dLL)' % (t, v) if v >= 0 else '(%s)(-%dLL)' % (t, -v)
def lst(t, l): return 'stator::orphan::static_list<%s>' % ', '.join([t] + [lit(t, v) for v in l])
for f in range(nf):
    r = random.Random('c23 %d %d' % (seed, f))
    out = ['#include "common.hpp"', '#include <stator/orphan/static_list.hpp>', '#include <stator/orphan/template_config.hpp>', 'using namespace vf; using namespace stator::orphan;',
      'template <class L> struct V; template <class T, T... I> struct V<static_list<T, I...>> { static std::vector<long long> get() { return {(long long)I...}; } static size_t n() { return sizeof...(I); } };',
      'template <class L> std::vector<long long> looked() { return looked_<L>(std::make_index_sequence<static_list_size<L>::value>()); }' if 0 else
      'template <class L, size_t... K> std::vector<long long> looked_(std::index_sequence<K...>) { return {(long long)get_static_list_item<L, K>::value...}; }\ntemplate <class L> std::vector<long long> looked() { return looked_<L>(std::make_index_sequence<static_list_size<L>::value>()); }',
      'struct Visit { std::vector<long long>* v; template <class T> void operator()(T x) { v->push_back((long long)x); } template <class T> void operator()(T x, int a, long& b) { v->push_back((long long)x); b += a; } };',
      'static std::string show(const std::vector<long long>& v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }',
      'template <class L> void same(Case& c, const std::vector<long long>& e, const char* what) { c.desc(what);',
      ' auto g = V<L>::get(); c.check(g == e, "list", std::string(what) + ": is " + show(g) + " expected " + show(e));',
      ' c.check(static_list_size<L>::value == e.size(), "list-size", what); auto k = looked<L>(); c.check(k == e, "list-lookup", std::string(what) + ": looked up " + show(k) + " expected " + show(e));',
      ' std::vector<long long> s; static_foreach<L>()(Visit{&s}); c.check(s == e, "list-visit", std::string(what) + ": visited " + show(s) + " expected " + show(e));',
      ' std::vector<long long> s2; long n = 0; static_foreach<L>()(Visit{&s2}, 2, n); c.check(s2 == e && n == 2 * (long)e.size(), "list-visit", std::string(what) + ": visited with arguments " + show(s2) + " total " + std::to_string(n));',
      ' c.count("lists_compared"); c.nontrivial(); }']
    # configuration packs
    out += ['template <int I> struct IdN; template <int I> struct Flag : basic_conf_t<IdN<I>> {};', 'template <int I, class T, T v> struct Val : value_conf_t<IdN<100 + I>, T, v> {};', 'template <int I, class T> struct Typ : type_conf_t<IdN<200 + I>, T> {};',
      'template <class T> struct BoxA { static const int id = 1; }; template <class T> struct BoxB { static const int id = 2; }; template <class T> struct BoxC { static const int id = 3; };',
      'template <int I, template <class> class T> struct Tpl : template_type_conf_t<IdN<300 + I>, T> {};']
    calls = []
    for i in range(nc):
        t = r.choice(list(TYPES)); lo, hi = TYPES[t]
        rl = lambda: [r.randint(lo, hi) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 7, 9]))]
        cur = rl(); expr = r.choice([lst(t, cur), 'typename make_static_list<%s>::type' % ', '.join([t] + [lit(t, v) for v in cur])])
        body = []; what = '%s %s' % (t, cur)
        body.append('typedef %s L0;' % expr.replace('typename ', '')); body.append('same<L0>(c, {%s}, "%s");' % (', '.join('%dLL' % v for v in cur), what))
        for k in range(1, r.randint(2, 7)):
            op = r.choice(['rev', 'app', 'pre', 'merge', 'merger', 'rep', 'split1', 'split2', 'splitboth'])
            L = 'L%d' % (k - 1)
            if op == 'rev': cur = cur[::-1]; e = 'reverse_static_list<%s>::type' % L; what += ' reversed'
            elif op == 'app': v = r.randint(lo, hi); cur = cur + [v]; e = 'append_static_list_item<%s, %s, %s>::type' % (t, L, lit(t, v)); what += ' append %d' % v
            elif op == 'pre': v = r.randint(lo, hi); cur = [v] + cur; e = 'prepend_static_list_item<%s, %s, %s>::type' % (t, L, lit(t, v)); what += ' prepend %d' % v
            elif op == 'merge': o = rl(); cur = cur + o; e = 'merge_static_lists<%s, %s>::type' % (L, lst(t, o)); what += ' merged with %s' % o
            elif op == 'merger': o = rl(); cur = o + cur; e = 'merge_static_lists<%s, %s>::type' % (lst(t, o), L); what += ' merged after %s' % o
            elif op == 'rep':
                v = r.randint(lo, hi)
                if cur: j = r.randrange(len(cur)); cur = cur[:j] + [v] + cur[j+1:]
                else: j = 0
                e = 'replace_static_list_item<%s, %s, %d, %s>::type' % (t, L, j, lit(t, v)); what += ' replace %d by %d' % (j, v)
            else:
                j = r.choice([0, len(cur), len(cur) + 2, r.randint(0, len(cur)), r.randint(0, len(cur))])
                if op == 'split1': e = 'split_static_list<%s, %d>::first' % (L, j); cur = cur[:j]; what += ' first of split %d' % j
                elif op == 'split2': e = 'split_static_list<%s, %d>::second' % (L, j); cur = cur[j:]; what += ' second of split %d' % j
                else: e = 'merge_static_lists<split_static_list<%s, %d>::second, split_static_list<%s, %d>::first>::type' % (L, j, L, j); cur = cur[j:] + cur[:j]; what += ' rotated %d' % j
            body.append('typedef %s L%d;' % (e, k)); body.append('same<L%d>(c, {%s}, "%s");' % (k, ', '.join('%dLL' % v for v in cur), what))
        out.append('static void l%d(Case& c) { %s }' % (i, ' '.join(body)))
    for i in range(nc // 2):
        n = r.randint(0, 6); args = []; have = {}
        for _ in range(n):
            k = r.choice('fvtp'); ident = r.randint(0, 3)
            if k == 'f': a = 'Flag<%d>' % ident; have.setdefault(('f', ident), 1)
            elif k == 'v': v = r.randint(-50, 50); a = 'Val<%d, int, %d>' % (ident, v); have.setdefault(('v', ident), v)
            elif k == 't': tn = r.choice(['int', 'double', 'char', 'long']); a = 'Typ<%d, %s>' % (ident, tn); have.setdefault(('t', ident), tn)
            else: b = r.choice(['BoxA', 'BoxB', 'BoxC']); a = 'Tpl<%d, %s>' % (ident, b); have.setdefault(('p', ident), b)
            args.append(a)
        al = ''.join(', ' + a for a in args); body = ['c.desc("configuration %s");' % ' '.join(args)]
        for q in range(4):
            d = r.randint(-50, 50); e = have.get(('v', q), d)
            body.append('{ auto g = get_value<Val<%d, int, %d>%s>::value; c.check(g == %d, "config-value", "value %d of <%s> default %d: " + str(g)); }' % (q, d, al, e, q, ', '.join(args), d))
            tn = have.get(('t', q), 'float')
            body.append('c.check(std::is_same<typename get_type<Typ<%d, float>%s>::value, %s>::value, "config-type", "type %d of <%s>");' % (q, al, tn, q, ', '.join(args)))
            b = have.get(('p', q), 'BoxC')
            body.append('c.check(get_template_type<Tpl<%d, BoxC>%s>::template value<int>::id == %s<int>::id, "config-template", "template %d of <%s>");' % (q, al, b, q, ', '.join(args)))
            body.append('c.check(is_present<Flag<%d>%s>::value == %s, "config-present", "flag %d in <%s>");' % (q, al, 'true' if ('f', q) in have else 'false', q, ', '.join(args)))
        valid = sorted(set(r.choice([0, 1, 2, 3, 100, 101, 102, 103, 200, 201, 202, 203, 300, 301, 302, 303]) for _ in range(r.choice([0, 4, 12, 40]))))
        off = {'f': 0, 'v': 100, 't': 200, 'p': 300}
        ok = all(off[k] + q in valid for k, q in have)
        body.append('c.check(is_valid<tmp_list<%s>%s>::value == %s, "config-valid", "validity of <%s> among %s");' % (', '.join('IdN<%d>' % v for v in valid), al, 'true' if ok else 'false', ', '.join(args), valid))
        body.append('c.count("configurations_compared"); c.nontrivial();')
        out.append('static void k%d(Case& c) { %s }' % (i, ' '.join(body)))
    out.append('typedef void (*F)(Case&); static F ls[] = {%s}; static F ks[] = {%s};' % (', '.join('l%d' % i for i in range(nc)), ', '.join('k%d' % i for i in range(nc // 2))))
    out.append('int main(int ac, char** av) { Harness h("C23"); h.add("lists-%d", %d, %d, [](Case& c) { ls[c.idx](c); }); h.add("configurations-%d", %d, %d, [](Case& c) { ks[c.idx](c); }); return h.main(ac, av); }' % (f, nc, nc, f, nc // 2, nc // 2))
    p = os.path.join(bdir, 'c23_lists_%d.cpp' % f)
    open(p, 'w').write('\n'.join(out)); print(p)
