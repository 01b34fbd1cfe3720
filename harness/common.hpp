// Shared run-time monitoring framework: every harness binary is a set of
// "groups"; each group is a generator + the real code + an oracle.  Cases are
// numbered, each one is derived from (seed, property, group, index) only, so a
// single case can be replayed.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vf {
  inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  inline uint64_t hashs(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }

  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below(uint64_t(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * 0x1p-53; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
  };

  struct Stop {}; // thrown by fail() to leave a case

  struct Status { volatile int group; volatile long idx; volatile int phase; char desc[8192]; };

  struct Violation { std::string key, group, detail; long idx; };

  struct Harness;
  struct Case {
    Rng rng;
    Harness& h;
    std::string group;
    long idx;
    bool verbose;
    bool nontriv = false;
    std::string d;
    int evals = 1;
    Case(uint64_t s, Harness& h_, std::string g, long i, bool v) : rng(s), h(h_), group(g), idx(i), verbose(v) {}
    void desc(const std::string& s);           // call before running the code under test
    [[noreturn]] void fail(const std::string& key, const std::string& detail);
    void check(bool ok, const std::string& key, const std::string& detail) { if (!ok) fail(key, detail); }
    void count(const std::string& what, long n = 1);
    void nontrivial() { nontriv = true; }
  };

  typedef std::function<void(Case&)> GroupFn;
  struct Group { std::string name; GroupFn fn; long quick, thorough; };

  struct Harness {
    std::string prop;
    std::vector<Group> groups;
    uint64_t seed = 1;
    int shard = 0, nshards = 1;
    std::string tier = "quick", out, status_file, only_group;
    long replay = -1;
    double scale = 1;
    Status* st = nullptr;
    std::vector<Violation> viol;
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long evaluations = 0;
    std::map<std::string, int> per_key;
    static Harness*& self() { static Harness* p = nullptr; return p; }

    explicit Harness(std::string p) : prop(p) { self() = this; }
    void add(std::string name, long quick, long thorough, GroupFn fn) { groups.push_back(Group{name, fn, quick, thorough}); }

    static void on_prof(int) {
      const char m[] = "\nVF-HANG: case used more CPU time than allowed\n";
      (void)!write(2, m, sizeof(m) - 1);
      _exit(97);
    }

    static std::string esc(const std::string& s) {
      std::string o;
      for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
      }
      return o;
    }

    void write_out() {
      if (out.empty()) return;
      std::ofstream f(out);
      f << "{\"evaluations\":" << evaluations << ",\"violations\":[";
      bool first = true;
      for (auto& v : viol) { f << (first ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"group\":\"" << esc(v.group) << "\",\"idx\":" << v.idx << ",\"detail\":\"" << esc(v.detail) << "\"}"; first = false; }
      f << "],\"counters\":{";
      first = true;
      for (auto& c : counters) { f << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
      f << "},\"samples\":[";
      first = true;
      for (auto& s : samples) { f << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
      f << "],\"distinct\":[";
      first = true;
      for (auto& s : distinct) { f << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; first = false; }
      f << "]}\n";
    }

    int cpu_limit = 60;
    void arm() {
      struct itimerval t; memset(&t, 0, sizeof t);
      t.it_value.tv_sec = cpu_limit;
      setitimer(ITIMER_PROF, &t, nullptr);
    }

    void run_case(const Group& g, int gi, long idx, bool verbose) {
      uint64_t s = mix(seed * 1000003 + hashs(prop + "/" + g.name)) ^ mix(uint64_t(idx) + 77);
      Case c(s, *this, g.name, idx, verbose);
      st->group = gi; st->idx = idx; st->desc[0] = 0;
      if ((idx & 15) == 0 || verbose) arm();
      try { g.fn(c); }
      catch (Stop&) {}
      catch (std::exception& e) {
        try { c.fail("unexpected-exception:" + g.name, std::string("uncaught exception: ") + e.what()); } catch (Stop&) {}
      }
      evaluations += c.evals;
      if (c.nontriv) {
        uint64_t hh = hashs(g.name + "|" + c.d);
        if (distinct.size() < 400000) distinct.insert(hh);
        else counters["distinct_not_recorded"]++;
        if (!c.d.empty() && counters["sampled:" + g.name] < 1 && shard == 0) { counters["sampled:" + g.name]++; samples.push_back(g.name + ": " + c.d.substr(0, 300)); }
      }
      counters["cases:" + g.name]++;
      if (verbose) std::cout << "case " << g.name << "#" << idx << " done: " << c.d << "\n";
    }

    int main(int argc, char** argv) {
      for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--shard") shard = atoi(nxt().c_str());
        else if (a == "--nshards") nshards = atoi(nxt().c_str());
        else if (a == "--tier") tier = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--status") status_file = nxt();
        else if (a == "--scale") scale = atof(nxt().c_str());
        else if (a == "--group") only_group = nxt();
        else if (a == "--replay") replay = atol(nxt().c_str());
        else if (a == "--list") { for (auto& g : groups) std::cout << g.name << "\n"; return 0; }
        else if (a == "--cpu") cpu_limit = atoi(nxt().c_str());
      }
      if (!status_file.empty()) {
        int fd = open(status_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) { perror("status"); return 98; }
        st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
      } else { static Status local; st = &local; }
      memset((void*)st, 0, sizeof(Status));
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, nullptr);
      struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      for (size_t gi = 0; gi < groups.size(); ++gi) {
        auto& g = groups[gi];
        if (!only_group.empty() && g.name != only_group) continue;
        if (replay >= 0) { run_case(g, gi, replay, true); continue; }
        long n = std::max(1L, (long)(scale * (tier == "thorough" ? g.thorough : g.quick)));
        for (long i = shard; i < n; i += nshards) {
          run_case(g, gi, i, false);
          if (viol.size() > 400) break;
        }
      }
      st->phase = 1;
      write_out();
      for (auto& v : viol) if (replay >= 0) std::cout << "VIOLATED key=" << v.key << " " << v.group << "#" << v.idx << "\n" << v.detail << "\n";
      return viol.empty() ? 0 : 3;
    }
  };

  inline void Case::desc(const std::string& s) {
    d = s;
    size_t n = std::min(s.size(), sizeof(h.st->desc) - 1);
    memcpy(h.st->desc, s.data(), n); h.st->desc[n] = 0;
    if (verbose) std::cout << "case " << group << "#" << idx << ": " << s << std::endl;
  }
  inline void Case::fail(const std::string& key, const std::string& detail) {
    if (++h.per_key[key] <= 5) h.viol.push_back(Violation{key, group, "input: " + d + "\n" + detail, idx});
    throw Stop();
  }
  inline void Case::count(const std::string& what, long n) { h.counters[what] += n; }

  template <class T> std::string str(const T& v) { std::ostringstream o; o << std::setprecision(21) << v; return o.str(); }
}
