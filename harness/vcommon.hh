// Shared helpers for the harnesses: RNG, statistics, violation reporting.
#ifndef VCOMMON_HH
#define VCOMMON_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vc {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { s = next() ^ (seed << 32); s = next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <class T> T const &pick(std::vector<T> const &v) { return v[below((int)v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hashStr(std::string const &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// Arguments: --key value pairs.
struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
      std::string k = argv[i];
      if (k.rfind("--", 0) == 0) {
        if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) m[k.substr(2)] = argv[++i];
        else m[k.substr(2)] = "1";
      }
    }
  }
  bool has(std::string const &k) const { return m.count(k) > 0; }
  std::string str(std::string const &k, std::string const &d = "") const {
    auto it = m.find(k);
    return it == m.end() ? d : it->second;
  }
  long num(std::string const &k, long d) const {
    auto it = m.find(k);
    return it == m.end() ? d : strtol(it->second.c_str(), nullptr, 0);
  }
};

// One line per record on stdout, consumed by /verif/lib/vrun.py:
//   CASE <id>                  about to run this case
//   VIOL <kind> <id> <text>    the monitor saw a violation
//   STAT <name> <integer>      counter
//   SIG <hex>                  behaviour signature seen (distinct-case counting)
//   SAMPLE <text>              an actual case written out
struct Report {
  std::map<std::string, long> stats;
  std::set<uint64_t> sigs;
  int samples = 0;
  long violations = 0;
  std::string cur;
  bool quiet = false;
  void begin(std::string const &id) {
    cur = id;
    printf("CASE %s\n", id.c_str());
    fflush(stdout);
  }
  void viol(std::string const &kind, std::string msg) {
    for (char &c : msg) if (c == '\n') c = ' ';
    ++violations;
    printf("VIOL %s %s %s\n", kind.c_str(), cur.c_str(), msg.c_str());
    fflush(stdout);
  }
  void add(std::string const &k, long n = 1) { stats[k] += n; }
  void max(std::string const &k, long n) { if (stats[k] < n) stats[k] = n; }
  void sig(uint64_t h) { sigs.insert(h); }
  void sample(std::string t, int limit = 2) {
    if (samples >= limit) return;
    ++samples;
    for (char &c : t) if (c == '\n') c = ' ';
    printf("SAMPLE %s\n", t.c_str());
  }
  void finish(bool done = true) {
    for (auto &p : stats) printf("STAT %s %ld\n", p.first.c_str(), p.second);
    for (uint64_t h : sigs) printf("SIG %016llx\n", (unsigned long long)h);
    if (done) printf("DONE\n");
    fflush(stdout);
  }
};

} // namespace vc
#endif
