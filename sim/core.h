// Deterministic simulation core: seeded PRNG, histories (the schedule and fault plan of one run), run context, seams
// for allocation / clock / randomness, scenario registry.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline u64 hcomb(u64 h, u64 v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
inline u64 hstr(const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed ^ 0xD1B54A32D192ED03ull)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); } // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // weighted index
  size_t weighted(const std::vector<double>& w) {
    double t = 0;
    for (double x : w) t += x;
    double r = unit() * t;
    for (size_t i = 0; i < w.size(); i++) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return w.size() - 1;
  }
};

// One scheduled operation. `fault`/`fa` describe a fault injected into this operation (0 = none).
struct Op {
  int kind = 0;
  std::vector<u64> a;
  int fault = 0;
  u64 fa = 0;
};
inline u64 arg(const Op& o, size_t i) { return i < o.a.size() ? o.a[i] : 0; }
inline double argUnit(const Op& o, size_t i) { return (double)(mix64(arg(o, i)) >> 11) * (1.0 / 9007199254740992.0); }

// A run is a pure function of its History: this is what a replay file stores and what the minimiser edits.
struct History {
  std::string scenario;
  u64 seed = 0;                     // seed it was generated from (for reporting), also seeds in-run derived data
  std::map<std::string, i64> cfg;   // scenario configuration
  std::vector<Op> ops;
  i64 get(const std::string& k, i64 d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
};

struct Violation {
  std::string clause; // short stable id of the clause of the property that is broken
  std::string detail; // human readable
};

// Thrown by scenario code when a run cannot say anything (e.g. a generated input is outside the property's domain)
struct Discard {
  std::string why;
};

struct Ctx {
  u64 hash = 0x1234567;
  u64 steps = 0;       // simulated steps = operations executed + events delivered
  bool nontrivial = false;
  bool verbose = false;
  std::map<std::string, u64> faults; // fault kind -> number injected
  std::map<std::string, u64> counts; // other measured counters
  std::unordered_set<u64> states;    // abstract states reached
  std::vector<std::string> log;

  void ev(u64 v) { hash = hcomb(hash, v); }
  void ev(const std::string& s) { hash = hcomb(hash, hstr(s)); }
  void evd(double d) {
    u64 b;
    std::memcpy(&b, &d, 8);
    ev(b);
  }
  void state(u64 h) { states.insert(h); }
  void fault(const std::string& k, u64 n = 1) { faults[k] += n; }
  void count(const std::string& k, u64 n = 1) { counts[k] += n; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void violate(const char* clause, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, clause, ...)                                                                                       \
  do {                                                                                                                 \
    if (!(cond)) ::sim::violate(clause, __VA_ARGS__);                                                                  \
  } while (0)

struct Scenario {
  std::string name;
  std::string property;
  std::vector<std::string> opNames;
  double weight = 1;
  // faultMode: 0 fault-free, 1 with faults
  std::function<History(u64 seed, int tier, int faultMode)> generate;
  std::function<void(const History&, Ctx&)> execute;
  std::string realComponents, stubComponents, rule;
};
std::vector<Scenario>& scenarios();
struct Register {
  Register(Scenario s) { scenarios().push_back(std::move(s)); }
};

// ---- Seams -------------------------------------------------------------------------------------------------------

// Allocation seam (operator new / malloc as seen from the library's and the simulator's objects)
namespace seam {
void allocReset();
void allocArm(i64 failAfter, bool persistent = false); // the failAfter-th allocation from now on (0 = the next) fails
bool allocDisarm();                                     // returns true if a failure was actually delivered
u64 allocCount();                                       // number of allocations since reset
i64 allocLive();                                        // outstanding operator-new blocks
struct AllocQuiet { // no faults inside this scope (simulator's own bookkeeping)
  AllocQuiet();
  ~AllocQuiet();
};
// Clock seam: clock() as seen from the library
void clockReset(u64 seed, int mode); // mode 0: steady ticks, 1: jumps forward, 2: stalls, 3: goes backwards
u64 clockCalls();
} // namespace seam

void seedLibraryRandomness(u64 seed);

} // namespace sim
