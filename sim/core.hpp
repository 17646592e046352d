// Deterministic simulation core: PRNG, plans, event log, simulated heap with
// fault injection, simulated disk.  Nothing in here knows about exact-real.
#ifndef VERIF_SIM_CORE_HPP
#define VERIF_SIM_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
// splitmix64/xoshiro-free: one 64 bit state, every draw is a pure function.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // uniform in [a, b]
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
  bool chance(unsigned percent) { return below(100) < percent; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashString(const std::string&);

// --------------------------------------------------------------------- plans
// A plan is everything one run depends on.  Executing a plan draws no
// randomness and reads no clock; the plan file is the replay file.
struct Op {
  std::string name;
  std::vector<int64_t> a;      // arguments
  int64_t allocFault = 0;      // fail the n-th C++ allocation made by this op (0: none)
  int thread = 0;              // thread simulations: the thread that executes it
  std::string text() const;
};
struct Plan {
  std::string property;
  std::string seed;            // how the plan was made (informative only)
  std::map<std::string, int64_t> cfg;
  std::vector<Op> ops;
  std::vector<int64_t> sched;  // thread simulations: pairs (fiber, accesses)
  std::string text() const;
  static Plan parse(const std::string&);
  int64_t get(const std::string& k, int64_t d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
};

// ----------------------------------------------------------------- event log
struct Log {
  uint64_t hash = 1469598103934665603ull;
  uint64_t events = 0;
  bool verbose = false;
  void event(const std::string&);
};
extern Log log;

// Named counters (probes and fault kinds that actually fired).
void count(const char* name, uint64_t n = 1);
extern std::map<std::string, uint64_t>* counters;

// ------------------------------------------------------------------ verdicts
// Report a violation of `property` found by oracle `oracle`; does not return.
// Oracles of other properties than the one being decided are ignored by the
// driver unless they are the only explanation (crashes).
struct Violation {
  std::string property, oracle, detail;
};
[[noreturn]] void violate(const std::string& property, const std::string& oracle, const std::string& detail);
// The property the running check decides (violations of others are counted, not raised).
extern std::string deciding;
// Returns (after counting) when a different property is being decided.
void report(const char* property, const std::string& oracle, const std::string& detail);
struct Stop {};  // thrown by report()

// ------------------------------------------------------------ simulated heap
namespace heap {
enum Policy { LIFO = 0, NEVER = 1, FIFO = 2, RANDOM = 3, DESCENDING = 4 };
void configure(int policy, uint64_t seed);
// Find out which code is exempt from allocation faults; call once.
void locate();
// Fail the n-th following C++ allocation (1 = the next one).
void armFault(int64_t n);
// Disarm; returns whether the fault fired.
bool disarmFault();
// While > 0, allocations are made by the simulator itself: neither counted nor failed.
#ifdef VERIF_THREADS
extern __thread int quiet;
#else
extern int quiet;
#endif
struct Quiet {
  Quiet() { quiet++; }
  ~Quiet() { quiet--; }
};
struct Stats {
  uint64_t ticks;      // allocations made by the code under test so far: the simulated clock (of this thread)
  uint64_t allTicks;   // of all threads
  uint64_t liveBlocks, liveBytes;
  uint64_t reused;     // allocations that got the address of a block freed before
};
Stats stats();
// Abort the run with a violation once the clock passes this tick.
void deadline(uint64_t tick);
void deadlineOff();
#ifdef VERIF_THREADS
// The range of addresses the code under test allocates from.
extern const uintptr_t loudLo, loudHi;
#endif
}  // namespace heap

}  // namespace sim
#endif
