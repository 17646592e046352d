// The simulated user: slots holding objects of the library next to their
// models, and an interpreter for the operations of a plan.
#ifndef VERIF_SIM_WORLD_HPP
#define VERIF_SIM_WORLD_HPP
#include <e-antic/renfxx.h>

#include "exact-real/arb.hpp"
#include "exact-real/arf.hpp"
#include "exact-real/element.hpp"
#include "exact-real/forward.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/module.hpp"
#include "exact-real/number_field.hpp"
#include "exact-real/rational_field.hpp"
#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"

#include <memory>
#include <set>

#include "core.hpp"
#include "truth.hpp"

namespace sim {
using exactreal::Arb;
using exactreal::Arf;
using exactreal::Element;
using exactreal::IntegerRing;
using exactreal::Module;
using exactreal::NumberField;
using exactreal::RationalField;
using exactreal::RealNumber;
using exactreal::Seed;
using Real = std::shared_ptr<const RealNumber>;

// Everything the library does runs under Loud: its allocations are part of the
// simulated heap.  The simulator itself is quiet.
struct Loud {
  int saved;
  Loud() : saved(heap::quiet) { heap::quiet = 0; }
  ~Loud() { heap::quiet = saved; }
};

enum class Out { OK, NOMEM, LOGIC, IO, OTHER };

struct RSlot {
  Real p;
  std::string key;
};
struct FSlot {
  std::optional<Arf> v;
  truth::Dy m;
};
struct BSlot {
  std::optional<Arb> v;
  truth::Ball m;
};
template <typename Ring> struct MSlot {
  std::shared_ptr<const Module<Ring>> p;
  std::vector<std::string> keys;   // of the generators, in the order of the module
  std::string ring;                // identifies the ring
};
template <typename Ring> struct ESlot {
  std::optional<Element<Ring>> v;
  truth::Elem m;
  // snapshot of the representation
  std::shared_ptr<const Module<Ring>> mod;
  std::vector<std::string> keys;
  std::vector<truth::Coef> coeffs;
  std::optional<size_t> hash;
};
constexpr size_t NR = 16, NF = 8, NB = 8, NM = 6, NE = 10;
template <typename Ring> struct RingWorld {
  MSlot<Ring> M[NM];
  ESlot<Ring> E[NE];
};

// What survives a crash: the simulated disk and what the user remembers about it.
struct Durable {
  struct File {
    std::string bytes;         // what a reader finds
    std::string intended;      // what the writer meant to write
    int kind = 0;              // archive format
    bool acknowledged = false; // written without an error
    bool damaged = false, malformed = false;      // lost a part of what was written
    std::vector<std::string> manifest;   // one line per item
  };
  std::map<int, File> files;
  // key -> text of things which must be the same in every process
  std::map<std::string, std::string> memo;
};
std::string dump(const Durable&);
Durable undump(const std::string&);

struct World {
  const Plan& plan;
  int life;
  int thread = 0;
  Durable& durable;
  size_t opIndex = 0;
  const Op* op = nullptr;
  std::string detail;     // description of the current op for messages

  RSlot R[NR];
  FSlot F[NF];
  BSlot B[NB];
  RingWorld<IntegerRing> z;
  RingWorld<RationalField> q;
  RingWorld<NumberField> k;
  std::map<int, boost::intrusive_ptr<const eantic::renf_class>> fieldCache;
  std::set<unsigned> ownDefaultSeeds;
  std::set<unsigned>& defaultSeeds;   // (of all threads)
  bool chaos = false;         // allocation faults enabled: identity of objects may be unknown after failures
  uint64_t prevSig = 0;

  World(const Plan& plan, int life, Durable& d, World* first = nullptr) : plan(plan), life(life), durable(d), defaultSeeds(first ? first->ownDefaultSeeds : ownDefaultSeeds) {}

  template <typename Ring> RingWorld<Ring>& ring() {
    if constexpr (std::is_same_v<Ring, IntegerRing>) return z;
    else if constexpr (std::is_same_v<Ring, RationalField>) return q;
    else return k;
  }

  int64_t arg(size_t i, int64_t d = 0) const { return i < op->a.size() ? op->a[i] : d; }
  size_t slot(size_t i, size_t n) const { return static_cast<uint64_t>(arg(i)) % n; }
  RSlot& r(size_t i) { return R[slot(i, NR)]; }
  FSlot& f(size_t i) { return F[slot(i, NF)]; }
  BSlot& b(size_t i) { return B[slot(i, NB)]; }

  // Memorize a text under a key; report if it was a different one before.
  void remember(const char* tags, const std::string& key, const std::string& text, bool acrossProcesses = true);
  std::map<std::string, std::string> localMemo;

  // Run a piece of code of the library.  When an allocation failure is injected
  // and the operation fails with bad_alloc, check that nothing changed and run it again.
  Out call(const std::function<void()>& f);
  std::string what;           // message of the last exception
  bool faulted = false;       // the last call failed (at first) since an allocation failed
  bool absorbed = false;      // an allocation failed but the last call succeeded nevertheless
  // Everything but the exempt slots is as the models say.
  void audit(const char* tags, const void* exempt = nullptr, const void* exempt2 = nullptr);

  boost::intrusive_ptr<const eantic::renf_class> field(int which);

  void run();
};

// Report a violation of one of the properties in tags (separated by blanks).
void fail(World& w, const char* tags, const std::string& oracle, const std::string& detail);

// Check all relational operators of x against y: the order must be `expected`.
void judgeOrder(World& w, const char* tags, const std::string& text, int expected, Out o, const int (&r)[9], bool reverse);
template <typename X, typename Y> void compareAll(World& w, const char* tags, const std::string& text, int expected, const X& x, const Y& y, bool reverse = true) {
  int r[9] = {-1, -1, -1, -1, -1, -1, -1, -1, -1};
  Out o = w.call([&] {
    r[0] = x < y; r[1] = x <= y; r[2] = x == y; r[3] = x != y; r[4] = x > y; r[5] = x >= y;
    if (reverse) { r[6] = y < x; r[7] = y > x; r[8] = y == x; }
  });
  judgeOrder(w, tags, text, expected, o, r, reverse);
}
// 1: certainly inside, 0: certainly not, -1: cannot tell
int ballContains(const truth::Elem& e, const arb_t ball);

// Objects that several threads have constructed must be one object.
void crossCheck(const std::vector<World*>&);

// The model key of a real, derived from what the library stores about it.
std::string describe(const Real&);

using Handler = void (*)(World&);
std::map<std::string, Handler>& handlers();
struct Register {
  Register(const char* name, Handler h) { handlers()[name] = h; }
};
#define OP(id, name)                                   \
  static void op_##id(sim::World& w);                  \
  static sim::Register reg_##id(name, op_##id);        \
  static void op_##id(sim::World& w)

// Representations
template <typename Ring> truth::Coef coef(World&, const typename Ring::ElementClass&);
template <typename Ring> typename Ring::ElementClass uncoef(World&, const truth::Coef&, int fieldHint = 0);
template <typename Ring> std::string ringName(World& w, const Ring&);
int fieldOf(World& w, const NumberField&);   // index of the field, 0: rationals
// Take over an element into a slot and compare it with the expected value.
template <typename Ring> void setElement(World& w, const char* tags, ESlot<Ring>& s, Element<Ring>&& e, const truth::Elem& expected);
template <typename Ring> void refresh(World& w, const char* tags, ESlot<Ring>& s);
const char* blame(const char* tags, const Real& p, const std::string& expected);
void setReal(World& w, const char* tags, RSlot& s, Real p, const std::string& expectedKey);
template <typename Ring> void setModule(World& w, const char* tags, MSlot<Ring>& s, std::shared_ptr<const Module<Ring>> p, const std::vector<std::string>& expectedKeys, const std::string& ring);
void setFloat(World& w, const char* tags, FSlot& s, const Arf& v, const truth::Dy& expected);
void setBall(World& w, BSlot& s, const Arb& v);

// Simulated streams
struct Disk {
  int mode = 0;        // 0: none, 1: short transfers, 2: fails at byte k, 3: throws at byte k
  int64_t at = 0;
};
struct Sink : std::streambuf {
  std::string data;
  Disk fault;
  bool fired = false;
  explicit Sink(Disk d) : fault(d) {}
  int_type overflow(int_type c) override;
  std::streamsize xsputn(const char* s, std::streamsize n) override;
  int sync() override { return 0; }
};
struct Source : std::streambuf {
  std::string data;
  Disk fault;
  bool fired = false;
  size_t pos = 0;
  char buf[1];
  Source(std::string d, Disk f) : data(std::move(d)), fault(f) {}
  int_type underflow() override;
  std::streamsize xsgetn(char* s, std::streamsize n) override;
};
struct DiskError : std::runtime_error {
  DiskError() : std::runtime_error("simulated EIO") {}
};

template <typename T> std::string to_s(const T& x) { return std::to_string(x); }

// Life cycle of a run, see main.cc
Plan generate(const std::string& property, uint64_t seed, bool thorough);
// Progress of the run, as seen by the parent process
void mark(uint64_t transition);
void progress(uint64_t index, const std::string& text);

// ------------------------------------------------- rational generators
// The rational generator of a module
inline std::string rationalOf(const std::vector<std::string>& keys) {
  for (auto& k : keys)
    if (truth::isRational(k)) return k;
  return "";
}
// Another rational than 1 is a generator.  (There are no products of such
// rationals and irrational numbers.)
inline bool odd(const std::vector<std::string>& keys) {
  auto k = rationalOf(keys);
  return !k.empty() && k != "1";
}
// There is no module which contains both since there is at most one rational generator.
inline bool apart(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  auto x = rationalOf(a), y = rationalOf(b);
  return !x.empty() && !y.empty() && x != y;
}
}  // namespace sim
#endif
