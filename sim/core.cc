#include "core.hpp"
#ifdef VERIF_THREADS
#include "thr.hpp"
#endif

#include <flint/flint.h>
#include <gmp.h>
#include <execinfo.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sstream>
#include <stdexcept>

namespace sim {

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull));
  r.next();
  return r.next() ^ b;
}
uint64_t hashString(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// --------------------------------------------------------------------- plans
std::string Op::text() const {
  std::string s = "op ";
  if (thread) s += "@" + std::to_string(thread) + " ";
  s += name;
  for (auto x : a) s += " " + std::to_string(x);
  if (allocFault) s += " !alloc=" + std::to_string(allocFault);
  return s;
}
std::string Plan::text() const {
  std::string s = "plan 1\nproperty " + property + "\nseed " + seed + "\n";
  for (auto& c : cfg) s += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
  for (auto& o : ops) s += o.text() + "\n";
  for (size_t i = 0; i + 1 < sched.size(); i += 2) s += "run " + std::to_string(sched[i]) + " " + std::to_string(sched[i + 1]) + "\n";
  return s;
}
Plan Plan::parse(const std::string& text) {
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "property") l >> p.property;
    else if (w == "seed") { std::getline(l, p.seed); if (!p.seed.empty()) p.seed.erase(0, 1); }
    else if (w == "cfg") { std::string k; int64_t v; l >> k >> v; p.cfg[k] = v; }
    else if (w == "run") { int64_t f, n; l >> f >> n; p.sched.push_back(f); p.sched.push_back(n); }
    else if (w == "op") {
      Op o;
      l >> o.name;
      if (o.name[0] == '@') {
        o.thread = std::stoi(o.name.substr(1));
        l >> o.name;
      }
      while (l >> w) {
        if (w.compare(0, 7, "!alloc=") == 0) o.allocFault = std::stoll(w.substr(7));
        else o.a.push_back(std::stoll(w));
      }
      p.ops.push_back(o);
    }
  }
  return p;
}

// ----------------------------------------------------------------- event log
Log log;
void Log::event(const std::string& s) {
  for (unsigned char c : s) hash = (hash ^ c) * 1099511628211ull;
  hash = (hash ^ '\n') * 1099511628211ull;
  events++;
  if (verbose) {
    heap::Quiet q;
    fprintf(stderr, "%6llu %s\n", (unsigned long long)events, s.c_str());
  }
}

std::map<std::string, uint64_t>* counters = nullptr;
void count(const char* name, uint64_t n) {
  heap::Quiet q;
  if (!counters) counters = new std::map<std::string, uint64_t>;
  (*counters)[name] += n;
}

std::string deciding;

// ------------------------------------------------------------ simulated heap
namespace heap {
#ifdef VERIF_THREADS
#define PER_THREAD __thread
#else
#define PER_THREAD
#endif
PER_THREAD int quiet = 0;
namespace {
constexpr uintptr_t BASE = 0x200000000000ull;
constexpr size_t SIZE = 6ull << 30;
constexpr uint32_t LIVE = 0xA11CA11C, DEAD = 0xDEADDEAD;
constexpr uint64_t CANARY = 0x5EC0DE5EC0DE5EC0ull;
struct Header {
  uint64_t size;   // requested size
  uint32_t state;
  uint32_t cls;    // size class (units of 16 bytes)
};
static_assert(sizeof(Header) == 16, "");
struct Free {
  Free* next;
};
constexpr size_t CLASSES = 4096;
struct ClassList {
  Free *head, *tail;
  size_t n;
};
char *lo, *hi;           // unused part of the arena
char *qlo, *qhi;         // the part of the simulator's own blocks
bool ready;
int policy;
uint64_t rngState;
ClassList* lists;        // of the code under test
ClassList* qlists;       // of the simulator
Stats st;
PER_THREAD int64_t failIn;          // countdown, 0: off
PER_THREAD bool fired;
PER_THREAD uint64_t deadlineTick;
PER_THREAD uint64_t ticks;

void init() {
  if (ready) return;
  void* p = mmap(reinterpret_cast<void*>(BASE), SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(BASE)) {
    static const char m[] = "simulated heap: cannot map arena\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
  }
  lists = static_cast<ClassList*>(p);
  qlists = lists + CLASSES;
  lo = reinterpret_cast<char*>(qlists + CLASSES);
  lo = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(lo) + 63) & ~63ull);
  hi = reinterpret_cast<char*>(BASE + SIZE / 2);
  qlo = hi;
  qhi = reinterpret_cast<char*>(BASE + SIZE);
  ready = true;
}
inline bool inArena(const void* p) { return ready && reinterpret_cast<uintptr_t>(p) >= BASE && reinterpret_cast<uintptr_t>(p) < BASE + SIZE; }
inline bool isQuiet(const void* p) { return reinterpret_cast<uintptr_t>(p) >= BASE + SIZE / 2; }

uint64_t draw() {
  Rng r(rngState);
  uint64_t x = r.next();
  rngState = r.s;
  return x;
}

[[noreturn]] void die(const char* what) {
  quiet++;
  violate("*", std::string("heap.") + what, std::string("the simulated heap detected: ") + what);
}

void* take(size_t n, bool q) {
  size_t cls = (n + 15) / 16;
  if (!cls) cls = 1;
  size_t total = sizeof(Header) + cls * 16 + 16;
  ClassList* l = (q ? qlists : lists);
  Free* f = nullptr;
  if (cls < CLASSES && l[cls].head) {
    ClassList& c = l[cls];
    int pol = q ? (int)LIFO : policy;
    if (pol == LIFO || pol == FIFO) {
      f = c.head;
      c.head = f->next;
      if (!c.head) c.tail = nullptr;
      c.n--;
    } else if (pol == RANDOM) {
      size_t cap = c.n < 64 ? c.n : 64;
      size_t k = draw() % (cap + 1);
      if (k < cap) {
        Free** at = &c.head;
        Free* prev = nullptr;
        while (k--) { prev = *at; at = &(*at)->next; }
        f = *at;
        *at = f->next;
        if (c.tail == f) c.tail = prev;
        c.n--;
      }
    }
  }
  if (f) {
    if (!q) st.reused++;
    Header* h = reinterpret_cast<Header*>(f) - 1;
    h->size = n;
    h->state = LIVE;
    memcpy(reinterpret_cast<char*>(f) + cls * 16, &CANARY, 8);
    return f;
  }
  char* at;
  if (q) {
    if (qlo + total > qhi) die("arena-exhausted");
    at = qlo;
    qlo += total;
  } else {
    if (lo + total > hi) die("out-of-simulated-memory");
    if (policy == DESCENDING) {
      hi -= total;
      at = hi;
    } else {
      at = lo;
      lo += total;
    }
  }
  Header* h = reinterpret_cast<Header*>(at);
  h->size = n;
  h->state = LIVE;
  h->cls = static_cast<uint32_t>(cls);
  memcpy(at + sizeof(Header) + cls * 16, &CANARY, 8);
  return at + sizeof(Header);
}

// Memory e-antic asks for itself never runs out in the simulation: it allocates
// in constructors it declares as noexcept, and its constructor functions leak
// when there is no memory.
uintptr_t exemptLo, exemptHi;
bool inExempt() {
  void* frames[24];
  quiet++;
  int n = backtrace(frames, 24);
  quiet--;
  for (int i = 0; i < n; i++) {
    auto at = reinterpret_cast<uintptr_t>(frames[i]);
    if (at >= exemptLo && at < exemptHi) return true;
  }
  return false;
}

void* allocate(size_t n, bool mayFail) {
  init();
  const bool q = quiet > 0;
  if (!q) {
    st.allTicks++;
    ticks++;
    if (mayFail && failIn && --failIn == 0) {
      if (inExempt()) failIn = 1;   // the next one instead
      else {
        fired = true;
        return nullptr;
      }
    }
    if (deadlineTick && ticks > deadlineTick) {
      deadlineTick = 0;
      die("no-progress");
    }
  }
  void* p = take(n, q);
  if (!q) {
    st.liveBlocks++;
    st.liveBytes += n;
  }
  return p;
}

void release(void* p) {
  if (!p) return;
  if (!inArena(p)) {
    ::free(p);
    return;
  }
  Header* h = static_cast<Header*>(p) - 1;
  if (h->state == DEAD) die("double-free");
  if (h->state != LIVE) die("invalid-free");
  uint64_t canary;
  memcpy(&canary, static_cast<char*>(p) + h->cls * 16, 8);
  if (canary != CANARY) die("buffer-overrun");
  const bool q = isQuiet(p);
  if (!q) {
    st.liveBlocks--;
    st.liveBytes -= h->size;
#ifdef VERIF_THREADS
    thr::onFree(p, h->size);
#endif
  }
  h->state = DEAD;
  size_t cls = h->cls;
  size_t fill = cls * 16 < 4096 ? cls * 16 : 4096;
  memset(p, 0xDD, fill);
  if (cls >= CLASSES) {
    // large: give the pages back
    if (cls * 16 > (1 << 16)) {
      uintptr_t a = (reinterpret_cast<uintptr_t>(p) + 4095) & ~4095ull, b = (reinterpret_cast<uintptr_t>(p) + cls * 16) & ~4095ull;
      if (b > a) madvise(reinterpret_cast<void*>(a), b - a, MADV_DONTNEED);
    }
    return;
  }
  if (!q && (policy == NEVER || policy == DESCENDING)) return;
  ClassList& c = (q ? qlists : lists)[cls];
  Free* f = static_cast<Free*>(p);
  if (!q && policy == FIFO) {
    f->next = nullptr;
    if (c.tail) c.tail->next = f; else c.head = f;
    c.tail = f;
  } else {
    f->next = c.head;
    c.head = f;
    if (!c.tail) c.tail = f;
  }
  c.n++;
}

size_t sizeOf(void* p) { return (static_cast<Header*>(p) - 1)->size; }

void* cMalloc(size_t n) { return allocate(n, false); }
void* cCalloc(size_t n, size_t m) {
  void* p = allocate(n * m, false);
  memset(p, 0, n * m);
  return p;
}
void* cRealloc(void* p, size_t n) {
  if (!p) return cMalloc(n);
  if (!inArena(p)) return ::realloc(p, n);
  const bool q = isQuiet(p);
  if (q) quiet++;
  void* r = allocate(n, false);
  if (q) quiet--;
  size_t old = sizeOf(p);
  memcpy(r, p, old < n ? old : n);
  release(p);
  return r;
}
void cFree(void* p) { release(p); }
void* gRealloc(void* p, size_t, size_t n) { return cRealloc(p, n); }
void gFree(void* p, size_t) { release(p); }

struct Install {
  Install() {
    init();
    mp_set_memory_functions(cMalloc, gRealloc, gFree);
    __flint_set_memory_functions(cMalloc, cCalloc, cRealloc, cFree);
  }
};
__attribute__((init_priority(101))) Install install;
}  // namespace

void configure(int p, uint64_t seed) {
  policy = p;
  rngState = seed;
}
void armFault(int64_t n) {
  failIn = n;
  fired = false;
}
bool disarmFault() {
  failIn = 0;
  return fired;
}
Stats stats() {
  st.ticks = ticks;
  return st;
}
#ifdef VERIF_THREADS
const uintptr_t loudLo = BASE, loudHi = BASE + SIZE / 2;
#endif
void deadline(uint64_t t) { deadlineTick = t; }
void deadlineOff() { deadlineTick = 0; }
int findExempt(dl_phdr_info* info, size_t, void*) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, "libeanticxx")) return 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto& ph = info->dlpi_phdr[i];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_X)) continue;
    exemptLo = info->dlpi_addr + ph.p_vaddr;
    exemptHi = exemptLo + ph.p_memsz;
  }
  return 0;
}
void locate() {
  dl_iterate_phdr(findExempt, nullptr);
  void* frame[2];
  backtrace(frame, 2);   // (loads the unwinder)
}
void* newBlock(size_t n) {
  void* p = allocate(n, true);
  if (!p) throw std::bad_alloc();
  return p;
}
void* newBlockNothrow(size_t n) { return allocate(n, true); }
void deleteBlock(void* p) { release(p); }
}  // namespace heap
}  // namespace sim

void* operator new(size_t n) { return sim::heap::newBlock(n); }
void* operator new[](size_t n) { return sim::heap::newBlock(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::heap::newBlockNothrow(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::heap::newBlockNothrow(n); }
void operator delete(void* p) noexcept { sim::heap::deleteBlock(p); }
void operator delete[](void* p) noexcept { sim::heap::deleteBlock(p); }
void operator delete(void* p, size_t) noexcept { sim::heap::deleteBlock(p); }
void operator delete[](void* p, size_t) noexcept { sim::heap::deleteBlock(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::heap::deleteBlock(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::heap::deleteBlock(p); }
