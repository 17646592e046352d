// Scheduler, data race detector, and stand-ins for the thread library.  Compiled
// without instrumentation.
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <algorithm>
#include <map>

#include "core.hpp"
#include "thr.hpp"
#include "world.hpp"

extern "C" char __data_start, _end;

namespace sim {
namespace thr {
namespace {
struct Clock {
  uint64_t c[MAX + 1] = {};
  void join(const Clock& o) {
    for (int i = 0; i <= MAX; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Thread {
  int id = 0;
  int go = 0;                    // futex: whether it is its turn
  bool finished = false, exiting = false;
  const void* waiting = nullptr; // blocked on this object
  Clock vc, fenceRelease, pendingAcquire;
  uint64_t opSteps = 0;
  pthread_t handle;
};
Thread threads[MAX + 1];
int count_;
int mainGo;                      // futex: whether it is the turn of the main thread
int active;                      // the running thread, 0: the main thread
int ended;                       // the thread that finished
const std::vector<int64_t>* sched;
size_t at;
int64_t left;
int64_t quantum;
uint64_t total;
uint64_t stepLimit;
bool simulating;
__thread Thread* me;

// ------------------------------------------------------------------- shadow
struct Cell {
  uint64_t rec[4];   // clock << 14 | thread << 10 | write << 9 | atomic << 8 | bytes
  uint32_t pc[4];
};
Cell *heapShadow, *dataShadow;
uintptr_t dataLo, dataHi;
inline Cell* cell(uintptr_t a) {
  if (a >= heap::loudLo && a < heap::loudHi) return heapShadow + ((a - heap::loudLo) >> 3);
  if (a >= dataLo && a < dataHi) return dataShadow + ((a - dataLo) >> 3);
  return nullptr;
}
inline bool relevant(uintptr_t a) { return (a >= heap::loudLo && a < heap::loudHi) || (a >= dataLo && a < dataHi); }

struct Sync {
  Clock release;
};
std::map<uintptr_t, Sync>* syncs;
Sync& sync(uintptr_t a) {
  heap::Quiet q;
  return (*syncs)[a];
}
struct Lock {
  int owner = 0, depth = 0, readers = 0;
  int reader[MAX + 1] = {};
};
std::map<const void*, Lock>* locks;
std::map<const void*, uint64_t>* conditions;   // number of signals

void futexWait(int* f) {
  while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void futexWake(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// Names of functions and globals, from the symbol table of the executable.
std::string symbol(uintptr_t a, bool object) {
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) return "?";
  auto* base = static_cast<const char*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
  close(fd);
  if (base == MAP_FAILED) return "?";
  auto* e = reinterpret_cast<const Elf64_Ehdr*>(base);
  auto* sec = reinterpret_cast<const Elf64_Shdr*>(base + e->e_shoff);
  std::string best = "?";
  for (int i = 0; i < e->e_shnum; i++) {
    if (sec[i].sh_type != SHT_SYMTAB) continue;
    const char* names = base + sec[sec[i].sh_link].sh_offset;
    auto* y = reinterpret_cast<const Elf64_Sym*>(base + sec[i].sh_offset);
    for (size_t k = 0; k < sec[i].sh_size / sizeof *y; k++) {
      int type = ELF64_ST_TYPE(y[k].st_info);
      if (type != (object ? STT_OBJECT : STT_FUNC) || a < y[k].st_value || a >= y[k].st_value + std::max<uint64_t>(1, y[k].st_size)) continue;
      int rc = 0;
      char* d = abi::__cxa_demangle(names + y[k].st_name, nullptr, nullptr, &rc);
      best = rc == 0 && d ? d : names + y[k].st_name;
    }
  }
  if (best.size() > 200) best = best.substr(0, 200) + "...";
  return best;
}
std::string where(uint32_t pc) { return symbol(pc - 1, false); }
std::string what(uintptr_t a) { return a >= dataLo && a < dataHi ? "the global " + symbol(a, true) : "the heap"; }

// --------------------------------------------------------------- scheduling
bool runnable(int i) { return i >= 1 && i <= count_ && !threads[i].finished && !threads[i].waiting; }
int choose(int current) {
  while (at + 1 < sched->size()) {
    int f = (int)(*sched)[at];
    int64_t n = (*sched)[at + 1];
    at += 2;
    if (runnable(f) && n > 0) {
      left = n;
      return f;
    }
  }
  for (int i = 1; i <= count_; i++) {
    int c = (current + i - 1) % count_ + 1;
    if (runnable(c)) {
      left = quantum;
      return c;
    }
  }
  return 0;
}
void handOver(Thread* t, int to) {
  active = to;
  futexWake(&threads[to].go);
  futexWait(&t->go);
}
void reschedule(Thread* t, uint32_t pc, bool voluntary) {
  int to = choose(t->id);
  if (to == 0) {
    heap::Quiet q;
    std::string s = "deadlock: no thread can make progress;";
    for (int i = 1; i <= count_; i++)
      if (!threads[i].finished) s += " thread " + std::to_string(i) + " is blocked;";
    report("C14", "deadlock", s);
  }
  if (to == t->id) return;
  {
    heap::Quiet q;
    sim::count(voluntary ? "thr.switch.blocked" : "thr.switch.preempted");
    mark(mix(((uint64_t)t->id << 8 | (uint64_t)to) << 32 | pc, 77));
    log.event("switch " + std::to_string(t->id) + ">" + std::to_string(to) + " @" + std::to_string(total));
    if (log.verbose) fprintf(stderr, "         in %s\n", where(pc).c_str());
  }
  handOver(t, to);
}
inline void step(Thread* t, uint32_t pc) {
  if (t->exiting) return;
  total++;
  if (++t->opSteps > stepLimit) {
    heap::Quiet q;
    t->opSteps = 0;
    report("C14", "no-progress.steps", "an operation takes too many steps");
  }
  if (--left <= 0) reschedule(t, pc, false);
}
void block(Thread* t, const void* on, uint32_t pc) {
  t->waiting = on;
  reschedule(t, pc, true);
}
void wake(const void* on) {
  for (int i = 1; i <= count_; i++)
    if (threads[i].waiting == on) threads[i].waiting = nullptr;
}

// ----------------------------------------------------------- happens before
void acquire(Thread* t, uintptr_t a) { t->vc.join(sync(a).release); }
void release(Thread* t, uintptr_t a) {
  sync(a).release.join(t->vc);
  t->vc.c[t->id]++;
}

[[gnu::noinline]] void race(Thread* t, uintptr_t a, uint64_t rec, uint32_t pcThen, bool write, uint32_t pcNow, const char* kind) {
  heap::Quiet q;
  int other = (int)(rec >> 10 & 15);
  auto verb = [](bool w, bool at) { return std::string(at ? "atomically " : "") + (w ? "writes" : "reads"); };
  std::string s = std::string("data race on ") + what(a) + ": thread " + std::to_string(t->id) + " " + (*kind ? kind : verb(write, false)) + " in " + where(pcNow) + " while thread " +
                  std::to_string(other) + " " + verb(rec >> 9 & 1, rec >> 8 & 1) + " in " + where(pcThen) + " without synchronisation";
  report("C14", "race", s);
}
inline void checkCell(Thread* t, Cell* c, uintptr_t a, unsigned mask, bool write, bool atomic, uint32_t pc) {
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t r = c->rec[i];
    if (!r) {
      if (slot < 0) slot = i;
      continue;
    }
    if (!(r & mask)) continue;
    unsigned tid = r >> 10 & 15;
    uint64_t clock = r >> 14;
    if ((int)tid == t->id) {
      // an access of the same thread which this one subsumes
      if ((r & 0xff) == mask && (write || !(r >> 9 & 1)) && (!atomic || (r >> 8 & 1))) slot = i;
      continue;
    }
    if (clock <= t->vc.c[tid]) {
      // ordered before us; if it is subsumed, forget it
      if ((r & 0xff & ~mask) == 0 && (write || !(r >> 9 & 1)) && !atomic && slot < 0) slot = i;
      continue;
    }
    if ((write || (r >> 9 & 1)) && !(atomic && (r >> 8 & 1))) race(t, a, r, c->pc[i], write, pc, "");
  }
  if (slot < 0) slot = (int)((t->vc.c[t->id] + total) & 3);
  c->rec[slot] = t->vc.c[t->id] << 14 | (uint64_t)t->id << 10 | (uint64_t)write << 9 | (uint64_t)atomic << 8 | mask;
  c->pc[slot] = pc;
}
inline void record(Thread* t, uintptr_t a, size_t n, bool write, bool atomic, uint32_t pc) {
  while (n) {
    unsigned off = a & 7;
    unsigned k = (unsigned)(8 - off < n ? 8 - off : n);
    unsigned mask = ((1u << k) - 1) << off;
    if (Cell* c = cell(a)) checkCell(t, c, a, mask & 0xff, write, atomic, pc);
    a += k;
    n -= k;
  }
}
}  // namespace

inline void access(const void* p, size_t n, bool write, const void* ret) {
  Thread* t = me;
  if (!t || heap::quiet > 0) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (!relevant(a)) return;
  auto pc = (uint32_t)reinterpret_cast<uintptr_t>(ret);
  step(t, pc);
  record(t, a, n, write, false, pc);
}

void onFree(void* p, size_t n) {
  if (!simulating) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  Thread* t = me;
  size_t cells = (n + 7) >> 3;
  Cell* c = heapShadow + ((a - heap::loudLo) >> 3);
  if (t)
    for (size_t i = 0; i < cells; i++)
      for (int j = 0; j < 4; j++) {
        uint64_t r = c[i].rec[j];
        if (!r || (int)(r >> 10 & 15) == t->id || (r >> 14) <= t->vc.c[r >> 10 & 15]) continue;
        race(t, a + 8 * i, r, c[i].pc[j], true, (uint32_t)reinterpret_cast<uintptr_t>(__builtin_return_address(0)), "frees a block");
      }
  if (cells) {
    uintptr_t lo = reinterpret_cast<uintptr_t>(c), hi = reinterpret_cast<uintptr_t>(c + cells);
    if (hi - lo > (1 << 20)) {
      uintptr_t l = (lo + 4095) & ~4095ull, h = hi & ~4095ull;
      madvise(reinterpret_cast<void*>(l), h - l, MADV_DONTNEED);
      memset(c, 0, l - lo);
      memset(reinterpret_cast<void*>(h), 0, hi - h);
    } else
      memset(c, 0, hi - lo);
  }
  heap::Quiet q;
  auto it = syncs->lower_bound(a);
  while (it != syncs->end() && it->first < a + n) it = syncs->erase(it);
}

void prepare() {
  dataLo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull;
  dataHi = (reinterpret_cast<uintptr_t>(&_end) + 7) & ~7ull;
  auto map = [](size_t granules) {
    void* p = mmap(nullptr, granules * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("thread simulation: cannot map shadow memory");
      _exit(97);
    }
    return static_cast<Cell*>(p);
  };
  heapShadow = map((heap::loudHi - heap::loudLo) >> 3);
  dataShadow = map((dataHi - dataLo) >> 3);
}

namespace {
struct Start {
  int id;
  const std::function<void(int)>* body;
};
void* threadMain(void* p) {
  auto* s = static_cast<Start*>(p);
  Thread* t = &threads[s->id];
  heap::quiet = 1;
  futexWait(&t->go);
  stack_t ss = {};
  ss.ss_size = 1 << 16;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  me = t;
  (*s->body)(s->id);
  t->exiting = true;
  t->finished = true;
  ended = t->id;
  // The destructors of thread_local objects run now, while the main thread waits for the end of this thread.
  futexWake(&mainGo);
  return nullptr;
}
}  // namespace

void run(const Plan& plan, int n, const std::function<void(int)>& body) {
  heap::Quiet q;
  syncs = new std::map<uintptr_t, Sync>;
  locks = new std::map<const void*, Lock>;
  conditions = new std::map<const void*, uint64_t>;
  count_ = n;
  sched = &plan.sched;
  at = 0;
  total = 0;
  quantum = plan.get("quantum", 100000);
  stepLimit = (uint64_t)plan.get("steps", 50000000);
  Start starts[MAX + 1];
  simulating = true;
  for (int i = 1; i <= n; i++) {
    Thread& t = threads[i];
    t = Thread();
    t.id = i;
    t.vc.c[i] = 1;
    starts[i] = Start{i, &body};
    constexpr size_t STACK = 8 << 20;
    void* stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, stack, STACK);
    if (pthread_create(&t.handle, &attr, threadMain, &starts[i])) {
      perror("pthread_create");
      _exit(97);
    }
  }
  int next = choose(n);
  while (next) {
    active = next;
    futexWake(&threads[next].go);
    futexWait(&mainGo);
    active = 0;
    pthread_join(threads[ended].handle, nullptr);
    bool alive = false;
    for (int i = 1; i <= n; i++) alive = alive || !threads[i].finished;
    if (!alive) break;
    next = choose(ended);
    if (!next) report("C14", "deadlock", "deadlock: the other threads wait for each other");
    log.event("end " + std::to_string(ended) + ">" + std::to_string(next) + " @" + std::to_string(total));
  }
  simulating = false;
  sim::count("thr.steps", total);
}
int running() { return active; }
uint64_t steps() { return total; }
void operation() {
  if (me) me->opSteps = 0;
}
void send(uintptr_t channel) {
  if (me) release(me, channel);
}
void receive(uintptr_t channel) {
  if (me) acquire(me, channel);
}

// ------------------------------------------------------------ atomic accesses
// What an atomic access means for the order of events; the access itself is
// made by the caller right afterwards, nobody else runs in between.
enum Kind { LOAD, STORE, RMW };
inline void atomicAccess(const volatile void* p, size_t n, Kind kind, int mo, const void* ret) {
  Thread* t = me;
  if (!t) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto pc = (uint32_t)reinterpret_cast<uintptr_t>(ret);
  if (relevant(a) && heap::quiet == 0) {
    step(t, pc);
    record(t, a, n, kind != LOAD, true, pc);
  }
  mo &= 0x7fff;
  const bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
  Sync& s = sync(a);
  if (kind != STORE) {
    if (acq) t->vc.join(s.release);
    else t->pendingAcquire.join(s.release);
  }
  if (kind != LOAD) {
    const Clock& c = rel ? t->vc : t->fenceRelease;
    if (kind == STORE) s.release = c;
    else s.release.join(c);
    if (rel) t->vc.c[t->id]++;
  }
}
void fence(int mo) {
  Thread* t = me;
  if (!t) return;
  mo &= 0x7fff;
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) t->vc.join(t->pendingAcquire);
  if (mo == 3 || mo == 4 || mo == 5) {
    t->fenceRelease = t->vc;
    t->vc.c[t->id]++;
  }
}
// A point where another thread may take over although no memory is accessed.
inline void point(const void* ret) {
  Thread* t = me;
  if (!t || heap::quiet > 0) return;
  step(t, (uint32_t)reinterpret_cast<uintptr_t>(ret));
}

// ------------------------------------------------------------------ blocking
inline bool outside() { return me == nullptr; }
int lockMutex(const void* m, bool recursive, bool errorcheck, bool wait, const void* ret) {
  Thread* t = me;
  auto pc = (uint32_t)reinterpret_cast<uintptr_t>(ret);
  if (heap::quiet == 0) step(t, pc);
  for (;;) {
    Lock* l;
    {
      heap::Quiet q;
      l = &(*locks)[m];
    }
    if (l->owner == t->id) {
      if (recursive) {
        l->depth++;
        return 0;
      }
      if (errorcheck) return EDEADLK;
      if (!wait) return EBUSY;
      report("C14", "deadlock", "deadlock: a thread locks a mutex it holds already, in " + where(pc));
    }
    if (!l->owner && !l->readers) {
      l->owner = t->id;
      l->depth = 1;
      acquire(t, reinterpret_cast<uintptr_t>(m));
      return 0;
    }
    if (!wait) return EBUSY;
    sim::count("thr.blocked");
    block(t, m, pc);
  }
}
int unlockMutex(const void* m, const void* ret) {
  Thread* t = me;
  {
    heap::Quiet q;
    Lock& l = (*locks)[m];
    if (l.owner == t->id) {
      if (--l.depth) return 0;
      l.owner = 0;
      release(t, reinterpret_cast<uintptr_t>(m));
    } else if (l.reader[t->id]) {
      l.reader[t->id]--;
      l.readers--;
      release(t, reinterpret_cast<uintptr_t>(m));
    } else
      return EPERM;
  }
  wake(m);
  if (heap::quiet == 0) step(t, (uint32_t)reinterpret_cast<uintptr_t>(ret));
  return 0;
}
int lockShared(const void* m, bool wait, const void* ret) {
  Thread* t = me;
  auto pc = (uint32_t)reinterpret_cast<uintptr_t>(ret);
  if (heap::quiet == 0) step(t, pc);
  for (;;) {
    Lock* l;
    {
      heap::Quiet q;
      l = &(*locks)[m];
    }
    if (!l->owner) {
      l->readers++;
      l->reader[t->id]++;
      acquire(t, reinterpret_cast<uintptr_t>(m));
      return 0;
    }
    if (!wait) return EBUSY;
    sim::count("thr.blocked");
    block(t, m, pc);
  }
}
}  // namespace thr
}  // namespace sim

using namespace sim::thr;
#define RET __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { point(RET); }
void __tsan_func_exit() { point(RET); }
#define RW(n)                                                                      \
  void __tsan_read##n(void* p) { access(p, n, false, RET); }                       \
  void __tsan_write##n(void* p) { access(p, n, true, RET); }                       \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, RET); }             \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, RET); }             \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, RET); }              \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, RET); }              \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, RET); }    \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, RET); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, RET); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true, RET);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, RET); }

#define ATOMIC(bits, T)                                                                                                                                          \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomicAccess(p, sizeof(T), LOAD, mo, RET); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }            \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), STORE, mo, RET); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }          \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }    \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { atomicAccess(p, sizeof(T), RMW, mo, RET); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }\
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {                                                                  \
    bool will = *p == *e;                                                                                                                                          \
    atomicAccess(p, sizeof(T), will ? RMW : LOAD, will ? mo : fmo, RET);                                                                                           \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                        \
  }                                                                                                                                                                \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {                                                                    \
    bool will = *p == *e;                                                                                                                                          \
    atomicAccess(p, sizeof(T), will ? RMW : LOAD, will ? mo : fmo, RET);                                                                                           \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                        \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// A function of a library that is not instrumented is about to be called: see
// thr_calls.txt for the meaning of roles.
void verif_external_call(const char* roles, void** args, void* ret) {
  Thread* t = me;
  if (!t || sim::heap::quiet > 0) return;
  auto pc = (uint32_t)reinterpret_cast<uintptr_t>(ret);
  step(t, pc);
  for (int i = 0; *roles && i < 6; i++, roles += 2) {
    size_t n = 0;
    switch (roles[1]) {
      case 'A': case 'Q': n = 32; break;
      case 'B': n = 48; break;
      case 'M': case 'Z': case 'P': n = 16; break;
      case 'F': n = 8; break;
    }
    auto a = reinterpret_cast<uintptr_t>(args[i]);
    if (n && relevant(a)) record(t, a, n, roles[0] == 'w', false, pc);
  }
}

// ------------------------------------------------- initialisation of statics
int __cxa_guard_acquire(long* g) {
  auto* done = reinterpret_cast<unsigned char*>(g);
  if (outside()) return *done ? 0 : 1;
  for (;;) {
    if (*done) {
      sim::thr::receive(reinterpret_cast<uintptr_t>(g));
      return 0;
    }
    if (!done[1]) {
      done[1] = (unsigned char)me->id;
      // (an earlier attempt by another thread might have failed)
      sim::thr::receive(reinterpret_cast<uintptr_t>(g));
      sim::count("thr.static-initialised");
      return 1;
    }
    if (done[1] == me->id) sim::report("C14", "deadlock", "recursive initialisation of a static");
    sim::count("thr.blocked");
    block(me, g, (uint32_t)reinterpret_cast<uintptr_t>(RET));
  }
}
void __cxa_guard_release(long* g) {
  auto* done = reinterpret_cast<unsigned char*>(g);
  *done = 1;
  done[1] = 0;
  if (outside()) return;
  sim::thr::send(reinterpret_cast<uintptr_t>(g));
  wake(g);
  point(RET);
}
void __cxa_guard_abort(long* g) {
  reinterpret_cast<unsigned char*>(g)[1] = 0;
  if (outside()) return;
  sim::thr::send(reinterpret_cast<uintptr_t>(g));
  wake(g);
}

// ----------------------------------------------------------------- pthreads
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool errorcheck(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return outside() ? 0 : lockMutex(m, recursive(m), errorcheck(m), true, RET); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return outside() ? 0 : lockMutex(m, recursive(m), false, false, RET); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {
  if (outside()) return 0;
  int r = lockMutex(m, recursive(m), false, false, RET);
  return r == EBUSY ? ETIMEDOUT : r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return outside() ? 0 : unlockMutex(m, RET); }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (locks) {
    sim::heap::Quiet q;
    locks->erase(m);
  }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return outside() ? 0 : lockShared(m, true, RET); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return outside() ? 0 : lockShared(m, false, RET); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return outside() ? 0 : lockMutex(m, false, true, true, RET); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return outside() ? 0 : lockMutex(m, false, true, false, RET); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return outside() ? 0 : unlockMutex(m, RET); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (outside()) {
    if (*o == 2) return 0;
    f();
    *o = 2;
    return 0;
  }
  for (;;) {
    if (*o == 2) {
      sim::thr::receive(reinterpret_cast<uintptr_t>(o));
      return 0;
    }
    if (*o == 0) {
      *o = 1;
      try {
        f();
      } catch (...) {
        *o = 0;
        sim::thr::send(reinterpret_cast<uintptr_t>(o));
        wake(o);
        throw;
      }
      *o = 2;
      sim::thr::send(reinterpret_cast<uintptr_t>(o));
      wake(o);
      point(RET);
      return 0;
    }
    block(me, o, (uint32_t)reinterpret_cast<uintptr_t>(RET));
  }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (outside()) return 0;
  uint64_t before;
  {
    sim::heap::Quiet q;
    before = (*conditions)[c];
  }
  unlockMutex(m, RET);
  for (;;) {
    {
      sim::heap::Quiet q;
      if ((*conditions)[c] != before) break;
    }
    block(me, c, (uint32_t)reinterpret_cast<uintptr_t>(RET));
  }
  return lockMutex(m, recursive(m), false, true, RET);
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) {
  if (outside()) return ETIMEDOUT;
  unlockMutex(m, RET);
  reschedule(me, (uint32_t)reinterpret_cast<uintptr_t>(RET), true);
  lockMutex(m, recursive(m), false, true, RET);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (outside()) return 0;
  {
    sim::heap::Quiet q;
    (*conditions)[c]++;
  }
  wake(c);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { return pthread_cond_broadcast(c); }
int sched_yield() noexcept {
  if (!outside()) reschedule(me, (uint32_t)reinterpret_cast<uintptr_t>(RET), true);
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
}
