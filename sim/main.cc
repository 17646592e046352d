// The simulator: generates plans from seeds, executes them, one forked child
// per life of the simulated process.
#include <external/unique-factory/unique-factory/unique-factory.hpp>

#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>

#include "world.hpp"
#ifdef VERIF_THREADS
#include "thr.hpp"
#endif

namespace sim {
namespace {
constexpr size_t BITMAP = 1 << 16;   // bits
struct Shared {
  volatile int status;   // 0: died silently, 1: finished, 2: violation, 3: stopped early since another property is violated
  char property[32], oracle[96], detail[6000];
  volatile uint64_t opIndex;
  char opText[400];
  uint64_t hash, events, ticks, reused;
  uint64_t hits, creates, evictions;
  uint32_t ncounters;
  struct {
    char name[56];
    uint64_t n;
  } counters[400];
  uint8_t bitmap[BITMAP / 8];
  uint64_t durableSize;
  char durable[24 << 20];
};
Shared* shared = nullptr;
bool inChild = false;
#ifdef VERIF_THREADS
struct {
  uint64_t index;
  char text[400];
} current[thr::MAX + 1];
#endif

void put(char* to, size_t n, const std::string& s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(to, s.data(), k);
  to[k] = 0;
}
void publish() {
  auto st = heap::stats();
  shared->hash = log.hash;
  shared->events = log.events;
  shared->ticks = st.allTicks;
  shared->reused = st.reused;
  auto& k = verif_shim::knobs();
  shared->hits = k.hits;
  shared->creates = k.creates;
  shared->evictions = k.evictions;
  shared->ncounters = 0;
  if (counters)
    for (auto& c : *counters) {
      if (shared->ncounters >= 400) break;
      auto& e = shared->counters[shared->ncounters++];
      put(e.name, sizeof e.name, c.first);
      e.n = c.second;
    }
}
void onSignal(int sig) {
  // The simulated process died.
#ifdef VERIF_THREADS
  shared->opIndex = current[thr::running()].index;
  strcpy(shared->opText, current[thr::running()].text);
#endif
  shared->status = 2;
  strcpy(shared->property, "*");
  snprintf(shared->oracle, sizeof shared->oracle, "%s%d", sig == SIGXCPU ? "no-progress.cpu" : "crash.signal", sig == SIGXCPU ? 0 : sig);
  snprintf(shared->detail, sizeof shared->detail, "op %llu (%s): the process died of signal %d", (unsigned long long)shared->opIndex, shared->opText, sig);
  _exit(1);
}
}  // namespace

void violate(const std::string& property, const std::string& oracle, const std::string& detail) {
  heap::quiet++;
  heap::disarmFault();
  heap::deadlineOff();
  put(shared->property, sizeof shared->property, property);
  put(shared->oracle, sizeof shared->oracle, oracle);
#ifdef VERIF_THREADS
  shared->opIndex = current[thr::running()].index;
  strcpy(shared->opText, current[thr::running()].text);
#endif
  std::string d = detail;
  if (d.compare(0, 3, "op ") != 0) d = "op " + std::to_string(shared->opIndex) + " (" + shared->opText + "): " + d;
  put(shared->detail, sizeof shared->detail, d);
  log.event("VIOLATION " + oracle + " " + d);
  publish();
  shared->status = 2;
  _exit(1);
}
void report(const char* tags, const std::string& oracle, const std::string& detail) {
  heap::Quiet q;
  std::istringstream in(tags);
  std::string t, first;
  while (in >> t) {
    if (first.empty()) first = t;
    if (t == deciding || deciding == "*") violate(t, oracle, detail);
  }
#ifdef VERIF_THREADS
  // Whatever goes wrong counts (unless it also goes wrong without concurrency, see runPlan.)
  if (deciding == "C14") violate("C14", oracle, detail);
#endif
  count(("other." + first + "." + oracle).c_str());
  if (log.verbose) fprintf(stderr, "violation of another property (%s): %s: %s\n", tags, oracle.c_str(), detail.c_str());
#ifdef VERIF_THREADS
  stopRun();
#endif
  throw Stop{};
}
#ifdef VERIF_THREADS
void stopRun() {
  publish();
  shared->status = 3;
  _exit(0);
}
#endif
void mark(uint64_t transition) {
  uint64_t b = transition % BITMAP;
  shared->bitmap[b / 8] |= 1 << (b % 8);
}
void progress(uint64_t index, const std::string& text) {
#ifdef VERIF_THREADS
  auto& c = current[thr::running()];
  c.index = index;
  put(c.text, sizeof c.text, text);
  thr::operation();
#endif
  shared->opIndex = index;
  put(shared->opText, sizeof shared->opText, text);
}

namespace {
struct Result {
  int status = 1;
  std::string property, oracle, detail;
  uint64_t hash = 0, events = 0, ticks = 0, reused = 0, hits = 0, creates = 0, evictions = 0;
  int lives = 0;
  std::map<std::string, uint64_t> counters;
  std::vector<uint8_t> bitmap = std::vector<uint8_t>(BITMAP / 8, 0);
};

// The locales that programs install: they group the digits of numbers in streams.
struct Digits : std::numpunct<char> {
  explicit Digits(char point, char separator, std::string groups) : point(point), separator(separator), groups(std::move(groups)) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return separator; }
  std::string do_grouping() const override { return groups; }
  const char point, separator;
  const std::string groups;
};
void enterLocale(int which) {
  heap::Quiet q;
  const std::locale& c = std::locale::classic();
  switch (which & 3) {
    case 0: return;
    case 1: std::locale::global(std::locale(c, new Digits('.', ',', "\3"))); break;
    case 2: std::locale::global(std::locale(c, new Digits(',', '.', "\3"))); break;
    default: std::locale::global(std::locale(c, new Digits(',', ' ', "\1"))); break;
  }
  count("fault.locale");
}
[[noreturn]] void child(const Plan& plan, int life, Durable& durable, bool verbose) {
  inChild = true;
  struct rlimit rl = {(rlim_t)plan.get("cpu", 20), (rlim_t)plan.get("cpu", 20) + 5};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  static char stack[1 << 16];
  stack_t ss = {};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  if (!verbose) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    dup2(fd, 1);
  }
  log = Log();
  log.verbose = verbose;
  deciding = plan.property;
  heap::configure((int)plan.get("heap"), (uint64_t)plan.get("heapseed") * 1000003 + life);
  verif_shim::knobs().keepAliveLimit = (size_t)plan.get("keep");
  verif_shim::knobs().evictAll = plan.get("evictall") != 0;
  enterLocale((int)plan.get(life % 2 ? "locale2" : "locale"));
  int status = 1;
#ifdef VERIF_THREADS
  int n = (int)std::max<int64_t>(1, std::min<int64_t>(thr::MAX, plan.get("threads", 2)));
  std::vector<World*> worlds(n + 1);
  for (int i = 1; i <= n; i++) {
    worlds[i] = new World(plan, life, durable, worlds[1]);
    worlds[i]->thread = i;
  }
  thr::run(plan, n, [&](int i) { worlds[i]->run(); });
  crossCheck(worlds);
#else
  auto* w = new World(plan, life, durable);
  try {
    w->run();
  } catch (Stop&) {
    status = 3;
  }
#endif
  std::string d = dump(durable);
  if (d.size() > sizeof shared->durable) {
    fprintf(stderr, "durable state too large\n");
    _exit(96);
  }
  memcpy(shared->durable, d.data(), d.size());
  shared->durableSize = d.size();
  publish();
  shared->status = status;
  _exit(0);
}

void runPlan(const Plan& plan, Result& r, bool verbose = false) {
  int lives = 1;
  for (auto& o : plan.ops) lives += o.name == "crash";
  Durable durable;
  r = Result();
  r.hash = 0x1234;
  memset(shared->bitmap, 0, sizeof shared->bitmap);
  for (int life = 0; life < lives; life++) {
    shared->status = 0;
    shared->opText[0] = shared->detail[0] = shared->property[0] = shared->oracle[0] = 0;
    shared->opIndex = 0;
    shared->ncounters = 0;
    shared->hash = shared->events = shared->ticks = shared->reused = shared->hits = shared->creates = shared->evictions = 0;
    shared->durableSize = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      exit(97);
    }
    if (pid == 0) child(plan, life, durable, verbose);
    int st = 0;
    waitpid(pid, &st, 0);
    r.lives++;
    if (shared->status == 0) {
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) {
        fprintf(stderr, "harness error %d in op %llu (%s)\n", WEXITSTATUS(st), (unsigned long long)shared->opIndex, shared->opText);
        exit(WEXITSTATUS(st));
      }
      shared->status = 2;
      strcpy(shared->property, "*");
      snprintf(shared->oracle, sizeof shared->oracle, "crash.%s", WIFSIGNALED(st) ? "killed" : "exit");
      snprintf(shared->detail, sizeof shared->detail, "op %llu (%s): the process ended (status %d)", (unsigned long long)shared->opIndex, shared->opText, st);
    }
    r.hash = mix(r.hash, shared->hash);
    r.events += shared->events;
    r.ticks += shared->ticks;
    r.reused += shared->reused;
    r.hits += shared->hits;
    r.creates += shared->creates;
    r.evictions += shared->evictions;
    for (uint32_t i = 0; i < shared->ncounters; i++) r.counters[shared->counters[i].name] += shared->counters[i].n;
    if (shared->status == 2) {
      r.status = 2;
      r.property = std::string(shared->property) == "*" ? plan.property : shared->property;
      r.oracle = shared->oracle;
      r.detail = shared->detail;
      // (the state of a dying process may depend on the moment the CPU limit struck)
      r.hash = mix(hashString(r.oracle), hashString(r.detail));
      break;
    }
    if (shared->status == 3) {
      r.status = 3;
      break;
    }
    durable = undump(std::string(shared->durable, shared->durableSize));
  }
  memcpy(r.bitmap.data(), shared->bitmap, BITMAP / 8);
}
#ifdef VERIF_THREADS
// What also goes wrong when the threads run one after the other has nothing to do with threads.
void runThreads(const Plan& plan, Result& r, bool verbose = false) {
  runPlan(plan, r, verbose);
  if (plan.property != "C14" || r.status != 2 || r.oracle == "race" || r.oracle == "deadlock") return;
  Plan alone = plan;
  alone.sched.clear();
  alone.cfg["quantum"] = int64_t(1) << 60;
  Result s;
  runPlan(alone, s);
  if (s.status != 2 || s.oracle != r.oracle) return;
  r.status = 3;
  r.counters["other.sequential." + r.oracle]++;
}
#else
void runThreads(const Plan& plan, Result& r, bool verbose = false) { runPlan(plan, r, verbose); }
#endif

std::string readFile(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  if (!in) {
    fprintf(stderr, "cannot read %s\n", path.c_str());
    exit(96);
  }
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
void show(const Result& r) {
  printf("status %d\n", r.status);
  if (r.status == 2) printf("property %s\noracle %s\ndetail %s\n", r.property.c_str(), r.oracle.c_str(), r.detail.c_str());
  printf("hash %016llx\nevents %llu\nticks %llu\nlives %d\n", (unsigned long long)r.hash, (unsigned long long)r.events, (unsigned long long)r.ticks, r.lives);
}

// batch PROPERTY TIER FIRST STEP SECONDS OUT [MAX]: run seeds FIRST, FIRST+STEP, … until the time is over or a violation is found
int batch(char** a, int n) {
  std::string property = a[0], tier = a[1];
  uint64_t first = std::stoull(a[2]), step = std::stoull(a[3]);
  double seconds = std::stod(a[4]);
  std::string out = a[5];
  uint64_t max = n > 6 ? std::stoull(a[6]) : ~0ull;
  auto start = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };
  std::map<std::string, uint64_t> total, faultRuns, policies;
  std::vector<uint8_t> bitmap(BITMAP / 8, 0);
  uint64_t runs = 0, lives = 0, ticks = 0, events = 0, ops = 0, reused = 0, hits = 0, creates = 0, evictions = 0, resamples = 0, mismatches = 0, stopped = 0;
  std::ofstream hashes(out + ".hashes");
  std::string violation, samples, mismatch;
  for (uint64_t i = 0; i < max && elapsed() < seconds; i++) {
    uint64_t seed = first + i * step;
    Plan plan = generate(property, seed, tier == "thorough");
    Result r;
    runThreads(plan, r);
    runs++;
    lives += r.lives;
    ticks += r.ticks;
    events += r.events;
    ops += plan.ops.size();
    reused += r.reused;
    hits += r.hits;
    creates += r.creates;
    evictions += r.evictions;
    stopped += r.status == 3;
    bool probes = false;
    for (auto& c : r.counters) {
      total[c.first] += c.second;
      if (c.first.compare(0, 6, "fault.") == 0) faultRuns[c.first]++;
      if (c.first.compare(0, 6, "probe.") == 0 || c.first.compare(0, 5, "memo.") == 0) probes = true;
    }
    policies["heap-policy-" + std::to_string(plan.get("heap"))]++;
    for (size_t j = 0; j < bitmap.size(); j++) bitmap[j] |= r.bitmap[j];
    char h[64];
    snprintf(h, sizeof h, "%llu %016llx %d\n", (unsigned long long)seed, (unsigned long long)r.hash, (int)(probes && r.events >= 5));
    hashes << h;
    if (i < 2 && first < 1000000000ull) samples += plan.text() + "\n";
    if (r.status == 2) {
      violation = plan.text() + "# property " + r.property + "\n# oracle " + r.oracle + "\n# detail " + r.detail + "\n";
      break;
    }
    if (i % 16 == 0) {
      // Is it the same execution when it is run again?
      Result again;
      runThreads(plan, again);
      resamples++;
      if (again.hash != r.hash || again.status != r.status) {
        mismatches++;
        if (mismatch.empty()) mismatch = plan.text();
      }
    }
  }
  if (!violation.empty()) std::ofstream(out + ".violation") << violation;
  if (!mismatch.empty()) std::ofstream(out + ".mismatch") << mismatch;
  std::ofstream(out + ".samples") << samples;
  std::ofstream bm(out + ".bitmap", std::ios::binary);
  bm.write(reinterpret_cast<char*>(bitmap.data()), bitmap.size());
  std::ofstream st(out + ".stats");
  st << "runs " << runs << "\nlives " << lives << "\nticks " << ticks << "\nevents " << events << "\nops " << ops << "\nreused " << reused << "\nregistry-hits " << hits << "\nregistry-creates " << creates << "\nregistry-evictions " << evictions << "\nresamples " << resamples
     << "\nmismatches " << mismatches << "\nstopped-by-other-property " << stopped << "\nseconds " << elapsed() << "\n";
  for (auto& c : total) st << "counter " << c.first << " " << c.second << "\n";
  for (auto& c : faultRuns) st << "faultruns " << c.first << " " << c.second << "\n";
  for (auto& c : policies) st << "counter " << c.first << " " << c.second << "\n";
  return violation.empty() ? 0 : 1;
}

// rerun FIRST COUNT: print the hash of each run (for comparison between processes)
int hashesOf(char** a, int) {
  std::string property = a[0], tier = a[1];
  uint64_t first = std::stoull(a[2]), n = std::stoull(a[3]);
  for (uint64_t i = 0; i < n; i++) {
    Plan plan = generate(property, first + i, tier == "thorough");
    Result r;
    runThreads(plan, r);
    printf("%llu %016llx %d\n", (unsigned long long)(first + i), (unsigned long long)r.hash, r.status);
  }
  return 0;
}
}  // namespace
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  heap::quiet = 1;
  heap::locate();
  if (!getenv("EXACTSIM_NO_PERSONALITY")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("EXACTSIM_NO_PERSONALITY", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (shared == MAP_FAILED) {
    perror("mmap");
    return 97;
  }
#ifdef VERIF_THREADS
  thr::prepare();
#endif
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 5) {
    std::cout << generate(argv[2], std::stoull(argv[3]), std::string(argv[4]) == "thorough").text();
    return 0;
  }
  if (mode == "exec" && argc >= 3) {
    Plan plan = Plan::parse(readFile(argv[2]));
    Result r;
    runThreads(plan, r, argc > 3 && std::string(argv[3]) == "-v");
    show(r);
    return r.status == 2 ? 1 : 0;
  }
  if (mode == "batch" && argc >= 8) return batch(argv + 2, argc - 2);
  if (mode == "hashes" && argc >= 6) return hashesOf(argv + 2, argc - 2);
  fprintf(stderr, "usage: exactsim gen PROPERTY SEED TIER | exec PLAN [-v] | batch PROPERTY TIER FIRST STEP SECONDS OUT [MAX] | hashes PROPERTY TIER FIRST COUNT\n");
  return 96;
}
