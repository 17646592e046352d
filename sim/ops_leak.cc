// The memory footprint of a workload that is repeated.
#include <flint/flint.h>

#include <exact-real/arb.hpp>

#include <external/unique-factory/unique-factory/unique-factory.hpp>

#include "world.hpp"

using namespace sim;

namespace {
struct Sample {
  uint64_t blocks, bytes, entries;
};
struct Footprint {
  std::vector<Sample> rounds;
  decltype(World::durable.files) files;
};
Footprint& footprint() {
  static auto* f = new Footprint;
  return *f;
}
Sample measure() {
  {
    Loud l;
    verif_shim::knobs().flush();
    // FLINT's own caches
    flint_cleanup();
  }
  auto s = heap::stats();
  return {s.liveBlocks, s.liveBytes, verif_shim::knobs().entries};
}
std::string text(const Sample& s) { return to_s(s.bytes) + " bytes in " + to_s(s.blocks) + " blocks, " + to_s(s.entries) + " registered objects"; }
}  // namespace

// l.round: the end of a round of a workload which is the same in every round.
OP(round, "l.round") {
  {
    Loud l;
    for (auto& s : w.R) s.p.reset();
    for (auto& s : w.F) s.v.reset();
    for (auto& s : w.B) s.v.reset();
    auto ring = [](auto& r) {
      for (auto& s : r.M) s.p.reset();
      for (auto& s : r.E) { s.v.reset(); s.mod.reset(); }
    };
    ring(w.z);
    ring(w.q);
    ring(w.k);
  }
  auto& f = footprint();
  // Every round starts with the same files. (Otherwise a round could go on with
  // what the one before has written, i.e., with more and more work.)
  if (f.rounds.empty()) f.files = w.durable.files;
  else w.durable.files = f.files;
  f.rounds.push_back(measure());
  count("probe.round");
  log.event("  " + text(f.rounds.back()));
  const size_t N = 4;
  if (f.rounds.size() < N + 2) return;
  bool grows[3] = {true, true, true};
  for (size_t i = f.rounds.size() - N; i < f.rounds.size(); i++) {
    grows[0] &= f.rounds[i].blocks > f.rounds[i - 1].blocks;
    grows[1] &= f.rounds[i].bytes > f.rounds[i - 1].bytes;
    grows[2] &= f.rounds[i].entries > f.rounds[i - 1].entries;
  }
  count("probe.growth-checked");
  // a container which doubles its size when it is full does not grow in every round
  auto steps = [&](auto get) {
    int n = 0;
    for (size_t i = 2; i < f.rounds.size(); i++) {
      if (get(f.rounds[i]) < get(f.rounds[i - 1])) return 0;
      n += get(f.rounds[i]) > get(f.rounds[i - 1]);
    }
    return n;
  };
  grows[0] |= steps([](const Sample& s) { return s.blocks; }) >= 2;
  grows[1] |= steps([](const Sample& s) { return s.bytes; }) >= 2;
  for (int i = 0; i < 3; i++)
    if (grows[i]) {
      std::string s;
      for (size_t j = 0; j < f.rounds.size(); j++) s += (j ? "; " : "") + text(f.rounds[j]);
      fail(w, "C16", i == 0 ? "growth.blocks" : i == 1 ? "growth.bytes" : "growth.registry", "the same work needs more and more memory: " + s);
    }
}

// l.bulk kind n flush what order: many different values that are all forgotten again, several times
// (kind 8: a single number with many different precisions)
OP(bulk, "l.bulk") {
  const int kind = (int)((uint64_t)w.arg(0) % 9);
  // (random numbers in an interval are slow)
  const bool slow = kind == 1 || kind == 7;
  const bool precisions = kind == 8;
  const uint64_t n = precisions ? 600 + (uint64_t)w.arg(1) % 600 : (uint64_t)w.arg(1) % 4096 / (slow ? 8 : 1) + 16;
  const size_t keep = verif_shim::knobs().keepAliveLimit;
  const bool flush = !precisions && ((w.arg(2) & 1) || (slow && (!keep || keep > 8)));
  // (a policy which drops everything once it is full has a saw-tooth footprint
  // whose phase may drift by a constant in each block)
  const bool evictAll = verif_shim::knobs().evictAll;
  if (!flush) verif_shim::knobs().evictAll = false;
  uint64_t next = 100000;
  std::shared_ptr<const RealNumber> number;
  long low = 0;
  if (precisions) {
    const Seed seed((unsigned)(uint64_t)w.arg(1));
    Out o = w.call([&] {
      switch ((uint64_t)w.arg(3) % 4) {
        case 0: number = RealNumber::random(seed); break;
        case 1: number = RealNumber::random(Arf(-2), Arf(3), seed); break;
        case 2: number = *RealNumber::random(seed) * *RealNumber::random(Seed(17)); break;
        default: number = RealNumber::rational(mpq_class(22, 7));
      }
    });
    if (o != Out::OK) fail(w, "C16 C03", "bulk", "a simple computation failed: " + w.what);
    low = (long)((uint64_t)w.arg(2) % 300);
  }
  auto one = [&](uint64_t i) {
    switch (kind) {
      case 0: { auto x = RealNumber::random(Seed((unsigned)i)); (void)static_cast<double>(*x); (void)x->arf(100); break; }
      case 1: { auto x = RealNumber::random(Arf((long)i), Arf((long)i + 1), Seed((unsigned)i)); (void)x->arf(64); (void)static_cast<double>(*x); break; }
      case 2: { auto x = RealNumber::rational(mpq_class((long)i, 7)); (void)x->arb(64); break; }
      case 3: { auto x = RealNumber::random(Seed((unsigned)i)), y = RealNumber::random(Seed((unsigned)i + 1)); auto z = *x * *y; auto t = *z * *x; (void)t->arf(70); (void)(*t / *x); break; }
      case 4: {
        auto m = Module<RationalField>::make({RealNumber::random(Seed((unsigned)i)), RealNumber::rational(1)}, RationalField());
        auto e = m->gen(0) + m->gen(1);
        e *= mpq_class(3, 7);
        (void)(e > m->gen(0));
        const Arf close = m->basis()[0]->arf(90);
        (void)(m->gen(0) < mpq_class(close.mantissa()) / mpq_class(mpz_class(1) << (unsigned long)(-close.exponent().get_si())));
        (void)e.floor();
        break;
      }
      case 5: {
        auto m = Module<NumberField>::make({RealNumber::random(Seed((unsigned)i))}, NumberField(w.fieldCache.begin()->second));
        auto e = m->gen(0);
        e *= w.fieldCache.begin()->second->gen();
        (void)(e * e);
        (void)static_cast<double>(e);
        break;
      }
      case 6: { auto x = RealNumber::random(Seed((unsigned)i)), y = RealNumber::random(Seed((unsigned)i + 1)); (void)(*x < *y); (void)(*x == mpq_class(1, (long)i)); (void)(*x < x->arf(150)); break; }
      default: { auto x = RealNumber::random((double)i + .5, Seed((unsigned)i)); (void)static_cast<double>(*x); break; }
    }
  };
  w.field(1);
  std::vector<Sample> blocks;
  const int rounds = precisions ? 6 : 4;
  for (int round = 0; round < rounds; round++) {
    Out o = w.call([&] {
      for (uint64_t i = 0; i < n; i++) {
        if (!precisions) { one(next + i); continue; }
        // every block asks for precisions of about the same size
        const uint64_t order = (uint64_t)w.arg(4) % 3, j = order == 0 ? i : order == 1 ? n - 1 - i : i * 389 % n;
        (void)number->arf(low + rounds * (long)j + round);
      }
    });
    next += n + 7;
    if (o != Out::OK) fail(w, "C16 C03", "bulk", "a simple computation failed: " + w.what);
    if (flush) blocks.push_back(measure());
    else {
      { Loud l; flint_cleanup(); }
      auto s = heap::stats();
      blocks.push_back({s.liveBlocks, s.liveBytes, verif_shim::knobs().entries});
    }
    log.event("  " + text(blocks.back()));
  }
  verif_shim::knobs().evictAll = evictAll;
  count("probe.bulk");
  // whatever is cached must not grow with the number of values seen
  auto grew = [&](auto get, uint64_t by) {
    for (int i = 2; i < rounds; i++)
      if (get(blocks[i]) < get(blocks[i - 1]) + by) return false;
    // (a number, or any of its factors, may keep some hundred approximations; how many are kept after a
    // block may be more each time, but not without limit)
    return !precisions || get(blocks[rounds - 1]) >= get(blocks[1]) + (uint64_t)(rounds - 2) * n;
  };
  const char* oracle = nullptr;
  // (as declared, the registries keep 1024 objects, and their factors, alive)
  if (!flush && !precisions && n < (keep && keep <= 8 ? 100 : 1500)) return;
  if (grew([](const Sample& s) { return s.entries; }, n / 4)) oracle = "growth.registry";
  else if (grew([](const Sample& s) { return s.blocks; }, n / 4)) oracle = "growth.blocks";
  else if (!precisions && grew([](const Sample& s) { return s.bytes; }, n * 8)) oracle = "growth.bytes";
  else if (flush && !precisions && blocks[rounds - 1].bytes >= blocks[1].bytes + n * 6 && blocks[2].bytes >= blocks[1].bytes && blocks[rounds - 1].bytes >= blocks[2].bytes)
    oracle = "growth.bytes";   // (a container which doubles its size when it is full)
  if (oracle) fail(w, "C16", oracle, "memory grows with the number of values that have been in use: " + text(blocks[0]) + "; " + text(blocks[1]) + "; " + text(blocks[2]) + "; … " + text(blocks.back()));
}
