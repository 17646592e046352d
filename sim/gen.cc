// Plans from seeds.  Every property has its own mixture of operations; each
// plan uses a random part of it (swarm), a random heap, and faults at random
// points.  Several logical clients are interleaved; a crash ends a life.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>

#include "core.hpp"

namespace sim {
Plan generate(const std::string& property, uint64_t seed, bool thorough);
namespace {
using A = std::vector<int64_t>;

struct G {
  Rng g;
  Plan plan;
  bool thorough;
  // the client being generated
  int client = 0, clients = 1;
  std::vector<Op>* out = nullptr;
  int faultPercent = 0;
  // which numbers
  int seedPool = 8;
  bool overlap = false;       // the same seed with and without interval
  int maxPrec = 600;
  bool smallInts = false;
  bool explicitSeeds = false;  // never r.def
  int archiveItems = 4;
  // modules may be generated by another rational than 1
  bool otherRational = false;
  int64_t ratNum = 1, ratDen = 1;

  explicit G(uint64_t s) : g(s) {
    otherRational = g.chance(22);
    if (otherRational) {
      do ratNum = g.chance(80) ? small() : value(); while (!ratNum);
      ratDen = g.chance(30) ? 1 : 1 + (int64_t)g.below(12);
      // 1 (or a small integer) for everybody who only looks at a double
      if (g.chance(30)) ratBits = 54 + (int64_t)g.below(200);
    }
  }
  int64_t ratBits = 0;
  void otherGenerator(int64_t d) {
    if (!ratBits) emit("r.rat", {d, ratNum, ratDen}, true);
    else emit("r.ratbig", {d, ratBits + (ratNum & 1), ratNum, ratBits, ratDen - 6}, true);
  }

  int64_t slot(int64_t n) {
    // clients own slots, some are shared
    int64_t share = n / clients;
    if (share < 2) share = 2;
    return (client * share + (int64_t)g.below(share)) % n;
  }
  int64_t r() { return slot(16); }
  int64_t m() { return slot(6); }
  int64_t e() { return slot(10); }
  int64_t f() { return slot(8); }
  int64_t b() { return slot(8); }

  void emit(const std::string& name, A a, bool mayFault = false) {
    Op o;
    o.name = name;
    o.a = std::move(a);
    if (mayFault && g.chance(faultPercent)) o.allocFault = g.chance(70) ? 1 + (int64_t)g.below(12) : 1 + (int64_t)g.below(120);
    out->push_back(o);
  }
  int64_t prec() {
    if (many && g.chance(20)) return (int64_t)g.below(10000);
    switch (g.below(8)) {
      case 0: return (int64_t)g.below(4);
      case 1: return 52 + (int64_t)g.below(4);
      case 2: return 64 * (int64_t)(1 + g.below(10)) + g.range(-2, 2);
      case 3: return 32 * (int64_t)(1 + g.below(20)) + g.range(-2, 2);
      case 4: return g.chance(6) ? (int64_t)g.below(20000) : (int64_t)g.below(maxPrec);
      case 5: return thorough ? (int64_t)g.below(maxPrec * 4) : (int64_t)g.below(maxPrec);
      default: return (int64_t)g.below(160);
    }
  }
  int64_t small() { return g.range(-9, 9); }
  int64_t value() {
    switch (g.below(8)) {
      case 0: return 0;
      case 1: return g.chance(50) ? 1 : -1;
      case 2: return (int64_t)(1ull << g.below(62)) * (g.chance(50) ? 1 : -1) + g.range(-1, 1);
      case 3: return (int64_t)g.next() >> g.below(63);
      case 4: return g.range(-1000, 1000);
      default: return small();
    }
  }
  int64_t integer() {    // of machine types, including the limits
    switch (g.below(6)) {
      case 0: { static const int64_t lim[] = {0, 1, -1, 32767, -32768, 32768, 65535, 65536, 2147483647ll, -2147483648ll, 2147483648ll, 4294967295ll, 4294967296ll, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};
        return lim[g.below(sizeof lim / sizeof *lim)]; }
      default: return value();
    }
  }
  // (and some whose digits start with up to 32 zeros or ones)
  int64_t plainSeed() {
    if (g.chance(4)) return (int64_t)(0xffffffffu - g.below(3));
    static const int64_t extreme[] = {1393134103, 3540617751, 3635385811, 955421873, 451677628, 1252381709, 114440218, 331239257, 409204152, 117835655, 37279302, 19311485};
    if (g.chance(5)) return extreme[g.below(sizeof extreme / sizeof *extreme)];
    return (int64_t)g.below(seedPool);
  }
  int64_t constrainedSeed() {
    static const int64_t extreme[] = {3102905521, 1487902163, 964208034, 1757305591, 687759385, 1744537470, 25446638, 484792163, 494181104, 331339151, 75003854, 30328124};
    if (overlap) return plainSeed();
    if (g.chance(7)) return extreme[g.below(sizeof extreme / sizeof *extreme)];
    return 5000 + (int64_t)g.below(seedPool);
  }
  int64_t doubleBits(bool huge = true) {
    double x;
    switch (g.below(8)) {
      case 0: x = (double)g.range(-20, 20); if (x == 0) x = 1; break;
      case 1: x = huge && g.chance(15) ? std::ldexp(1.0 + (double)g.below(4), (int)g.range(-1074, -1020)) : huge && g.chance(8) ? std::numeric_limits<double>::max() : std::ldexp(1.0, (int)g.range(-80, 80)); break;
      case 2: x = std::ldexp((double)g.range(1, 100000), (int)g.range(-20, 5)); break;
      case 3: x = std::nextafter(std::ldexp(1.0, (int)g.range(-60, 60)), g.chance(50) ? 0 : 1e300); break;
      case 4: x = std::ldexp((double)(int64_t)(g.next() >> 11 | 1), huge ? (int)g.range(-900, 900) : (int)g.range(-80, 80)); break;
      default: x = std::ldexp((double)(int64_t)(g.next() >> 11 | 1), (int)g.range(-70, 10)); break;
    }
    if (g.chance(40)) x = -x;
    int64_t b;
    memcpy(&b, &x, 8);
    return b;
  }
  // an interval m1·2^e1 m2·2^e2
  A interval() {
    auto mant = [&] { return g.chance(50) ? g.range(-20, 20) : (int64_t)g.next() >> (4 + g.below(56)); };
    int64_t e = g.chance(60) ? g.range(-8, 4) : g.chance(4) ? g.range(-70000, 70000) : g.range(-90, 90);
    switch (g.below(12)) {
      case 0: { if (g.chance(50)) return {0, 0, 1, 0}; e = g.range(-3, 3); return {0, e, 1, e}; }
      case 8: { if (g.chance(30)) { e = g.range(-1, 2); int64_t x = g.range(-3, 0); return {x, e, x + 1 + (int64_t)g.below(4), e}; } int64_t x = g.range(-6, 5); return {x, e, x + 1 + (int64_t)g.below(7), e}; }   // every cell is likely
      case 1: { int64_t x = mant(); return {x, e, x + 1, e}; }
      case 2: { int64_t x = 1 + std::llabs(mant()) % 1000000; return {-x, e, x, e}; }
      case 3: { int64_t x = 1 + std::llabs(mant()) % (g.chance(50) ? 3 : 1000000); return {0, 0, x, e}; }
      case 4: { int64_t x = 1 + std::llabs(mant()) % 1000000; return {-x, e, 0, 0}; }
      case 5: { int64_t x = mant(); return {x, e, 2 * x + 1, e - 1}; }
      case 6: return {mant(), e, mant(), g.range(-90, 90)};     // possibly empty
      case 7: { int64_t x = g.range(-1000, 1000); int64_t k = 1 + (int64_t)g.below(55); return {x << k, e - k, (x << k) + 1, e - k}; }   // short, after many common digits
      default: { int64_t x = mant() >> 2, y = mant() >> 2; if (x == y) y++; return {std::min(x, y), e, std::max(x, y), e}; }
    }
  }
  void con(int64_t d, bool def = false) {
    A a = interval();
    emit("r.con", {d, a[0], a[1], a[2], a[3], constrainedSeed(), def ? 1 : 0}, !def);
  }
  // in an interval multiplied with a power of two whose exponent needs more than 32 bits
  void far() {
    A a = interval();
    a.push_back(constrainedSeed());
    int64_t e = g.chance(60) ? (1ll << (31 + g.below(2))) + g.range(-3, 100) : (1ll << (33 + g.below(28))) + (int64_t)g.below(1000);
    a.insert(a.end(), {g.chance(50) ? e : -e, (int64_t)g.below(g.chance(80) ? 200 : 3000), (int64_t)g.below(4)});
    emit("r.far", a);
  }
  // the n-th power of slot x
  void power(int64_t d, int64_t x, int n) {
    if (d == x) return;
    int bit = 0;
    while (n >> (bit + 1)) bit++;
    bool first = true;
    while (bit-- > 0) {
      if (first) emit("r.mul", {d, x, x}, true);
      else emit("r.mul", {d, d, d}, true);
      first = false;
      if ((n >> bit) & 1) emit("r.mul", {d, d, x}, true);
    }
  }
  // a real number
  int64_t near(int least = 1) { if (g.chance(3)) return 5000 + (int64_t)g.below(15000); return g.chance(60) ? least + (int64_t)g.below(150) : g.chance(80) ? least + (int64_t)g.below(1200) : least + (int64_t)g.below(5000); }
  void mid(int64_t d) {
    const int64_t e = g.chance(50) ? g.range(-60, 10) : g.chance(50) ? -1022 + g.range(-52, 52) : g.range(-1070, 960);
    emit("r.mid", {d, g.chance(30) ? g.range(-3, 3) : (int64_t)g.next(), e, near(), g.range(-2, 2), (int64_t)g.below(4), constrainedSeed()}, true);
  }
  void close(int64_t d, int64_t x) { emit("r.close", {d, x, near(2), g.range(-2, 2), (int64_t)g.below(4), constrainedSeed()}, true); }
  // approximations of the same number in two of its lives
  void twice(int64_t d) {
    const size_t from = out->size();
    real(d, 15);
    const std::vector<Op> made(out->begin() + (long)from, out->end());
    static const int64_t typical[] = {0, 1, 2, 53, 54, 55, 63, 64, 65, 66, 67, 127, 128, 129};
    std::vector<int64_t> ps;
    for (int i = 0, n = 2 + (int)g.below(4); i < n; i++) ps.push_back(g.chance(70) ? typical[g.below(14)] : prec());
    for (auto p : ps) emit(g.chance(80) ? "r.arf" : "r.arb", {d, p});
    if (g.chance(30)) emit("r.double", {d});
    emit("r.drop", {d});
    if (g.chance(20)) emit("w.drop", {3});
    for (auto op : made) { op.allocFault = 0; out->push_back(op); }
    while (!ps.empty()) {
      const size_t i = g.below(ps.size());
      emit("r.arf", {d, ps[i]});
      ps.erase(ps.begin() + (long)i);
    }
  }
  void real(int64_t d, int rationals = 25) {
    if (g.chance(3)) { if (g.chance(50)) mid(d); else close(d, r()); return; }
    if (g.chance(2)) { power(d, r(), 2 + (int)g.below(g.chance(80) ? 14 : 40)); return; }
    if (g.chance(rationals)) {
      if (g.chance(25)) emit("r.ratbig", {d, (int64_t)g.below(200), value(), (int64_t)g.below(200), value()}, true);
      else if (g.chance(30)) emit("r.rat", {d, g.chance(80), 1}, true);
      else emit("r.rat", {d, value(), g.chance(50) ? 1 : 1 + (int64_t)g.below(50)}, true);
      return;
    }
    switch (g.below(10)) {
      case 0: con(d); break;
      case 1: emit("r.dbl", {d, doubleBits(), constrainedSeed()}, true); break;
      case 2: con(d); break;
      case 3: emit("r.mul", {d, r(), r()}, true); break;
      case 4: if (!explicitSeeds && (overlap || g.chance(30))) { emit("r.def", {d}, false); break; }
      [[fallthrough]];
      default: emit("r.rand", {d, plainSeed()}, true); break;
    }
  }
  // generators which are independent of each other
  void generator(int64_t d) {
    switch (g.below(8)) {
      case 0:
        if (otherRational && g.chance(80)) otherGenerator(d);
        else emit("r.rat", {d, 1, 1}, true);
        break;
      case 1: { A a = interval(); emit("r.con", {d, a[0], a[1], a[2], a[3], 6000 + d, 0}, true); break; }
      case 2: emit("r.dbl", {d, doubleBits(false), 7000 + d}, true); break;
      case 3: emit("r.mul", {d, r(), r()}, true); break;
      default: emit("r.rand", {d, plainSeed()}, true); break;
    }
  }

  // --------------------------------------------------------------- elements
  int64_t field() { return fieldPool.empty() ? (int64_t)g.below(5) : g.pick(fieldPool); }
  std::vector<int64_t> fieldPool;
  void module(const std::string& p, int64_t d) {
    A a{d, p == "k" ? field() : (g.chance(50) ? 0 : -1)};
    if (p == "k" && g.chance(15)) a[1] = 0;
    if (otherRational) a[1] = (a[1] < 0 ? 0 : a[1]) | 1 << 20;
    // sometimes the same generators again: the same module, in another order, or over another field
    if (!generators.empty() && g.chance(20)) a.insert(a.end(), generators.begin(), generators.end());
    else {
      int64_t n = g.chance(10) ? 0 : 1 + (int64_t)g.below(g.chance(8) ? 8 : 4);
      for (int64_t i = 0; i < n; i++) a.push_back(r());
    }
    generators.assign(a.begin() + 2, a.end());
    emit(p + ".mk", a, true);
  }
  A generators;
  // (almost) the same generators over two rings, and what combines elements of both
  void twins(const std::string& p) {
    A gens = generators;
    if (gens.empty() || g.chance(60)) {
      gens.clear();
      for (int64_t i = 0, n = 1 + (int64_t)g.below(6); i < n; i++) gens.push_back(r());
    }
    const int64_t i = m(), j = m(), x = e(), y = e();
    const bool flat = g.chance(60);
    for (int t = 0; t < 2; t++) {
      A a{t ? j : i, p == "k" ? (flat && g.chance(50) ? 0 : field()) : (g.chance(50) ? 0 : -1)};
      if (otherRational) a[1] = (a[1] < 0 ? 0 : a[1]) | 1 << 20;
      A own = gens;
      if (g.chance(30)) std::swap(own[0], own[g.below(own.size())]);
      if (g.chance(15)) own.pop_back();
      if (g.chance(15)) own.push_back(r());
      a.insert(a.end(), own.begin(), own.end());
      emit(p + ".mk", a, true);
      A el{t ? y : x, t ? j : i};
      for (size_t k = 0; k < own.size(); k++) coefficient(el);
      emit(p + ".el", el, true);
    }
    for (int k = 0, n = 1 + (int)g.below(4); k < n; k++) {
      const bool flip = g.chance(50);
      const int64_t u = flip ? y : x, v = flip ? x : y, d = g.chance(80) ? e() : u;
      switch (g.below(8)) {
        case 0: case 1: emit(p + ".add", {d, u, v, (int64_t)g.below(3)}, true); break;
        case 2: emit(p + ".sbt", {d, u, v, (int64_t)g.below(3)}, true); break;
        case 3: emit(p + ".mul", {d, u, v, (int64_t)g.below(3)}, true); break;
        case 4: emit(p + ".tdiv", {d, u, v}, true); break;
        case 5: emit(p + ".cmp", {u, v}, true); break;
        case 6: emit(p + ".span", {m(), i, j}, true); break;
        default: emit(p + ".sub", {flip ? i : j, flip ? j : i}, true); break;
      }
    }
  }
  void coefficient(A& a) {
    a.push_back(smallInts ? small() : g.chance(25) ? 0 : g.chance(70) ? small() : value());
    a.push_back(smallInts ? 0 : g.chance(70) ? (int64_t)g.below(5) : g.chance(50) ? small() : (int64_t)g.below(190));
    a.push_back(g.chance(50) ? 0 : small());
    a.push_back(g.chance(50) ? 1 : close());
  }
  // a small denominator, or something close to an integer
  int64_t close() { return !smallInts && g.chance(8) ? 100 + (int64_t)g.below(g.chance(60) ? 80 : 400) : 1 + (int64_t)g.below(12); }
  // the functions of the coefficient rings
  void ring(const std::string& p) {
    int64_t f = p == "k" ? field() : 0;
    A a{f};
    coefficient(a);
    if (g.chance(30)) a.back() = 100 + (int64_t)g.below(400);
    a.insert(a.end(), {p == "k" && g.chance(50) ? field() : f, (int64_t)g.below(11), g.chance(60) ? g.range(-9, 9) : integer(), (int64_t)g.below(g.chance(80) ? 200 : 2000), (int64_t)g.below(2)});
    emit(p + ".ring", a);
  }
  bool many = false;   // modules with many generators
  void wideElement(const std::string& p, int64_t d) {
    emit(p + ".wel", {d, (int64_t)g.below(3), (int64_t)g.below(1000), g.chance(40) ? 1 + (int64_t)g.below(8) : g.chance(50) ? 100 : (int64_t)g.below(100)}, true);
  }
  void element(const std::string& p, int64_t d) {
    if (many && g.chance(30)) return wideElement(p, d);
    switch (g.below(8)) {
      case 0: emit(p + ".gen", {d, m(), (int64_t)g.below(5)}, true); break;
      case 1: { A a{d}; coefficient(a); a.push_back(p == "k" ? field() : 0); emit(p + ".lit", a, true); break; }
      case 2: emit(p + ".zero", {d, m()}, true); break;
      default: {
        A a{d, m()};
        int64_t n = 1 + (int64_t)g.below(g.chance(10) ? 8 : 4);
        for (int64_t i = 0; i < n; i++) coefficient(a);
        emit(p + ".el", a, true);
      }
    }
  }
  void arithmetic(const std::string& p, bool failing = false) {
    int64_t d = e();
    int64_t type = (int64_t)g.below(11), mode = (int64_t)g.below(4);
    switch (g.below(failing ? 16 : 14)) {
      case 0: case 1: case 2: emit(p + ".add", {d, e(), e(), (int64_t)g.below(3)}, true); break;
      case 3: case 4: emit(p + ".sbt", {d, e(), e(), (int64_t)g.below(3)}, true); break;
      case 5: case 6: emit(p + ".mul", {d, e(), e(), (int64_t)g.below(3)}, true); break;
      case 7: emit(p + ".neg", {d, e()}, true); break;
      case 8: emit(p + ".mulr", {d, e(), r(), (int64_t)g.below(4)}, true); break;
      case 9: emit(p + ".smul", {d, e(), type, mode, integer(), (int64_t)g.below(100), small(), 1 + (int64_t)g.below(9)}, true); break;
      case 10: emit(p + ".sdiv", {d, e(), type, mode, g.chance(60) ? g.range(-4, 4) : integer(), (int64_t)g.below(100), small(), 1 + (int64_t)g.below(9)}, true); break;
      case 11: emit(p + ".tdiv", {d, e(), e()}, true); break;
      case 12: {
        // a quotient that exists
        int64_t x = e(), y = e();
        if (g.chance(30)) { multiples(p, d, x); emit(p + ".tdiv", {e(), d, x}, true); break; }
        emit(p + ".mul", {d, x, y, 0}, true);
        emit(p + ".tdiv", {e(), d, g.chance(50) ? x : y}, true);
        break;
      }
      case 13: emit(p + ".cp", {d, e(), (int64_t)g.below(2)}, true); break;
      case 14: emit(p + ".sdiv", {d, e(), type, mode, g.chance(50) ? 0 : g.range(2, 7), 0, 0, 1}, true); break;
      default: emit(p + ".tdiv", {d, e(), e()}, true); break;
    }
  }
  void represent(const std::string& p) {
    switch (g.below(8)) {
      case 0: emit(p + ".prom", {e(), m()}, true); break;
      case 1: emit(p + ".simp", {e()}, true); break;
      case 2: emit(p + ".mofe", {m(), e()}, false); break;
      case 3: emit(p + ".span", {m(), m(), m()}, true); break;
      case 4: emit(p + ".sub", {m(), m()}, true); break;
      case 5: emit(p + ".mv", {e(), e(), (int64_t)g.below(2)}, false); break;
      case 6: emit(p + ".swap", {e(), e()}, false); break;
      default: emit(p + ".mcp", {m(), m()}, false); break;
    }
  }
  void forget(const std::string& p) {
    switch (g.below(6)) {
      case 0: emit(p + ".mdrop", {m()}); break;
      case 1: emit(p + ".drop", {e()}); break;
      case 2: emit("r.drop", {r()}); break;
      case 3: if (g.chance(30)) emit("w.drop", {(int64_t)g.below(4)}); break;
      default: emit("r.drop", {r()}); break;
    }
  }
  void multiples(const std::string& p, int64_t d, int64_t x) {
    A a{d, x, g.chance(15) ? 100 + (int64_t)g.below(g.chance(50) ? 60 : 400) : g.chance(65) ? 1 : 2 + (int64_t)g.below(5)};
    int64_t k = g.chance(70) ? g.range(-5, 9) : value();
    for (int i = 0, n = 4 + (int)g.below(5); i < n; i++) a.push_back(g.chance(80) ? k : g.chance(70) ? k + g.range(-2, 2) : small());
    emit(p + ".mult", a, true);
  }
  void convert(const std::string& p) {
    switch (g.below(6)) {
      case 1: { int64_t d = e(), x = e(); multiples(p, d, x); emit(p + ".fdiv", {d, x}, true); break; }
      case 2: {
        int64_t x = e(), y = e();
        emit(p + ".tiny", {y, e(), g.chance(60) ? 1 + (int64_t)g.below(150) : (int64_t)g.below(700), g.range(-1, 1)}, true);
        emit(p + ".fdiv", {x, y}, true);
        break;
      }
      case 0: emit(p + ".fdiv", {e(), e()}, true); break;
      default: emit(p + ".conv", {e(), g.chance(50) ? 0 : 1 + (int64_t)g.below(63)}, true); break;
    }
  }
  void compare(const std::string& p) {
    int64_t bits = g.chance(70) ? 1 + (int64_t)g.below(120) : g.chance(90) ? 1 + (int64_t)g.below(thorough ? 2000 : 400) : 1 + (int64_t)g.below(10000);
    switch (g.below(7)) {
      case 0: case 1: emit(p + ".cmp", {e(), e()}, true); break;
      case 2:
        if (g.chance(40)) emit(p + ".cmpr", {e(), r()}, true);
        else {
          int64_t x = e();
          if (g.chance(50)) emit(p + ".gen", {x, m(), (int64_t)g.below(5)}, true);
          emit(p + ".cmpr", {x, 0, 1 + (int64_t)g.below(12)}, true);
        }
        break;
      case 3: emit(p + ".cmpq", {e(), bits, g.range(-2, 2), g.chance(50) ? 0 : (int64_t)g.below(1000), (int64_t)g.chance(30)}, true); break;
      case 4: emit(p + ".cmpz", {e(), g.range(-1, 2)}, true); break;
      case 5: emit(p + ".cmpi", {e(), (int64_t)g.below(8), g.chance(60) ? g.range(-1, 2) : integer(), (int64_t)g.chance(60)}, true); break;
      default: emit(p + ".tiny", {e(), e(), bits, g.range(-1, 1)}, true); break;
    }
  }
  // values which are close to integers, to doubles, or to the middle between doubles
  void edge(const std::string& p) {
    int64_t exp;
    switch (g.below(6)) {
      case 0: exp = 0; break;
      case 1: exp = -1 - (int64_t)g.below(3); break;
      case 2: exp = -1072 - (int64_t)g.below(6); break;
      case 3: exp = 968 + (int64_t)g.below(6); break;
      default: exp = g.range(-60, 60); break;
    }
    int64_t m = g.chance(50) ? (int64_t)(g.next() >> 10 | (g.chance(70) ? 1ull : 0ull) | 1ull << 53) : g.chance(20) ? (1ll << 54) - g.range(-1, 3) : (int64_t)g.next() >> (10 + g.below(54));
    if (g.chance(40)) m = -m;
    int64_t d = e();
    emit(p + ".edge", {d, e(), m, exp, g.chance(70) ? 2 + (int64_t)g.below(150) : g.chance(4) ? 4000 + (int64_t)g.below(14000) : (int64_t)g.below(thorough ? 4000 : 900), g.range(-2, 2), (int64_t)g.below(4)}, true);
    if (g.chance(70)) emit(p + ".conv", {d, 0}, true);
  }
  void compareReal() {
    if (g.chance(2)) { emit("r.cmpn", {r(), (int64_t)g.below(6)}, true); return; }
    int64_t bits = g.chance(70) ? 1 + (int64_t)g.below(150) : g.chance(90) ? 1 + (int64_t)g.below(thorough ? 4000 : 800) : 1 + (int64_t)g.below(20000);
    switch (g.below(6)) {
      case 0: case 1: {
        const int64_t x = r(), y = r();
        if (g.chance(15)) close(x, y);
        emit("r.lt", {x, y}, true);
        break;
      }
      case 2:
        if (g.chance(60)) emit("r.cmpf", {r(), bits, g.range(-2, 2)}, true);
        else emit("r.cmpf", {r(), g.range(-2, 2), g.range(-1, 1), 1 + (int64_t)g.below(2)}, true);   // as many bits as a rational has
        break;
      case 3: emit("r.cmpq", {r(), bits, g.range(-2, 2), g.chance(50) ? 0 : (int64_t)g.below(1000)}, true); break;
      case 4: emit("r.cmpz", {r(), g.range(-1, 2)}); break;
      default: emit("r.cmpi", {r(), (int64_t)g.below(3), g.chance(50) ? g.range(-2, 2) : integer()}); break;
    }
  }
  void approximate() {
    if (g.chance(75)) emit("r.arf", {r(), prec()}, true);
    else emit("r.sweep", {r(), g.chance(50) ? 0 : prec(), 1 + (int64_t)g.below(thorough ? 200 : 70), g.chance(70) ? 1 : g.range(-1, 64)}, true);
  }
  void enclose() {
    if (g.chance(2)) { emit("r.cmpn", {r(), 3 + (int64_t)g.below(3)}, true); return; }
    int64_t bits = g.chance(10) ? 0 : g.chance(70) ? 1 + (int64_t)g.below(120) : g.chance(85) ? 1 + (int64_t)g.below(600) : 1 + (int64_t)g.below(9000);
    switch (g.below(4)) {
      case 0: emit("r.arb", {r(), prec()}, true); break;
      case 1: emit("r.refine", {r(), bits, g.range(-3, 3), g.chance(50) ? 0 : (int64_t)g.below(1000), g.chance(70) ? prec() : bits + g.range(-20, 1000)}, true); break;
      default: emit("r.ballcmp", {r(), std::max<int64_t>(1, bits), g.range(-3, 3), g.chance(30) ? 0 : (int64_t)g.below(6)}, true); break;
    }
  }

  // ----------------------------------------------------------------- floats
  int64_t fprec() {
    switch (g.below(9)) {
      case 0: return -1;
      case 1: return 2 + (int64_t)g.below(4);
      case 2: return 24;
      case 3: return 53;
      case 4: return 64;
      case 5: return 60 + (int64_t)g.below(10);
      case 6: return 2 + (int64_t)g.below(thorough ? 3000 : 500);
      default: return 2 + (int64_t)g.below(130);
    }
  }
  int64_t rnd() { return (int64_t)g.below(5); }
  int64_t exponent() {
    switch (g.below(8)) {
      case 0: return 0;
      case 1: return g.range(-70, 70);
      case 2: return g.range(-1100, 1100);
      case 3: return g.chance(30) ? g.range(-(1ll << 40), 1ll << 40) : g.range(-64, 64);
      default: return g.range(-20, 20);
    }
  }
  int64_t mantissaBits() { return g.chance(60) ? 1 + (int64_t)g.below(70) : g.chance(70) ? 1 + (int64_t)g.below(200) : 1 + (int64_t)g.below(thorough ? 2500 : 600); }
  void makeFloat(int64_t d) {
    if (g.chance(2)) { emit("f.rnd", {d, (int64_t)g.below(50), (int64_t)g.below(400), (int64_t)g.below(9)}); return; }
    switch (g.below(8)) {
      case 0: emit("f.int", {d, integer(), (int64_t)g.below(4)}); break;
      case 1: {
        int64_t bits = doubleBits();
        static const uint64_t special[] = {0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7fefffffffffffffull, 0x0010000000000000ull, 0x3ff0000000000000ull, 0x7ff8000000000000ull};
        if (g.chance(25)) bits = (int64_t)special[g.below(8)];
        emit("f.dbl", {d, bits, (int64_t)g.below(2)});
        break;
      }
      default: emit("f.set", {d, mantissaBits(), (int64_t)g.below(100000), (int64_t)g.below(2), exponent(), (int64_t)g.below(3)}); break;
    }
  }
  void moveFloat() {
    switch (g.below(6)) {
      case 0: case 1: emit("f.cp", {f(), f(), (int64_t)g.below(2)}); break;
      case 2: emit("f.mv", {f(), f(), (int64_t)g.below(2)}); break;
      case 3: emit("f.swap", {f(), f(), (int64_t)g.below(2)}); break;
      case 4: emit("f.drop", {f()}); break;
      default: emit("f.neg", {f(), f(), (int64_t)g.below(3)}); break;
    }
  }
  void computeFloat() {
    int64_t d = f(), a = f(), b = f(), c = f();
    // aliases
    if (g.chance(25)) a = d;
    if (g.chance(25)) b = g.chance(50) ? d : a;
    if (g.chance(25)) c = g.chance(50) ? d : b;
    switch (g.below(8)) {
      case 0: case 1: emit("f.bin", {d, a, b, (int64_t)g.below(4), fprec(), rnd(), (int64_t)g.below(7)}); break;
      case 2: case 3: emit("f.inp", {d, b, c, (int64_t)g.below(4), fprec(), rnd(), (int64_t)g.below(4)}); break;
      case 4: emit("f.shift", {d, a, exponent(), (int64_t)g.below(4)}); break;
      default: emit("f.exp", {d, a, b, c, (int64_t)g.below(16), fprec(), rnd(), fprec(), rnd(), g.chance(50) ? small() : integer()}); break;
    }
  }
  void judgeFloat() {
    switch (g.below(4)) {
      case 0: emit("f.cmp", {f(), f()}); break;
      case 1: emit("f.cmpl", {f(), g.chance(50) ? g.range(-2, 2) : integer(), (int64_t)g.chance(60)}); break;
      default: emit("f.conv", {f()}); break;
    }
  }
  // ------------------------------------------------------------------ balls
  void makeBall(int64_t d) {
    if (g.chance(2)) { emit("b.rnd", {d, (int64_t)g.below(50), (int64_t)g.below(400), (int64_t)g.below(9), (int64_t)g.below(2)}); return; }
    switch (g.below(12)) {
      case 0: emit("b.int", {d, (int64_t)g.below(8), integer(), (int64_t)g.below(2)}); break;
      case 1: emit("b.mpz", {d, mantissaBits(), (int64_t)g.below(100000), (int64_t)g.below(8)}); break;
      case 2: case 3: emit("b.mpq", {d, mantissaBits(), (int64_t)g.below(100000), mantissaBits(), (int64_t)g.below(100000), fprec(), (int64_t)g.below(2)}); break;
      case 4: emit("b.arf", {d, f()}); break;
      case 5: case 6: { int64_t x = f(), y = f(), p = fprec(); emit("b.pair", {d, x, y, p}); emit("b.pair", {d, y, x, p}); break; }
      case 7: emit("b.str", {d, g.chance(50) ? small() : value(), (int64_t)g.below(20), g.chance(30) ? 0 : (int64_t)g.below(1000), (int64_t)g.below(20), fprec()}); break;
      case 8: emit("b.renf", {d, field(), small(), small(), small(), 1 + (int64_t)g.below(9), fprec(), (int64_t)g.below(2)}); break;
      case 9: emit("b.const", {d, (int64_t)g.below(7), (int64_t)g.below(8) == 0}); break;
      default: emit("b.ball", {d, g.chance(30) ? 0 : value(), g.range(-70, 20), g.chance(20) ? 0 : (int64_t)g.below(1ull << (1 + g.below(30))), g.range(-70, 10)}); break;
    }
  }
  void moveBall() {
    switch (g.below(6)) {
      case 0: case 1: emit("b.cp", {b(), b(), (int64_t)g.below(2)}); break;
      case 2: emit("b.mv", {b(), b(), (int64_t)g.below(2)}); break;
      case 3: emit("b.swap", {b(), b(), (int64_t)g.below(2)}); break;
      case 4: emit("b.drop", {b()}); break;
      default: emit("b.neg", {b(), b()}); break;
    }
  }
  void computeBall() {
    int64_t d = b(), x = b(), y = b(), z = b();
    if (g.chance(25)) x = d;
    if (g.chance(25)) y = g.chance(50) ? d : x;
    if (g.chance(25)) z = g.chance(50) ? d : y;
    switch (g.below(6)) {
      case 0: case 1: emit("b.bin", {d, x, y, (int64_t)g.below(4), fprec(), (int64_t)g.below(6)}); break;
      case 2: case 3: emit("b.inp", {d, y, z, (int64_t)g.below(4), fprec(), (int64_t)g.below(3)}); break;
      default: emit("b.exp", {d, x, y, z, (int64_t)g.below(20), fprec(), fprec(), g.chance(50) ? small() : integer(), f()}); break;
    }
  }
  void judgeBall() {
    if (g.chance(3)) { emit("b.unb", {(int64_t)g.below(5), b(), (int64_t)g.below(5), g.chance(50) ? g.range(-2, 2) : small()}); return; }
    switch (g.below(5)) {
      case 0: emit("b.cmp", {b(), b()}); break;
      case 1: emit("b.cmpi", {b(), (int64_t)g.below(8), g.chance(50) ? g.range(-2, 2) : integer(), (int64_t)g.below(4)}); break;
      case 2: emit("b.cmpq", {b(), (int64_t)g.below(5), g.chance(40) ? 0 : small(), g.chance(50) ? 1 : 1 + (int64_t)g.below(1000)}); break;
      default: emit("b.conv", {b()}); break;
    }
  }

  // --------------------------------------------------------------- archives
  int64_t diskMode(int failing) { return g.chance(failing) ? 1 + (int64_t)g.below(3) : 0; }
  int64_t diskAt() { return g.chance(30) ? (int64_t)g.below(64) : g.chance(60) ? (int64_t)g.below(1200) : (int64_t)g.below(6000); }
  int64_t format() { return g.chance(12) ? 3 : (int64_t)g.below(3); }
  int64_t kindOfItem() { return (int64_t)g.below(22); }
  void save(int failing) {
    A a{(int64_t)g.below(3), format(), diskMode(failing), diskAt()};
    int64_t n = 1 + (int64_t)g.below(archiveItems);
    bool few = g.chance(40);     // the same few slots again and again
    int64_t s0 = e(), s1 = e(), kind = (int64_t)kindOfItem();
    for (int64_t i = 0; i < n; i++) {
      if (few && i && g.chance(70)) {
        if (g.chance(30)) kind = (int64_t)kindOfItem();
        a.push_back(kind);
        a.push_back(g.chance(50) ? s0 : s1);
        a.push_back(g.chance(50) ? s0 : s1);
      } else {
        a.push_back((int64_t)kindOfItem());
        a.push_back(s0 = (g.chance(50) ? e() : r()));
        a.push_back(s1 = (g.chance(50) ? e() : r()));
        kind = a[a.size() - 3];
      }
    }
    emit("w.save", a, true);
  }
  void load(int failing) {
    A a{(int64_t)g.below(3), diskMode(failing), diskAt(), (int64_t)g.below(2), (int64_t)g.below(2)};
    for (int64_t i = 0, n = 1 + (int64_t)g.below(4); i < n; i++) a.push_back(g.chance(50) ? e() : r());
    emit("w.load", a, true);
  }
  // The last operations go through the helpers for bindings.
  void viaHelper(size_t from) {
    for (size_t i = from; i < out->size(); i++) {
      auto& o = (*out)[i];
      const std::string n = o.name[0] == 'r' || o.name[0] == 'w' ? o.name : o.name.substr(2);
      size_t at = 0;
      if (n == "add" || n == "sbt" || n == "mul" || n == "mulr" || n == "smul" || n == "sdiv" || n == "tdiv" || n == "r.mul" || n == "r.div") at = 3;
      else if (n == "neg" || n == "conv" || n == "w.save") at = 2;
      else if (n == "w.load") at = 1;
      else continue;
      o.a.resize(std::max(o.a.size(), at + 1));
      o.a[at] += 100;
    }
  }
  void computeByHelper() {
    int64_t p = fprec(), d = f(), x = f(), y = f(), z = f();
    if (g.chance(25)) x = d;
    if (g.chance(25)) y = x;
    if (g.chance(50)) emit("h.arf", {d, x, y, z, (int64_t)g.below(8), p, rnd()});
    else emit("h.arb", {d, x, y, z, (int64_t)g.below(8), p});
  }
  // Products of numbers that are created in another order in every life, at
  // addresses in another order than their identifiers, and their archives.
  void savedProducts(const std::string& p, int rounds) {
    const int n = 2 + (int)g.below(4);
    std::vector<int> order;
    for (int i = 0; i < n; i++) order.push_back(i);
    auto factor = [&](int i) {
      if (i % 3 == 2) emit("r.con", {i, i, -1, i + 1, 0, 6000 + i, 0}, true);
      else emit("r.rand", {i, i % 2 ? i : i + 40}, true);
    };
    auto product = [&](int64_t d) {
      emit("r.mul", {d, (int64_t)g.below(n), (int64_t)g.below(n)}, true);
      if (g.chance(25)) for (int i = 0, k = 1 + (int)g.below(g.chance(50) ? 4 : 9); i < k; i++) emit("r.mul", {d, d, d}, true);
      for (int i = 0, k = (int)g.below(4); i < k; i++) emit("r.mul", {d, d, g.chance(80) ? (int64_t)g.below(n) : 6 + (int64_t)g.below(5)}, true);
    };
    if (g.chance(40)) emit("w.load", {(int64_t)g.below(2), 0, 0, 0, 0, 6 + (int64_t)g.below(4), 8, 9, 10}, true);
    for (int i = n; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
    // holes in the heap
    if (g.chance(60)) {
      int k = 1 + (int)g.below(n);
      for (int i = 0; i < k; i++) emit("r.rand", {11 + i % 5, 60 + (int64_t)g.below(9)});
      for (int i = 0; i < k; i++) emit("r.drop", {11 + (int64_t)g.below(5)});
    }
    for (int i : order) factor(i);
    for (int i = 0; i < rounds; i++) switch (g.below(9)) {
      case 0: case 1: product(6 + (int64_t)g.below(5)); break;
      case 2: case 3: {
        A a{(int64_t)g.below(2), format(), 0, 0};
        for (int k = 0, m = 1 + (int)g.below(3); k < m; k++) {
          static const int64_t types[] = {0, 0, 9, 16, 3, 6};
          a.push_back(types[g.below(6)]);
          bool real = a.back() == 0 || a.back() == 9 || a.back() == 16;
          a.push_back(real ? 6 + (int64_t)g.below(5) : (int64_t)g.below(2));
          a.push_back(g.chance(50) ? 6 + (int64_t)g.below(5) : (int64_t)g.below(n));
        }
        if (p == "q") for (size_t k = 4; k < a.size(); k += 3) if (a[k] == 3 || a[k] == 6) a[k]++;
        if (p == "k") for (size_t k = 4; k < a.size(); k += 3) if (a[k] == 3 || a[k] == 6) a[k] += 2;
        emit("w.save", a, true);
        break;
      }
      case 4: case 5: emit("w.load", {(int64_t)g.below(2), 0, 0, 0, (int64_t)g.below(2), 6 + (int64_t)g.below(4), 8, 9, 10}, true); break;
      case 6: {
        emit("r.drop", {g.chance(50) ? 6 + (int64_t)g.below(5) : (int64_t)g.below(n)});
        if (g.chance(50)) factor((int)g.below(n));
        break;
      }
      case 7: {
        A a{(int64_t)g.below(2), p == "k" ? field() : 0, 6 + (int64_t)g.below(5), 6 + (int64_t)g.below(5), (int64_t)g.below(n)};
        emit(p + ".mk", a, true);
        A b{(int64_t)g.below(2), (int64_t)g.below(2)};
        for (int k = 0; k < 3; k++) coefficient(b);
        emit(p + ".el", b, true);
        break;
      }
      default: emit(g.chance(50) ? "r.deg" : "r.div", g.chance(50) ? A{6 + (int64_t)g.below(5), 6 + (int64_t)g.below(5), (int64_t)g.below(n)} : A{6 + (int64_t)g.below(5), (int64_t)g.below(n), (int64_t)g.below(n)}, true);
    }
  }
  // Elements over the same few modules, in archives which are read when their
  // generators have been created in another order.
  void savedElements(const std::string& p, bool read) {
    const int ring = p == "z" ? 0 : p == "q" ? 1 : 2, n = 2 + (int)g.below(4);
    std::vector<int> order;
    for (int i = 0; i < n; i++) order.push_back(i);
    auto shuffle = [&] { for (int i = n; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]); };
    auto module = [&](int64_t d) {
      shuffle();
      A a{d, p == "k" ? (g.chance(85) ? 1 : field()) : 0};
      for (int i = 0, k = g.chance(70) ? n : 1 + (int)g.below(n); i < k; i++) a.push_back(order[i]);
      emit(p + ".mk", a, true);
    };
    auto element = [&](int64_t d) {
      A a{d, (int64_t)g.below(2)};
      for (int i = 0, k = 1 + (int)g.below(n); i < k; i++) coefficient(a);
      emit(p + ".el", a, true);
    };
    auto save = [&](int64_t file) {
      A a{file, format(), 0, 0};
      for (int i = 0, k = 2 + (int)g.below(4); i < k; i++) {
        static const int64_t types[] = {6, 6, 6, 13, 10, 3, 0};
        int64_t t = types[g.below(7)];
        a.push_back(t ? t + ring : 0);
        a.push_back(t == 3 ? (int64_t)g.below(2) : t ? (int64_t)g.below(5) : (int64_t)g.below(n));
        a.push_back((int64_t)g.below(5));
      }
      emit("w.save", a, true);
    };
    auto load = [&](int64_t file) { emit("w.load", {file, 0, 0, 0, (int64_t)g.below(2), (int64_t)g.below(10), (int64_t)g.below(10), (int64_t)g.below(10), (int64_t)g.below(10), (int64_t)g.below(10)}, true); };
    shuffle();
    for (int i : order) {
      if (read && g.chance(15)) continue;
      if (i % 3 == 2) emit("r.con", {i, i, -1, i + 1, 0, 6000 + i, 0}, true);
      else if (i % 3 == 1) emit("r.rand", {i, 100 + i}, true);
      else if (i == 0 && n > 3) emit("r.rat", {i, 1, 1});
      else emit("r.rand", {i, i}, true);
    }
    if (read) for (int i = 0, k = 1 + (int)g.below(2); i < k; i++) load(i ? (int64_t)g.below(2) : 0);
    module(0);
    if (g.chance(60)) module(1);
    for (int i = 0; i < 4; i++) element(i);
    save(0);
    for (int i = 0, k = (int)g.below(10); i < k; i++) switch (g.below(7)) {
      case 0: case 1: save((int64_t)g.below(2)); break;
      case 2: case 3: load((int64_t)g.below(2)); break;
      case 4: emit(p + ".drop", {(int64_t)g.below(10)}); break;
      case 5: if (g.chance(50)) emit("r.drop", {(int64_t)g.below(n)}); else emit(p + ".mdrop", {(int64_t)g.below(2)}); break;
      default: emit(p + (g.chance(50) ? ".add" : ".sbt"), {(int64_t)g.below(5), (int64_t)g.below(10), (int64_t)g.below(10), 0}, true); break;
    }
  }
  // Products whose hashes in the cache of products coincide.  (The hash is the
  // product of the identifiers of the factors modulo 2^64; identifiers are
  // handed out in order.  If they are not, these are just products.)
  // Many monomials in few indeterminates of about the same degree: their order
  // decides how modules and quotients are represented.
  void polynomials(const std::string& p, int rounds) {
    const int n = 2 + (int)g.below(4), first = n;
    std::vector<int> order;
    for (int i = 0; i < n; i++) order.push_back(i);
    for (int i = n; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
    for (int i : order) {
      if (g.chance(80)) emit("r.rand", {i, 80 + i}, true);
      else emit("r.con", {i, i, -1, i + 1, 0, 6100 + i, 0}, true);
    }
    const int degree = 2 + (int)g.below(6);
    A prefix;     // what most of them have in common
    for (int i = 0, k = (int)g.below(degree); i < k; i++) prefix.push_back((int64_t)g.below(n));
    auto monomial = [&](int64_t d) {
      A f = g.chance(70) ? prefix : A();
      while ((int)f.size() < degree) f.push_back((int64_t)g.below(n));
      if (g.chance(15)) f.pop_back();
      if (f.size() < 2) f.push_back(0);
      if (f.size() < 2) f.push_back(1);
      for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[g.below(i)]);
      emit("r.mul", {d, f[0], f[1]}, true);
      for (size_t i = 2; i < f.size(); i++) emit("r.mul", {d, d, f[i]}, true);
    };
    auto any = [&] { return g.chance(80) ? first + (int64_t)g.below(16 - first) : (int64_t)g.below(16); };
    for (int d = first; d < 16; d++) monomial(d);
    auto rows = [&](int64_t at, int k) {
      A a{at, p == "k" ? 1 + (int64_t)g.below(2) : 0};
      for (int i = 0; i < k; i++) a.push_back(any());
      return a;
    };
    for (int i = 0; i < 2; i++) emit(p + ".mk", rows(i, 2 + (int)g.below(3)), true);
    for (int i = 0; i < rounds; i++) switch (g.below(14)) {
      case 0: monomial(first + (int64_t)g.below(16 - first)); break;
      case 1: case 2: emit("r.deg", {any(), any(), any()}); break;
      case 3: emit("r.deg", {any(), any(), any()}); emit("r.div", {first + (int64_t)g.below(16 - first), any(), any()}, true); break;
      case 4: {
        // one module, generators in any order
        A a = rows((int64_t)g.below(6), 2 + (int)g.below(7));
        emit(p + ".mk", a, true);
        for (int k = 0; k < 2; k++) {
          for (size_t j = a.size() - 2; j > 1; j--) std::swap(a[1 + j], a[2 + g.below(j)]);
          a[0] = (int64_t)g.below(6);
          emit(p + ".mk", a, true);
        }
        break;
      }
      case 5: case 6: {
        A a{(int64_t)g.below(5), (int64_t)g.below(6)};
        for (int k = 0, m = 1 + (int)g.below(5); k < m; k++) coefficient(a);
        emit(p + ".el", a, true);
        break;
      }
      case 7: emit(p + ".add", {(int64_t)g.below(5), (int64_t)g.below(5), (int64_t)g.below(5), (int64_t)g.below(3)}, true); break;
      case 8: case 9: case 10: {
        int64_t d = 5 + (int64_t)g.below(5), x = (int64_t)g.below(5), y = (int64_t)g.below(5);
        emit(p + ".mul", {d, x, y, 0}, true);
        emit(p + ".tdiv", {5 + (int64_t)g.below(5), d, g.chance(50) ? x : y}, true);
        break;
      }
      case 11: emit(p + ".tdiv", {5 + (int64_t)g.below(5), g.chance(50) ? 5 + (int64_t)g.below(5) : (int64_t)g.below(5), (int64_t)g.below(5)}, true); break;
      case 12: emit(p + ".mulr", {(int64_t)g.below(5), (int64_t)g.below(5), any(), 0}, true); break;
      default:
        if (g.chance(50)) emit(p + ".simp", {e()}, true);
        else emit(p + ".span", {m(), m(), m()}, true);
    }
  }
  void collisions() {
    static const std::vector<std::array<std::vector<int>, 2>> known = {
      {{{9, 31, 45}, {13, 17, 59}}}, {{{10, 34, 43}, {16, 16, 59}}}, {{{10, 39, 39}, {14, 19, 59}}}, {{{7, 29, 49}, {9, 19, 61}}},
      {{{7, 13, 19, 29}, {9, 9, 25, 25}}}, {{{7, 17, 17, 34}, {9, 10, 25, 31}}}};
    const int base = g.chance(80) ? 6 : (int)g.below(12);   // identifiers used before the first operation
    const auto& pair = known[g.below(known.size())];
    std::vector<int> special;
    if (g.chance(50)) for (auto& side : pair) special.insert(special.end(), side.begin(), side.end());
    // identifiers that are divisible by a power of two: already moderate powers vanish
    else for (int i = 0, n = 2 + (int)g.below(3); i < n; i++) { static const int even[] = {21, 21, 37, 53, 53, 13, 29}; special.push_back(even[g.below(7)]); }
    for (int i = 0; i < 2; i++) special.push_back(base + (int)g.below(50));
    std::sort(special.begin(), special.end());
    special.erase(std::unique(special.begin(), special.end()), special.end());
    if (special.size() > 9) special.resize(9);
    int n = std::max(2, special.back() - base + 1);
    for (int i = 0; i < n; i++) {
      auto it = std::find(special.begin(), special.end(), base + i);
      emit("r.rand", {it == special.end() ? 15 : it - special.begin(), 9000 + i});
    }
    auto at = [&](int x) { return (int64_t)(std::find(special.begin(), special.end(), x) - special.begin()); };
    std::map<int64_t, int> degree;
    const int64_t first = (int64_t)special.size(), products = 15 - first;
    for (int i = 0; i < first; i++) degree[i] = 1;
    auto product = [&](int64_t d, int64_t x, int64_t y) {
      if (!degree.count(x) || !degree.count(y) || degree[x] + degree[y] > 80) return;
      degree[d] = degree[x] + degree[y];
      emit("r.mul", {d, x, y}, true);
    };
    for (int round = 0, rounds = 2 + (int)g.below(6); round < rounds; round++) {
      if (g.chance(40)) {
        // both sides of a known collision, in any order
        for (auto side : pair) {
          for (size_t i = side.size(); i > 1; i--) std::swap(side[i - 1], side[g.below(i)]);
          int64_t d = first + (int64_t)g.below(products), x = at(side[0]);
          for (size_t i = 1; i < side.size(); i++) { product(d, x, at(side[i])); x = d; }
        }
      } else {
        // a power, times small things
        int64_t d = first + (int64_t)g.below(products), x = (int64_t)g.below(first);
        product(d, x, g.chance(50) ? x : (int64_t)g.below(first));
        for (int i = 0, k = 1 + (int)g.below(5); i < k; i++) product(d, d, d);
        for (int i = 0, k = (int)g.below(5); i < k; i++) { int64_t e = first + (int64_t)g.below(products); product(e, d, (int64_t)g.below(15)); d = e; }
      }
      for (int i = 0, k = (int)g.below(4); i < k; i++) {
        int64_t d = first + (int64_t)g.below(products), x = (int64_t)g.below(15), y = (int64_t)g.below(g.chance(70) ? first : 15);
        if (!degree.count(x) || !degree.count(y)) continue;
        degree[d] = degree[x];
        emit("r.div", {d, x, y}, true);
        // and back
        if (g.chance(60)) product(first + (int64_t)g.below(products), d, y);
      }
      if (g.chance(30)) { int64_t d = first + (int64_t)g.below(products); degree.erase(d); emit("r.drop", {d}); }
      if (g.chance(20)) emit("r.arf", {(int64_t)g.below(15), prec()}, true);
    }
  }
  // ---------------------------------------------------------------- mixture
  // actions with weights, of which a random part is used
  struct Action {
    int weight;
    std::function<void()> f;
  };
  void mixture(const std::vector<Action>& all, int n) {
    std::vector<const Action*> use;
    std::vector<int> weight;
    int total = 0;
    for (size_t i = 0; i < all.size(); i++) {
      // the first actions create things: always used
      if (i >= 2 && g.chance(25)) continue;
      int w = all[i].weight * (1 + (int)g.below(4));
      use.push_back(&all[i]);
      weight.push_back(w);
      total += w;
    }
    for (int i = 0; i < n; i++) {
      int64_t x = (int64_t)g.below(total);
      size_t j = 0;
      while (x >= weight[j]) x -= weight[j++];
      use[j]->f();
    }
  }
  // Merge the programs of the clients
  void merge(std::vector<std::vector<Op>>& programs) {
    std::vector<size_t> at(programs.size(), 0);
    bool bursts = g.chance(50);
    size_t c = 0;
    for (;;) {
      std::vector<size_t> live;
      for (size_t i = 0; i < programs.size(); i++)
        if (at[i] < programs[i].size()) live.push_back(i);
      if (live.empty()) break;
      if (!bursts || g.chance(20) || at[c] >= programs[c].size()) c = g.pick(live);
      plan.ops.push_back(programs[c][at[c]++]);
    }
  }
  void life(int nclients, const std::function<void()>& program) {
    clients = nclients;
    std::vector<std::vector<Op>> programs(nclients);
    for (client = 0; client < nclients; client++) {
      out = &programs[client];
      program();
    }
    merge(programs);
  }
};

Plan alone(const std::string& property, uint64_t seed, bool thorough) {
  G G_(mix(seed, hashString(property)));
  G& g = G_;
  Rng& rng = g.g;
  g.thorough = thorough;
  g.plan.property = property;
  g.plan.seed = std::to_string(seed);
  auto& cfg = g.plan.cfg;
  cfg["heap"] = (int64_t)rng.below(5);
  cfg["heapseed"] = (int64_t)rng.below(1000);
  cfg["keep"] = rng.chance(50) ? 0 : 1 + (int64_t)rng.below(8);
  cfg["evictall"] = rng.chance(30);
  static const int64_t precs[] = {64, 2, 17, 53, 128, 320, 1000};
  cfg["embprec"] = precs[rng.below(7)];
  if (rng.chance(12)) {
    if (rng.chance(75)) cfg["locale"] = 1 + (int64_t)rng.below(3);
    if (rng.chance(75)) cfg["locale2"] = 1 + (int64_t)rng.below(3);
  }
  g.seedPool = 1 + (int)rng.below(rng.chance(50) ? 6 : 24);
  g.smallInts = rng.chance(30);
  g.many = rng.chance(4);
  g.faultPercent = rng.chance(40) ? 5 + (int)rng.below(30) : 0;
  int size = thorough ? 20 + (int)rng.below(160) : 12 + (int)rng.below(60);
  int clients = rng.chance(40) ? 1 : 2 + (int)rng.below(3);
  int lives = 1;
  std::vector<std::string> rings;
  for (const char* p : {"z", "q", "k"}) if (rng.chance(60)) rings.push_back(p);
  if (property == "C15" || rings.empty()) rings = {"k"};
  if (property == "C15" && rng.chance(30)) rings = {"k", "q", "z", "k", "k"};
  for (size_t i = 0, n = 1 + rng.below(3); i < n; i++) g.fieldPool.push_back((int64_t)rng.below(5));
  auto ring = [&] { return rng.pick(rings); };
  using Act = std::vector<G::Action>;
  Act acts;
  auto add = [&](int w, std::function<void()> f) { acts.push_back({w, f}); };
  // how the world of elements is populated
  std::function<void()> prologue = [] {};
  auto elements = [&](int wreal, int wmod, int wel) {
    add(wreal, [&] { g.generator(g.r()); });
    add(wmod, [&] { g.module(ring(), g.m()); });
    add(wel, [&] { g.element(ring(), g.e()); });
    prologue = [&] {
      for (int i = 0, n = 2 + (int)rng.below(3); i < n; i++) g.generator(g.r());
      for (auto& p : rings) {
        g.module(p, g.m());
        if (rng.chance(50)) g.module(p, g.m());
        for (int i = 0, n = 1 + (int)rng.below(3); i < n; i++) g.element(p, g.e());
      }
      if (g.many) {
        auto p = ring();
        const int64_t size = rng.chance(50) ? 28 + (int64_t)rng.below(8) : rng.chance(50) ? 60 + (int64_t)rng.below(10) : 8 + (int64_t)rng.below(120);
        for (int i = 0, n = 1 + (int)rng.below(3); i < n; i++) g.emit(p + ".wide", {i, p == "k" ? g.field() : 0, i ? size - (int64_t)rng.below(5) : size, (int64_t)rng.below(1000)}, true);
        for (int i = 0; i < 6; i++) g.wideElement(p, i);
      }
    };
  };

  if (property == "C01") {
    g.overlap = rng.chance(50);
    lives = rng.chance(25) ? 2 : 1;
    add(5, [&] { g.real(g.r()); });
    add(8, [&] { g.approximate(); });
    add(2, [&] { g.twice(g.r()); });
    add(2, [&] { g.emit("r.mul", {g.r(), g.r(), g.r()}, true); });
    add(1, [&] { g.emit("r.div", {g.r(), g.r(), g.r()}, true); });
    add(2, [&] { g.emit("r.drop", {g.r()}); });
    add(1, [&] { if (rng.chance(30)) g.emit("w.drop", {3}); });
    add(1, [&] { g.compareReal(); });
    add(1, [&] { g.enclose(); });
  } else if (property == "C02") {
    elements(3, 2, 3);
    add(8, [&] { g.enclose(); });
    add(4, [&] { g.emit(ring() + ".arb", {g.e(), g.prec()}, true); });
    add(2, [&] { g.arithmetic(ring()); });
    add(2, [&] { g.compare(ring()); });
    add(1, [&] { g.edge(ring()); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { g.forget(ring()); });
    add(2, [&] { g.real(g.r(), 20); });
    prologue = [&, prologue] { prologue(); for (int i = 0; i < 2; i++) g.real(g.r(), 40); };
  } else if (property == "C03") {
    elements(3, 2, 3);
    add(5, [&] { g.compareReal(); });
    add(6, [&] { g.compare(ring()); });
    add(1, [&] { g.edge(ring()); });
    add(2, [&] { g.arithmetic(ring()); });
    add(1, [&] { g.forget(ring()); });
    add(1, [&] { g.represent(ring()); });
    add(1, [&] { g.approximate(); });
    add(2, [&] { g.real(g.r(), 40); });
    add(1, [&] { g.emit("r.ratbig", {g.r(), (int64_t)rng.below(1000), g.value(), (int64_t)rng.below(rng.chance(50) ? 1000 : 8), g.value()}, true); });
  } else if (property == "C04") {
    g.overlap = rng.chance(50);
    g.faultPercent = rng.chance(60) ? 10 + (int)rng.below(40) : 0;
    add(6, [&] { g.real(g.r(), 30); });
    add(4, [&] { g.module(ring(), g.m()); });
    add(3, [&] { g.emit("r.mul", {g.r(), g.r(), g.r()}, true); });
    add(2, [&] { g.emit("r.div", {g.r(), g.r(), g.r()}, true); });
    add(3, [&] { g.emit("r.drop", {g.r()}); });
    add(2, [&] { g.emit(ring() + ".mdrop", {g.m()}); });
    add(1, [&] { if (rng.chance(40)) g.emit("w.drop", {(int64_t)rng.below(4)}); });
    add(1, [&] { g.emit("r.deg", {g.r(), g.r()}); });
    add(1, [&] { g.emit(ring() + ".bad", {g.r(), (int64_t)rng.below(2), g.small()}, true); });
    add(2, [&] { g.emit(ring() + ".span", {g.m(), g.m(), g.m()}, true); });
    add(1, [&] { g.emit(ring() + ".sub", {g.m(), g.m()}, true); });
    add(1, [&] { g.emit("r.cp", {g.r(), g.r()}); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { if (!g.overlap) g.element(ring(), g.e()); });
    add(1, [&] { if (!g.overlap) g.arithmetic(ring()); });
  } else if (property == "C05") {
    elements(2, 2, 4);
    add(12, [&] { g.arithmetic(ring()); });
    add(1, [&] { g.twins(ring()); });
    add(3, [&] { g.represent(ring()); });
    add(1, [&] { g.forget(ring()); });
    add(1, [&] { g.emit(ring() + ".conv", {g.e(), 48}, true); });
    add(1, [&] { auto p = ring(); if (p != "z") g.emit(p + ".fromz", {g.e(), g.e()}, true); });
    add(1, [&] { if (ring() == "k") g.emit("k.fromq", {g.e(), g.e()}, true); });
  } else if (property == "C06") {
    g.faultPercent = rng.chance(80) ? 20 + (int)rng.below(60) : 0;
    elements(2, 2, 4);
    add(12, [&] { g.arithmetic(ring(), true); });
    add(1, [&] { g.twins(ring()); });
    add(2, [&] { g.represent(ring()); });
    add(2, [&] { g.compare(ring()); });
    add(2, [&] { g.convert(ring()); });
    add(2, [&] { g.emit(ring() + ".bad", {g.r(), (int64_t)rng.below(2), g.small()}, true); });
    add(1, [&] { g.emit(ring() + ".elbad", {g.m(), (int64_t)rng.below(rng.chance(70) ? 6 : 1000)}, true); });
    add(2, [&] { g.real(g.r(), 30); });
    add(1, [&] { g.emit("r.mul", {g.r(), g.r(), g.r()}, true); });
    add(1, [&] { g.emit("r.div", {g.r(), g.r(), g.r()}, true); });
    add(1, [&] { g.enclose(); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { g.forget(ring()); });
  } else if (property == "C10") {
    g.overlap = true;
    lives = 1 + (int)rng.below(3);
    add(4, [&] { g.emit("r.rand", {g.r(), g.plainSeed()}, true); });
    add(4, [&] { g.approximate(); });
    add(3, [&] { g.emit("r.def", {g.r()}); });
    add(1, [&] { g.emit("s.def", {(int64_t)rng.below(64)}); });
    if (rng.chance(10)) add(1, [&] { g.emit("s.bulk", {rng.chance(95) ? (int64_t)rng.below(1500) : rng.range(66000, 140000)}); });
    add(2, [&] { g.con(g.r()); });
    add(1, [&] { g.con(g.r(), true); });
    add(1, [&] { g.emit("r.dbl", {g.r(), g.doubleBits(), g.constrainedSeed(), (int64_t)rng.chance(30)}); });
    add(1, [&] { g.emit("r.drop", {g.r()}); });
    add(1, [&] { if (rng.chance(40)) g.emit("w.drop", {3}); });
  } else if (property == "C15") {
    elements(2, 3, 5);
    add(6, [&] { g.arithmetic("k"); });
    add(3, [&] { g.twins("k"); });
    add(4, [&] { g.compare("k"); });
    add(3, [&] { g.emit("k.arb", {g.e(), g.prec()}, true); });
    add(3, [&] { g.convert("k"); });
    add(2, [&] { g.edge("k"); });
    add(2, [&] { g.ring("k"); });
    add(3, [&] { g.represent("k"); });
    add(2, [&] { g.emit("k.fromz", {g.e(), g.e()}, true); });
    add(2, [&] { g.emit("k.fromq", {g.e(), g.e()}, true); });
    add(1, [&] { g.forget("k"); });
    add(1, [&] { g.arithmetic("q"); });
  } else if (property == "C17") {
    g.overlap = true;
    lives = rng.chance(20) ? 2 : 1;
    add(6, [&] { g.con(g.r(), rng.chance(15)); });
    add(4, [&] { g.emit("r.dbl", {g.r(), g.doubleBits(), g.constrainedSeed(), (int64_t)rng.chance(15)}, false); });
    add(1, [&] { if (rng.chance(20)) { A a = g.interval(); a.push_back((int64_t)rng.below(5000)); g.emit("r.spread", a, true); } });
    add(1, [&] { if (rng.chance(30)) g.far(); });
    add(1, [&] { if (rng.chance(20)) g.emit("r.unbounded", {(int64_t)rng.below(8), g.value(), rng.range(-80, 80), g.constrainedSeed()}); });
    add(1, [&] { static const uint64_t bad[] = {0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull}; g.emit("r.dbl", {g.r(), (int64_t)bad[rng.below(3)], 1}); });
    add(3, [&] { g.approximate(); });
    add(2, [&] { g.compareReal(); });
    add(1, [&] { g.enclose(); });
    add(1, [&] { g.emit("r.double", {g.r()}, true); });
    add(1, [&] { g.emit("r.drop", {g.r()}); });
    add(1, [&] { g.emit("r.rand", {g.r(), g.plainSeed()}, true); });
  } else if (property == "C18") {
    elements(2, 2, 4);
    add(8, [&] { g.convert(ring()); });
    add(3, [&] { g.emit(rng.chance(50) ? "r.double" : "r.conv", {g.r()}, true); });
    add(2, [&] { const int64_t d = g.r(); g.mid(d); g.emit("r.double", {d}, true); });
    add(4, [&] { g.edge(ring()); });
    add(1, [&] { g.ring(ring()); });
    add(3, [&] { g.emit(ring() + ".tiny", {g.e(), g.e(), rng.chance(50) ? 40 + (int64_t)rng.below(60) : 1 + (int64_t)rng.below(300), rng.range(-1, 1)}, true); });
    add(4, [&] { g.arithmetic(ring()); });
    add(2, [&] { g.real(g.r(), 50); });
    add(1, [&] { g.forget(ring()); });
    add(1, [&] { g.represent(ring()); });
  } else if (property == "C19") {
    elements(2, 2, 4);
    lives = rng.chance(15) ? 2 : 1;
    add(6, [&] { g.emit(ring() + ".hash", {g.e()}); });
    add(4, [&] { g.arithmetic(ring()); });
    add(4, [&] { g.represent(ring()); });
    add(1, [&] { g.edge(ring()); });
    add(1, [&] { g.compare(ring()); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { g.forget(ring()); });
    add(2, [&] { auto p = ring(); int64_t a = g.e(), b = g.e(), d = g.e(); g.emit(p + ".add", {d, a, b, 0}); g.emit(p + ".hash", {d}); g.emit(p + ".sbt", {d, d, b, 1}); g.emit(p + ".hash", {d}); g.emit(p + ".hash", {a}); });
  } else if (property == "C21") {
    g.explicitSeeds = true;
    elements(2, 2, 3);
    lives = rng.chance(60) ? 1 : 2 + (int)rng.below(2);
    g.archiveItems = 1;
    auto helped = [&](int percent, auto f) { return [&g, &rng, percent, f] { size_t from = g.out->size(); f(); if (rng.chance(percent)) g.viaHelper(from); }; };
    add(8, helped(80, [&] { g.arithmetic(ring(), true); }));
    add(2, helped(80, [&] { g.emit(ring() + ".conv", {g.e(), 8}, true); }));
    add(2, helped(80, [&] { g.edge(ring()); }));
    add(1, helped(80, [&] { g.convert(ring()); }));
    add(1, helped(80, [&] { g.emit(rng.chance(50) ? "r.mul" : "r.div", {g.r(), g.r(), g.r()}, true); }));
    add(6, [&] { g.computeByHelper(); });
    add(1, [&] { g.makeFloat(g.f()); });
    add(1, [&] { g.makeBall(g.b()); });
    add(3, helped(80, [&] { g.save(0); }));
    add(3, helped(80, [&] { g.load(0); }));
    add(3, [&] { size_t from = g.out->size(); g.save(0); int64_t file = g.out->back().a[0]; if (rng.chance(15)) g.emit("w.lose", {file, rng.chance(40) ? (int64_t)rng.below(12) : (int64_t)rng.below(3000)}); if (rng.chance(10)) g.emit("w.spoil", {file, (int64_t)rng.below(60), (int64_t)rng.below(60), rng.chance(45) ? 1 + (int64_t)rng.below(6) : 0}); g.load(0); g.out->back().a[0] = file; g.viaHelper(from); });
    add(1, [&] { g.represent(ring()); });
    add(1, [&] { g.forget(ring()); });
    add(1, [&] { g.real(g.r(), 20); });
    prologue = [&, prologue] { for (int i = 0, n = (int)rng.below(3); i < n; i++) { size_t from = g.out->size(); g.load(0); g.viaHelper(from); } prologue(); for (int i = 0; i < 3; i++) { g.makeFloat(g.f()); g.makeBall(g.b()); } };
  } else if (property == "C11") {
    add(6, [&] { g.makeFloat(g.f()); });
    add(12, [&] { g.computeFloat(); });
    add(4, [&] { g.moveFloat(); });
    add(5, [&] { g.judgeFloat(); });
    prologue = [&] { for (int i = 0; i < 3; i++) g.makeFloat(g.f()); };
  } else if (property == "C12") {
    add(6, [&] { g.makeBall(g.b()); });
    add(12, [&] { g.computeBall(); });
    add(4, [&] { g.moveBall(); });
    add(6, [&] { g.judgeBall(); });
    add(2, [&] { g.makeFloat(g.f()); });
    prologue = [&] { for (int i = 0; i < 2; i++) g.makeFloat(g.f()); for (int i = 0; i < 3; i++) g.makeBall(g.b()); };
  } else if (property == "C07" || property == "C08" || property == "C09") {
    // (numbers without an explicit seed are other numbers in the next process)
    g.explicitSeeds = true;
    elements(3, 2, 3);
    lives = property == "C08" ? (rng.chance(30) ? 2 : 1) : rng.chance(30) ? 1 : 2 + (int)rng.below(3);
    if (property != "C08" && rng.chance(50)) g.faultPercent = 0;
    g.archiveItems = property == "C09" ? 6 : 4;
    int failing = property == "C08" ? 50 : rng.chance(30) ? 10 : 0;
    add(5, [&, failing] { g.save(failing); });
    add(6, [&, failing] { g.load(failing); });
    if (property == "C08") add(3, [&] { g.emit("w.lose", {(int64_t)rng.below(3), rng.chance(40) ? (int64_t)rng.below(12) : (int64_t)rng.below(5000)}); });
    add(1, [&] { if (rng.chance(15)) g.emit("w.null", {g.format(), g.r(), g.m()}, true); });
    if (property == "C08") add(1, [&] {
      // a fraction, a product, or an element with a fraction whose entries are not of the expected form
      if (!rng.chance(40)) return;
      const int64_t file = (int64_t)rng.below(3), at = g.r();
      int64_t how, type = 0, slot = at;
      if (rng.chance(40)) { g.emit("r.rat", {at, rng.range(-1000, 1000), 2 + (int64_t)rng.below(1000)}, true); how = rng.chance(50) ? 3 : 6; }
      else if (rng.chance(60)) { g.emit("r.mul", {at, g.r(), g.r()}, true); how = rng.chance(70) ? 4 : 5; }
      else { type = 7; slot = g.e(); how = rng.chance(40) ? 3 : rng.chance(60) ? 6 : 5; }
      g.emit("w.save", {file, 0, 0, 0, type, slot, slot}, true);
      g.emit("w.spoil", {file, (int64_t)rng.below(60), (int64_t)rng.below(60), how});
      g.load(0), g.out->back().a[0] = file;
    });
    if (property == "C08") add(2, [&] { int64_t file = (int64_t)rng.below(3); if (rng.chance(50)) g.save(0), g.out->back().a[0] = file, g.out->back().a[1] = 0; g.emit("w.spoil", {file, (int64_t)rng.below(60), (int64_t)rng.below(60), rng.chance(45) ? 1 + (int64_t)rng.below(6) : 0}); if (rng.chance(80)) g.load(0), g.out->back().a[0] = file; });
    add(2, [&] { g.arithmetic(ring()); });
    add(2, [&] { g.forget(ring()); });
    add(1, [&] { g.represent(ring()); });
    add(1, [&] { g.compare(ring()); });
    add(1, [&] { g.emit(ring() + ".hash", {g.e()}); });
    add(2, [&] { g.real(g.r(), 20); });
    add(1, [&] { g.makeFloat(g.f()); });
    add(1, [&] { g.makeBall(g.b()); });
    add(1, [&] { g.approximate(); });
    if (property == "C07") add(1, [&] { if (rng.chance(30)) g.far(); });
    add(1, [&] { g.emit("r.deg", {g.r(), g.r()}); });
    prologue = [&, prologue] {
      for (int i = 0, n = (int)rng.below(4); i < n; i++) g.load(0);
      prologue();
      g.makeFloat(g.f());
      g.makeBall(g.b());
      for (int i = 0, n = (int)rng.below(3); i < n; i++) g.save(0);
    };
  } else if (property == "C16") {
    g.explicitSeeds = true;
    elements(3, 2, 3);
    g.faultPercent = rng.chance(60) ? 5 + (int)rng.below(50) : 0;
    int failing = rng.chance(60) ? 40 : 0;
    auto print = [&](const std::string& what, int64_t slot) { g.emit(what, {slot, (int64_t)rng.below(7), rng.chance(40) ? 0 : (int64_t)rng.below(6), (int64_t)rng.below(60)}, true); };
    add(6, [&] { g.arithmetic(ring(), true); });
    add(2, [&] { g.represent(ring()); });
    add(2, [&] { g.compare(ring()); });
    add(2, [&] { g.convert(ring()); });
    add(2, [&] { g.forget(ring()); });
    add(1, [&] { g.emit(ring() + ".bad", {g.r(), (int64_t)rng.below(2), g.small()}, true); });
    add(1, [&] { g.emit(ring() + ".elbad", {g.m(), (int64_t)rng.below(rng.chance(70) ? 6 : 1000)}, true); });
    add(2, [&] { g.real(g.r(), 30); });
    add(1, [&] { g.emit("r.mul", {g.r(), g.r(), g.r()}, true); });
    add(1, [&] { g.emit("r.div", {g.r(), g.r(), g.r()}, true); });
    add(1, [&] { g.enclose(); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { g.compareReal(); });
    auto helper = [&](int percent, size_t from) { if (rng.chance(percent)) g.viaHelper(from); };
    add(2, [&, failing, helper] { size_t from = g.out->size(); g.save(failing); helper(25, from); });
    add(2, [&, failing, helper] { size_t from = g.out->size(); g.load(failing); helper(50, from); });
    add(1, [&] { g.emit("w.lose", {(int64_t)rng.below(3), (int64_t)rng.below(1000)}); });
    add(2, [&] { g.makeFloat(g.f()); });
    add(2, [&] { g.makeBall(g.b()); });
    add(2, [&] { g.computeFloat(); });
    add(2, [&] { g.computeBall(); });
    add(1, [&] { g.moveFloat(); });
    add(1, [&] { g.moveBall(); });
    add(1, [&] { g.judgeFloat(); });
    add(1, [&] { g.judgeBall(); });
    add(1, [&] { g.emit(ring() + ".hash", {g.e()}); });
    add(1, [&, print] { print("p.r", g.r()); });
    add(1, [&, print] { print("p.f", g.f()); });
    add(1, [&, print] { print("p.b", g.b()); });
    add(2, [&, print] { print(ring() + ".pe", g.e()); });
    add(1, [&, print] { print(ring() + ".pm", g.m()); });
    prologue = [&, prologue] { prologue(); g.makeFloat(g.f()); g.makeBall(g.b()); };
  } else if (property == "C13") {
    elements(3, 2, 4);
    lives = rng.chance(15) ? 2 : 1;
    auto print = [&](const std::string& what, int64_t slot) { g.emit(what, {slot, (int64_t)rng.below(7), rng.chance(50) ? 0 : (int64_t)rng.below(6), (int64_t)rng.below(400)}, true); };
    add(5, [&, print] {
      const int64_t x = g.r();
      if (rng.chance(20)) g.emit("r.mul", {x, g.r(), g.r()}, true);
      print("p.r", x);
    });
    add(3, [&, print] {
      const int64_t x = g.f();
      if (rng.chance(10)) {
        static const uint64_t special[] = {0x7ff8000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0, 0x8000000000000000ull};
        g.emit("f.dbl", {x, (int64_t)special[rng.below(5)], (int64_t)rng.below(2)});
      }
      print("p.f", x);
    });
    add(3, [&, print] { print("p.b", g.b()); });
    add(6, [&, print] { print(ring() + ".pe", g.e()); });
    add(3, [&, print] { print(ring() + ".pm", g.m()); });
    add(3, [&] { g.arithmetic(ring()); });
    add(2, [&] { g.makeFloat(g.f()); });
    add(2, [&] { g.makeBall(g.b()); });
    add(2, [&] { g.real(g.r(), 20); });
    add(1, [&] { g.approximate(); });
    add(1, [&] { g.forget(ring()); });
    add(1, [&] { g.computeFloat(); });
  } else {
    return g.plan;   // (C14: see below)
  }
  if (property == "C16") {
    if (rng.chance(6)) {
      // many values instead of the same ones again and again
      for (int i = 0; i < 2; i++) {
        Op o;
        o.name = "l.bulk";
        bool flush = rng.chance(cfg["keep"] ? 40 : 60);
        o.a = {(int64_t)rng.below(8), cfg["keep"] && rng.chance(80) ? 100 + (int64_t)rng.below(1000) : flush ? 100 + (int64_t)rng.below(1000) : 1500 + (int64_t)rng.below(thorough ? 2000 : 200), flush};
        if (cfg["keep"] && (o.a[0] == 1 || o.a[0] == 7)) o.a[1] = 700 + (int64_t)rng.below(1000);
        if (rng.chance(25)) o.a = {8, (int64_t)rng.below(600), rng.chance(50) ? (int64_t)rng.below(300) : (int64_t)rng.below(8), (int64_t)rng.below(4), (int64_t)rng.below(3)};
        g.plan.ops.push_back(o);
      }
      return g.plan;
    }
    g.life(clients, [&] {
      prologue();
      g.mixture(acts, std::max(4, size / 3 / clients));
    });
    auto body = g.plan.ops;
    Op end;
    end.name = "l.round";
    g.plan.ops.clear();
    for (int i = 0, n = 6 + (int)rng.below(thorough ? 4 : 2); i < n; i++) {
      g.plan.ops.insert(g.plan.ops.end(), body.begin(), body.end());
      g.plan.ops.push_back(end);
    }
    return g.plan;
  }
  if (property == "C04" && rng.chance(10)) {
    g.life(1, [&] { g.collisions(); });
    return g.plan;
  }
  if ((property == "C04" || property == "C05") && rng.chance(10)) {
    std::string p = ring();
    g.faultPercent = rng.chance(20) ? 10 : 0;
    g.life(1, [&] { g.polynomials(p, 15 + (int)rng.below(30)); });
    return g.plan;
  }
  if ((property == "C07" || property == "C09") && rng.chance(35)) {
    std::string p = ring();
    const bool products = rng.chance(55);
    if (!products) lives = 2 + (int)rng.below(2);
    g.faultPercent = rng.chance(20) ? 10 : 0;
    for (int l = 0; l < lives; l++) {
      if (l) {
        Op crash;
        crash.name = "crash";
        g.plan.ops.push_back(crash);
      }
      g.life(1, [&] { if (products) g.savedProducts(p, 6 + (int)rng.below(20)); else g.savedElements(p, l > 0); });
    }
    return g.plan;
  }
  int per = std::max(4, size / (clients * lives));
  for (int l = 0; l < lives; l++) {
    if (l) {
      Op crash;
      crash.name = "crash";
      g.plan.ops.push_back(crash);
    }
    g.life(clients, [&] {
      prologue();
      g.mixture(acts, per);
    });
  }
  return g.plan;
}
}  // namespace

#ifndef VERIF_THREADS
Plan generate(const std::string& property, uint64_t seed, bool thorough) {
  return alone(property, seed, thorough);
}
#else
// Threads which each execute a plan of some other property, and a schedule.
Plan generate(const std::string& property, uint64_t seed, bool thorough) {
  Rng rng(mix(seed, hashString("threads " + property)));
  std::vector<std::string> kinds = {"C01", "C01", "C03", "C04", "C04", "C05", "C05", "C05", "C05", "C17", "C10", "C19", "C19", "C13", "C18", "C02", "C06", "C06", "C11", "C12", "C07", "C09", "C21", "C21", "C13"};
  if (property == "C10") kinds = {"C10", "C10", "C10", "C17", "C04"};
  Plan plan;
  plan.property = property;
  plan.seed = std::to_string(seed);
  int threads = rng.chance(60) ? 2 : rng.chance(70) ? 3 : 4;
  const bool uniform = rng.chance(60);
  std::string kind = rng.pick(kinds);
  uint64_t sub = rng.next() >> 20;
  int64_t echo = -1;
  for (int t = 1; t <= threads; t++) {
    if (!uniform) kind = rng.pick(kinds);
    // threads that do the same, or something similar
    if (t > 1 && rng.chance(50)) sub = rng.next() >> 20;
    Plan p = alone(kind, sub, false);
    if (t == 1) plan.cfg = p.cfg;
    size_t n = 6 + rng.below(thorough ? 60 : 40), at = 0;
    if (kind == "C07" || kind == "C09" || kind == "C21") n *= 2;
    std::vector<Op> ops;
    for (auto& o : p.ops) {
      if (o.name == "crash" || (o.name[0] == 'w' && o.name != "w.save" && o.name != "w.load") || o.name[0] == 'l') continue;
      // (number fields share the fields of e-antic)
      if (o.name == "k.fromq" || o.name == "b.renf") continue;
      if (o.name.compare(0, 2, "k.") == 0) o.name[0] = 'q';
      if (o.name == "s.bulk") o.a[0] %= 300;
      if (at++ >= n) break;
      o.thread = t;
      ops.push_back(o);
    }
    // one of the operations again and again, preferably while others do the same
    if (!ops.empty() && (echo >= 0 || t == 1)) {
      std::vector<std::string> names;
      for (auto& o : ops)
        if (std::find(names.begin(), names.end(), o.name) == names.end()) {
          names.push_back(o.name);
          if (o.name[0] == 'p' || o.name[0] == 'w') names.insert(names.end(), 2, o.name);
        }
      if (t == 1 && rng.chance(50)) echo = (int64_t)rng.below(names.size());
      if (echo >= 0) {
        const std::string name = names[echo % names.size()];
        std::vector<Op> chosen;
        for (auto& o : ops)
          if (o.name == name) chosen.push_back(o);
        const bool all = rng.chance(50);
        const Op one = rng.pick(chosen);
        for (int i = 0, m = 3 + (int)rng.below(8); i < m; i++) ops.push_back(all ? chosen[i % chosen.size()] : one);
      }
    }
    for (auto& o : ops) plan.ops.push_back(o);
  }
  plan.cfg["threads"] = threads;
  plan.cfg["cpu"] = 60;
  auto add = [&](int64_t t, int64_t n) {
    plan.sched.push_back(t);
    plan.sched.push_back(n);
  };
  auto logUniform = [&](int lo, int hi) { return (int64_t)(1ull << (lo + rng.below(hi - lo))) + (int64_t)rng.below(1ull << lo); };
  auto thread = [&] { return 1 + (int64_t)rng.below(threads); };
  switch (rng.below(4)) {
    case 0:   // a few preemptions
      for (int i = 0, n = 1 + (int)rng.below(8); i < n; i++) add(thread(), logUniform(4, 16));
      break;
    case 1:   // many short turns
      for (int i = 0, n = 50 + (int)rng.below(thorough ? 1000 : 400); i < n; i++) add(thread(), logUniform(0, 8));
      break;
    case 2:   // phases of long and short turns
      for (int i = 0, n = 2 + (int)rng.below(10); i < n; i++) {
        add(thread(), logUniform(6, 15));
        for (int j = 0, m = (int)rng.below(40); j < m; j++) add(thread(), logUniform(0, 5));
      }
      break;
    default:
      for (int i = 0, n = 20 + (int)rng.below(thorough ? 300 : 150); i < n; i++) add(thread(), logUniform(0, 14));
  }
  plan.cfg["quantum"] = logUniform(8, 18);
  return plan;
}
#endif
}  // namespace sim
