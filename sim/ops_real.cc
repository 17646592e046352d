// Operations on real numbers, with their oracles.
#include <cmath>
#include <cstring>

#include "world.hpp"

#include <exact-real/cppyy.hpp>

using namespace sim;
using truth::Ball;
using truth::Float;

namespace {
// Construct something that yields a real number and put it into slot d.
template <typename Fn> void construct(World& w, RSlot& d, const std::string& expected, const char* tags, Fn f) {
  Real p;
  Out o = w.call([&] { p = f(); });
  if (o != Out::OK) fail(w, tags, "rejected", "constructing " + expected + " failed: " + w.what);
  setReal(w, tags, d, std::move(p), expected);
}
Arf arfOf(int64_t m, int64_t e) { return Arf(mpz_class((long)m), (long)e); }
mpq_class qOf(int64_t m, int64_t e) {
  mpq_class q((long)m);
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  return q;
}
std::string seedOf(const std::string& key) { return key[0] == 'r' ? key.substr(1) : key.substr(key.rfind(':') + 1); }
}  // namespace

OP(rat, "r.rat") {
  long den = w.arg(2, 1) ? w.arg(2, 1) : 1;
  mpq_class q((long)w.arg(1), 1);
  q /= den;
  construct(w, w.r(0), truth::rationalKey(q), "C04", [&] { return RealNumber::rational(q); });
}
// A large rational: (2^a + b) / (2^c + d)
OP(ratbig, "r.ratbig") {
  mpq_class q(qOf(1, w.arg(1) & 1023) + (long)w.arg(2));
  mpq_class den(qOf(1, w.arg(3) & 1023) + (long)w.arg(4));
  if (den == 0) den = 1;
  q /= den;
  construct(w, w.r(0), truth::rationalKey(q), "C04", [&] { return RealNumber::rational(q); });
}
OP(rand_, "r.rand") {
  unsigned seed = (unsigned)w.arg(1);
  construct(w, w.r(0), "r" + to_s(seed), "C04 C10", [&] { return RealNumber::random(Seed(seed)); });
}
OP(def, "r.def") {
  RSlot& d = w.r(0);
  Real p;
  Out o = w.call([&] { p = RealNumber::random(); });
  if (o != Out::OK) fail(w, "C10", "rejected", "RealNumber::random() failed: " + w.what);
  std::string key = describe(p);
  if (key.empty() || key[0] != 'r') fail(w, "C10", "which-real", "RealNumber::random() returned " + key);
  unsigned seed = (unsigned)std::stoul(key.substr(1));
  if (!w.defaultSeeds.insert(seed).second) fail(w, "C10", "seed-reused", "default seed " + to_s(seed) + " was handed out twice");
  setReal(w, "C04 C10", d, std::move(p), key);
}
OP(seeds, "s.def") {
  for (int64_t i = 0; i < std::max<int64_t>(1, w.arg(0) % 64); i++) {
    Real p;
    w.call([&] { Seed s; p = RealNumber::random(s); });
    std::string key = describe(p);
    { Loud l; p.reset(); }
    if (key.empty() || key[0] != 'r') fail(w, "C10", "which-real", "random(Seed()) returned " + key);
    if (!w.defaultSeeds.insert((unsigned)std::stoul(key.substr(1))).second) fail(w, "C10", "seed-reused", "default seed " + key.substr(1) + " was handed out twice");
  }
}
// s.bulk n: many default seeds in a row
OP(bulkSeeds, "s.bulk") {
  std::vector<unsigned> seeds((size_t)std::min<uint64_t>((uint64_t)w.arg(0), 300000));
  w.call([&] { for (auto& s : seeds) s = Seed().value; });
  for (auto s : seeds)
    if (!w.defaultSeeds.insert(s).second) fail(w, "C10", "seed-reused", "default seed " + to_s(s) + " was handed out twice");
  count("probe.bulk-seeds");
}
// Whether a number itself (and not what it writes to an archive) is in an interval
static bool within(const Real& p, const mpq_class& lo, const mpq_class& hi) {
  std::optional<Arf> x;
  { Loud l; x.emplace(p->arf(128)); }
  const mpq_class q = truth::toMpq(x->arf_t());
  { Loud l; x.reset(); }
  return q >= lo && q <= hi;
}
// r.con d m1 e1 m2 e2 seed: random in [m1·2^e1, m2·2^e2]; form 1: default seed
static void constrained(World& w, RSlot& d, const mpq_class& lo, const mpq_class& hi, const std::string& request, unsigned seed, bool defaultSeed, const std::function<Real()>& f) {
  Real p;
  Out o = w.call([&] { p = f(); });
  if (lo >= hi) {
    count("probe.empty-interval");
    if (o == Out::OK) fail(w, "C17 C06", "empty-interval", "a random real in the empty interval " + request + " was not rejected");
    return;
  }
  if (o != Out::OK) fail(w, "C17", "rejected", "random real in " + request + " was rejected: " + w.what);
  std::string key = describe(p);
  if (!(key[0] == 'c' || key[0] == 'r')) fail(w, "C17", "which-real", "random real in " + request + " is " + key);
  if (defaultSeed) {
    seed = (unsigned)std::stoul(seedOf(key));
    if (!w.defaultSeeds.insert(seed).second) fail(w, "C10", "seed-reused", "default seed " + to_s(seed) + " was handed out twice");
  } else {
    w.remember("C10 C17", "random in " + request + " seed " + to_s(seed), key);
  }
  if (lo == 0 && hi == 1) {
    if (key != "r" + to_s(seed)) fail(w, "C04 C17", "which-real", "random in [0, 1] is " + key);
  }
  if (truth::cmp(key, lo) < 0 || truth::cmp(key, hi) > 0) fail(w, within(p, lo, hi) ? "C07 C09" : "C17", "interval", "random real in " + request + " is " + key + " which is outside");
  if (seedOf(key) != to_s(seed)) fail(w, "C17 C10", "seed", "random real in " + request + " of seed " + to_s(seed) + " is " + key);
  if (key[0] == 'c') {
    // The random real of that seed might be such a number itself, it must be the same object then.
    bool same = true;
    for (long p = 256; same && p < 40000; p *= 4) {
      auto x = truth::eval(key, p), y = truth::eval("r" + to_s(seed), p);
      same = arb_overlaps(x.t, y.t);
    }
    if (same) fail(w, "C04 C03", "which-real", "random in " + request + " is the random real of seed " + to_s(seed) + " but not the same object");
  }
  count("probe.constrained");
  setReal(w, "C04", d, std::move(p), key);
}
OP(con, "r.con") {
  auto m1 = w.arg(1), e1 = w.arg(2), m2 = w.arg(3), e2 = w.arg(4);
  unsigned seed = (unsigned)w.arg(5);
  bool def = w.arg(6) == 1;
  auto lo = qOf(m1, e1), hi = qOf(m2, e2);
  constrained(w, w.r(0), lo, hi, "[" + lo.get_str() + ", " + hi.get_str() + "]", seed, def,
              [&]() -> Real { return def ? RealNumber::random(arfOf(m1, e1), arfOf(m2, e2)) : RealNumber::random(arfOf(m1, e1), arfOf(m2, e2), Seed(seed)); });
}
// r.mid d m e bits off kind seed: a real number close to the middle between two doubles or to a double; a rational or
// one in a short interval
OP(mid, "r.mid") {
  const long e = (long)std::clamp<int64_t>(w.arg(2), -1070, 960), bits = (long)std::clamp<int64_t>(w.arg(3), 1, 6000), off = (long)std::clamp<int64_t>(w.arg(4), -3, 3);
  const int kind = (int)((uint64_t)w.arg(5) % 4);
  mpz_class m(1);
  mpz_mul_2exp(m.get_mpz_t(), m.get_mpz_t(), 52);
  m += (long)(std::llabs(w.arg(1)) % (1ll << 52));
  m = 2 * m + (kind & 2 ? 0 : 1);
  if (w.arg(1) < 0) m = -m;
  const mpq_class step = qOf(1, e - bits);
  mpq_class at = qOf(1, e) * m + off * step;
  if (kind & 1) {
    mpq_class top = at + step;
    auto arf = [&](const mpq_class& q) { return Arf(mpz_class(q.get_num()), -(long)mpz_scan1(q.get_den().get_mpz_t(), 0)); };
    const unsigned seed = (unsigned)w.arg(6);
    count("probe.close-to-a-midpoint");
    constrained(w, w.r(0), at, top, "[" + at.get_str() + ", " + top.get_str() + "]", seed, false, [&]() -> Real { return RealNumber::random(arf(at), arf(top), Seed(seed)); });
  } else construct(w, w.r(0), truth::rationalKey(at), "C04", [&] { return RealNumber::rational(at); });
}
// r.close d a bits off kind seed: a real number close to another one; a rational or one in a short interval
OP(near, "r.close") {
  RSlot& a = w.r(1);
  if (!a.p) return;
  const long bits = (long)std::clamp<int64_t>(w.arg(2), 1, 12000);
  const auto x = truth::ofReal(a.key);
  if (x.zero()) return;
  const mpq_class at = truth::near(x, bits, (long)w.arg(3));
  if (w.arg(4) & 1) {
    const mpq_class top = at + (truth::near(x, bits, 1) - truth::near(x, bits, 0));
    auto arf = [&](const mpq_class& q) { return Arf(mpz_class(q.get_num()), -(long)mpz_scan1(q.get_den().get_mpz_t(), 0)); };
    const unsigned seed = (unsigned)w.arg(5);
    count("probe.close-reals");
    constrained(w, w.r(0), at, top, "[" + at.get_str() + ", " + top.get_str() + "]", seed, false, [&]() -> Real { return RealNumber::random(arf(at), arf(top), Seed(seed)); });
  } else construct(w, w.r(0), truth::rationalKey(at), "C04", [&] { return RealNumber::rational(at); });
}
// r.spread m1 e1 m2 e2 seed: reals of up to 64 seeds which are not all close to each other, relative to the interval
OP(spread, "r.spread") {
  auto m1 = w.arg(0), e1 = w.arg(1), m2 = w.arg(2), e2 = w.arg(3);
  auto lo = qOf(m1, e1), hi = qOf(m2, e2);
  if (lo >= hi) return;
  const mpq_class length = hi - lo;
  double least = 2, most = -1;
  for (int n = 0; n < 64 && most - least < .25; n++) {
    Real p;
    const unsigned seed = (unsigned)w.arg(4) + n;
    Out o = w.call([&] { p = RealNumber::random(arfOf(m1, e1), arfOf(m2, e2), Seed(seed)); });
    if (o != Out::OK) fail(w, "C17", "rejected", "random real in [" + lo.get_str() + ", " + hi.get_str() + "] was rejected: " + w.what);
    // its position in the interval
    Ball x = truth::eval(describe(p), 400), y;
    truth::ballMpq(y, lo, 400);
    arb_sub(x.t, x.t, y.t, 400);
    truth::ballMpq(y, length, 400);
    arb_div(x.t, x.t, y.t, 400);
    const double at = arf_get_d(arb_midref(x.t), ARF_RND_NEAR);
    least = std::min(least, at);
    most = std::max(most, at);
    { Loud l; p.reset(); }
  }
  if (most - least < .25) fail(w, "C17", "spread", "64 random reals in [" + lo.get_str() + ", " + hi.get_str() + "] are all in the same quarter of it");
  count("probe.spread");
}
// Intervals which are not bounded
OP(unbounded, "r.unbounded") {
  double inf = std::numeric_limits<double>::infinity();
  int kind = (int)((uint64_t)w.arg(0) % 8);
  Arf finite = arfOf(w.arg(1), w.arg(2)), lo = finite, hi = finite;
  if (kind < 6) (kind & 1 ? hi : lo) = Arf(kind < 2 ? -inf : kind < 4 ? inf : std::numeric_limits<double>::quiet_NaN());
  else { lo = Arf(-inf); hi = Arf(kind == 6 ? inf : -inf); }
  Real p;
  Out o = w.call([&] { p = RealNumber::random(lo, hi, Seed((unsigned)w.arg(3))); });
  count("probe.unbounded");
  if (o == Out::OK) fail(w, "C17 C06", "not-rejected", "a random real in an interval without finite end points was not rejected");
  else if (o != Out::LOGIC) fail(w, "C17 C06", "wrong-error", w.what);
}
static bool near(const Real& p, double x) {
  std::optional<Arf> y;
  { Loud l; y.emplace(p->arf(128)); }
  const double z = arf_get_d(y->arf_t(), ARF_RND_NEAR);
  Loud l;
  y.reset();
  return z == x;
}
// r.dbl d bits seed
OP(dblr, "r.dbl") {
  double x;
  int64_t bits = w.arg(1);
  memcpy(&x, &bits, 8);
  unsigned seed = (unsigned)w.arg(2);
  bool def = w.arg(3) == 1;
  RSlot& d = w.r(0);
  if (!std::isfinite(x)) {
    Out o = w.call([&] { RealNumber::random(x, Seed(seed)); });
    count("probe.non-finite-double");
    if (o == Out::OK) fail(w, "C17 C06", "non-finite", "a random real close to a non-finite double was not rejected");
    return;
  }
  Real p;
  Out o = w.call([&] { p = def ? RealNumber::random(x) : RealNumber::random(x, Seed(seed)); });
  if (o != Out::OK) fail(w, "C17", "rejected", "random(" + truth::dbl(x) + ") was rejected: " + w.what);
  std::string key = describe(p);
  if (def) {
    unsigned s = (unsigned)std::stoul(seedOf(key));
    if (!w.defaultSeeds.insert(s).second) fail(w, "C10", "seed-reused", "default seed " + to_s(s) + " was handed out twice");
  } else {
    w.remember("C10 C17", "random near " + truth::dbl(x) + " seed " + to_s(seed), key);
    if (seedOf(key) != to_s(seed)) fail(w, "C17 C10", "seed", "random near " + truth::dbl(x) + " of seed " + to_s(seed) + " is " + key);
  }
  double back = truth::toDouble(truth::ofReal(key));
  if (!(back == x)) fail(w, near(p, x) ? "C07 C09" : "C17", "closest-double", "random(" + truth::dbl(x) + ") is " + key + " which is closest to " + truth::dbl(back));
  count("probe.near-double");
  setReal(w, "C04", d, std::move(p), key);
}
OP(mul, "r.mul") {
  RSlot &d = w.r(0), &a = w.r(1), &b = w.r(2);
  if (!a.p || !b.p) return;
  mpq_class x, y;
  bool ra = truth::isRational(a.key, &x), rb = truth::isRational(b.key, &y);
  Real p;
  std::string ka = a.key, kb = b.key;
  const bool helper = w.arg(3) >= 100;
  Out o = w.call([&] { if (helper) p = exactreal::cppyy::mul(*a.p, *b.p); else p = *a.p * *b.p; });
  if (ra != rb && (ra ? x : y) != 1) {
    // Not supported: must be reported and must not do any harm.  (Zero times something is allowed to be zero.)
    if (o == Out::OK && describe(p) != (((ra ? x : y) == 0) ? "q0" : "")) fail(w, "C06", "not-rejected", "product of " + ka + " and " + kb + " is " + describe(p));
    if (o != Out::OK && o != Out::LOGIC) fail(w, "C06", "wrong-error", "product of " + ka + " and " + kb + ": " + w.what);
    count("probe.rejected");
    { Loud l; p.reset(); }
    return;
  }
  if (o != Out::OK) fail(w, helper ? "C21" : "C04", "rejected", "product of " + ka + " and " + kb + " failed: " + w.what);
  setReal(w, helper ? "C21" : "C04", d, std::move(p), truth::mulKey(ka, kb));
}
OP(div, "r.div") {
  RSlot &d = w.r(0), &a = w.r(1), &b = w.r(2);
  if (!a.p || !b.p) return;
  mpq_class x, y;
  bool ra = truth::isRational(a.key, &x), rb = truth::isRational(b.key, &y);
  std::optional<Real> p;
  std::string ka = a.key, kb = b.key;
  const bool helper = w.arg(3) >= 100;
  const char* tags = helper ? "C21" : "C04";
  Out o = w.call([&] { if (helper) p = exactreal::cppyy::truediv(*a.p, *b.p); else p = *a.p / *b.p; });
  auto q = truth::divKey(ka, kb);
  if (rb && y == 0) {
    count("probe.rejected");
    if (o != Out::LOGIC) fail(w, "C06 C04", "not-rejected", "division of " + ka + " by zero was not rejected");
    { Loud l; p.reset(); }
    return;
  }
  if (ra || rb) {
    // Only quotients that can be determined formally must succeed.
    if (o == Out::OK && p && ka == kb && y != 0) { setReal(w, tags, d, std::move(*p), "1"); return; }
    if (o == Out::OK && p) {
      if (!q) fail(w, "C04 C06", "quotient", "quotient of " + ka + " and " + kb + " is " + describe(*p));
      else setReal(w, tags, d, std::move(*p), *q);
    } else if (rb && y == 1) fail(w, tags, "quotient", "quotient of " + ka + " and 1 does not exist: " + w.what);
    { Loud l; p.reset(); }
    return;
  }
  if (o != Out::OK) fail(w, tags, "rejected", "quotient of " + ka + " and " + kb + " failed: " + w.what);
  if (!q) {
    if (p) fail(w, "C04 C06", "quotient", "quotient of " + ka + " and " + kb + " is " + describe(*p));
    count("probe.no-quotient");
  } else {
    if (!p) fail(w, tags, "quotient", "quotient of " + ka + " and " + kb + " does not exist");
    setReal(w, tags, d, std::move(*p), *q);
  }
  { Loud l; p.reset(); }
}
OP(cp, "r.cp") {
  RSlot &d = w.r(0), &a = w.r(1);
  Loud l;
  d.p = a.p;
  heap::Quiet q;
  d.key = a.key;
}
OP(drop, "r.drop") {
  Loud l;
  w.r(0).p.reset();
}
// drop everything: the last users of all objects disappear
OP(dropall, "w.drop") {
  Loud l;
  for (auto& s : w.R) s.p.reset();
  if (w.arg(0) & 1) {
    for (auto& s : w.z.M) s.p.reset();
    for (auto& s : w.q.M) s.p.reset();
    for (auto& s : w.k.M) s.p.reset();
  }
  if (w.arg(0) & 2) {
    for (auto& s : w.z.E) { s.v.reset(); s.mod.reset(); }
    for (auto& s : w.q.E) { s.v.reset(); s.mod.reset(); }
    for (auto& s : w.k.E) { s.v.reset(); s.mod.reset(); }
  }
}

// ------------------------------------------------------------ approximations
static void checkArf(World& w, const std::string& key, const Arf& a, long prec) {
  auto d = truth::dyOf(a.arf_t());
  w.remember("C01", key + " with " + to_s(prec) + " bits", d.str());
  mpq_class q;
  if (d.kind != truth::Dy::FIN) fail(w, "C01", "not-finite", key + " with " + to_s(prec) + " bits is " + d.str());
  if (truth::isRational(key, &q) && q == 0) {
    if (!d.zero()) fail(w, "C01", "relative-error", "zero approximated as " + d.str());
    return;
  }
  if (prec < 0) prec = 0;
  for (long p = prec + 64, i = 0; i < 6; p *= 2, i++) {
    Ball x = truth::eval(key, p), diff, bound;
    arb_set_arf(diff.t, a.arf_t());
    arb_sub(diff.t, diff.t, x.t, ARF_PREC_EXACT);
    arb_abs(diff.t, diff.t);
    arb_abs(bound.t, x.t);
    arb_mul_2exp_si(bound.t, bound.t, -prec);
    if (arb_le(diff.t, bound.t)) return;
    if (arb_gt(diff.t, bound.t))
      fail(w, "C01", "relative-error", key + " with " + to_s(prec) + " bits is approximated by " + d.str() + " which is too far off");
  }
}
static void doArf(World& w, RSlot& s, long prec) {
  std::string key = s.key;
  std::optional<Arf> a;
  Out o = w.call([&] { a.emplace(s.p->arf(prec)); });
  if (o != Out::OK) fail(w, "C01", "rejected", key + ".arf(" + to_s(prec) + ") failed: " + w.what);
  checkArf(w, key, *a, prec);
  Loud l;
  a.reset();
}
OP(arf, "r.arf") {
  if (!w.r(0).p) return;
  doArf(w, w.r(0), w.arg(1));
}
OP(sweep, "r.sweep") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  for (int64_t i = 0; i < std::min<int64_t>(w.arg(2), 400); i++) doArf(w, s, w.arg(1) + i * w.arg(3, 1));
}
namespace {
// 1: certainly inside, 0: certainly not, -1: cannot tell (the number is an end point)
int inside(const truth::Elem& e, const arb_t ball) {
  if (!arb_is_finite(ball)) return arf_is_nan(arb_midref(ball)) || !mag_is_finite(arb_radref(ball)) ? 1 : 0;
  if (auto q = e.rational()) {
    fmpq_t x;
    fmpq_init(x);
    fmpq_set_mpq(x, q->get_mpq_t());
    int r = arb_contains_fmpq(ball, x);
    fmpq_clear(x);
    return r ? 1 : 0;
  }
  long acc = arb_rel_accuracy_bits(ball);
  if (acc < 0) acc = 0;
  if (acc > 100000) acc = 100000;
  for (long p = acc + 64, i = 0; i < 7; p *= 2, i++) {
    Ball x = truth::eval(e, p);
    if (arb_contains(ball, x.t)) return 1;
    if (!arb_overlaps(ball, x.t)) return 0;
  }
  return -1;
}
}  // namespace
int sim::ballContains(const truth::Elem& e, const arb_t ball) { return inside(e, ball); }

OP(arb, "r.arb") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  long prec = w.arg(1);
  std::string key = s.key;
  std::optional<Arb> a;
  Out o = w.call([&] { a.emplace(s.p->arb(prec)); });
  if (o != Out::OK) fail(w, "C02", "rejected", key + ".arb(" + to_s(prec) + ") failed: " + w.what);
  if (inside(truth::ofReal(key), a->arb_t()) == 0) fail(w, "C02", "enclosure", key + ".arb(" + to_s(prec) + ") = " + truth::str(a->arb_t()) + " does not contain the number");
  if (key != "q0" && arb_rel_accuracy_bits(a->arb_t()) < prec) fail(w, "C02", "accuracy", key + ".arb(" + to_s(prec) + ") has only " + to_s(arb_rel_accuracy_bits(a->arb_t())) + " bits");
  w.remember("C02", key + " ball with " + to_s(prec) + " bits", truth::str(a->arb_t()));
  Loud l;
  a.reset();
}
// r.refine s b bits off rad prec: a ball with midpoint off an approximation with `bits`
// bits by `off` ulps and a radius of rad ulps (but large enough to contain the number)
OP(refine, "r.refine") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  long bits = w.arg(1), off = w.arg(2), rad = std::labs(w.arg(3)), prec = w.arg(4);
  truth::Elem e = truth::ofReal(s.key);
  Arb ball;
  if (bits == 0) {
    arb_zero_pm_inf(ball.arb_t());
  } else {
    mpq_class mid = truth::near(e, bits, off), unit = truth::near(e, bits, off + 1) - mid;
    Ball r;
    truth::ballMpq(r, (std::labs(off) + 1 + rad) * unit, 30);
    Float m;
    truth::setMpq(m, mid);
    arb_set_arf(ball.arb_t(), m.t);
    arb_add_error(ball.arb_t(), r.t);
  }
  if (inside(e, ball.arb_t()) != 1) return;
  std::string key = s.key, before = truth::str(ball.arb_t());
  Out o = w.call([&] { s.p->refine(ball, prec); });
  if (o != Out::OK) fail(w, "C02", "rejected", "refining " + before + " to " + to_s(prec) + " bits around " + key + " failed: " + w.what);
  if (inside(e, ball.arb_t()) == 0) fail(w, "C02", "enclosure", "refining " + before + " to " + to_s(prec) + " bits gives " + truth::str(ball.arb_t()) + " which does not contain " + key);
  if (key != "q0" && arb_rel_accuracy_bits(ball.arb_t()) < prec) fail(w, "C02", "accuracy", "refining " + before + " to " + to_s(prec) + " bits around " + key + " gives only " + to_s(arb_rel_accuracy_bits(ball.arb_t())) + " bits");
  count("probe.refine");
}
// r.ballcmp s bits off rad: position of the number relative to a ball close to it
OP(ballcmp, "r.ballcmp") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  long bits = w.arg(1), off = w.arg(2), rad = std::labs(w.arg(3));
  truth::Elem e = truth::ofReal(s.key);
  mpq_class mid = truth::near(e, bits, off), unit = truth::near(e, bits, off + 1) - mid;
  Arb ball;
  Float m;
  truth::setMpq(m, mid);
  arb_set_arf(ball.arb_t(), m.t);
  Ball r;
  truth::ballMpq(r, rad * unit, 30);
  if (rad) arb_add_error(ball.arb_t(), r.t);
  // the exact end points
  Float a, b;
  arf_t rr;
  arf_init(rr);
  arf_set_mag(rr, arb_radref(ball.arb_t()));
  arf_sub(a.t, arb_midref(ball.arb_t()), rr, ARF_PREC_EXACT, ARF_RND_DOWN);
  arf_add(b.t, arb_midref(ball.arb_t()), rr, ARF_PREC_EXACT, ARF_RND_DOWN);
  arf_clear(rr);
  int expected = truth::cmp(s.key, truth::toMpq(a.t)) < 0 ? -1 : truth::cmp(s.key, truth::toMpq(b.t)) > 0 ? 1 : 0;
  int got = 99;
  Out o = w.call([&] { got = s.p->cmp(ball); });
  if (o != Out::OK) fail(w, "C02", "rejected", s.key + ".cmp failed: " + w.what);
  count(expected ? "probe.ball-outside" : "probe.ball-inside");
  if (got != expected) fail(w, "C02", "position", s.key + " relative to " + truth::str(ball.arb_t()) + " is " + to_s(got) + " but should be " + to_s(expected));
}

// --------------------------------------------------------------- comparisons
void sim::judgeOrder(World& w, const char* tags, const std::string& text, int expected, Out o, const int (&r)[9], bool reverse) {
  if (o != Out::OK) fail(w, tags, "rejected", "comparing " + text + " failed: " + w.what);
  bool good = r[0] == (expected < 0) && r[1] == (expected <= 0) && r[2] == (expected == 0) && r[3] == (expected != 0) && r[4] == (expected > 0) && r[5] == (expected >= 0);
  if (reverse) good = good && r[6] == (expected > 0) && r[7] == (expected < 0) && r[8] == (expected == 0);
  if (!good)
    fail(w, tags, "order", "comparing " + text + ": < " + to_s(r[0]) + " <= " + to_s(r[1]) + " == " + to_s(r[2]) + " != " + to_s(r[3]) + " > " + to_s(r[4]) + " >= " + to_s(r[5]) + " reversed < " + to_s(r[6]) + " > " + to_s(r[7]) + " == " + to_s(r[8]) + " but the order is " + to_s(expected));
}
OP(lt, "r.lt") {
  RSlot &a = w.r(0), &b = w.r(1);
  if (!a.p || !b.p) return;
  int expected = a.key == b.key ? 0 : truth::cmp(truth::ofReal(a.key), truth::ofReal(b.key));
  compareAll(w, "C03", a.key + " and " + b.key, expected, *a.p, *b.p, false);
}
OP(cmpf, "r.cmpf") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  long bits = w.arg(1);
  if (mpq_class x; w.arg(3) && truth::isRational(s.key, &x)) bits += (long)mpz_sizeinbase(w.arg(3) == 1 ? x.get_num_mpz_t() : x.get_den_mpz_t(), 2);
  mpq_class q = truth::near(truth::ofReal(s.key), std::max(1l, bits), w.arg(2));
  Arf y;
  Float f;
  truth::setMpq(f, q);
  arf_set(y.arf_t(), f.t);
  compareAll(w, "C03", s.key + " and float " + truth::str(y.arf_t()), truth::cmp(s.key, q), *s.p, y, false);
}
// r.cmpn s kind: infinities and what is not a number
OP(cmpn, "r.cmpn") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  const int kind = (int)((uint64_t)w.arg(1) % 6);
  const double inf = std::numeric_limits<double>::infinity();
  bool lt = false, gt = false, eq = false;
  int cmp = 0;
  if (kind < 3) {
    const Arf y(kind == 0 ? std::numeric_limits<double>::quiet_NaN() : kind == 1 ? inf : -inf);
    Out o = w.call([&] { lt = *s.p < y; gt = *s.p > y; eq = *s.p == y; });
    if (o != Out::OK) fail(w, "C03", "not-finite", "comparison of " + s.key + " with a float that is not finite: " + w.what);
    if (lt != (kind == 1) || gt != (kind == 2) || eq) fail(w, "C03", "not-finite", "comparison of " + s.key + " with " + (kind == 0 ? "nan" : kind == 1 ? "inf" : "-inf") + " gives " + to_s(lt) + to_s(gt) + to_s(eq));
  } else {
    // (a ball that is not a number may be anything, so the number is not known to be left or right of it)
    Arb y = kind == 3 ? Arb::indeterminate() : kind == 4 ? Arb::pos_inf() : Arb::zero_pm_inf();
    Out o = w.call([&] { cmp = s.p->cmp(y); });
    if (o != Out::OK) fail(w, "C02", "not-finite", "comparison of " + s.key + " with a ball that is not finite: " + w.what);
    if (cmp != (kind == 4 ? -1 : 0)) fail(w, "C02", "not-finite", "cmp of " + s.key + " with a ball that is not finite is " + to_s(cmp));
    heap::Quiet q;
    y = Arb();
  }
  count("probe.compared-to-not-finite");
}
OP(cmpq, "r.cmpq") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  mpq_class q = truth::near(truth::ofReal(s.key), w.arg(1), w.arg(2));
  if (w.arg(3)) {
    mpq_class u = truth::near(truth::ofReal(s.key), w.arg(1), w.arg(2) + 1) - q;
    q += u / (long)(w.arg(3) * 2 + 1);
  }
  compareAll(w, "C03", s.key + " and " + q.get_str(), truth::cmp(s.key, q), *s.p, q, false);
}
OP(cmpz, "r.cmpz") {
  RSlot& s = w.r(0);
  if (!s.p || w.op->allocFault) return;
  mpz_class z = truth::floor(truth::ofReal(s.key)) + (long)w.arg(1);
  compareAll(w, "C03", s.key + " and " + z.get_str(), truth::cmp(s.key, mpq_class(z)), *s.p, z, false);
}
OP(cmpi, "r.cmpi") {
  RSlot& s = w.r(0);
  if (!s.p || w.op->allocFault) return;
  int64_t v = w.arg(2);
  auto check = [&](auto x, const char* name) {
    mpq_class q;
    if constexpr (std::is_signed_v<decltype(x)>) q = mpq_class((long)x); else q = mpq_class((unsigned long)x);
    compareAll(w, "C03", s.key + " and " + name + " " + q.get_str(), truth::cmp(s.key, q), *s.p, x, false);
  };
  switch ((uint64_t)w.arg(1) % 3) {
    case 0: check((int)v, "int"); break;
    case 1: check((long)v, "long"); break;
    default: check((short)v, "short"); break;
  }
}
OP(deglex, "r.deg") {
  RSlot &a = w.r(0), &b = w.r(1);
  if (!a.p || !b.p) return;
  bool ab = false, ba = false;
  Out o = w.call([&] { ab = a.p->deglex(*b.p); ba = b.p->deglex(*a.p); });
  if (o != Out::OK) return;   // may be unsupported for two different rationals
  mpq_class x, y;
  bool ra = truth::isRational(a.key, &x), rb = truth::isRational(b.key, &y);
  if (ra && rb && x != y) return;
  bool same = a.key == b.key;
  if (same ? (ab || ba) : (ab == ba)) fail(w, "C04", "generator-order", "the order of the generators " + a.key + " and " + b.key + " is inconsistent: " + to_s(ab) + " " + to_s(ba));
  // The order is by total degree first, and cannot change while both are alive.
  auto deg = [](const std::string& k) { long d = 0; if (truth::isRational(k)) return 0l; for (auto& f : truth::mono(k)) d += f.second; return d; };
  long da = deg(a.key), db = deg(b.key);
  if (da != db && ab != (da < db)) fail(w, "C04", "generator-order", "the order of the generators " + a.key + " and " + b.key + " does not respect their degrees");
  // a third generator
  if (w.op->a.size() < 3 || same) return;
  RSlot& c = w.r(2);
  if (!c.p || a.key == c.key || b.key == c.key || ((ra || rb) && truth::isRational(c.key))) return;
  bool ac = false, bc = false;
  if (w.call([&] { ac = a.p->deglex(*c.p); bc = b.p->deglex(*c.p); }) != Out::OK) return;
  if (ab == bc && ac != ab) fail(w, "C04", "generator-order", "the order of the generators " + a.key + ", " + b.key + ", and " + c.key + " is not transitive");
}

// --------------------------------------------------------------- conversions
OP(dv, "r.double") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  double expected = truth::toDouble(truth::ofReal(s.key)), got = 0;
  Out o = w.call([&] { got = static_cast<double>(*s.p); });
  if (o != Out::OK) fail(w, "C18", "rejected", "converting " + s.key + " to double failed: " + w.what);
  if (!(got == expected)) fail(w, "C18", "closest-double", s.key + " converts to " + truth::dbl(got) + " but the closest double is " + truth::dbl(expected));
}
OP(conv, "r.conv") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  bool b = false;
  std::optional<mpq_class> q;
  Out o = w.call([&] { b = static_cast<bool>(*s.p); q = static_cast<std::optional<mpq_class>>(*s.p); });
  if (o != Out::OK) fail(w, "C18", "rejected", "converting " + s.key + " failed: " + w.what);
  mpq_class x;
  bool rational = truth::isRational(s.key, &x);
  if (b == (rational && x == 0)) fail(w, "C18", "zero", s.key + (b ? " is non-zero" : " is zero"));
  if (q.has_value() != rational || (rational && *q != x)) fail(w, "C18", "rational", s.key + " as a rational is " + (q ? q->get_str() : std::string("none")));
  if (q) { Loud l; q.reset(); }
}
