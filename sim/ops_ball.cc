// Operations on intervals (Arb): points of the operands are tracked through
// every operation, the result has to contain the image of the points.
#include <exact-real/yap/arb.hpp>

#include <flint/fmpq.h>

#include <cmath>
#include <cstring>
#include <limits>

#include "world.hpp"

using namespace sim;
using truth::Dy;

namespace {
constexpr int POINTS = 10;

bool finite(const BSlot& s) { return s.v && arb_is_finite(s.m.t); }
// finite with exponents such that exact rational arithmetic is cheap
bool modestArf(const arf_t x) {
  auto d = truth::dyOf(x);
  return d.kind == Dy::FIN && (d.zero() || (abs(d.e) < 6000 && mpz_sizeinbase(d.m.get_mpz_t(), 2) < 12000));
}
mpq_class radius(const arb_t x) {
  arf_t r;
  arf_init(r);
  arf_set_mag(r, arb_radref(x));
  mpq_class q = truth::toMpq(r);
  arf_clear(r);
  return q;
}
bool modest(const arb_t x) {
  if (!arb_is_finite(x) || !modestArf(arb_midref(x))) return false;
  arf_t r;
  arf_init(r);
  arf_set_mag(r, arb_radref(x));
  bool ok = modestArf(r);
  arf_clear(r);
  return ok;
}
bool modest(const BSlot& s) { return s.v && modest(s.m.t); }
mpq_class lower(const arb_t x) { return truth::toMpq(arb_midref(x)) - radius(x); }
mpq_class upper(const arb_t x) { return truth::toMpq(arb_midref(x)) + radius(x); }
// The i-th point of the ball in slot s, the same for all operations of this step
mpq_class point(World& w, const BSlot& s, int i) {
  mpq_class mid = truth::toMpq(arb_midref(s.m.t)), rad = radius(s.m.t);
  if (rad == 0) return mid;
  Rng rng(mix(mix(w.opIndex, (uint64_t)(&s - w.B)), (uint64_t)i));
  int kind = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : (int)rng.below(6);
  switch (kind) {
    case 0: return mid - rad;
    case 1: return mid + rad;
    case 2: return mid;
    case 3: return rng.chance(50) ? mpq_class(mid - rad) : mpq_class(mid + rad);
    default: {
      mpq_class t((long)rng.range(-1000, 1000), 1000);
      t.canonicalize();
      return mid + t * rad;
    }
  }
}
bool contains(const arb_t ball, const mpq_class& v) {
  fmpq_t x;
  fmpq_init(x);
  fmpq_set_mpq(x, v.get_mpq_t());
  bool r = arb_contains_fmpq(ball, x);
  fmpq_clear(x);
  return r;
}
void run(World& w, const std::function<void()>& f) {
  Out o = w.call(f);
  if (o != Out::OK) fail(w, "C12", "rejected", w.what);
}
void ensure(BSlot& d) {
  if (d.v) return;
  Loud l;
  d.v.emplace();
  arb_zero(d.m.t);
}
// The target of the operation holds its new value; take it over into the model.
void adopt(BSlot& d) { arb_set(d.m.t, d.v->arb_t()); }
void mustContain(World& w, const arb_t ball, const mpq_class& v, const std::string& what) {
  if (!contains(ball, v)) fail(w, "C12", "enclosure", what + " is " + v.get_str() + " which is not in " + truth::str(ball));
}
void mustBe(World& w, BSlot& d, const arb_t expected, const char* what) {
  if (!arb_equal(d.v->arb_t(), expected)) fail(w, "C12", "value", std::string(what) + " is " + truth::str(d.v->arb_t()) + " but should be " + truth::str(expected));
  arb_set(d.m.t, expected);
}
mpz_class big(int64_t bits, int64_t seed) {
  Rng rng((uint64_t)seed * 7 + 3);
  mpz_class m = 1;
  long n = std::max<int64_t>(1, bits % 2000);
  int style = (int)rng.below(3);
  for (long i = 1; i < n; i++) m = 2 * m + (style == 0 ? (long)rng.chance(50) : style == 1 ? 1 : (long)((i / 11) % 2));
  return rng.chance(40) ? -m : m;
}
void setExact(World& w, BSlot& d, const std::function<void()>& f, const mpq_class& v, const char* what) {
  run(w, f);
  if (!arb_is_exact(d.v->arb_t()) || !arb_is_finite(d.v->arb_t()) || truth::toMpq(arb_midref(d.v->arb_t())) != v)
    fail(w, "C12", "value", std::string(what) + " is " + truth::str(d.v->arb_t()) + " but should be exactly " + v.get_str());
  adopt(d);
}
long precOf(int64_t p) { return p < 0 ? ARF_PREC_EXACT : std::max<long>(2, p % 3000); }
}  // namespace

// b.int d type value form: from the integer types
OP(bint, "b.int") {
  BSlot& d = w.b(0);
  int64_t v = w.arg(2);
  int form = (int)((uint64_t)w.arg(3) % 2);
  if (form) ensure(d);
  auto go = [&](auto x) {
    mpz_class z;
    if (std::is_signed_v<decltype(x)>) z = mpz_class((long)x);
    else z = mpz_class((unsigned long)x);
    setExact(w, d, [&] { if (form) *d.v = x; else d.v.emplace(x); }, z, "interval of an integer");
  };
  switch ((uint64_t)w.arg(1) % 8) {
    case 0: go((short)v); break;
    case 1: go((unsigned short)v); break;
    case 2: go((int)v); break;
    case 3: go((unsigned int)v); break;
    case 4: go((long)v); break;
    case 5: go((unsigned long)v); break;
    case 6: go((long long)v); break;
    default: go((unsigned long long)v); break;
  }
}
OP(bmpz, "b.mpz") {
  BSlot& d = w.b(0);
  mpz_class z = big(w.arg(1), w.arg(2));
  int form = (int)((uint64_t)w.arg(3) % 2);
  if (w.arg(3) & 4) z = mpz_class((long)w.arg(2));
  if (form) ensure(d);
  setExact(w, d, [&] { if (form) *d.v = z; else d.v.emplace(z); }, z, "interval of an integer");
}
// b.mpq d bits seed denbits denseed prec
OP(bmpq, "b.mpq") {
  BSlot& d = w.b(0);
  mpz_class n = big(w.arg(1), w.arg(2)), m = abs(big(w.arg(3), w.arg(4)));
  mpq_class q(n, m);
  q.canonicalize();
  long p = precOf(std::llabs(w.arg(5)));
  bool def = w.arg(6) & 1;
  run(w, [&] { if (def) d.v.emplace(q); else d.v.emplace(q, p); });
  mustContain(w, d.v->arb_t(), q, "a rational");
  count("probe.ball-from-rational");
  adopt(d);
}
OP(barf, "b.arf") {
  BSlot& d = w.b(0);
  FSlot& a = w.f(1);
  if (!a.v || a.m.kind == Dy::NAN_) return;
  run(w, [&] { d.v.emplace(*a.v); });
  arb_t x;
  arb_init(x);
  arb_set_arf(x, a.v->arf_t());
  mustBe(w, d, x, "interval of a float");
  arb_clear(x);
}
// b.pair d a b prec: hull of two floats
OP(bpair, "b.pair") {
  BSlot& d = w.b(0);
  FSlot &a = w.f(1), &b = w.f(2);
  if (!a.v || !b.v || a.m.kind != Dy::FIN || b.m.kind != Dy::FIN) return;
  if (truth::dyCmp(a.m, b.m) > 0) return;
  if (!modestArf(a.v->arf_t()) || !modestArf(b.v->arf_t())) return;
  long p = precOf(w.arg(3));
  bool def = w.arg(3) < 0;
  mpq_class lo = truth::toMpq(a.v->arf_t()), hi = truth::toMpq(b.v->arf_t());
  run(w, [&] { if (def) d.v.emplace(std::pair<Arf, Arf>(*a.v, *b.v)); else d.v.emplace(std::pair<Arf, Arf>(*a.v, *b.v), p); });
  mustContain(w, d.v->arb_t(), lo, "the lower end point");
  mustContain(w, d.v->arb_t(), hi, "the upper end point");
  mustContain(w, d.v->arb_t(), (lo + hi) / 2, "the midpoint");
  {
    arb_t x;
    arb_init(x);
    arb_set_interval_arf(x, a.v->arf_t(), b.v->arf_t(), p);
    mustBe(w, d, x, "the interval with given end points");
    arb_clear(x);
  }
  count("probe.ball-from-pair");
  adopt(d);
}
// b.str d n digits rad raddigits prec
OP(bstr, "b.str") {
  BSlot& d = w.b(0);
  long n = (long)w.arg(1), r = (long)(std::llabs(w.arg(3)) % 1000000);
  int k = (int)((uint64_t)w.arg(2) % 30), l = (int)((uint64_t)w.arg(4) % 30);
  long p = precOf(std::llabs(w.arg(5)));
  auto ten = [](int k) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, k); return t; };
  mpq_class mid(mpz_class(n), ten(k)), rad(mpz_class(r), ten(l));
  mid.canonicalize();
  rad.canonicalize();
  std::string s = std::to_string(n) + "e-" + std::to_string(k);
  if (r) s = "[" + s + " +/- " + std::to_string(r) + "e-" + std::to_string(l) + "]";
  run(w, [&] { d.v.emplace(s, p); });
  mustContain(w, d.v->arb_t(), mid, "midpoint of " + s);
  mustContain(w, d.v->arb_t(), mid - rad, "lower end of " + s);
  mustContain(w, d.v->arb_t(), mid + rad, "upper end of " + s);
  adopt(d);
}
// b.renf d field c0 c1 c2 den prec default
OP(brenf, "b.renf") {
  BSlot& d = w.b(0);
  int f = (int)((uint64_t)w.arg(1) % truth::fields.size());
  long den = std::max<long>(1, std::llabs(w.arg(5)) % 1000);
  std::vector<mpq_class> c;
  for (int i = 0; i < 3 && i < (int)std::max<size_t>(1, truth::fields[f].poly.size()); i++) {
    c.push_back(mpq_class((long)w.arg(2 + i), den));
    c.back().canonicalize();
    if (f == 0) break;
  }
  truth::Coef x(f, c);
  long p = std::min<long>(precOf(std::llabs(w.arg(6))), 2000);
  bool def = w.arg(7) & 1;
  std::optional<eantic::renf_elem_class> e;
  { Loud l; e.emplace(uncoef<NumberField>(w, x, f)); }
  run(w, [&] { if (def) d.v.emplace(*e); else d.v.emplace(*e, p); });
  bool ok = false;
  if (x.rational()) ok = contains(d.v->arb_t(), x.q());
  else {
    ok = true;
    for (long q = 200 + p; q < 30000; q *= 4) {
      auto t = truth::eval(x, q);
      if (arb_contains(d.v->arb_t(), t.t)) break;
      if (!arb_overlaps(d.v->arb_t(), t.t)) { ok = false; break; }
    }
  }
  { Loud l; e.reset(); }
  if (!ok) fail(w, "C12 C15", "enclosure", "the interval of " + x.str() + " with " + to_s(p) + " bits is " + truth::str(d.v->arb_t()));
  count("probe.ball-from-algebraic");
  adopt(d);
}
OP(bconst, "b.const") {
  BSlot& d = w.b(0);
  int k = (int)((uint64_t)w.arg(1) % 7);
  arb_t x;
  arb_init(x);
  run(w, [&] {
    switch (k) {
      case 0: d.v.emplace(); break;
      case 1: d.v.emplace(Arb::zero()); break;
      case 2: d.v.emplace(Arb::one()); break;
      case 3: d.v.emplace(Arb::pos_inf()); break;
      case 4: d.v.emplace(Arb::neg_inf()); break;
      case 5: d.v.emplace(Arb::zero_pm_one()); break;
      default: d.v.emplace(Arb::unit_interval()); break;
    }
  });
  switch (k) {
    case 0: case 1: break;
    case 2: arb_one(x); break;
    case 3: arb_pos_inf(x); break;
    case 4: arb_neg_inf(x); break;
    case 5: arb_zero_pm_one(x); break;
    default: arb_unit_interval(x); break;
  }
  mustBe(w, d, x, "a constant");
  if (k == 0 && (w.arg(2) & 1)) {
    run(w, [&] { d.v.emplace(Arb::zero_pm_inf()); });
    if (arb_is_finite(d.v->arb_t()) || !contains(d.v->arb_t(), 123456)) fail(w, "C12", "value", "the real line is " + truth::str(d.v->arb_t()));
    adopt(d);
  }
  arb_clear(x);
}
// b.ball d mantissa exponent radius rexponent: midpoint ± radius
OP(bball, "b.ball") {
  BSlot& d = w.b(0);
  {
    Loud l;
    d.v.emplace(mpz_class((long)w.arg(1)));
  }
  arb_mul_2exp_si(d.v->arb_t(), d.v->arb_t(), w.arg(2));
  mag_set_ui(arb_radref(d.v->arb_t()), (ulong)std::llabs(w.arg(3)));
  mag_mul_2exp_si(arb_radref(d.v->arb_t()), arb_radref(d.v->arb_t()), w.arg(4));
  adopt(d);
}
OP(bcp, "b.cp") {
  BSlot &d = w.b(0), &a = w.b(1);
  if (!a.v) return;
  truth::Ball x = a.m;
  bool assign = w.arg(2) & 1;
  if (assign) ensure(d);
  run(w, [&] { if (assign) *d.v = *a.v; else { Arb t(*a.v); d.v.emplace(t); } });
  mustBe(w, d, x.t, "a copy");
}
OP(bmv, "b.mv") {
  BSlot &d = w.b(0), &a = w.b(1);
  if (!a.v || &d == &a) return;
  truth::Ball x = a.m;
  bool assign = w.arg(2) & 1;
  if (assign) ensure(d);
  run(w, [&] { if (assign) *d.v = std::move(*a.v); else { d.v.reset(); d.v.emplace(std::move(*a.v)); } });
  mustBe(w, d, x.t, "a moved interval");
  // what is left can be used
  setExact(w, a, [&] { *a.v = 7; }, 7, "a moved-from interval assigned 7");
}
OP(bswap, "b.swap") {
  BSlot &d = w.b(0), &a = w.b(1);
  if (!a.v || !d.v) return;
  run(w, [&] { if (w.arg(2) & 1) { using std::swap; swap(*d.v, *a.v); } else exactreal::swap(*d.v, *a.v); });
  if (&d != &a) {
    truth::Ball t = d.m;
    truth::Ball u = a.m;
    mustBe(w, d, u.t, "a swapped interval");
    mustBe(w, a, t.t, "a swapped interval");
  }
}
OP(bneg, "b.neg") {
  BSlot &d = w.b(0), &a = w.b(1);
  if (!a.v) return;
  std::optional<Arb> r;
  run(w, [&] { r.emplace(-*a.v); });
  arb_t x;
  arb_init(x);
  arb_neg(x, a.m.t);
  run(w, [&] { d.v.reset(); d.v.emplace(std::move(*r)); });
  mustBe(w, d, x, "the negative");
  arb_clear(x);
  Loud l;
  r.reset();
}
OP(bdrop, "b.drop") { Loud l; w.b(0).v.reset(); }
// Conversions: end points, double, float, predicates
OP(bconv, "b.conv") {
  BSlot& a = w.b(0);
  if (!a.v || arf_is_nan(arb_midref(a.m.t))) return;
  bool exact = false, fin = false;
  double x = 0;
  std::optional<Arf> mid;
  run(w, [&] { exact = a.v->is_exact(); fin = a.v->is_finite(); x = static_cast<double>(*a.v); mid.emplace(static_cast<Arf>(*a.v)); });
  std::string t = truth::str(a.m.t);
  if (exact != (bool)arb_is_exact(a.m.t)) fail(w, "C12", "is_exact", t + " is_exact() is " + to_s(exact));
  if (fin != (bool)arb_is_finite(a.m.t)) fail(w, "C12", "is_finite", t + " is_finite() is " + to_s(fin));
  if (!arf_equal(mid->arf_t(), arb_midref(a.m.t))) fail(w, "C12", "midpoint", "midpoint of " + t + " is " + truth::str(mid->arf_t()));
  { Loud l; mid.reset(); }
  if (!modest(a)) return;
  double y = truth::toDouble(truth::toMpq(arb_midref(a.m.t)));
  if (!(x == y)) fail(w, "C12 C18", "double", "midpoint of " + t + " as a double is " + truth::dbl(x) + " but should be " + truth::dbl(y));
  std::optional<std::pair<Arf, Arf>> ends;
  run(w, [&] { ends.emplace(static_cast<std::pair<Arf, Arf>>(*a.v)); });
  auto lo = truth::dyOf(ends->first.arf_t()), hi = truth::dyOf(ends->second.arf_t());
  auto L = lower(a.m.t), U = upper(a.m.t);
  bool ok = (lo.kind == Dy::NINF || (lo.kind == Dy::FIN && truth::toMpq(ends->first.arf_t()) <= L)) && (hi.kind == Dy::PINF || (hi.kind == Dy::FIN && truth::toMpq(ends->second.arf_t()) >= U));
  if (!ok) fail(w, "C12", "endpoints", "end points of " + t + " are " + lo.str() + " and " + hi.str());
  if (arb_is_exact(a.m.t) && (lo != hi)) fail(w, "C12", "endpoints", "end points of the exact " + t + " are " + lo.str() + " and " + hi.str());
  { Loud l; ends.reset(); }
  count("probe.ball-endpoints");
}
// ---------------------------------------------------------------- comparison
namespace {
struct Tri {
  std::optional<bool> v;
};
// lt, le, eq, ne, gt, ge of intervals [al, ah] and [bl, bh]
void judge(World& w, const std::string& text, const mpq_class& al, const mpq_class& ah, const mpq_class& bl, const mpq_class& bh, const std::optional<bool> (&r)[6]) {
  static const char* names[6] = {"<", "<=", "==", "!=", ">", ">="};
  bool points = al == ah && bl == bh && al == bl;
  bool disjoint = ah < bl || bh < al;
  // FLINT works with 30 bit radii: intervals with a relatively tiny gap are not told apart
  mpq_class gap = ah < bl ? mpq_class(bl - ah) : bh < al ? mpq_class(al - bh) : mpq_class(0);
  bool apart = disjoint && gap * 1000000 > (ah - al) + (bh - bl);
  // true for all pairs of points; false for all pairs of points
  bool allTrue[6] = {ah < bl, ah <= bl, points, disjoint, al > bh, al >= bh};
  bool allFalse[6] = {al >= bh, al > bh, disjoint, points, ah <= bl, ah < bl};
  for (int i = 0; i < 6; i++) {
    if (r[i] && *r[i] && !allTrue[i]) fail(w, "C12", "comparison", text + " with " + names[i] + " is true but not for all points");
    if (r[i] && !*r[i] && !allFalse[i]) fail(w, "C12", "comparison", text + " with " + names[i] + " is false but not for all points");
    if (!r[i] && (points || apart)) fail(w, "C12", "undecided", text + " with " + names[i] + " is undecided");
  }
  count(points ? "probe.ball-compare-points" : disjoint ? "probe.ball-compare-disjoint" : "probe.ball-compare-overlap");
}
template <typename Y> void tri(World& w, const std::string& text, const Arb& x, const Y& y, const mpq_class& al, const mpq_class& ah, const mpq_class& bl, const mpq_class& bh) {
  std::optional<bool> r[6];
  run(w, [&] {
    r[0] = x < y; r[1] = x <= y; r[2] = x == y; r[3] = x != y; r[4] = x > y; r[5] = x >= y;
  });
  judge(w, text, al, ah, bl, bh, r);
}
}  // namespace
OP(bcmp, "b.cmp") {
  BSlot &a = w.b(0), &b = w.b(1);
  if (!modest(a) || !modest(b)) return;
  tri(w, truth::str(a.m.t) + " and " + truth::str(b.m.t), *a.v, *b.v, lower(a.m.t), upper(a.m.t), lower(b.m.t), upper(b.m.t));
  bool eq = false;
  run(w, [&] { eq = a.v->equal(*b.v); });
  if (eq != (bool)arb_equal(a.m.t, b.m.t)) fail(w, "C12", "equal", truth::str(a.m.t) + " and " + truth::str(b.m.t) + " equal() is " + to_s(eq));
}
// b.cmpi a type offset where: integers, those close to the end points in particular
OP(bcmpi, "b.cmpi") {
  BSlot& a = w.b(0);
  if (!modest(a)) return;
  int64_t v = w.arg(2);
  auto L = lower(a.m.t), U = upper(a.m.t);
  int where = (int)((uint64_t)w.arg(3) % 4);
  if (where) {
    mpq_class at = where == 1 ? L : where == 2 ? U : truth::toMpq(arb_midref(a.m.t));
    mpz_class z;
    mpz_fdiv_q(z.get_mpz_t(), at.get_num_mpz_t(), at.get_den_mpz_t());
    z += (long)w.arg(2) % 3;
    if (z.fits_slong_p()) v = z.get_si();
  }
  auto go = [&](auto x) {
    mpz_class z;
    if (std::is_signed_v<decltype(x)>) z = mpz_class((long)x);
    else z = mpz_class((unsigned long)x);
    tri(w, truth::str(a.m.t) + " and " + z.get_str(), *a.v, x, L, U, z, z);
  };
  switch ((uint64_t)w.arg(1) % 8) {
    case 0: go((short)v); break;
    case 1: go((unsigned short)v); break;
    case 2: go((int)v); break;
    case 3: go((unsigned int)v); break;
    case 4: go((long)v); break;
    case 5: go((unsigned long)v); break;
    case 6: go((long long)v); break;
    default: go((unsigned long long)v); break;
  }
}
// b.cmpq a where num den: rationals at, and close to, the end points
OP(bcmpq, "b.cmpq") {
  BSlot& a = w.b(0);
  if (!modest(a)) return;
  auto L = lower(a.m.t), U = upper(a.m.t);
  mpq_class mid = truth::toMpq(arb_midref(a.m.t));
  mpq_class off((long)w.arg(2), std::max<long>(1, (long)std::llabs(w.arg(3))));
  off.canonicalize();
  int where = (int)((uint64_t)w.arg(1) % 5);
  mpq_class v = where == 0 ? off : where == 1 ? mpq_class(L + off) : where == 2 ? mpq_class(U + off) : where == 3 ? mpq_class(mid + off) : mpq_class(mid + off * (U - mid));
  tri(w, truth::str(a.m.t) + " and " + v.get_str(), *a.v, v, L, U, v, v);
}
// b.unb kind a form integer: an unbounded interval and something bounded (or unbounded)
OP(bunb, "b.unb") {
  BSlot& b = w.b(1);
  if (!modest(b)) return;
  const int kind = (int)((uint64_t)w.arg(0) % 5), form = (int)((uint64_t)w.arg(2) % 5);
  std::optional<Arb> x;
  run(w, [&] {
    switch (kind) {
      case 0: x.emplace(Arb::pos_inf()); break;
      case 1: x.emplace(Arb::neg_inf()); break;
      case 2: x.emplace(Arb::zero_pm_inf()); break;
      case 3: x.emplace(Arb::indeterminate()); break;
      default: x.emplace(*b.v); mag_inf(arb_radref(x->arb_t()));
    }
  });
  bool fin = true, exact = true;
  run(w, [&] { fin = x->is_finite(); exact = x->is_exact(); });
  if (fin || (kind < 2) != exact) fail(w, "C12", "is_finite", truth::str(x->arb_t()) + " is_finite() is " + to_s(fin) + ", is_exact() is " + to_s(exact));
  std::optional<bool> r[6];
  mpq_class q((long)w.arg(3), 7);
  q.canonicalize();
  auto compare = [&](const auto& y) { run(w, [&] { r[0] = *x < y; r[1] = *x <= y; r[2] = *x == y; r[3] = *x != y; r[4] = *x > y; r[5] = *x >= y; }); };
  auto flipped = [&](const auto& y) { run(w, [&] { r[0] = y > *x; r[1] = y >= *x; r[2] = y == *x; r[3] = y != *x; r[4] = y < *x; r[5] = y <= *x; }); };
  bool unbounded = form == 4 && kind >= 2;
  if (unbounded) compare(*x);
  else if (form == 1) compare((long)w.arg(3));
  else if (form == 2) compare(q);
  else if (form == 3) flipped(*b.v);
  else compare(*b.v);
  static const char* names[6] = {"<", "<=", "==", "!=", ">", ">="};
  static const bool infinity[6] = {false, false, false, true, true, true};
  for (int i = 0; i < 6; i++) {
    // not even reflexive: both could be any two numbers
    if (kind >= 2 ? r[i].has_value() : (r[i] && *r[i] != (kind == 0 || i == 2 || i == 3 ? infinity[i] : !infinity[i])))
      fail(w, "C12", "comparison", truth::str(x->arb_t()) + " with " + names[i] + " and something bounded is " + to_s((int)*r[i]));
  }
  count("probe.ball-unbounded");
  Loud l;
  x.reset();
}
// b.rnd d seed prec magbits exact
OP(brnd, "b.rnd") {
  BSlot& d = w.b(0);
  long p = 2 + (long)((uint64_t)w.arg(2) % 400), m = 1 + (long)((uint64_t)w.arg(3) % 9);
  bool exact = w.arg(4) & 1;
  flint_rand_t s, t;
  arb_t x;
  arb_init(x);
  flint_randinit(s);
  flint_randinit(t);
  for (int i = 0, n = (int)((uint64_t)w.arg(1) % 50); i < n; i++) { n_randint(s, 1000); n_randint(t, 1000); }
  for (int i = 0; i < 3; i++) {
    run(w, [&] { d.v.emplace(exact ? Arb::randtest_exact(s, p, m) : Arb::randtest(s, p, m)); });
    if (exact) arb_randtest_exact(x, t, p, m);
    else arb_randtest(x, t, p, m);
    mustBe(w, d, x, "a random interval");
  }
  if (exact && !arb_is_exact(x)) fail(w, "C12", "value", "randtest_exact() is " + truth::str(x));
  flint_randclear(s);
  flint_randclear(t);
  arb_clear(x);
}
// --------------------------------------------------------------- expressions
namespace {
enum { ADD, SUB, MUL, DIV };
// b.* results: check and store
void finish(World& w, BSlot& d, const std::vector<std::optional<mpq_class>>& images, bool aliased, const std::string& text) {
  for (auto& v : images) {
    if (!v) continue;
    mustContain(w, d.v->arb_t(), *v, text);
  }
  count(aliased ? "probe.ball-aliased" : "probe.ball-op");
  adopt(d);
  // keep the population in a range where exact arithmetic is cheap
  if (arb_is_finite(d.m.t) && !modest(d.m.t)) {
    Loud l;
    d.v.emplace();
    arb_zero(d.m.t);
  }
}
std::optional<mpq_class> apply(int op, const std::optional<mpq_class>& x, const std::optional<mpq_class>& y) {
  if (!x || !y) return std::nullopt;
  switch (op) {
    case ADD: return mpq_class(*x + *y);
    case SUB: return mpq_class(*x - *y);
    case MUL: return mpq_class(*x * *y);
    default:
      if (*y == 0) return std::nullopt;
      return mpq_class(*x / *y);
  }
}
}  // namespace
// b.bin d a b op prec form
OP(bbin, "b.bin") {
  BSlot &d = w.b(0), &a = w.b(1), &b = w.b(2);
  if (!modest(a) || !modest(b)) return;
  int op = (int)((uint64_t)w.arg(3) % 4);
  exactreal::prec p = precOf(w.arg(4));
  if (op == DIV && p == ARF_PREC_EXACT) return;
  std::vector<std::optional<mpq_class>> img;
  for (int i = 0; i < POINTS; i++) img.push_back(apply(op, point(w, a, i), point(w, b, i)));
  std::string text = truth::str(a.m.t) + " op" + to_s(op) + " " + truth::str(b.m.t) + " with " + to_s(p) + " bits";
  ensure(d);
  const Arb &A = *a.v, &B = *b.v;
  bool differ = false;
  int form = (int)((uint64_t)w.arg(5) % 6);
  run(w, [&] {
  // an expression that is kept can be evaluated again and again
#define FORM(OPR)                                               \
  switch (form) {                                               \
    case 0: *d.v = (A OPR B)(p); break;                         \
    case 1: { Arb t((A OPR B)(p)); *d.v = std::move(t); break; } \
    case 2: { const auto x = (A OPR B)(p); Arb t(x); t = x; *d.v = t; break; } \
    case 3: { auto x = (Arb(A) OPR B)(p); Arb s(x); Arb t(x); *d.v = s; if (!arb_equal(s.arb_t(), t.arb_t())) differ = true; break; } \
    case 4: { auto x = (Arb(A) OPR Arb(B))(p); Arb t; t = x; t = std::move(x); *d.v = t; break; } \
    default: *d.v = (Arb(A) OPR B)(p); break;                   \
  }
    switch (op) {
      case ADD: FORM(+) break;
      case SUB: FORM(-) break;
      case MUL: FORM(*) break;
      default: FORM(/) break;
    }
#undef FORM
  });
  if (differ) fail(w, "C12", "value", "evaluating the same expression twice leads to different results: " + text);
  finish(w, d, img, &d == &a || &d == &b, text);
}
// b.inp d b c op prec form: d op= …
OP(binp, "b.inp") {
  BSlot &d = w.b(0), &b = w.b(1), &c = w.b(2);
  int form = (int)((uint64_t)w.arg(5) % 3);
  if (!modest(d) || !modest(b) || (form && !modest(c))) return;
  int op = (int)((uint64_t)w.arg(3) % 4);
  exactreal::prec p = precOf(w.arg(4));
  if (op == DIV && p == ARF_PREC_EXACT) return;
  std::vector<std::optional<mpq_class>> img;
  for (int i = 0; i < POINTS; i++) {
    std::optional<mpq_class> rhs = point(w, b, i);
    if (form == 1) rhs = apply(MUL, rhs, point(w, c, i));
    if (form == 2) rhs = apply(SUB, rhs, point(w, c, i));
    img.push_back(apply(op, point(w, d, i), rhs));
  }
  std::string text = truth::str(d.m.t) + " op" + to_s(op) + "= " + truth::str(b.m.t) + " with " + to_s(p) + " bits";
  Arb& D = *d.v;
  const Arb &B = *b.v, &C = form ? *c.v : *b.v;
  run(w, [&] {
#define FORM(OPR)                            \
  switch (form) {                            \
    case 0: D OPR B(p); break;               \
    case 1: D OPR (B * C)(p); break;         \
    default: D OPR (B - C)(p); break;        \
  }
    switch (op) {
      case ADD: FORM(+=) break;
      case SUB: FORM(-=) break;
      case MUL: FORM(*=) break;
      default: FORM(/=) break;
    }
#undef FORM
  });
  finish(w, d, img, true, text);
}
// b.exp d a b c shape prec prec2 scalar f
OP(bexp, "b.exp") {
  BSlot &d = w.b(0), &a = w.b(1), &b = w.b(2), &c = w.b(3);
  if (!modest(a) || !modest(b) || !modest(c)) return;
  int shape = (int)((uint64_t)w.arg(4) % 20);
  exactreal::prec p = precOf(std::llabs(w.arg(5))), q = precOf(w.arg(6));
  const int i3 = (int)w.arg(7);
  const slong l3 = w.arg(7);
  const ulong u3 = (ulong)w.arg(7);
  const double d3 = std::ldexp((double)(w.arg(7) % 100000), -7);
  FSlot& f = w.f(8);
  bool needFloat = shape == 14 || shape == 15;
  if (needFloat && (!f.v || f.m.kind != Dy::FIN || !modestArf(f.v->arf_t()))) return;
  std::vector<std::optional<mpq_class>> img;
  for (int i = 0; i < POINTS; i++) {
    using Q = std::optional<mpq_class>;
    Q x = point(w, a, i), y = point(w, b, i), z = point(w, c, i);
    auto add = [&](const Q& s, const Q& t) { return apply(ADD, s, t); };
    auto sub = [&](const Q& s, const Q& t) { return apply(SUB, s, t); };
    auto mul = [&](const Q& s, const Q& t) { return apply(MUL, s, t); };
    auto div = [&](const Q& s, const Q& t) { return apply(DIV, s, t); };
    auto neg = [&](const Q& s) { return apply(SUB, mpq_class(0), s); };
    Q I = mpq_class(i3), L = mpq_class((long)l3), U = mpq_class((unsigned long)u3), DD = mpq_class(d3);
    Q F = needFloat ? truth::toMpq(f.v->arf_t()) : mpq_class(0);
    Q e;
    switch (shape) {
      case 0: e = add(x, mul(y, z)); break;
      case 1: e = sub(mul(x, y), z); break;
      case 2: e = mul(sub(x, y), sub(y, z)); break;
      case 3: e = neg(add(x, y)); break;
      case 4: e = sub(x, sub(y, z)); break;
      case 5: e = mul(add(x, y), z); break;
      case 6: e = add(div(x, y), z); break;
      case 7: e = sub(neg(mul(x, y)), z); break;
      case 8: e = sub(add(x, y), add(z, x)); break;
      case 9: e = sub(mul(sub(x, y), z), x); break;
      case 10: e = mul(add(x, I), y); break;
      case 11: e = sub(L, mul(x, y)); break;
      case 12: e = add(mul(x, DD), y); break;
      case 13: e = div(x, sub(y, mul(y, z))); break;
      case 14: e = sub(mul(x, F), y); break;
      case 15: e = div(F, add(x, y)); break;
      case 16: e = add(mul(U, x), y); break;
      case 17: e = sub(mul(x, y), mul(y, z)); break;
      case 18: e = div(L, x); break;
      default: e = add(neg(x), neg(sub(y, z))); break;
    }
    img.push_back(e);
  }
  std::string text = "shape " + to_s(shape) + " of " + truth::str(a.m.t) + ", " + truth::str(b.m.t) + ", " + truth::str(c.m.t) + " with " + to_s(p) + " bits";
  ensure(d);
  Arb& D = *d.v;
  const Arb &A = *a.v, &B = *b.v, &C = *c.v;
  static const Arf ZERO;
  const Arf& F = needFloat ? *f.v : ZERO;
  run(w, [&] {
    switch (shape) {
      case 0: D = (A + B * C)(p); break;
      case 1: D = (A * B - C)(p); break;
      case 2: D = ((A - B) * (B - C))(p); break;
      case 3: D = (-(A + B))(p); break;
      case 4: D = (A - (B - C))(p); break;
      case 5: D = (Arb((A + B)(q)) * C)(p); break;
      case 6: D = (A / B + C)(p); break;
      case 7: D = (-(A * B) - C)(p); break;
      case 8: D = ((A + B) - (C + A))(p); break;
      case 9: D = ((A - B) * C - A)(p); break;
      case 10: D = ((A + i3) * B)(p); break;
      case 11: D = (l3 - A * B)(p); break;
      case 12: D = (A * d3 + B)(p); break;
      case 13: D = (A / (B - B * C))(p); break;
      case 14: D = (A * F - B)(p); break;
      case 15: D = (F / (A + B))(p); break;
      case 16: D = (u3 * A + B)(p); break;
      case 17: D = (Arb((A * B)(q)) - B * C)(p); break;
      case 18: D = (l3 / A)(p); break;
      default: D = (-A + -(B - C))(p); break;
    }
  });
  finish(w, d, img, &d == &a || &d == &b || &d == &c, text);
}
