// Operations on floating point numbers against the exact model.
#include <exact-real/yap/arf.hpp>

#include <cmath>
#include <cstring>
#include <limits>

#include "world.hpp"

using namespace sim;
using truth::Dy;
using truth::Rnd;

namespace {
constexpr Arf::Round ROUNDS[5] = {Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL, Arf::Round::NEAR};
constexpr Rnd RNDS[5] = {truth::DOWN, truth::UP, truth::FLOOR, truth::CEIL, truth::NEAR};
struct Mode {
  long prec;
  int r;
  Arf::Round lib() const { return ROUNDS[r]; }
  Rnd model() const { return RNDS[r]; }
};
Mode modeOf(int64_t p, int64_t r) { return {p < 0 ? ARF_PREC_EXACT : std::max<long>(2, p % 5000), (int)((uint64_t)r % 5)}; }

// A mantissa of the given number of bits
mpz_class mantissa(int64_t bits, int64_t seed) {
  Rng rng((uint64_t)seed * 2 + 1);
  mpz_class m = 1;
  long n = std::max<int64_t>(1, bits % 3000);
  int style = (int)rng.below(4);
  for (long i = 1; i < n; i++) {
    m *= 2;
    // runs of ones and zeros, to hit carries and ties
    bool bit = style == 0 ? rng.chance(50) : style == 1 ? true : style == 2 ? i == n - 1 : (rng.below(16) == 0 ? rng.chance(50) : (i / 7) % 2);
    if (bit) m += 1;
  }
  return m;
}
bool finite(const FSlot& s) { return s.v && s.m.kind == Dy::FIN; }
// Adding these exactly does not need an excessive amount of memory
bool close(const Dy& a, const Dy& b) {
  if (a.zero() || b.zero()) return true;
  mpz_class d = abs(a.e - b.e);
  return d < 30000;
}
bool modest(const Dy& a) { return a.kind == Dy::FIN && (a.zero() || abs(a.e) < 30000); }
mpz_class toInt(const Dy& a, bool up) {
  mpq_class q(a.m);
  long e = a.e.get_si();
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  mpz_class r;
  if (up) mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  else mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
mpq_class toQ(const Dy& a) {
  mpq_class q(a.m);
  long e = a.e.get_si();
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  return q;
}
void run(World& w, const std::function<void()>& f) {
  Out o = w.call(f);
  if (o != Out::OK) fail(w, "C11", "rejected", w.what);
}
// The target of an operation that was performed in place has this value now.
void check(World& w, FSlot& d, const Dy& expected) {
  auto got = truth::dyOf(d.v->arf_t());
  if (got != expected) fail(w, "C11", "value", "result is " + got.str() + " but should be " + expected.str());
  d.m = expected;
}
void ensure(FSlot& d) {
  if (d.v) return;
  Loud l;
  d.v.emplace();
  d.m = Dy();
}
}  // namespace

OP(fset, "f.set") {
  FSlot& d = w.f(0);
  mpz_class m = mantissa(w.arg(1), w.arg(2));
  if (w.arg(3) & 1) m = -m;
  long e = w.arg(4);
  Dy x(m, mpz_class(e));
  std::optional<Arf> r;
  int form = (int)((uint64_t)w.arg(5) % 3);
  std::string text = m.get_str(form == 1 ? 16 : 10);
  run(w, [&] { if (form == 0) r.emplace(m, e); else r.emplace(text, form == 1 ? 16 : 10, e); });
  setFloat(w, "C11", d, *r, x);
}
OP(fint, "f.int") {
  FSlot& d = w.f(0);
  int64_t v = w.arg(1);
  int form = (int)((uint64_t)w.arg(2) % 4);
  if (form & 1) v = (int)v;
  Dy x(mpz_class((long)v), 0);
  if (form >= 2) {
    ensure(d);
    run(w, [&] { if (form == 3) *d.v = (int)v; else *d.v = (slong)v; });
    check(w, d, x);
    return;
  }
  std::optional<Arf> r;
  run(w, [&] { if (form == 1) r.emplace((int)v); else r.emplace((slong)v); });
  setFloat(w, "C11", d, *r, x);
}
OP(fdbl, "f.dbl") {
  FSlot& d = w.f(0);
  double x;
  int64_t bits = w.arg(1);
  memcpy(&x, &bits, 8);
  if (w.arg(2) & 1) {
    ensure(d);
    run(w, [&] { *d.v = x; });
    check(w, d, truth::dyOf(x));
    return;
  }
  std::optional<Arf> r;
  run(w, [&] { r.emplace(x); });
  setFloat(w, "C11", d, *r, truth::dyOf(x));
}
// f.rnd d seed prec magbits
OP(frnd, "f.rnd") {
  FSlot& d = w.f(0);
  long p = 2 + (long)((uint64_t)w.arg(2) % 400), m = 1 + (long)((uint64_t)w.arg(3) % 9);
  flint_rand_t s, t;
  arf_t x;
  arf_init(x);
  flint_randinit(s);
  flint_randinit(t);
  for (int i = 0, n = (int)((uint64_t)w.arg(1) % 50); i < n; i++) { n_randint(s, 1000); n_randint(t, 1000); }
  std::optional<Arf> r;
  run(w, [&] { r.emplace(Arf::randtest(s, p, m)); });
  arf_randtest(x, t, p, m);
  flint_randclear(s);
  flint_randclear(t);
  setFloat(w, "C11", d, *r, truth::dyOf(x));
  arf_clear(x);
  Loud l;
  r.reset();
}
OP(fcp, "f.cp") {
  FSlot &d = w.f(0), &a = w.f(1);
  if (!a.v) return;
  Dy x = a.m;
  if (w.arg(2) & 1) {
    ensure(d);
    run(w, [&] { *d.v = *a.v; });
    check(w, d, x);
    return;
  }
  std::optional<Arf> r;
  run(w, [&] { r.emplace(*a.v); });
  setFloat(w, "C11", d, *r, x);
}
OP(fmv, "f.mv") {
  FSlot &d = w.f(0), &a = w.f(1);
  if (!a.v || &d == &a) return;
  Dy x = a.m;
  if (w.arg(2) & 1) {
    ensure(d);
    run(w, [&] { *d.v = std::move(*a.v); });
    check(w, d, x);
  } else {
    run(w, [&] { d.v.reset(); d.v.emplace(std::move(*a.v)); });
    check(w, d, x);
  }
  // whatever is left there must be usable
  run(w, [&] { *a.v = 7; });
  check(w, a, Dy(7, 0));
}
OP(fswap, "f.swap") {
  FSlot &d = w.f(0), &a = w.f(1);
  if (!a.v || !d.v) return;
  run(w, [&] { if (w.arg(2) & 1) { using std::swap; swap(*d.v, *a.v); } else exactreal::swap(*d.v, *a.v); });
  if (&d != &a) std::swap(d.m, a.m);
  check(w, d, Dy(d.m));
  check(w, a, Dy(a.m));
}
OP(fdrop, "f.drop") { Loud l; w.f(0).v.reset(); }
OP(fneg, "f.neg") {
  FSlot &d = w.f(0), &a = w.f(1);
  if (!a.v) return;
  Dy x = truth::dyNeg(a.m);
  std::optional<Arf> r;
  int form = (int)((uint64_t)w.arg(2) % 3);
  if (form == 2) x = a.m.sgn() < 0 ? x : a.m;
  run(w, [&] { if (form == 0) r.emplace(-*a.v); else if (form == 1) r.emplace(a.v->operator-()); else r.emplace(a.v->abs()); });
  setFloat(w, "C11", d, *r, x);
}
OP(fshift, "f.shift") {
  FSlot &d = w.f(0), &a = w.f(1);
  if (!a.v) return;
  long k = w.arg(2);
  bool left = w.arg(3) & 1, inplace = w.arg(3) & 2;
  Dy x = inplace ? d.m : a.m;
  if (x.kind == Dy::FIN && !x.zero()) x.e += left ? mpz_class(k) : mpz_class(-mpz_class(k));
  if (inplace) {
    if (!d.v) return;
    run(w, [&] { if (left) *d.v <<= k; else *d.v >>= k; });
    check(w, d, x);
    return;
  }
  std::optional<Arf> r;
  run(w, [&] { if (left) r.emplace(*a.v << k); else r.emplace(*a.v >> k); });
  setFloat(w, "C11", d, *r, x);
}
OP(fcmp, "f.cmp") {
  FSlot &a = w.f(0), &b = w.f(1);
  if (!a.v || !b.v || a.m.kind == Dy::NAN_ || b.m.kind == Dy::NAN_) return;
  compareAll(w, "C11", a.m.str() + " and " + b.m.str(), truth::dyCmp(a.m, b.m), *a.v, *b.v, false);
}
OP(fcmpl, "f.cmpl") {
  FSlot& a = w.f(0);
  if (!a.v || a.m.kind == Dy::NAN_) return;
  long v = w.arg(1);
  if (w.arg(2) && modest(a.m)) {
    mpz_class z = toInt(a.m, false) + v;
    if (z.fits_slong_p()) v = z.get_si();
  }
  Dy y(mpz_class(v), 0);
  compareAll(w, "C11", a.m.str() + " and " + to_s(v), truth::dyCmp(a.m, y), *a.v, v);
}
OP(fconv, "f.conv") {
  FSlot& a = w.f(0);
  if (!a.v || a.m.kind == Dy::NAN_) return;
  std::string t = a.m.str();
  double x = 0;
  size_t h = 0;
  run(w, [&] { x = static_cast<double>(*a.v); h = std::hash<Arf>()(*a.v); });
  double y;
  if (a.m.kind != Dy::FIN) y = a.m.sgn() * std::numeric_limits<double>::infinity();
  else if (a.m.zero()) y = 0;
  else {
    mpz_class top = a.m.e + (unsigned long)mpz_sizeinbase(a.m.m.get_mpz_t(), 2);
    if (top > 1200) y = a.m.sgn() * std::numeric_limits<double>::infinity();
    else if (top < -1200) y = 0;
    else y = truth::toDouble(toQ(a.m));
  }
  if (!(x == y)) fail(w, "C11 C18", "double", t + " as a double is " + truth::dbl(x) + " but should be " + truth::dbl(y));
  w.remember("C19", "hash of float " + t, to_s(h));
  if (a.m.kind == Dy::FIN) {
    mpz_class m, e;
    run(w, [&] { m = a.v->mantissa(); e = a.v->exponent(); });
    if (Dy(m, e) != a.m || (!a.m.zero() && mpz_even_p(m.get_mpz_t()))) fail(w, "C11", "mantissa", t + " has mantissa " + m.get_str() + " and exponent " + e.get_str());
    if (!a.m.zero()) {
      mpz_class lg = a.m.e + (unsigned long)mpz_sizeinbase(a.m.m.get_mpz_t(), 2) - 1;
      if (lg.fits_slong_p()) {
        long l = 0;
        run(w, [&] { l = a.v->logb(); });
        if (lg != l) fail(w, "C11", "logb", "binary logarithm of " + t + " is " + to_s(l));
      }
    }
  }
  if (modest(a.m)) {
    mpz_class lo, hi;
    run(w, [&] { lo = a.v->floor(); hi = a.v->ceil(); });
    if (lo != toInt(a.m, false)) fail(w, "C11 C18", "floor", "floor of " + t + " is " + lo.get_str());
    if (hi != toInt(a.m, true)) fail(w, "C11 C18", "ceil", "ceiling of " + t + " is " + hi.get_str());
  }
}

// ------------------------------------------------------------------ expressions
namespace {
enum { ADD, SUB, MUL, DIV };
Dy apply(int op, const Dy& a, const Dy& b, Mode m, bool* ok) {
  Dy r;
  if (a.kind != Dy::FIN || b.kind != Dy::FIN) { *ok = false; return r; }
  if ((op == ADD || op == SUB) && !close(a, b)) { *ok = false; return r; }
  if (op == DIV && (m.prec == ARF_PREC_EXACT || b.zero())) { *ok = false; return r; }
  if (op == DIV) return truth::dyDiv(a, b, m.prec, m.model());
  r = op == MUL ? truth::dyMul(a, b) : truth::dyAdd(a, op == SUB ? truth::dyNeg(b) : b);
  return truth::dyRound(r, m.prec, m.model());
}
}  // namespace
// f.bin d a b op prec rnd form: d = (a op b)(prec)(rnd)
OP(fbin, "f.bin") {
  FSlot &d = w.f(0), &a = w.f(1), &b = w.f(2);
  int op = (int)((uint64_t)w.arg(3) % 4);
  Mode m = modeOf(w.arg(4), w.arg(5));
  if (!a.v || !b.v) return;
  bool ok = true;
  Dy x = apply(op, a.m, b.m, m, &ok);
  if (!ok) return;
  ensure(d);
  exactreal::prec p = m.prec;
  Arf::Round r = m.lib();
  const Arf &A = *a.v, &B = *b.v;
  int form = (int)((uint64_t)w.arg(6) % 7);
  bool differ = false;
  run(w, [&] {
  // an expression that is kept can be evaluated again and again
#define FORM(OPR)                                         \
  switch (form) {                                         \
    case 0: *d.v = (A OPR B)(p, r); break;                \
    case 1: *d.v = (A OPR B)(p)(r); break;                \
    case 2: *d.v = (A OPR B)(r)(p); break;                \
    case 3: { const auto x = (A OPR B)(p)(r); Arf t(x); t = x; *d.v = t; break; } \
    case 4: { auto x = (Arf(A) OPR B)(p)(r); Arf s(x); Arf t(x); *d.v = s; if (!arf_equal(s.arf_t(), t.arf_t())) differ = true; break; } \
    case 5: { auto x = (Arf(A) OPR Arf(B))(r)(p); Arf t; t = x; t = std::move(x); *d.v = t; break; } \
    default: { Arf t((A OPR B)(p)(r)); *d.v = std::move(t); } \
  }
    switch (op) {
      case ADD: FORM(+) break;
      case SUB: FORM(-) break;
      case MUL: FORM(*) break;
      default: FORM(/) break;
    }
#undef FORM
  });
  if (differ) fail(w, "C11", "value", "evaluating the same expression twice leads to different results");
  count("probe.float-op");
  check(w, d, x);
}
// f.inp d b op prec rnd form: d op= b(prec)(rnd)
OP(finp, "f.inp") {
  FSlot &d = w.f(0), &b = w.f(1), &c = w.f(2);
  int op = (int)((uint64_t)w.arg(3) % 4);
  Mode m = modeOf(w.arg(4), w.arg(5));
  int form = (int)((uint64_t)w.arg(6) % 4);
  if (!d.v || !b.v || (form >= 2 && !c.v)) return;
  bool ok = true;
  Dy rhs = form == 2 ? apply(MUL, b.m, c.m, m, &ok) : form == 3 ? apply(SUB, b.m, c.m, m, &ok) : b.m;
  if (!ok) return;
  Dy x = apply(op, d.m, rhs, m, &ok);
  if (!ok) return;
  exactreal::prec p = m.prec;
  Arf::Round r = m.lib();
  Arf& D = *d.v;
  const Arf &B = *b.v;
  const Arf &C = form >= 2 ? *c.v : *b.v;
  run(w, [&] {
#define FORM(OPR)                                 \
  switch (form) {                                 \
    case 0: D OPR B(p)(r); break;                 \
    case 1: D OPR B(p, r); break;                 \
    case 2: D OPR (B * C)(p)(r); break;           \
    default: D OPR (B - C)(p)(r); break;          \
  }
    switch (op) {
      case ADD: FORM(+=) break;
      case SUB: FORM(-=) break;
      case MUL: FORM(*=) break;
      default: FORM(/=) break;
    }
#undef FORM
  });
  count("probe.float-op");
  check(w, d, x);
}
// f.exp d a b c shape prec rnd prec2 rnd2: nested expressions, with any of the operands being the target
OP(fexp, "f.exp") {
  FSlot &d = w.f(0), &a = w.f(1), &b = w.f(2), &c = w.f(3);
  if (!finite(a) || !finite(b) || !finite(c)) return;
  int shape = (int)((uint64_t)w.arg(4) % 16);
  Mode m = modeOf(w.arg(5), w.arg(6)), n = modeOf(w.arg(7, 53), w.arg(8));
  bool ok = true;
  auto add = [&](const Dy& x, const Dy& y, Mode k) { return apply(ADD, x, y, k, &ok); };
  auto sub = [&](const Dy& x, const Dy& y, Mode k) { return apply(SUB, x, y, k, &ok); };
  auto mul = [&](const Dy& x, const Dy& y, Mode k) { return apply(MUL, x, y, k, &ok); };
  auto div = [&](const Dy& x, const Dy& y, Mode k) { return apply(DIV, x, y, k, &ok); };
  auto neg = [&](const Dy& x) { return truth::dyNeg(x); };
  const Dy &x = a.m, &y = b.m, &z = c.m;
  const int i3 = (int)(w.arg(9) % 1000);
  const slong l3 = w.arg(9);
  const double d3 = std::ldexp((double)(w.arg(9) % 100000), -5);
  Dy I(mpz_class(i3), 0), L(mpz_class((long)l3), 0), DD = truth::dyOf(d3);
  Dy e;
  switch (shape) {
    case 0: e = add(x, mul(y, z, m), m); break;
    case 1: e = sub(mul(x, y, m), z, m); break;
    case 2: e = mul(sub(x, y, m), sub(y, z, m), m); break;
    case 3: e = neg(add(x, y, m)); break;
    case 4: e = sub(x, sub(y, z, m), m); break;
    case 5: e = mul(add(x, y, n), z, m); break;
    case 6: e = add(div(x, y, m), z, m); break;
    case 7: e = sub(neg(mul(x, y, m)), z, m); break;
    case 8: e = sub(add(x, y, m), add(z, x, m), m); break;
    case 9: e = sub(mul(sub(x, y, m), z, m), x, m); break;
    case 10: e = mul(add(x, I, m), y, m); break;
    case 11: e = sub(L, mul(x, y, m), m); break;
    case 12: e = add(mul(x, DD, m), y, m); break;
    case 13: e = div(x, sub(y, mul(y, z, m), m), m); break;
    case 14: e = sub(mul(x, y, n), mul(y, z, m), m); break;
    default: e = add(neg(x), neg(sub(y, z, m)), m); break;
  }
  if (!ok) return;
  ensure(d);
  exactreal::prec p = m.prec, q = n.prec;
  Arf::Round r = m.lib(), s = n.lib();
  Arf& D = *d.v;
  const Arf &A = *a.v, &B = *b.v, &C = *c.v;
  run(w, [&] {
    switch (shape) {
      case 0: D = (A + B * C)(p, r); break;
      case 1: D = (A * B - C)(p, r); break;
      case 2: D = ((A - B) * (B - C))(p, r); break;
      case 3: D = (-(A + B))(p, r); break;
      case 4: D = (A - (B - C))(p, r); break;
      case 5: D = (Arf((A + B)(q, s)) * C)(p, r); break;
      case 6: D = (A / B + C)(p, r); break;
      case 7: D = (-(A * B) - C)(p, r); break;
      case 8: D = ((A + B) - (C + A))(p, r); break;
      case 9: D = ((A - B) * C - A)(p, r); break;
      case 10: D = ((A + i3) * B)(p, r); break;
      case 11: D = (l3 - A * B)(p, r); break;
      case 12: D = (A * d3 + B)(p, r); break;
      case 13: D = (A / (B - B * C))(p, r); break;
      case 14: D = (Arf((A * B)(q, s)) - B * C)(p, r); break;
      // (the unary minus of Arf is eager, that of expressions is not)
      default: D = (-A + -(B - C))(p, r); break;
    }
  });
  count(&d == &a || &d == &b || &d == &c ? "probe.float-aliased" : "probe.float-nested");
  check(w, d, e);
}
