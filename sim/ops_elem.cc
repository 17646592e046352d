// Operations on modules and elements over the three kinds of rings.
#include <algorithm>
#include <cmath>
#include <random>

#include "world.hpp"

#include <exact-real/cppyy.hpp>

using namespace sim;
using truth::Ball;
using truth::Coef;
using truth::Elem;

namespace {
mpq_class big(int64_t a, int64_t b, int64_t c, int64_t d) {
  mpz_class z((long)a);
  mpz_mul_2exp(z.get_mpz_t(), z.get_mpz_t(), (uint64_t)b % 192);
  z += (long)c;
  mpq_class q(z);
  if (d >= 100) {   // close to an integer
    mpq_class close(1);
    mpq_div_2exp(close.get_mpq_t(), close.get_mpq_t(), 1 + (uint64_t)(d - 100) % 600);
    return d & 1 ? mpq_class(q - close) : mpq_class(q + close);
  }
  if (d) q /= mpz_class((long)d);
  return q;
}
// A number of absolute value smaller than one in a number field, to the power k.
Coef smallUnit(int field, uint64_t k) {
  static const std::vector<std::vector<mpq_class>> units = {{mpq_class(1, 2)}, {-1, 1}, {-1, 1}, {-1, 1}, {2, 1}};
  Coef u(field, units.at(field)), r(mpq_class(1));
  for (; k; k /= 2) {
    if (k & 1) r = truth::mul(r, u);
    u = truth::mul(u, u);
  }
  return r;
}

template <typename Ring> constexpr bool isZ = std::is_same_v<Ring, IntegerRing>;
template <typename Ring> constexpr bool isQ = std::is_same_v<Ring, RationalField>;
template <typename Ring> constexpr bool isK = std::is_same_v<Ring, NumberField>;

// A coefficient from four arguments
template <typename Ring> Coef coefOf(int field, int64_t a, int64_t b, int64_t c, int64_t d) {
  if constexpr (isZ<Ring>) return Coef(big(a, b, c, 1));
  else if constexpr (isQ<Ring>) return Coef(big(a, b, c, d));
  else {
    if (!d) d = 1;
    if (d >= 100) {   // close to an integer
      Coef u = smallUnit(field, 1 + (uint64_t)(d - 100) % 400);
      Coef r = truth::add(Coef(mpq_class((long)a)), d & 1 ? truth::neg(u) : u);
      if (r.rational()) r.f = 0;
      return r;
    }
    std::vector<mpq_class> v{mpq_class((long)a)};
    if (field) {
      v.push_back(mpq_class((long)b));
      if (truth::fields[field].poly.size() > 2) v.push_back(mpq_class((long)c));
    }
    for (auto& x : v) x /= mpz_class((long)d);
    Coef r(field, v);
    if (r.rational()) r.f = 0;
    return r;
  }
}
template <typename Ring> int fieldOfModule(World& w, const std::shared_ptr<const Module<Ring>>& m) {
  if constexpr (isK<Ring>) return fieldOf(w, m->ring());
  else return 0;
}
template <typename Ring> bool incompatible(World& w, const ESlot<Ring>& a, const ESlot<Ring>& b) {
  if constexpr (isK<Ring>) {
    int f = fieldOf(w, a.mod->ring()), g = fieldOf(w, b.mod->ring());
    return f != g && f && g;
  }
  return false;
}
template <typename Ring> std::string tg(World& w, const char* base) {
  std::string t = base;
  if (isK<Ring>) t += " C15";
  if (w.faulted) t += " C06";
  return t;
}
bool noProduct(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  auto irrational = [](const std::vector<std::string>& v) { return v.size() > (rationalOf(v).empty() ? 0 : 1); };
  return (odd(a) && irrational(b)) || (odd(b) && irrational(a));
}
template <typename Ring> struct Ops {
  using El = Element<Ring>;
  using Mo = Module<Ring>;
  using EC = typename Ring::ElementClass;
  static ESlot<Ring>& e(World& w, size_t i) { return w.ring<Ring>().E[w.slot(i, NE)]; }
  static MSlot<Ring>& m(World& w, size_t i) { return w.ring<Ring>().M[w.slot(i, NM)]; }
  static Ring makeRing(World& w, int field) {
    if constexpr (isK<Ring>) return NumberField(w.field(field));
    else { (void)w; (void)field; return Ring(); }
  }
  static int fieldArg(int64_t a) {
    if constexpr (isK<Ring>) return (int)((uint64_t)a % truth::fields.size());
    else { (void)a; return 0; }
  }
  // Take over the result of an operation.
  static void take(World& w, const char* base, ESlot<Ring>& d, std::optional<El>& r, const Elem& expected) {
    setElement<Ring>(w, tg<Ring>(w, base).c_str(), d, std::move(*r), expected);
    Loud l;
    r.reset();
  }

  // ---------------------------------------------------------------- modules
  static void mk(World& w) {
    std::vector<std::string> keys;
    std::vector<Real> basis;
    bool rational = false;
    for (size_t i = 2; i < w.op->a.size(); i++) {
      auto& r = w.r(i);
      if (!r.p || std::find(keys.begin(), keys.end(), r.key) != keys.end()) continue;
      if (truth::isRational(r.key)) {
        if ((r.key != "1" && (w.arg(1) < 0 || !(w.arg(1) >> 20 & 1))) || r.key == "q0" || rational) continue;
        rational = true;
      }
      keys.push_back(r.key);
      basis.push_back(r.p);
    }
    int f = fieldArg(w.arg(1) & 0xfffff);
    auto ring = makeRing(w, f);
    std::shared_ptr<const Mo> p;
    bool plain = f == 0 && w.arg(1) >= 0;
    Out o = w.call([&] { p = plain ? Mo::make(basis) : Mo::make(basis, ring); });
    if (o != Out::OK) fail(w, "C04 C05", "rejected", "making a module failed: " + w.what);
    setModule<Ring>(w, "C04", m(w, 0), p, keys, isZ<Ring> ? "Z" : isQ<Ring> ? "Q" : "K" + to_s(f));
  }
  // Invalid modules must be rejected
  static void bad(World& w) {
    auto& r = w.r(0);
    if (!r.p) return;
    std::shared_ptr<const Mo> p;
    std::vector<Real> basis{r.p};
    Out o;
    if (w.arg(1) & 1) {
      basis.push_back(r.p);
      o = w.call([&] { p = Mo::make(basis); });
    } else {
      mpq_class x, y(w.arg(2), 7);
      y.canonicalize();
      if (!truth::isRational(r.key, &x) || x == y) return;
      Real other;
      w.call([&] { other = RealNumber::rational(y); });
      basis.push_back(other);
      o = w.call([&] { p = Mo::make(basis); });
    }
    count("probe.rejected");
    if (o == Out::OK) fail(w, "C04 C06", "not-rejected", "a module with dependent generators was not rejected");
    if (o != Out::LOGIC) fail(w, "C06", "wrong-error", w.what);
  }
  static void span(World& w) {
    auto &a = m(w, 1), &b = m(w, 2);
    if (!a.p || !b.p) return;
    std::string ring = a.ring;
    if (isK<Ring> && a.ring != b.ring) {
      if (a.keys.empty()) ring = b.ring;
      else if (b.keys.empty()) ring = a.ring;
      else if (a.ring == "K0") ring = b.ring;
      else if (b.ring == "K0") ring = a.ring;
      else ring = "";
    }
    std::vector<std::string> keys = a.keys;
    for (auto& k : b.keys)
      if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
    std::shared_ptr<const Mo> p;
    Out o = w.call([&] { p = Mo::span(a.p, b.p); });
    if (apart(a.keys, b.keys)) {
      count("probe.rejected");
      if (o != Out::LOGIC) fail(w, "C04 C06", "not-rejected", "a module with two rational generators was not rejected");
      return;
    }
    if (ring.empty()) {
      count("probe.incompatible-fields");
      if (o != Out::LOGIC) fail(w, "C15 C06", "not-rejected", "the span of modules over " + a.ring + " and " + b.ring + " was not rejected");
      return;
    }
    if (o != Out::OK) fail(w, "C04 C05 C15", "rejected", "span failed: " + w.what);
    if (isK<Ring> && a.ring != b.ring && a.keys.empty() && b.keys.empty()) ring = ringName(w, p->ring());
    setModule<Ring>(w, "C04 C05 C15", m(w, 0), p, keys, ring);
  }
  static void sub(World& w) {
    auto &a = m(w, 0), &b = m(w, 1);
    if (!a.p || !b.p) return;
    bool expected = true, got = false;
    for (auto& k : a.keys) expected = expected && std::find(b.keys.begin(), b.keys.end(), k) != b.keys.end();
    Out o = w.call([&] { got = a.p->submodule(*b.p); });
    if (o != Out::OK || got != expected) fail(w, "C04 C05", "submodule", "submodule is " + to_s(got) + w.what);
    // one(): exists iff 1 is a generator
    mpq_class q;
    bool one = !rationalOf(a.keys).empty() && truth::isRational(rationalOf(a.keys), &q) && q != 0 && (!isZ<Ring> || abs(q.get_num()) == 1);
    std::optional<El> r;
    o = w.call([&] { r.emplace(a.p->one()); });
    if (one) {
      if (o != Out::OK) fail(w, "C05", "rejected", "one() failed: " + w.what);
      std::vector<EC> c;
      { Loud l; c = r->coefficients(); }
      Elem x;
      for (size_t i = 0; i < c.size(); i++) truth::addGen(x, a.keys[i], coef<Ring>(w, c[i]));
      if (x != truth::ofQ(1)) fail(w, "C05", "value", "one() is " + x.str());
    } else if (o == Out::OK) fail(w, "C05 C06", "not-rejected", "one() in a module without 1");
    Loud l;
    r.reset();
  }
  static void mdrop(World& w) { Loud l; m(w, 0).p.reset(); }
  static void mcp(World& w) {
    auto &d = m(w, 0), &a = m(w, 1);
    if (&d == &a) return;
    { Loud l; d.p = a.p; }
    d.keys = a.keys;
    d.ring = a.ring;
  }
  static void mofe(World& w) {
    auto& d = m(w, 0);
    auto& a = e(w, 1);
    if (!a.v) return;
    { Loud l; d.p = a.v->module(); }
    d.keys = a.keys;
    d.ring = ringName(w, d.p->ring());
  }

  // --------------------------------------------------------------- elements
  static void el(World& w) {
    auto& d = e(w, 0);
    auto& s = m(w, 1);
    if (!s.p) return;
    int f = fieldOfModule<Ring>(w, s.p);
    if (f < 0) return;
    std::vector<EC> c;
    Elem x;
    size_t n = s.keys.size();
    std::vector<Coef> cs;
    for (size_t i = 0; i < n; i++) {
      size_t at = 2 + 4 * i;
      Coef k = at < w.op->a.size() ? coefOf<Ring>(f, w.arg(at), w.arg(at + 1), w.arg(at + 2), w.arg(at + 3, 1)) : Coef();
      cs.push_back(k);
      truth::addGen(x, s.keys[i], k);
    }
    { Loud l; for (auto& k : cs) c.push_back(uncoef<Ring>(w, k, f)); }
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(s.p, c); });
    if (o != Out::OK) fail(w, "C05", "rejected", "creating an element failed: " + w.what);
    bool sameModule;
    { Loud l; sameModule = r->module() == s.p; }
    if (!sameModule) fail(w, "C05", "module", "an element is not in the module it was created in");
    take(w, "C05", d, r, x);
    { Loud l; c.clear(); c.shrink_to_fit(); }
  }
  // wide m field n seed: a module with many generators
  static void wide(World& w) {
    std::vector<std::string> keys;
    std::vector<Real> basis;
    const size_t n = 1 + (uint64_t)w.arg(2) % 140;
    const uint64_t seed = (uint64_t)w.arg(3);
    std::mt19937_64 rng(seed);
    auto add = [&](const std::string& key, const std::function<Real()>& f) {
      Real p;
      { Loud l; p = f(); }
      keys.push_back(key);
      basis.push_back(p);
      Loud l;
      p.reset();
    };
    if (seed & 1) add("1", [] { return RealNumber::rational(1); });
    for (size_t i = 0; i < n; i++) {
      const unsigned s = 30000 + (unsigned)((i + seed % 7) % 150);
      add("r" + to_s(s), [&] { return RealNumber::random(Seed(s)); });
    }
    for (size_t i = basis.size(); i > 1; i--) {
      size_t j = rng() % i;
      std::swap(basis[i - 1], basis[j]);
      std::swap(keys[i - 1], keys[j]);
    }
    int f = fieldArg(w.arg(1));
    auto ring = makeRing(w, f);
    std::shared_ptr<const Mo> p;
    Out o = w.call([&] { p = Mo::make(basis, ring); });
    { Loud l; basis.clear(); basis.shrink_to_fit(); }
    if (o != Out::OK) fail(w, "C04 C05", "rejected", "making a module failed: " + w.what);
    count("probe.wide");
    setModule<Ring>(w, "C04", m(w, 0), p, keys, isZ<Ring> ? "Z" : isQ<Ring> ? "Q" : "K" + to_s(f));
  }
  // wel d m seed density: an element of such a module
  static void wel(World& w) {
    auto& d = e(w, 0);
    auto& s = m(w, 1);
    if (!s.p) return;
    int f = fieldOfModule<Ring>(w, s.p);
    if (f < 0) return;
    std::mt19937_64 rng((uint64_t)w.arg(2));
    const uint64_t density = (uint64_t)w.arg(3) % 101;
    std::vector<EC> c;
    Elem x;
    for (auto& key : s.keys) {
      auto number = [&](int64_t n) { return (int64_t)(rng() % (2 * n + 1)) - n; };
      const bool zero = rng() % 100 >= density;
      const int64_t a = number(9), b = number(3), d = 1 + rng() % 5;
      Coef k = zero ? Coef() : isQ<Ring> ? coefOf<Ring>(f, a, 0, 0, d) : coefOf<Ring>(f, a, isZ<Ring> ? 0 : b, 0, isZ<Ring> ? 1 : d);
      truth::addGen(x, key, k);
      Loud l;
      c.push_back(uncoef<Ring>(w, k, f));
    }
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(s.p, c); });
    if (o != Out::OK) fail(w, "C05", "rejected", "creating an element failed: " + w.what);
    take(w, "C05", d, r, x);
    Loud l;
    c.clear();
    c.shrink_to_fit();
  }
  // wrong number of coefficients
  static void elbad(World& w) {
    auto& s = m(w, 0);
    if (!s.p) return;
    if ((uint64_t)w.arg(1) % 10 >= 6) {
      // a generator or coefficient that does not exist
      const int kind = (int)((uint64_t)w.arg(1) % 10);
      const long n = (long)s.keys.size(), at = kind & 1 ? n + (long)((uint64_t)w.arg(1) / 10 % 100) : -1 - (long)((uint64_t)w.arg(1) / 10 % 100);
      Out o = w.call([&] { if (kind < 8) s.p->gen((exactreal::size)at); else s.p->zero()[(exactreal::size)at]; });
      count("probe.no-such-generator");
      if (o == Out::OK || o == Out::NOMEM) fail(w, "C06", "not-rejected", std::string(kind < 8 ? "generator " : "coefficient ") + to_s(at) + " of a module of rank " + to_s(n) + " was returned");
      return;
    }
    std::vector<EC> c(s.keys.size() + 1 + (uint64_t)w.arg(1) % 3);
    if ((w.arg(1) & 1) && !s.keys.empty()) c.resize(s.keys.size() - 1);
    Out o = w.call([&] { El x(s.p, c); });
    count("probe.rejected");
    if (o != Out::LOGIC) fail(w, "C06", "not-rejected", "an element with a wrong number of coefficients was created");
  }
  static void gen(World& w) {
    auto& d = e(w, 0);
    auto& s = m(w, 1);
    if (!s.p || s.keys.empty()) return;
    size_t i = (uint64_t)w.arg(2) % s.keys.size();
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(s.p->gen((exactreal::size)i)); });
    if (o != Out::OK) fail(w, "C05", "rejected", "gen failed: " + w.what);
    Elem x;
    truth::addGen(x, s.keys[i], Coef(mpq_class(1)));
    take(w, "C05", d, r, x);
  }
  static void zero(World& w) {
    auto& d = e(w, 0);
    auto& s = m(w, 1);
    std::optional<El> r;
    Out o = w.call([&] { if (s.p) r.emplace(s.p->zero()); else r.emplace(); });
    if (o != Out::OK) fail(w, "C05", "rejected", "zero failed: " + w.what);
    take(w, "C05", d, r, Elem());
  }
  static void lit(World& w) {
    auto& d = e(w, 0);
    int f = fieldArg(w.arg(5));
    Coef k = coefOf<Ring>(f, w.arg(1), w.arg(2), w.arg(3), w.arg(4, 1));
    EC c;
    { Loud l; c = uncoef<Ring>(w, k, f); }
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(c); });
    if (o != Out::OK) fail(w, "C05", "rejected", "creating an element failed: " + w.what);
    Elem x;
    truth::addTo(x, "1", k);
    take(w, "C05", d, r, x);
  }
  static void cp(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v) return;
    Elem x = a.m;
    if (w.arg(2) && d.v) {
      Out o = w.call([&] { *d.v = *a.v; });
      if (o != Out::OK) fail(w, "C05", "rejected", w.what);
      d.m = x;
      refresh<Ring>(w, tg<Ring>(w, "C05").c_str(), d);
      return;
    }
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(*a.v); });
    if (o != Out::OK) fail(w, "C05", "rejected", w.what);
    take(w, "C05", d, r, x);
  }
  static void mv(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v || &d == &a) return;
    Elem x = a.m;
    std::optional<El> r;
    Out o = w.call([&] { if (w.arg(2) && d.v) *d.v = std::move(*a.v); else r.emplace(std::move(*a.v)); });
    if (o != Out::OK) fail(w, "C05", "rejected", w.what);
    { Loud l; a.v.reset(); a.mod.reset(); }
    if (r) take(w, "C05", d, r, x);
    else {
      d.m = x;
      refresh<Ring>(w, tg<Ring>(w, "C05").c_str(), d);
    }
  }
  static void swap(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v || !d.v || &d == &a) return;
    Out o = w.call([&] { using std::swap; swap(*d.v, *a.v); });
    if (o != Out::OK) fail(w, "C05", "rejected", w.what);
    std::swap(a.m, d.m);
    refresh<Ring>(w, "C05", a);
    refresh<Ring>(w, "C05", d);
  }
  static void drop(World& w) { Loud l; e(w, 0).v.reset(); e(w, 0).mod.reset(); }

  // ------------------------------------------------------------- arithmetic
  enum { ADD, SUB, MUL };
  template <int OPC> static void binary(World& w) {
    auto &d = e(w, 0), &a = e(w, 1), &b = e(w, 2);
    const bool helper = w.arg(3) >= 100;
    const char* base = helper ? "C21" : "C05";
    int mode = helper ? 0 : (int)((uint64_t)w.arg(3) % 3);
    bool inplace = mode == 1;
    if (!b.v || (inplace ? !d.v : !a.v)) return;
    auto& lhs = inplace ? d : a;
    Elem x, old = d.m;
    bool bad = incompatible(w, lhs, b), zero = lhs.m.zero() || b.m.zero();
    if (!bad) x = OPC == ADD ? truth::add(lhs.m, b.m) : OPC == SUB ? truth::add(lhs.m, truth::neg(b.m)) : truth::mul(lhs.m, b.m);
    else if (zero) x = OPC == MUL ? Elem() : OPC == ADD ? truth::add(lhs.m, b.m) : truth::add(lhs.m, truth::neg(b.m));
    if (OPC == MUL ? x.t.size() > 40 || lhs.keys.size() * b.keys.size() > 300 : x.t.size() > 300) return;
    std::optional<El> r, tmp;
    Out o = w.call([&] {
      if (helper) {
        if (OPC == ADD) r.emplace(exactreal::cppyy::add(*a.v, *b.v)); else if (OPC == SUB) r.emplace(exactreal::cppyy::sub(*a.v, *b.v)); else r.emplace(exactreal::cppyy::mul(*a.v, *b.v));
      } else if (inplace) {
        if (OPC == ADD) *d.v += *b.v; else if (OPC == SUB) *d.v -= *b.v; else *d.v *= *b.v;
      } else if (mode == 2) {
        tmp.emplace(*a.v);
        if (OPC == ADD) r.emplace(std::move(*tmp) + *b.v); else if (OPC == SUB) r.emplace(std::move(*tmp) - *b.v); else r.emplace(std::move(*tmp) * *b.v);
      } else {
        if (OPC == ADD) r.emplace(*a.v + *b.v); else if (OPC == SUB) r.emplace(*a.v - *b.v); else r.emplace(*a.v * *b.v);
      }
    });
    { Loud l; tmp.reset(); }
    bool odd = OPC == MUL ? noProduct(lhs.keys, b.keys) : apart(lhs.keys, b.keys);
    if ((bad || odd) && o != Out::OK) {
      count(bad ? "probe.incompatible-fields" : "probe.rejected");
      if (o != Out::LOGIC) fail(w, "C06 C15", "wrong-error", w.what);
      if (inplace) refresh<Ring>(w, "C06 C15", d);
      return;
    }
    if (bad && !zero) fail(w, "C15 C06", "not-rejected", "combining elements over incompatible number fields was not rejected");
    if (o != Out::OK) fail(w, tg<Ring>(w, base).c_str(), "rejected", lhs.m.str() + " and " + b.m.str() + ": " + w.what);
    if (inplace) {
      d.m = x;
      refresh<Ring>(w, tg<Ring>(w, base).c_str(), d);
    } else take(w, base, d, r, x);
  }
  static void neg(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v) return;
    Elem x = truth::neg(a.m);
    std::optional<El> r;
    const bool helper = w.arg(2) >= 100;
    Out o = w.call([&] { if (helper) r.emplace(exactreal::cppyy::neg(*a.v)); else r.emplace(-*a.v); });
    if (o != Out::OK) fail(w, helper ? "C21" : "C05", "rejected", w.what);
    take(w, helper ? "C21" : "C05", d, r, x);
  }
  // multiply with a real
  static void mulr(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    auto& g = w.r(2);
    const bool helper = w.arg(3) >= 100;
    const char* base = helper ? "C21" : "C05";
    bool inplace = !helper && (w.arg(3) & 1);
    auto& lhs = inplace ? d : a;
    if (!lhs.v || !g.p) return;
    mpq_class q;
    if (truth::isRational(g.key, &q) && q == 0) return;
    Elem y;
    truth::addGen(y, g.key, Coef(mpq_class(1)));
    Elem x = truth::mul(lhs.m, y);
    bool odd = noProduct(lhs.keys, {g.key});
    std::optional<El> r;
    Out o = w.call([&] { if (helper) { if (w.arg(3) & 2) r.emplace(exactreal::cppyy::mul(*g.p, *a.v)); else r.emplace(exactreal::cppyy::mul(*a.v, *g.p)); } else if (inplace) *d.v *= *g.p; else r.emplace(w.arg(3) & 2 ? *g.p * *a.v : *a.v * *g.p); });
    if (odd && o != Out::OK) {
      count("probe.rejected");
      if (o != Out::LOGIC) fail(w, "C06", "wrong-error", w.what);
      if (inplace) refresh<Ring>(w, "C06", d);
      return;
    }
    if (o != Out::OK) fail(w, tg<Ring>(w, base).c_str(), "rejected", lhs.m.str() + " times " + g.key + ": " + w.what);
    if (inplace) { d.m = x; refresh<Ring>(w, tg<Ring>(w, base).c_str(), d); }
    else take(w, base, d, r, x);
  }
  template <typename T> static void scaleBy(World& w, const T& s, const Coef& value, bool div) {
    auto &d = e(w, 0), &a = e(w, 1);
    const bool helper = w.arg(3) >= 100;
    const char* base = helper ? "C21" : "C05";
    int mode = helper ? 0 : (int)((uint64_t)w.arg(3) % 4);
    bool inplace = mode == 1;
    auto& lhs = inplace ? d : a;
    if (!lhs.v) return;
    if (isK<Ring> && !value.rational()) {
      int f = fieldOfModule<Ring>(w, lhs.mod);
      if (f != value.f) return;   // arithmetic with elements of other fields is up to e-antic
    }
    bool ok = !(div && value.zero());
    if (!ok && lhs.keys.empty()) return;
    Elem x;
    if (ok) {
      x = truth::scale(lhs.m, div ? truth::inv(value) : value);
      if (isZ<Ring>)
        for (auto& c : lhs.coeffs)
          if (truth::mul(c, div ? truth::inv(value) : value).q().get_den() != 1) ok = false;
    }
    std::optional<El> r, tmp;
    Out o = w.call([&] {
      if (helper) {
        if (div) r.emplace(exactreal::cppyy::truediv(*a.v, s));
        else if (w.arg(3) & 1) r.emplace(exactreal::cppyy::mul(s, *a.v));
        else r.emplace(exactreal::cppyy::mul(*a.v, s));
      } else if (inplace) { if (div) *d.v /= s; else *d.v *= s; }
      else if (mode == 2 && !div) r.emplace(s * *a.v);
      else if (mode == 3) { tmp.emplace(*a.v); if (div) r.emplace(std::move(*tmp) / s); else r.emplace(std::move(*tmp) * s); }
      else if (div) r.emplace(*a.v / s);
      else r.emplace(*a.v * s);
    });
    { Loud l; tmp.reset(); }
    std::string what = lhs.m.str() + (div ? " / " : " * ") + value.str();
    if (!ok) {
      count("probe.rejected");
      if (o == Out::OK) fail(w, helper ? "C21" : "C05 C06", "not-rejected", what + " was not rejected");
      if (o != Out::LOGIC) fail(w, "C06", "wrong-error", what + ": " + w.what);
      if (inplace) refresh<Ring>(w, "C06", d);
      return;
    }
    if (o != Out::OK) fail(w, tg<Ring>(w, base).c_str(), "rejected", what + ": " + w.what);
    if (inplace) { d.m = x; refresh<Ring>(w, tg<Ring>(w, base).c_str(), d); }
    else take(w, base, d, r, x);
  }
  template <bool DIV> static void scalar(World& w) {
    int64_t v = w.arg(4);
    auto go = [&](auto x) {
      mpq_class q;
      if constexpr (std::is_signed_v<decltype(x)>) q = mpq_class((long)x); else q = mpq_class((unsigned long)x);
      scaleBy(w, x, Coef(q), DIV);
    };
    switch ((uint64_t)w.arg(2) % 11) {
      case 0: go((short)v); break;
      case 1: go((unsigned short)v); break;
      case 2: go((int)v); break;
      case 3: go((unsigned int)v); break;
      case 4: go((long)v); break;
      case 5: go((unsigned long)v); break;
      case 6: go((long long)v); break;
      case 7: go((unsigned long long)v); break;
      case 8: { mpq_class q = big(v, w.arg(5), w.arg(6), 1); mpz_class z = q.get_num(); scaleBy(w, z, Coef(q), DIV); break; }
      case 9: { mpq_class q = big(v, w.arg(5), w.arg(6), w.arg(7, 1)); scaleBy(w, q, Coef(q), DIV); break; }
      default:
        if constexpr (isK<Ring>) {
          auto &d = e(w, 0), &a = e(w, 1);
          auto& lhs = w.arg(3) < 100 && (uint64_t)w.arg(3) % 4 == 1 ? d : a;
          if (!lhs.v) return;
          int f = fieldOfModule<Ring>(w, lhs.mod);
          if (f < 0) return;
          Coef k = coefOf<Ring>(f, v, w.arg(5), w.arg(6), w.arg(7, 1));
          EC c;
          { Loud l; c = uncoef<Ring>(w, k, f); }
          scaleBy(w, c, k, DIV);
        }
    }
  }
  static void tdiv(World& w) {
    auto &d = e(w, 0), &a = e(w, 1), &b = e(w, 2);
    if (!a.v || !b.v) return;
    if (a.m.t.size() > 24 || b.m.t.size() > 24) return;
    bool bad = incompatible(w, a, b), lenient = odd(a.keys) || odd(b.keys);
    std::optional<Elem> x;
    if (!b.m.zero() && (!bad || a.m.zero() || b.m == truth::ofQ(1))) x = truth::divide(a.m, b.m, isZ<Ring> && !lenient);
    std::optional<El> r;
    const bool helper = w.arg(3) >= 100;
    const char* base = helper ? "C21" : "C05";
    Out o = w.call([&] { if (helper) r = exactreal::cppyy::truediv(*a.v, *b.v); else r = a.v->truediv(*b.v); });
    std::string what = a.m.str() + " / " + b.m.str();
    if (b.m.zero()) {
      count("probe.rejected");
      if (o != Out::LOGIC) fail(w, helper ? "C21" : "C05 C06", "not-rejected", "division by zero was not rejected");
      return;
    }
    if (((bad || lenient) && o != Out::OK) || (lenient && !r)) {
      if (o != Out::LOGIC && o != Out::OK) fail(w, "C06 C15", "wrong-error", w.what);
      count("probe.rejected");
      return;
    }
    if (bad && !a.m.zero() && b.m != truth::ofQ(1)) fail(w, "C15 C06", "not-rejected", what + " over incompatible number fields was not rejected");
    if (o != Out::OK) fail(w, tg<Ring>(w, base).c_str(), "rejected", what + ": " + w.what);
    if (!x) {
      count("probe.no-quotient");
      if (r) fail(w, tg<Ring>(w, helper ? "C21" : "C05 C06").c_str(), "quotient", what + " has a quotient");
      return;
    }
    if (!r) fail(w, tg<Ring>(w, base).c_str(), "quotient", what + " has no quotient but it should be " + x->str());
    count("probe.quotient");
    take(w, base, d, r, *x);
  }
  static void fdiv(World& w) {
    auto &a = e(w, 0), &b = e(w, 1);
    if (!a.v || !b.v) return;
    if (a.m.t.size() > 24 || b.m.t.size() > 24) return;
    bool bad = incompatible(w, a, b);
    mpz_class expected, got;
    if (!b.m.zero() && (!bad || a.m.zero())) {
      if (a.m.zero()) expected = 0;
      else {
        // floor(a/b): formally proportional, or not an integer multiple at all
        auto [k, va] = *a.m.t.rbegin();
        auto it = b.m.t.find(k);
        bool proportional = false;
        if (it != b.m.t.end()) {
          Coef c = truth::mul(va, truth::inv(it->second));
          proportional = truth::scale(b.m, c) == a.m;
          if (proportional) { Elem y; truth::addTo(y, "1", c); expected = truth::floor(y); }
        }
        if (!proportional) {
          // Polynomials in independent random numbers: the quotient is an integer only formally.
          if (auto qa = a.m.rational(); qa && b.m.rational()) {
            mpq_class q = *qa / *b.m.rational();
            mpz_fdiv_q(expected.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
          } else {
            for (long p = 128;; p *= 2) {
              Ball x = truth::eval(a.m, p), y = truth::eval(b.m, p);
              arb_div(x.t, x.t, y.t, p);
              if (!arb_is_finite(x.t)) continue;
              fmpz_t f;
              fmpz_init(f);
              arb_floor(y.t, x.t, p + 64);
              bool unique = arb_get_unique_fmpz(f, y.t);
              if (unique) truth::toMpz(expected, f);
              fmpz_clear(f);
              if (unique) break;
            }
          }
        }
      }
    }
    Out o = w.call([&] { got = a.v->floordiv(*b.v); });
    std::string what = a.m.str() + " // " + b.m.str();
    if (b.m.zero()) {
      count("probe.rejected");
      if (o != Out::LOGIC) fail(w, "C18 C06", "not-rejected", what + " was not rejected");
      return;
    }
    if ((bad || apart(a.keys, b.keys)) && o != Out::OK) {
      if (o != Out::LOGIC) fail(w, "C06 C15 C18", "wrong-error", w.what);
      return;
    }
    if (bad && !a.m.zero()) fail(w, "C15 C06", "not-rejected", what + " over incompatible number fields was not rejected");
    if (o != Out::OK) fail(w, tg<Ring>(w, "C18").c_str(), "rejected", what + ": " + w.what);
    if (got != expected) fail(w, tg<Ring>(w, "C18").c_str(), "floordiv", what + " is " + got.get_str() + " but should be " + expected.get_str());
  }

  // ------------------------------------------------------------ conversions
  static void conv(World& w) {
    auto& s = e(w, 0);
    if (!s.v) return;
    int mask = w.arg(1) ? (int)w.arg(1) : 127;
    std::string t = s.m.str();
    auto q = s.m.rational();
    if (mask & 3) {
      mpz_class lo, hi;
      Out o = w.call([&] { if (mask & 1) lo = s.v->floor(); if (mask & 2) hi = s.v->ceil(); });
      if (o != Out::OK) fail(w, tg<Ring>(w, "C18").c_str(), "rejected", t + ": " + w.what);
      mpz_class f = truth::floor(s.m), c = -truth::floor(truth::neg(s.m));
      if ((mask & 1) && lo != f) fail(w, tg<Ring>(w, "C18").c_str(), "floor", "floor of " + t + " is " + lo.get_str() + " but should be " + f.get_str());
      if ((mask & 2) && hi != c) fail(w, tg<Ring>(w, "C18").c_str(), "ceil", "ceiling of " + t + " is " + hi.get_str() + " but should be " + c.get_str());
    }
    if (mask & 4) {
      double x = 0, y = truth::toDouble(s.m);
      Out o = w.call([&] { x = static_cast<double>(*s.v); });
      if (o != Out::OK) fail(w, tg<Ring>(w, "C18").c_str(), "rejected", t + ": " + w.what);
      if (!(x == y)) fail(w, tg<Ring>(w, "C18").c_str(), "double", t + " as a double is " + truth::dbl(x) + " but should be " + truth::dbl(y));
    }
    if (mask & 8) {
      std::optional<mpz_class> z;
      std::optional<mpq_class> r;
      const bool helper = w.arg(2) >= 100;
      const char* base = helper ? "C21" : "C18";
      Out o = w.call([&] {
        if (helper) { z = exactreal::cppyy::optional_integer(*s.v); r = exactreal::cppyy::optional_rational(*s.v); }
        else { z = static_cast<std::optional<mpz_class>>(*s.v); r = static_cast<std::optional<mpq_class>>(*s.v); }
      });
      if (o != Out::OK) fail(w, tg<Ring>(w, base).c_str(), "rejected", t + ": " + w.what);
      if (r.has_value() != q.has_value() || (q && *q != *r)) fail(w, tg<Ring>(w, base).c_str(), "rational", t + " as a rational is " + (r ? r->get_str() : std::string("none")));
      bool isInt = q && q->get_den() == 1;
      if (z.has_value() != isInt || (isInt && *z != q->get_num())) fail(w, tg<Ring>(w, base).c_str(), "integer", t + " as an integer is " + (z ? z->get_str() : std::string("none")));
      Loud l;
      z.reset();
      r.reset();
    }
    if (mask & 16) {
      bool b = false, u = false;
      Out o = w.call([&] { b = static_cast<bool>(*s.v); u = s.v->unit(); });
      if (o != Out::OK) fail(w, tg<Ring>(w, "C18 C05").c_str(), "rejected", t + ": " + w.what);
      if (b == s.m.zero()) fail(w, tg<Ring>(w, "C18 C05").c_str(), "zero", t + (b ? " is non-zero" : " is zero"));
      // a unit: a unit of the ring
      bool unit = s.m.t.size() == 1 && s.m.t.begin()->first == "1";
      if (mpq_class g; isZ<Ring> && unit && truth::isRational(rationalOf(s.keys), &g)) unit = mpq_class(1 / (*q * g)).get_den() == 1;
      if (!isK<Ring> || s.m.rational() || s.m.t.empty() || s.m.t.begin()->first != "1")
        if (u != unit) fail(w, tg<Ring>(w, "C05").c_str(), "unit", t + (u ? " is a unit" : " is not a unit"));
    }
    if (mask & 32) {
      std::vector<EC> c;
      std::vector<mpq_class> rc;
      Out o = w.call([&] { c = s.v->coefficients(); rc = s.v->rationalCoefficients(); });
      if (o != Out::OK) fail(w, tg<Ring>(w, "C05").c_str(), "rejected", t + ": " + w.what);
      size_t deg = 1;
      if constexpr (isK<Ring>) deg = (size_t)s.mod->ring().parameters->degree();
      std::vector<mpq_class> expected;
      for (auto& k : s.coeffs)
        for (size_t j = 0; j < deg; j++) expected.push_back(j < k.c.size() ? k.c[j] : mpq_class(0));
      if (rc != expected) fail(w, tg<Ring>(w, "C05").c_str(), "rational-coefficients", "rational coefficients of " + t + " are wrong");
      for (size_t i = 0; i < s.coeffs.size(); i++) {
        EC x;
        o = w.call([&] { x = (*s.v)[(exactreal::size)i]; });
        if (o != Out::OK || coef<Ring>(w, x) != s.coeffs[i]) fail(w, tg<Ring>(w, "C05").c_str(), "index", "coefficient of " + t + " is wrong");
      }
      o = w.call([&] { EC x = (*s.v)[(exactreal::size)s.coeffs.size()]; });
      if (o != Out::LOGIC) fail(w, "C05 C06", "not-rejected", "access to a coefficient past the end was not rejected");
      Loud l;
      c = {};
      rc = {};
    }
    if (mask & 64) hash(w);
  }
  static void hash(World& w) {
    auto& s = e(w, 0);
    if (!s.v) return;
    std::optional<int64_t> saved;
    size_t h = 0;
    Op quietOp = *w.op;
    quietOp.allocFault = 0;
    const Op* old = w.op;
    w.op = &quietOp;
    Out o = w.call([&] { h = std::hash<El>()(*s.v); });
    w.op = old;
    if (o != Out::OK) fail(w, "C19", "rejected", w.what);
    w.remember("C19", std::string(isZ<Ring> ? "z" : isQ<Ring> ? "q" : "k") + " hash of " + s.m.str(), to_s(h));
    for (auto& other : w.ring<Ring>().E)
      if (other.v && &other != &s && other.hash) {
        if (other.m == s.m && *other.hash != h) fail(w, "C19", "hash", "equal elements " + s.m.str() + " have different hashes");
        if (other.m != s.m) count(*other.hash == h ? "probe.hash-collision" : "probe.hash-different");
      }
    s.hash = h;
  }
  static void arb(World& w) {
    auto& s = e(w, 0);
    if (!s.v) return;
    if (s.m.t.size() > 24) return;
    long prec = w.arg(1);
    std::optional<Arb> r;
    Out o = w.call([&] { r.emplace(s.v->arb(prec)); });
    if (o != Out::OK) fail(w, tg<Ring>(w, "C02").c_str(), "rejected", s.m.str() + ": " + w.what);
    if (ballContains(s.m, r->arb_t()) == 0) fail(w, tg<Ring>(w, "C02").c_str(), "enclosure", s.m.str() + ".arb(" + to_s(prec) + ") = " + truth::str(r->arb_t()) + " does not contain the value");
    if (!s.m.zero() && arb_rel_accuracy_bits(r->arb_t()) < prec) fail(w, tg<Ring>(w, "C02").c_str(), "accuracy", s.m.str() + ".arb(" + to_s(prec) + ") has only " + to_s(arb_rel_accuracy_bits(r->arb_t())) + " bits");
    Loud l;
    r.reset();
  }

  // ------------------------------------------------------------ comparisons
  static void cmp(World& w) {
    auto &a = e(w, 0), &b = e(w, 1);
    if (!a.v || !b.v) return;
    if (a.m.t.size() > 24 || b.m.t.size() > 24) return;
    if (incompatible(w, a, b)) {
      bool r = false;
      Out o = w.call([&] { r = *a.v == *b.v; });
      count("probe.incompatible-fields");
      if (o == Out::OK && r != (a.m == b.m)) fail(w, "C15 C03", "order", "comparison over incompatible number fields");
      if (o == Out::OK && !a.m.zero() && !b.m.zero()) fail(w, "C15 C06", "not-rejected", "comparing elements over incompatible number fields was not rejected");
      return;
    }
    if (apart(a.keys, b.keys)) {
      bool r = false;
      Out o = w.call([&] { r = *a.v == *b.v; });
      count("probe.rejected");
      if (o == Out::OK && r != (a.m == b.m)) fail(w, "C03", "order", "comparison of " + a.m.str() + " and " + b.m.str());
      return;
    }
    int expected = a.m == b.m ? 0 : truth::cmp(a.m, b.m);
    compareAll(w, tg<Ring>(w, "C03").c_str(), a.m.str() + " and " + b.m.str(), expected, *a.v, *b.v, false);
  }
  static void cmpr(World& w) {
    auto& a = e(w, 0);
    if (!a.v || a.m.t.size() > 24) return;
    RSlot g;
    if (w.arg(2) && !a.keys.empty()) {   // one of its own generators
      Loud l;
      size_t i = (uint64_t)w.arg(2) % a.keys.size();
      g.p = a.mod->basis()[i];
      g.key = a.keys[i];
    } else { Loud l; g = w.r(1); }
    if (!g.p) return;
    bool related = a.m.zero() || std::find(a.keys.begin(), a.keys.end(), g.key) != a.keys.end();
    Elem y;
    truth::addGen(y, g.key, Coef(mpq_class(1)));
    if (!related) {
      bool r = false;
      Out o = w.call([&] { r = *a.v == *g.p; });
      if (o == Out::OK && r != (a.m == y)) fail(w, "C03", "order", "comparison with a generator");
      return;
    }
    int expected = a.m == y ? 0 : truth::cmp(a.m, y);
    compareAll(w, tg<Ring>(w, "C03").c_str(), a.m.str() + " and " + g.key, expected, *a.v, *g.p);
  }
  static void cmpq(World& w) {
    auto& a = e(w, 0);
    if (!a.v || a.m.t.size() > 24) return;
    mpq_class q = a.m.zero() ? mpq_class((long)w.arg(2), 3) : truth::near(a.m, w.arg(1), w.arg(2));
    q.canonicalize();
    if (w.arg(3) && !a.m.zero()) q += (truth::near(a.m, w.arg(1), w.arg(2) + 1) - q) / (long)(w.arg(3) * 2 + 1);
    if (auto r = a.m.rational(); r && w.arg(4)) q = *r;
    compareAll(w, tg<Ring>(w, "C03").c_str(), a.m.str() + " and " + q.get_str(), truth::cmp(a.m, truth::ofQ(q)), *a.v, q);
  }
  static void cmpz(World& w) {
    auto& a = e(w, 0);
    if (!a.v || a.m.t.size() > 24) return;
    mpz_class z = truth::floor(a.m) + (long)w.arg(1);
    compareAll(w, tg<Ring>(w, "C03").c_str(), a.m.str() + " and " + z.get_str(), truth::cmp(a.m, truth::ofQ(mpq_class(z))), *a.v, z);
  }
  static void cmpi(World& w) {
    auto& a = e(w, 0);
    if (!a.v || a.m.t.size() > 24) return;
    int64_t v = w.arg(2);
    if (w.arg(3)) {
      mpz_class f = truth::floor(a.m) + (long)v;
      if (f.fits_slong_p()) v = f.get_si();
    }
    auto check = [&](auto x, const char* name) {
      mpq_class q;
      if constexpr (std::is_signed_v<decltype(x)>) q = mpq_class((long)x); else q = mpq_class((unsigned long)x);
      compareAll(w, tg<Ring>(w, "C03").c_str(), a.m.str() + " and " + name + " " + q.get_str(), truth::cmp(a.m, truth::ofQ(q)), *a.v, x);
    };
    switch ((uint64_t)w.arg(1) % 8) {
      case 0: check((short)v, "short"); break;
      case 1: check((unsigned short)v, "unsigned short"); break;
      case 2: check((int)v, "int"); break;
      case 3: check((unsigned)v, "unsigned"); break;
      case 4: check((long)v, "long"); break;
      case 5: check((unsigned long)v, "unsigned long"); break;
      case 6: check((long long)v, "long long"); break;
      default: check((unsigned long long)v, "unsigned long long"); break;
    }
  }

  // -------------------------------------------------------- representations
  static void prom(World& w) {
    auto& d = e(w, 0);
    auto& t = m(w, 1);
    if (!d.v || !t.p) return;
    for (size_t i = 0; i < d.keys.size(); i++)
      if (!d.coeffs[i].zero() && std::find(t.keys.begin(), t.keys.end(), d.keys[i]) == t.keys.end()) return;
    int f = fieldOfModule<Ring>(w, t.p);
    bool bad = false;
    if (isK<Ring>) {
      for (auto& x : d.m.t)
        if (!x.second.rational() && x.second.f != f) bad = true;
    }
    Out o = w.call([&] { d.v->promote(t.p); });
    if (bad) {
      count("probe.incompatible-fields");
      if (o != Out::LOGIC) fail(w, "C15 C06", "not-rejected", "coercing " + d.m.str() + " to another number field was not rejected");
      refresh<Ring>(w, "C06 C15", d);
      return;
    }
    if (o != Out::OK) fail(w, tg<Ring>(w, "C05").c_str(), "rejected", "promoting " + d.m.str() + ": " + w.what);
    refresh<Ring>(w, tg<Ring>(w, "C05").c_str(), d);
    if (d.mod != t.p) fail(w, "C05", "module", "promoted element is in a different module");
  }
  static void simp(World& w) {
    auto& d = e(w, 0);
    if (!d.v) return;
    std::string ring = ringName(w, d.mod->ring());
    Out o = w.call([&] { d.v->simplify(); });
    if (o != Out::OK) fail(w, tg<Ring>(w, "C05").c_str(), "rejected", w.what);
    refresh<Ring>(w, tg<Ring>(w, "C05").c_str(), d);
    if (d.keys.size() != d.m.t.size()) fail(w, "C05", "simplify", "simplified " + d.m.str() + " still has " + to_s(d.keys.size()) + " generators");
    if (isK<Ring> && !d.keys.empty() && ringName(w, d.mod->ring()) != ring) fail(w, "C15", "simplify", "the number field changed");
  }
  // dst = multiple of src minus its approximation: a tiny number
  static void tiny(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v || a.m.zero() || a.m.t.size() > 12) return;
    mpq_class q = truth::near(a.m, w.arg(2), w.arg(3));
    mpz_class scale = isZ<Ring> ? mpz_class(q.get_den()) : mpz_class(1);
    mpq_class c = isZ<Ring> ? mpq_class(-q.get_num()) : mpq_class(-q);
    Coef cc(c);
    int f = fieldOfModule<Ring>(w, a.mod);
    if (f < 0) return;
    EC k;
    { Loud l; k = uncoef<Ring>(w, cc, f); }
    Elem x = truth::add(truth::scale(a.m, Coef(mpq_class(scale))), truth::ofQ(c));
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(*a.v * scale + El(k)); });
    if (odd(a.keys) && o == Out::LOGIC) return;
    if (o != Out::OK) fail(w, tg<Ring>(w, "C05").c_str(), "rejected", w.what);
    take(w, "C05", d, r, x);
  }
  // A value close to (or exactly at) a multiple of a power of two: at doubles, in the middle between two
  // doubles, at integers
  static void edge(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    long exp = std::clamp<int64_t>(w.arg(3), -1200, 1100), bits = std::clamp<int64_t>(w.arg(4), 2, 5000), off = (long)w.arg(5);
    if (isZ<Ring>) exp = std::abs(exp);
    auto pow2 = [](long k) {
      mpq_class r(1);
      if (k >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), k);
      else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -k);
      return r;
    };
    mpq_class q = mpq_class((long)w.arg(2)) * pow2(exp);
    bool useA = w.arg(6) && a.v && !a.m.zero() && a.m.t.size() <= 12 && !odd(a.keys);
    mpq_class scale(1);
    Elem x;
    if (useA) {
      mpq_class n = truth::near(a.m, bits, off);
      if (isZ<Ring>) scale = mpq_class(n.get_den());
      else if (w.arg(6) & 2) scale = pow2(exp);
      x = truth::scale(a.m, Coef(scale));
      q -= n * scale;
    } else if (off) q += off * pow2(isZ<Ring> ? std::max(0l, exp - bits) : exp - bits);
    if (isZ<Ring>) q = q.get_num();
    x = truth::add(x, truth::ofQ(q));
    int f = useA ? fieldOfModule<Ring>(w, a.mod) : 0;
    if (f < 0) return;
    EC k;
    mpz_class z;
    { Loud l; k = uncoef<Ring>(w, Coef(q), f); z = scale.get_num(); }
    std::optional<El> r;
    Out o = w.call([&] {
      if (!useA) r.emplace(k);
      else if constexpr (isZ<Ring>) r.emplace(*a.v * z + El(k));
      else r.emplace(*a.v * scale + El(k));
    });
    if (o != Out::OK) fail(w, tg<Ring>(w, "C05").c_str(), "rejected", w.what);
    take(w, "C05", d, r, x);
  }
  // a combination of the same generators: every coefficient times an integer (or half of one)
  static void multiples(World& w) {
    auto &d = e(w, 0), &a = e(w, 1);
    if (!a.v) return;
    int f = fieldOfModule<Ring>(w, a.mod);
    if (f < 0) return;
    std::vector<EC> c;
    Elem x;
    for (size_t i = 0; i < a.keys.size(); i++) {
      Coef k;
      if (w.arg(2) >= 100 && !isZ<Ring>) k = coefOf<Ring>(f, w.arg(3 + i % 4), 0, 0, w.arg(2));
      else {
        mpq_class q((long)w.arg(3 + i % 4), isZ<Ring> || w.arg(2) <= 0 ? 1 : (long)w.arg(2));
        q.canonicalize();
        k = Coef(q);
      }
      Coef y = truth::mul(a.coeffs[i], k);
      truth::addGen(x, a.keys[i], y);
      Loud l;
      c.push_back(uncoef<Ring>(w, y, f));
    }
    std::optional<El> r;
    auto mod = a.mod;
    Out o = w.call([&] { r.emplace(mod, c); });
    if (o != Out::OK) fail(w, "C05", "rejected", "creating an element failed: " + w.what);
    take(w, "C05", d, r, x);
    Loud l;
    mod.reset();
    c.clear();
    c.shrink_to_fit();
  }
  // conversions from elements over smaller rings
  template <typename From> static void from(World& w) {
    auto& d = e(w, 0);
    auto& a = w.ring<From>().E[w.slot(1, NE)];
    if (!a.v) return;
    Elem x = a.m;
    std::optional<El> r;
    Out o = w.call([&] { r.emplace(*a.v); });
    if (o != Out::OK) fail(w, "C05 C15", "rejected", w.what);
    take(w, "C05 C15", d, r, x);
  }

  // The functions of the rings: ring field a b c d field type integer precision divide
  static void ring(World& w) {
    int f = fieldArg(w.arg(0)), g = fieldArg(w.arg(5));
    Coef x = coefOf<Ring>(f, w.arg(1), w.arg(2), w.arg(3), w.arg(4));
    const std::string t = isK<Ring> ? "C15" : "C18";
    auto R = makeRing(w, f), S = makeRing(w, g);
    std::optional<EC> c;
    { Loud l; c.emplace(uncoef<Ring>(w, x, f)); }
    const EC& value = *c;

    bool unit = false;
    mpz_class floor;
    std::optional<mpq_class> q;
    Arb ball;
    long p = 2 + (long)((uint64_t)w.arg(8) % 2000);
    { auto o = w.call([&] {
        unit = Ring::unit(value);
        floor = Ring::floor(value);
        q = Ring::rational(value);
        ball = Ring::arb(value, p);
      });
      if (o != Out::OK) fail(w, t.c_str(), "rejected", x.str() + ": " + w.what);
    }
    Elem e;
    truth::addTo(e, "1", x);
    mpz_class f0 = truth::floor(e);
    if (floor != f0) fail(w, (t + " C18").c_str(), "floor", "the floor of " + x.str() + " is " + floor.get_str() + " but should be " + f0.get_str());
    if (unit != (isZ<Ring> ? x == Coef(mpq_class(1)) || x == Coef(mpq_class(-1)) : !x.zero())) fail(w, t.c_str(), "unit", x.str() + (unit ? " is" : " is not") + " a unit");
    if (q.has_value() != x.rational() || (q && *q != x.q())) fail(w, t.c_str(), "rational", x.str() + " as a rational is " + (q ? q->get_str() : std::string("none")));
    { bool ok = true;
      for (long q = 200 + p; q < 30000; q *= 4) {
        auto y = truth::eval(x, q);
        if (arb_contains(ball.arb_t(), y.t)) break;
        if (!arb_overlaps(ball.arb_t(), y.t)) { ok = false; break; }
      }
      if (!ok) fail(w, (t + " C12").c_str(), "enclosure", "a ball for " + x.str() + " with " + to_s(p) + " bits is " + truth::str(ball.arb_t()));
      if (!isK<Ring> && !x.zero() && arb_rel_accuracy_bits(ball.arb_t()) < p - 8) fail(w, (t + " C12").c_str(), "accuracy", "a ball for " + x.str() + " with " + to_s(p) + " bits is " + truth::str(ball.arb_t()));
    }
    // rings which contain both
    bool compatible = f == g || !f || !g;
    { std::optional<Ring> both, self;
      std::optional<EC> there;
      Out o = w.call([&] { both.emplace(Ring::compositum(R, S)); });
      if (compatible ? o != Out::OK : o != Out::LOGIC) fail(w, t.c_str(), "compositum", "the compositum of K" + to_s(f) + " and K" + to_s(g) + ": " + w.what);
      if (compatible && !(*both == (f ? R : S))) fail(w, t.c_str(), "compositum", "the compositum of K" + to_s(f) + " and K" + to_s(g) + " is wrong");
      if ((f == g) != (R == S)) fail(w, t.c_str(), "ring-equal", "K" + to_s(f) + " and K" + to_s(g) + " compare wrongly");
      if (f == g && std::hash<Ring>()(R) != std::hash<Ring>()(S)) fail(w, "C13 C15", "ring-hash", "equal rings have different hashes");
      o = w.call([&] { there.emplace(S.coerce(value)); });
      bool fits = f == g || x.rational();
      if (fits ? o != Out::OK : o != Out::LOGIC) fail(w, t.c_str(), "coerce", x.str() + " in K" + to_s(g) + ": " + w.what);
      if (fits) {
        bool same = coef<Ring>(w, *there) == x;
        if constexpr (isK<Ring>) if (there->parent() != *S.parameters) same = false;
        if (!same) fail(w, t.c_str(), "coerce", x.str() + " in K" + to_s(g) + " is " + coef<Ring>(w, *there).str());
      }
      o = w.call([&] { self.emplace(value); });
      if (o != Out::OK || !(*self == R)) { if (!(isK<Ring> && o == Out::OK && x.rational())) fail(w, t.c_str(), "ring-of", "the ring of " + x.str() + " is wrong"); }
      Loud l;
      both.reset();
      self.reset();
      there.reset();
    }
    // arithmetic with integers and rationals
    bool div = w.arg(9) & 1;
    auto scale = [&](auto y, const Coef& v) {
      std::optional<EC> r;
      { Loud l; r.emplace(value); }
      bool ok = !(div && v.zero());
      Coef z;
      if (ok) z = truth::mul(x, div ? truth::inv(v) : v);
      if (isZ<Ring> && ok && z.q().get_den() != 1) ok = false;
      Out o = w.call([&] { if (div) Ring::idiv(*r, y); else Ring::imul(*r, y); });
      const std::string what = x.str() + (div ? " / " : " * ") + v.str();
      if (!ok) {
        count("probe.rejected");
        if (o != Out::LOGIC) fail(w, (t + " C06").c_str(), "not-rejected", what + " was not rejected");
      } else {
        if (o != Out::OK) fail(w, t.c_str(), "rejected", what + ": " + w.what);
        if (coef<Ring>(w, *r) != z) fail(w, t.c_str(), "scale", what + " is " + coef<Ring>(w, *r).str());
      }
      Loud l;
      r.reset();
    };
    auto go = [&](auto y) {
      if constexpr (std::is_signed_v<decltype(y)>) scale(y, Coef(mpq_class((long)y)));
      else scale(y, Coef(mpq_class((unsigned long)y)));
    };
    int64_t v = w.arg(7);
    switch ((uint64_t)w.arg(6) % 11) {
      case 0: go((short)v); break;
      case 1: go((unsigned short)v); break;
      case 2: go((int)v); break;
      case 3: go((unsigned int)v); break;
      case 4: go((long)v); break;
      case 5: go((unsigned long)v); break;
      case 6: go((long long)v); break;
      case 7: go((unsigned long long)v); break;
      case 8: { mpz_class y = big(v, w.arg(2), w.arg(3), 1).get_num(); scale(y, Coef(mpq_class(y))); break; }
      case 9: { mpq_class y = big(v, w.arg(2), w.arg(3), 1 + std::llabs(w.arg(1)) % 9); scale(y, Coef(y)); break; }
      default: {
        Coef y = coefOf<Ring>(f, v, w.arg(3), w.arg(2), 1 + std::llabs(w.arg(1)) % 9);
        std::optional<EC> s;
        { Loud l; s.emplace(uncoef<Ring>(w, y, f)); }
        scale(*s, y);
        Loud l;
        s.reset();
      }
    }
    Loud l;
    c.reset();
  }

  static void registerAll(const std::string& p) {
    auto& h = handlers();
    h[p + ".mk"] = mk; h[p + ".bad"] = bad; h[p + ".span"] = span; h[p + ".sub"] = sub; h[p + ".mdrop"] = mdrop; h[p + ".mcp"] = mcp; h[p + ".mofe"] = mofe;
    h[p + ".el"] = el; h[p + ".elbad"] = elbad; h[p + ".gen"] = gen; h[p + ".zero"] = zero; h[p + ".lit"] = lit; h[p + ".cp"] = cp; h[p + ".mv"] = mv; h[p + ".swap"] = swap; h[p + ".drop"] = drop;
    h[p + ".add"] = binary<ADD>; h[p + ".sbt"] = binary<SUB>; h[p + ".mul"] = binary<MUL>; h[p + ".neg"] = neg; h[p + ".mulr"] = mulr;
    h[p + ".smul"] = scalar<false>; h[p + ".sdiv"] = scalar<true>; h[p + ".tdiv"] = tdiv; h[p + ".mult"] = multiples; h[p + ".fdiv"] = fdiv;
    h[p + ".conv"] = conv; h[p + ".hash"] = hash; h[p + ".arb"] = arb; h[p + ".cmp"] = cmp; h[p + ".cmpr"] = cmpr; h[p + ".cmpq"] = cmpq; h[p + ".cmpz"] = cmpz; h[p + ".cmpi"] = cmpi;
    h[p + ".prom"] = prom; h[p + ".simp"] = simp; h[p + ".tiny"] = tiny; h[p + ".edge"] = edge; h[p + ".ring"] = ring; h[p + ".wide"] = wide; h[p + ".wel"] = wel;
    if constexpr (isQ<Ring>) h[p + ".fromz"] = from<IntegerRing>;
    if constexpr (isK<Ring>) { h[p + ".fromz"] = from<IntegerRing>; h[p + ".fromq"] = from<RationalField>; }
  }
};
struct RegisterElements {
  RegisterElements() {
    Ops<IntegerRing>::registerAll("z");
    Ops<RationalField>::registerAll("q");
    Ops<NumberField>::registerAll("k");
  }
} registerElements;
}  // namespace
