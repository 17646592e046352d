#include "truth.hpp"

#include <flint/fmpq.h>
#include <flint/fmpz.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>

namespace truth {

// ------------------------------------------------------------------ helpers
void toMpz(mpz_class& r, const fmpz_t x) { fmpz_get_mpz(r.get_mpz_t(), x); }
namespace {
struct Fmpz {
  fmpz_t t;
  Fmpz() { fmpz_init(t); }
  Fmpz(const mpz_class& z) { fmpz_init(t); fmpz_set_mpz(t, z.get_mpz_t()); }
  Fmpz(const Fmpz&) = delete;
  ~Fmpz() { fmpz_clear(t); }
};
struct Fmpq {
  fmpq_t t;
  Fmpq(const mpq_class& q) { fmpq_init(t); fmpq_set_mpq(t, q.get_mpq_t()); }
  ~Fmpq() { fmpq_clear(t); }
};
std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string cur;
  for (char x : s) {
    if (x == c) { r.push_back(cur); cur.clear(); }
    else cur += x;
  }
  r.push_back(cur);
  return r;
}
}  // namespace
void ballMpq(Ball& b, const mpq_class& q, long prec) {
  Fmpq x(q);
  arb_set_fmpq(b.t, x.t, prec);
}
mpq_class toMpq(const arf_t x) {
  Fmpz m, e;
  arf_get_fmpz_2exp(m.t, e.t, x);
  mpz_class mm;
  toMpz(mm, m.t);
  long ee = fmpz_get_si(e.t);
  mpq_class q(mm);
  if (ee >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), ee);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -ee);
  return q;
}
void setMpq(Float& f, const mpq_class& q) {
  Fmpq x(q);
  arf_set_fmpq(f.t, x.t, 1000000, ARF_RND_DOWN);
}
std::string str(const arf_t x) { return dyOf(x).str(); }
std::string str(const arb_t x) {
  char* s = arb_dump_str(x);
  std::string r(s);
  flint_free(s);
  return r;
}

// -------------------------------------------------------------------- reals
std::string rationalKey(const mpq_class& q) { return q == 1 ? "1" : "q" + q.get_str(); }
bool isRational(const std::string& key, mpq_class* q) {
  if (key == "1") { if (q) *q = 1; return true; }
  if (key[0] == 'q' && key.find('*') == std::string::npos && key.find('^') == std::string::npos) {
    if (q) { *q = mpq_class(key.substr(1)); q->canonicalize(); }
    return true;
  }
  return false;
}
std::string key(const Mono& m) {
  std::string s;
  for (auto& a : m) {
    if (!a.second) continue;
    if (!s.empty()) s += "*";
    s += a.first;
    if (a.second != 1) s += "^" + std::to_string(a.second);
  }
  return s.empty() ? "1" : s;
}
Mono mono(const std::string& key) {
  Mono m;
  if (key == "1") return m;
  for (auto& f : split(key, '*')) {
    auto at = f.find('^');
    if (at == std::string::npos) m[f] += 1;
    else m[f.substr(0, at)] += std::stol(f.substr(at + 1));
  }
  return m;
}
std::string mulKey(const std::string& a, const std::string& b) {
  mpq_class p, q;
  if (isRational(a, &p) && isRational(b, &q)) return rationalKey(p * q);
  Mono m = mono(a);
  for (auto& x : mono(b)) m[x.first] += x.second;
  return key(m);
}
std::optional<std::string> divKey(const std::string& a, const std::string& b) {
  mpq_class p, q;
  if (isRational(a, &p) && isRational(b, &q)) {
    if (q == 0) return std::nullopt;
    return rationalKey(p / q);
  }
  Mono m = mono(a);
  for (auto& x : mono(b)) {
    auto it = m.find(x.first);
    if (it == m.end() || it->second < x.second) return std::nullopt;
    it->second -= x.second;
    if (!it->second) m.erase(it);
  }
  return key(m);
}

namespace {
// The digits of random(seed): the leading bit of each state of the 48 bit linear congruential generator.
struct Digits {
  uint64_t x;
  std::string bits;
  size_t zeros = 0;   // leading zeros
  explicit Digits(unsigned seed) : x(((uint64_t)seed << 16) | 0x330e) {}
  void need(size_t n) {
    while (bits.size() < n) {
      x = (x * 0x5DEECE66Dull + 0xB) & ((1ull << 48) - 1);
      bits += (x >> 47) ? '1' : '0';
      if (bits.size() == zeros + 1 && bits.back() == '0') zeros++;
    }
  }
  void needSignificant(size_t n) {
    do need(bits.size() + 1); while (zeros == bits.size());
    need(zeros + n);
  }
};
Digits& digits(unsigned seed) {
  static std::map<unsigned, Digits>* all = new std::map<unsigned, Digits>;
  auto it = all->find(seed);
  if (it == all->end()) it = all->emplace(seed, Digits(seed)).first;
  return it->second;
}
void evalRandom(Ball& b, unsigned seed, long prec) {
  Digits& d = digits(seed);
  if (prec < 2) prec = 2;
  d.needSignificant(prec + 4);
  size_t n = d.zeros + prec + 4;
  mpz_class k(d.bits.substr(0, n), 2);
  // [k, k+1]/2^n = (2k+1 ± 1)/2^(n+1)
  Fmpz m(mpz_class(2 * k + 1));
  arb_set_fmpz(b.t, m.t);
  arb_add_error_2exp_si(b.t, 0);
  arb_mul_2exp_si(b.t, b.t, -(long)(n + 1));
}
void evalAtom(Ball& b, const std::string& key, long prec) {
  if (key == "1") { arb_one(b.t); return; }
  if (key[0] == 'q') {
    mpq_class q(key.substr(1));
    q.canonicalize();
    ballMpq(b, q, prec + 8);
    return;
  }
  if (key[0] == 'r') { evalRandom(b, (unsigned)std::stoul(key.substr(1)), prec); return; }
  if (key[0] == 'c') {
    auto p = split(key.substr(1), ':');
    mpz_class m(p[0]);
    mpz_class me(p[1]);
    long e = std::stol(p[2]);
    unsigned seed = (unsigned)std::stoul(p[3]);
    Fmpz fm(m), fe(me);
    for (long inner = prec + 16;; inner *= 2) {
      Ball r;
      evalRandom(r, seed, inner);
      arb_mul_2exp_si(r.t, r.t, e - 1);
      arf_set_fmpz_2exp(arb_midref(b.t), fm.t, fe.t);
      mag_zero(arb_radref(b.t));
      arb_add(b.t, b.t, r.t, ARF_PREC_EXACT);
      if (arb_rel_accuracy_bits(b.t) >= prec) return;
      if (inner > 10000000) throw std::runtime_error("oracle: cannot evaluate " + key);
    }
  }
  throw std::runtime_error("oracle: unknown key " + key);
}
}  // namespace

Ball eval(const std::string& key, long prec) {
  Ball r;
  if (prec < 4) prec = 4;
  if (isRational(key)) { evalAtom(r, key, prec); return r; }
  Mono m = mono(key);
  if (m.size() == 1 && m.begin()->second == 1) { evalAtom(r, m.begin()->first, prec); return r; }
  for (long p = prec + 32;; p *= 2) {
    arb_one(r.t);
    for (auto& a : m) {
      Ball x;
      evalAtom(x, a.first, p);
      arb_pow_ui(x.t, x.t, a.second, p + 32);
      arb_mul(r.t, r.t, x.t, p + 32);
    }
    if (arb_rel_accuracy_bits(r.t) >= prec) return r;
  }
}

// ------------------------------------------------------------ number fields
const std::vector<FieldSpec> fields = {
    {"", "", "", {0}, 0},
    {"x^2 - 2", "x", "1.414213562373095 +/- 1e-10", {-2, 0}, 1},
    {"x^2 - x - 1", "x", "1.618033988749895 +/- 1e-10", {-1, -1}, 2},
    {"x^3 - 2", "x", "1.259921049894873 +/- 1e-10", {-2, 0, 0}, 3},
    {"x^2 - 3", "x", "-1.732050807568877 +/- 1e-10", {-3, 0}, 4},
};
Ball root(int f, long prec) {
  Ball r;
  switch (fields[f].kind) {
    case 0: break;
    case 1: arb_sqrt_ui(r.t, 2, prec); break;
    case 2:
      arb_sqrt_ui(r.t, 5, prec);
      arb_add_ui(r.t, r.t, 1, prec);
      arb_mul_2exp_si(r.t, r.t, -1);
      break;
    case 3:
      arb_set_ui(r.t, 2);
      arb_root_ui(r.t, r.t, 3, prec);
      break;
    case 4:
      arb_sqrt_ui(r.t, 3, prec);
      arb_neg(r.t, r.t);
      break;
  }
  return r;
}
namespace {
using Poly = std::vector<mpq_class>;
void trim(Poly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
Poly minpoly(int f) {
  Poly p;
  for (long x : fields[f].poly) p.push_back(x);
  p.push_back(1);
  return p;
}
Poly padd(const Poly& a, const Poly& b) {
  Poly r(std::max(a.size(), b.size()));
  for (size_t i = 0; i < a.size(); i++) r[i] += a[i];
  for (size_t i = 0; i < b.size(); i++) r[i] += b[i];
  trim(r);
  return r;
}
Poly pmul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return {};
  Poly r(a.size() + b.size() - 1);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j];
  trim(r);
  return r;
}
// a = q·b + r
Poly pdivrem(const Poly& a, const Poly& b, Poly* quo) {
  Poly r = a, q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0);
  while (r.size() >= b.size()) {
    size_t shift = r.size() - b.size();
    mpq_class c = r.back() / b.back();
    q[shift] = c;
    for (size_t i = 0; i < b.size(); i++) r[i + shift] -= c * b[i];
    trim(r);
  }
  trim(q);
  if (quo) *quo = q;
  return r;
}
Poly pneg(Poly a) { for (auto& x : a) x = -x; return a; }
int commonField(const Coef& a, const Coef& b) { return a.rational() ? b.f : a.f; }
}  // namespace
Coef::Coef(int f, std::vector<mpq_class> c_) : f(f), c(std::move(c_)) {
  if (f == 0) { if (c.size() > 1) throw std::logic_error("oracle: coefficient"); }
  else if (c.size() > fields[f].poly.size()) c = pdivrem(c, minpoly(f), nullptr);
  trim(c);
}
std::string Coef::str() const {
  std::string s = std::to_string(f) + "|";
  for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + c[i].get_str();
  return s;
}
Coef parseCoef(const std::string& s) {
  Coef r;
  auto at = s.find('|');
  r.f = std::stoi(s.substr(0, at));
  std::string rest = s.substr(at + 1);
  if (!rest.empty())
    for (auto& x : split(rest, ',')) { r.c.push_back(mpq_class(x)); r.c.back().canonicalize(); }
  return r;
}
Coef add(const Coef& a, const Coef& b) { Coef r(commonField(a, b), padd(a.c, b.c)); if (r.rational()) r.f = 0; return r; }
Coef neg(const Coef& a) { Coef r = a; r.c = pneg(r.c); return r; }
Coef mul(const Coef& a, const Coef& b) {
  int f = commonField(a, b);
  Poly p = pmul(a.c, b.c);
  if (f == 0) { Coef r; r.c = p; return r; }
  Coef r(f, pdivrem(p, minpoly(f), nullptr));
  if (r.rational()) r.f = 0;
  return r;
}
Coef inv(const Coef& a) {
  if (a.rational()) return Coef(mpq_class(1 / a.q()));
  // extended Euclid
  Poly r0 = minpoly(a.f), r1 = a.c, s0, s1 = {mpq_class(1)};
  while (r1.size() > 1) {
    Poly q;
    Poly r2 = pdivrem(r0, r1, &q);
    Poly s2 = padd(s0, pneg(pmul(q, s1)));
    r0 = r1; r1 = r2; s0 = s1; s1 = s2;
  }
  mpq_class c = 1 / r1.at(0);
  for (auto& x : s1) x *= c;
  Coef r(a.f, s1);
  if (r.rational()) r.f = 0;
  return r;
}
Ball eval(const Coef& a, long prec) {
  Ball r;
  if (a.zero()) return r;
  if (a.rational()) { ballMpq(r, a.q(), prec + 8); return r; }
  for (long p = prec + 32;; p *= 2) {
    Ball x = root(a.f, p);
    arb_zero(r.t);
    for (size_t i = a.c.size(); i > 0; i--) {
      Ball c;
      ballMpq(c, a.c[i - 1], p);
      arb_mul(r.t, r.t, x.t, p);
      arb_add(r.t, r.t, c.t, p);
    }
    if (arb_rel_accuracy_bits(r.t) >= prec) return r;
  }
}

// ----------------------------------------------------------------- elements
std::string Elem::str() const {
  std::string s;
  for (auto& x : t) s += (s.empty() ? "" : ";") + x.first + "=" + x.second.str();
  return s.empty() ? "0" : s;
}
Elem parseElem(const std::string& s) {
  Elem e;
  if (s == "0") return e;
  for (auto& x : split(s, ';')) {
    auto at = x.find('=');
    e.t[x.substr(0, at)] = parseCoef(x.substr(at + 1));
  }
  return e;
}
std::optional<mpq_class> Elem::rational() const {
  mpq_class r = 0;
  for (auto& x : t) {
    mpq_class q;
    if (!isRational(x.first, &q)) return std::nullopt;
    if (!x.second.rational()) return std::nullopt;
    r += q * x.second.q();
  }
  return r;
}
void addTo(Elem& e, const std::string& key, const Coef& c) {
  if (c.zero()) return;
  auto it = e.t.find(key);
  if (it == e.t.end()) { e.t[key] = c; return; }
  it->second = add(it->second, c);
  if (it->second.zero()) e.t.erase(it);
}
void addGen(Elem& e, const std::string& key, const Coef& c) {
  mpq_class q;
  if (isRational(key, &q)) addTo(e, "1", mul(c, Coef(q)));
  else addTo(e, key, c);
}
Elem add(const Elem& a, const Elem& b) {
  Elem r = a;
  for (auto& x : b.t) addTo(r, x.first, x.second);
  return r;
}
Elem neg(const Elem& a) {
  Elem r;
  for (auto& x : a.t) r.t[x.first] = neg(x.second);
  return r;
}
Elem scale(const Elem& a, const Coef& c) {
  Elem r;
  if (c.zero()) return r;
  for (auto& x : a.t) addTo(r, x.first, mul(x.second, c));
  return r;
}
Elem mul(const Elem& a, const Elem& b) {
  Elem r;
  for (auto& x : a.t)
    for (auto& y : b.t) addTo(r, mulKey(x.first, y.first), mul(x.second, y.second));
  return r;
}
namespace {
// A monomial order: total degree, then lexicographic.
bool monoLess(const std::string& ka, const std::string& kb) {
  Mono a = mono(ka), b = mono(kb);
  long da = 0, db = 0;
  std::set<std::string> atoms;
  for (auto& x : a) { da += x.second; atoms.insert(x.first); }
  for (auto& x : b) { db += x.second; atoms.insert(x.first); }
  if (da != db) return da < db;
  for (auto& k : atoms) {
    long ea = a.count(k) ? a[k] : 0, eb = b.count(k) ? b[k] : 0;
    if (ea != eb) return ea < eb;
  }
  return false;
}
const std::pair<const std::string, Coef>& leading(const Elem& e) {
  const std::pair<const std::string, Coef>* best = nullptr;
  for (auto& x : e.t)
    if (!best || monoLess(best->first, x.first)) best = &x;
  return *best;
}
}  // namespace
std::optional<Elem> divide(const Elem& a, const Elem& b, bool integral) {
  Elem rem = a, quo;
  auto& lb = leading(b);
  Coef ib = inv(lb.second);
  while (!rem.zero()) {
    auto la = leading(rem);
    auto k = divKey(la.first, lb.first);
    if (!k) return std::nullopt;
    Coef c = mul(la.second, ib);
    if (integral && (!c.rational() || c.q().get_den() != 1)) return std::nullopt;
    Elem part;
    part.t[*k] = c;
    quo = add(quo, part);
    rem = add(rem, neg(mul(part, b)));
  }
  return quo;
}
Ball eval(const Elem& e, long prec) {
  Ball r;
  for (auto& x : e.t) {
    Ball m = eval(x.first, prec + 16), c = eval(x.second, prec + 16);
    arb_mul(m.t, m.t, c.t, prec + 32);
    arb_add(r.t, r.t, m.t, prec + 64);
  }
  return r;
}
namespace {
constexpr long PREC_LIMIT = 400000;
}
int sign(const Elem& e) {
  if (e.zero()) return 0;
  if (auto q = e.rational()) return sgn(*q);
  for (long p = 64; p < PREC_LIMIT; p *= 2) {
    Ball b = eval(e, p);
    if (arb_is_positive(b.t)) return 1;
    if (arb_is_negative(b.t)) return -1;
  }
  throw std::runtime_error("oracle: cannot determine sign of " + e.str());
}
int cmp(const Elem& a, const Elem& b) { return sign(add(a, neg(b))); }
mpz_class floor(const Elem& e) {
  if (auto q = e.rational()) {
    mpz_class r;
    mpz_fdiv_q(r.get_mpz_t(), q->get_num_mpz_t(), q->get_den_mpz_t());
    return r;
  }
  for (long p = 64; p < PREC_LIMIT; p *= 2) {
    Ball b = eval(e, p);
    Ball f;
    arb_floor(f.t, b.t, p + 64);
    Fmpz z;
    if (arb_get_unique_fmpz(z.t, f.t)) {
      mpz_class r;
      toMpz(r, z.t);
      return r;
    }
  }
  throw std::runtime_error("oracle: cannot determine floor of " + e.str());
}
Elem ofReal(const std::string& key) {
  Elem e;
  e.t[key] = Coef(mpq_class(1));
  return e;
}
Elem ofQ(const mpq_class& q) {
  Elem e;
  if (q != 0) e.t["1"] = Coef(q);
  return e;
}
double toDouble(const mpq_class& q) {
  if (q == 0) return 0;
  mpq_class a = abs(q);
  // k with 2^k <= a < 2^(k+1)
  long k = (long)mpz_sizeinbase(a.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(a.get_den_mpz_t(), 2);
  auto pow2 = [](long e) {
    mpq_class r(1);
    if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e);
    else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e);
    return r;
  };
  while (a < pow2(k)) k--;
  while (a >= pow2(k + 1)) k++;
  if (k > 1024) return q > 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  long quantum = std::max(k - 52, -1074l);
  if (k < -1080) return q > 0 ? 0. : -0.;
  mpq_class s = a * pow2(-quantum);
  mpz_class f = s.get_num() / s.get_den();
  mpq_class rest = s - f;
  if (rest > mpq_class(1, 2) || (rest == mpq_class(1, 2) && mpz_odd_p(f.get_mpz_t()))) f++;
  double d = std::ldexp(f.get_d(), (int)quantum);
  return q > 0 ? d : -d;
}
double toDouble(const Elem& e) {
  if (auto q = e.rational()) return toDouble(*q);
  for (long p = 64; p < PREC_LIMIT; p *= 2) {
    Ball b = eval(e, p);
    Float lo, hi;
    arb_get_lbound_arf(lo.t, b.t, p + 128);
    arb_get_ubound_arf(hi.t, b.t, p + 128);
    double x = toDouble(toMpq(lo.t)), y = toDouble(toMpq(hi.t));
    if (x == y) return x;
  }
  throw std::runtime_error("oracle: cannot determine double of " + e.str());
}
int cmp(const std::string& key, const mpq_class& q) { return cmp(ofReal(key), ofQ(q)); }

// ------------------------------------------------------------------- floats
void Dy::norm() {
  if (kind != FIN) { m = 0; e = 0; return; }
  if (m == 0) { e = 0; return; }
  mp_bitcnt_t z = mpz_scan1(m.get_mpz_t(), 0);
  if (z) {
    mpz_fdiv_q_2exp(m.get_mpz_t(), m.get_mpz_t(), z);
    e += (unsigned long)z;
  }
}
std::string Dy::str() const {
  if (kind == PINF) return "+inf";
  if (kind == NINF) return "-inf";
  if (kind == NAN_) return "nan";
  return m.get_str() + "p" + e.get_str();
}
Dy dyOf(const arf_t x) {
  Dy d;
  if (arf_is_nan(x)) d.kind = Dy::NAN_;
  else if (arf_is_pos_inf(x)) d.kind = Dy::PINF;
  else if (arf_is_neg_inf(x)) d.kind = Dy::NINF;
  else {
    Fmpz m, e;
    arf_get_fmpz_2exp(m.t, e.t, x);
    toMpz(d.m, m.t);
    toMpz(d.e, e.t);
    d.norm();
  }
  return d;
}
Dy dyOf(double x) {
  Dy d;
  if (std::isnan(x)) d.kind = Dy::NAN_;
  else if (std::isinf(x)) d.kind = x > 0 ? Dy::PINF : Dy::NINF;
  else {
    int e;
    double f = std::frexp(x, &e);
    d.m = mpz_class(std::ldexp(f, 53));
    d.e = e - 53;
    d.norm();
  }
  return d;
}
namespace {
Dy special(Dy::Kind k) { Dy d; d.kind = k; return d; }
mpz_class shl(const mpz_class& m, const mpz_class& n) {
  if (!n.fits_ulong_p() || n > 50000000) throw std::runtime_error("oracle: shift too large");
  mpz_class r;
  mpz_mul_2exp(r.get_mpz_t(), m.get_mpz_t(), n.get_ui());
  return r;
}
}  // namespace
Dy dyNeg(const Dy& a) {
  if (a.kind == Dy::PINF) return special(Dy::NINF);
  if (a.kind == Dy::NINF) return special(Dy::PINF);
  Dy r = a;
  r.m = -r.m;
  return r;
}
Dy dyAdd(const Dy& a, const Dy& b) {
  if (a.kind == Dy::NAN_ || b.kind == Dy::NAN_) return special(Dy::NAN_);
  if (a.kind != Dy::FIN && b.kind != Dy::FIN) return a.kind == b.kind ? a : special(Dy::NAN_);
  if (a.kind != Dy::FIN) return a;
  if (b.kind != Dy::FIN) return b;
  if (a.m == 0) return b;
  if (b.m == 0) return a;
  if (a.e <= b.e) return Dy(a.m + shl(b.m, b.e - a.e), a.e);
  return Dy(b.m + shl(a.m, a.e - b.e), b.e);
}
Dy dyMul(const Dy& a, const Dy& b) {
  if (a.kind == Dy::NAN_ || b.kind == Dy::NAN_) return special(Dy::NAN_);
  if (a.kind != Dy::FIN || b.kind != Dy::FIN) {
    int s = a.sgn() * b.sgn();
    return s > 0 ? special(Dy::PINF) : s < 0 ? special(Dy::NINF) : special(Dy::NAN_);
  }
  return Dy(a.m * b.m, a.e + b.e);
}
int dyCmp(const Dy& a, const Dy& b) {
  if (a == b) return 0;
  if (a.kind == Dy::PINF || b.kind == Dy::NINF) return 1;
  if (a.kind == Dy::NINF || b.kind == Dy::PINF) return -1;
  if (a.sgn() != b.sgn()) return a.sgn() < b.sgn() ? -1 : 1;
  // same sign, finite, non-zero: compare the exponents of the leading bits first
  mpz_class la = a.e + (unsigned long)mpz_sizeinbase(a.m.get_mpz_t(), 2), lb = b.e + (unsigned long)mpz_sizeinbase(b.m.get_mpz_t(), 2);
  if (la != lb) return (la < lb ? -1 : 1) * a.sgn();
  return dyAdd(a, dyNeg(b)).sgn();
}
namespace {
// Round n·2^e where n has been truncated towards zero; `rest` is 0 if nothing was cut off,
// 1: less than half, 2: half, 3: more than half of the last place.
mpz_class up(const mpz_class& n, int sign, int rest, Rnd rnd) {
  bool away = false;
  switch (rnd) {
    case DOWN: break;
    case UP: away = rest != 0; break;
    case FLOOR: away = rest != 0 && sign < 0; break;
    case CEIL: away = rest != 0 && sign > 0; break;
    case NEAR: away = rest == 3 || (rest == 2 && mpz_odd_p(n.get_mpz_t())); break;
  }
  return away ? mpz_class(n + sign) : n;
}
}  // namespace
Dy dyRound(const Dy& a, long prec, Rnd rnd) {
  if (a.kind != Dy::FIN || a.m == 0 || prec == std::numeric_limits<long>::max()) return a;
  size_t bits = mpz_sizeinbase(a.m.get_mpz_t(), 2);
  if ((long)bits <= prec) return a;
  mp_bitcnt_t cut = bits - prec;
  mpz_class n, mag = abs(a.m);
  mpz_fdiv_q_2exp(n.get_mpz_t(), mag.get_mpz_t(), cut);
  mpz_class rem = mag - shl(n, mpz_class((unsigned long)cut));
  mpz_class half = shl(mpz_class(1), mpz_class((unsigned long)(cut - 1)));
  int rest = rem == 0 ? 0 : rem < half ? 1 : rem == half ? 2 : 3;
  n *= a.sgn();
  return Dy(up(n, a.sgn(), rest, rnd), a.e + (unsigned long)cut);
}
Dy dyDiv(const Dy& a, const Dy& b, long prec, Rnd rnd) {
  if (a.kind == Dy::NAN_ || b.kind == Dy::NAN_) return special(Dy::NAN_);
  if (a.kind != Dy::FIN) {
    if (b.kind != Dy::FIN || b.m == 0) return special(Dy::NAN_);
    return a.sgn() * b.sgn() > 0 ? special(Dy::PINF) : special(Dy::NINF);
  }
  if (b.kind != Dy::FIN) return Dy();
  if (b.m == 0) return special(Dy::NAN_);
  if (a.m == 0) return a;
  // quotient of the magnitudes with at least prec + 2 bits
  mpz_class x = abs(a.m), y = abs(b.m);
  long shift = prec + 2 + (long)mpz_sizeinbase(y.get_mpz_t(), 2) - (long)mpz_sizeinbase(x.get_mpz_t(), 2) + 1;
  if (shift < 0) shift = 0;
  x = shl(x, mpz_class(shift));
  mpz_class q = x / y, r = x % y;
  // a sticky bit makes the rounding exact
  q = 2 * q + (r != 0 ? 1 : 0);
  Dy d(q * (a.sgn() * b.sgn()), a.e - b.e - shift - 1);
  return dyRound(d, prec, rnd);
}
}  // namespace truth
namespace truth {
mpq_class near(const Elem& e, long bits, long off) {
  if (bits < 2) bits = 2;
  if (e.zero()) {
    mpq_class q(off);
    mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), bits);
    return q;
  }
  Ball b;
  for (long p = bits + 64;; p *= 2) {
    b = eval(e, p);
    if (arb_rel_accuracy_bits(b.t) >= bits + 8) break;
    if (p > PREC_LIMIT) throw std::runtime_error("oracle: cannot approximate " + e.str());
  }
  Float m;
  arf_set_round(m.t, arb_midref(b.t), bits, ARF_RND_DOWN);
  mpq_class q = toMpq(m.t);
  // unit in the last place
  mpq_class u(1);
  long k = (long)fmpz_get_si(ARF_EXPREF(m.t)) - bits;
  if (k >= 0) mpq_mul_2exp(u.get_mpq_t(), u.get_mpq_t(), k);
  else mpq_div_2exp(u.get_mpq_t(), u.get_mpq_t(), -k);
  return q + off * u;
}
std::string dbl(double x) {
  char buf[64];
  snprintf(buf, sizeof buf, "%a", x);
  return buf;
}
}
