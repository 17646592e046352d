// The executable reference model.  Independent of the code under test: numbers
// are described by what was asked for (rational, seed, interval prefix + seed,
// products) and evaluated with FLINT, GMP and the documented digit generator.
#ifndef VERIF_SIM_TRUTH_HPP
#define VERIF_SIM_TRUTH_HPP
#include <flint/arb.h>
#include <flint/arf.h>
#include <gmpxx.h>

#include <cstdint>

#include <map>
#include <optional>
#include <string>
#include <vector>

namespace truth {

// RAII for arb_t / arf_t
struct Ball {
  arb_t t;
  Ball() { arb_init(t); }
  Ball(const Ball& o) { arb_init(t); arb_set(t, o.t); }
  Ball& operator=(const Ball& o) { arb_set(t, o.t); return *this; }
  ~Ball() { arb_clear(t); }
};
struct Float {
  arf_t t;
  Float() { arf_init(t); }
  Float(const Float& o) { arf_init(t); arf_set(t, o.t); }
  Float& operator=(const Float& o) { arf_set(t, o.t); return *this; }
  ~Float() { arf_clear(t); }
};
void toMpz(mpz_class&, const fmpz_t);
void setMpq(Float&, const mpq_class&);          // exact; only for dyadic rationals
void ballMpq(Ball&, const mpq_class&, long prec);
mpq_class toMpq(const arf_t);                   // finite, moderate exponent
std::string str(const arf_t);
std::string str(const arb_t);

// ------------------------------------------------------------------- reals
// Keys of atoms: "q<num>/<den>" rational, "r<seed>" random,
// "c<mantissa>:<exponent>:<e>:<seed>" for mantissa·2^exponent + random(seed)·2^(e-1)
// Keys of reals: "1" is the rational 1; products are atom^exp*atom^exp… (sorted)
using Mono = std::map<std::string, long>;
std::string key(const Mono&);
Mono mono(const std::string& key);
bool isRational(const std::string& key, mpq_class* q = nullptr);
std::string rationalKey(const mpq_class&);
std::string mulKey(const std::string&, const std::string&);
std::optional<std::string> divKey(const std::string&, const std::string&);
// A ball around the real described by key with relative accuracy of at least prec bits.
Ball eval(const std::string& key, long prec);

// ------------------------------------------------------------ number fields
struct FieldSpec {
  const char* minpoly;
  const char* gen;
  const char* emb;
  std::vector<long> poly;  // monic, without leading coefficient
  int kind;                // how to evaluate the root
};
extern const std::vector<FieldSpec> fields;   // fields[0] is the rationals
Ball root(int field, long prec);

// Elements of Q(root of fields[f]); field 0: rational.
struct Coef {
  int f = 0;
  std::vector<mpq_class> c;   // normalized: no trailing zeros
  Coef() {}
  Coef(const mpq_class& q) { if (q != 0) c.push_back(q); }
  Coef(int f, std::vector<mpq_class> c);
  bool zero() const { return c.empty(); }
  bool rational() const { return c.size() <= 1; }
  mpq_class q() const { return c.empty() ? mpq_class(0) : c[0]; }
  bool operator==(const Coef& o) const { return c == o.c && (rational() || f == o.f); }
  bool operator!=(const Coef& o) const { return !(*this == o); }
  std::string str() const;
};
Coef add(const Coef&, const Coef&);
Coef neg(const Coef&);
Coef mul(const Coef&, const Coef&);
Coef inv(const Coef&);
Ball eval(const Coef&, long prec);
Coef parseCoef(const std::string&);

// ---------------------------------------------------------------- elements
struct Elem {
  std::map<std::string, Coef> t;   // real key -> non-zero coefficient
  bool operator==(const Elem& o) const { return t == o.t; }
  bool operator!=(const Elem& o) const { return !(t == o.t); }
  bool zero() const { return t.empty(); }
  std::string str() const;
  // The value as a rational number, if it is one (formally)
  std::optional<mpq_class> rational() const;
};
Elem parseElem(const std::string&);
void addTo(Elem&, const std::string& key, const Coef&);
// c times the real number; multiples of rationals are multiples of 1
void addGen(Elem&, const std::string& key, const Coef& c);
Elem add(const Elem&, const Elem&);
Elem neg(const Elem&);
Elem mul(const Elem&, const Elem&);
Elem scale(const Elem&, const Coef&);
// Exact polynomial division; integral: coefficients must be integers.
std::optional<Elem> divide(const Elem& a, const Elem& b, bool integral);
// A ball containing the value with absolute error below 2^-prec times the size of the largest term
Ball eval(const Elem&, long prec);
int sign(const Elem&);                        // exact
int cmp(const Elem&, const Elem&);
mpz_class floor(const Elem&);
double toDouble(const Elem&);                 // closest double, ties to even
Elem ofReal(const std::string& key);
Elem ofQ(const mpq_class&);
// position of the real number relative to a rational
int cmp(const std::string& key, const mpq_class&);
double toDouble(const mpq_class&);

// ------------------------------------------------------------------ floats
// Exact model of binary floating point numbers.
struct Dy {
  enum Kind { FIN, PINF, NINF, NAN_ } kind = FIN;
  mpz_class m = 0;     // odd or zero
  mpz_class e = 0;
  Dy() {}
  Dy(const mpz_class& m, const mpz_class& e) : m(m), e(e) { norm(); }
  void norm();
  bool zero() const { return kind == FIN && m == 0; }
  int sgn() const { return kind == PINF ? 1 : kind == NINF ? -1 : kind == FIN ? ::sgn(m) : 0; }
  bool operator==(const Dy& o) const { return kind == o.kind && (kind != FIN || (m == o.m && e == o.e)); }
  bool operator!=(const Dy& o) const { return !(*this == o); }
  std::string str() const;
};
Dy dyOf(const arf_t);
Dy dyOf(double);
Dy dyAdd(const Dy&, const Dy&);
Dy dyNeg(const Dy&);
Dy dyMul(const Dy&, const Dy&);
int dyCmp(const Dy&, const Dy&);   // not for NaN
enum Rnd { DOWN = 0, UP = 1, FLOOR = 2, CEIL = 3, NEAR = 4 };  // toward 0, away from 0, …
Dy dyRound(const Dy&, long prec, Rnd);
Dy dyDiv(const Dy&, const Dy&, long prec, Rnd);
}  // namespace truth
#endif
namespace truth {
// A dyadic rational next to the value: its approximation with `bits` bits plus off units in the last place.
mpq_class near(const Elem&, long bits, long off);
std::string dbl(double);   // exact text
}
