// Printing to simulated streams: the text must show the value; streams that
// fail in the middle must not do any harm.
#include <cmath>
#include <cstring>
#include <iomanip>
#include <limits>
#include <locale>
#include <ostream>

#include "world.hpp"

using namespace sim;
using truth::Dy;

namespace {
// ------------------------------------------------------------------- parsing
const std::string R_ = "ℝ", DOTS = "…", SIM = "∼", INF = "∞";

bool parseDecimal(const std::string& s, mpq_class& out) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  mpz_class m = 0;
  long e = 0;
  bool digits = false, point = false;
  for (; i < s.size(); i++) {
    if (s[i] >= '0' && s[i] <= '9') { m = 10 * m + (s[i] - '0'); digits = true; if (point) e--; }
    else if (s[i] == '.' && !point) point = true;
    else break;
  }
  if (!digits) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    char* end;
    long x = strtol(s.c_str() + i + 1, &end, 10);
    if (*end || end == s.c_str() + i + 1) return false;
    e += x;
    i = s.size();
  }
  if (i != s.size() || std::labs(e) > 20000) return false;
  mpz_class t;
  mpz_ui_pow_ui(t.get_mpz_t(), 10, std::labs(e));
  out = e >= 0 ? mpq_class(m * t) : mpq_class(m, t);
  out.canonicalize();
  if (neg) out = -out;
  return true;
}
bool parseRational(const std::string& s, mpq_class& out) {
  if (s.empty() || s.find_first_not_of("0123456789-/") != std::string::npos) return false;
  if (s[0] == '/' || s.back() == '/' || s == "-") return false;
  auto bar = s.find('/');
  mpz_class n, d = 1;
  if (n.set_str(s.substr(0, bar), 10)) return false;
  if (bar != std::string::npos && (d.set_str(s.substr(bar + 1), 10) || d == 0)) return false;
  out = mpq_class(n, d);
  out.canonicalize();
  return true;
}
bool integer(const std::string& s, mpz_class& out) { return !s.empty() && s.find_first_not_of("0123456789-") == std::string::npos && out.set_str(s, 10) == 0; }
// Whether text shows the value v with P significant digits
bool shows(const mpq_class& v, const std::string& text, int P) {
  mpq_class x;
  if (v == 0) return parseDecimal(text, x) && x == 0;
  mpq_class a = abs(v);
  static const mpq_class big("1" + std::string(300, '0'));
  // out of the range of doubles
  if (a > big || a * big < 1) return true;
  if (!parseDecimal(text, x)) return false;
  if (P < 1) P = 1;
  mpz_class ten;
  mpz_ui_pow_ui(ten.get_mpz_t(), 10, P - 1);
  mpq_class eps = mpq_class(51, 100) / ten + mpq_class(1, mpz_class(1) << 52);
  return abs(x - v) <= a * eps;
}
mpq_class valueOf(const std::string& key) {
  auto b = truth::eval(key, 120);
  return truth::toMpq(arb_midref(b.t));
}
mpq_class toQ(const Dy& a) {
  mpq_class q(a.m);
  long e = a.e.get_si();
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  return q;
}
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
// The text of a float
bool showsFloat(const Dy& v, const std::string& text, int P) {
  if (v.kind == Dy::PINF) return text == "+" + INF;
  if (v.kind == Dy::NINF) return text == "-" + INF;
  if (v.kind == Dy::NAN_) return text == "NaN";
  if (v.zero()) return text == "0";
  bool modest = abs(v.e) < 20000;
  auto eq = text.find('=');
  std::string dec = text.substr(0, eq);
  if (modest && !shows(toQ(v), dec, P)) return false;
  if (v.e < 0 || eq != std::string::npos) {
    if (eq == std::string::npos) return false;
    auto p = text.find('p', eq);
    mpz_class m, e;
    if (p == std::string::npos || !integer(text.substr(eq + 1, p - eq - 1), m) || !integer(text.substr(p + 1), e)) return false;
    return Dy(m, e) == v;
  }
  return true;
}
// Split at depth zero
std::vector<std::string> split(const std::string& s, const std::string& at) {
  std::vector<std::string> r{""};
  int depth = 0;
  for (size_t i = 0; i < s.size();) {
    if (depth == 0 && starts(s.substr(i), at)) { r.push_back(""); i += at.size(); continue; }
    if (s[i] == '(' || s[i] == '[') depth++;
    if (s[i] == ')' || s[i] == ']') depth--;
    r.back() += s[i++];
  }
  return r;
}
bool showsAtom(const std::string& key, const std::string& text, int P) {
  if (key[0] == 'q') { mpq_class q, x; return truth::isRational(key, &q) && parseRational(text, x) && x == q; }
  if (!starts(text, R_ + "(")) return false;
  if (key[0] == 'r') {
    if (!ends(text, DOTS + ")")) return false;
    size_t b = R_.size() + 1;
    return shows(valueOf(key), text.substr(b, text.size() - b - DOTS.size() - 1), P);
  }
  if (key[0] == 'c') {
    std::string body = text, approx;
    if (body.back() == ']') {
      auto at = body.rfind("[" + SIM);
      if (at == std::string::npos) return false;
      approx = body.substr(at + 1 + SIM.size(), body.size() - at - 2 - SIM.size());
      body = body.substr(0, at);
    }
    if (body.back() != ')') return false;
    size_t b = R_.size() + 1;
    body = body.substr(b, body.size() - b - 1);
    auto parts = split(body, " + ");
    if (parts.size() != 2) return false;
    auto p = parts[1].rfind('p');
    if (p == std::string::npos) return false;
    // c<mantissa>:<exponent>:<e>:<seed>
    auto c1 = key.find(':'), c2 = key.find(':', c1 + 1), c3 = key.find(':', c2 + 1);
    Dy initial(mpz_class(key.substr(1, c1 - 1)), mpz_class(key.substr(c1 + 1, c2 - c1 - 1)));
    mpz_class k;
    if (!integer(parts[1].substr(p + 1), k) || k + 1 != mpz_class(key.substr(c2 + 1, c3 - c2 - 1))) return false;
    if (!showsFloat(initial, parts[0], P)) return false;
    if (!showsAtom("r" + key.substr(c3 + 1), parts[1].substr(0, p), P)) return false;
    if (!approx.empty() && !shows(valueOf(key), approx, P)) return false;
    if (approx.empty() && !(shows(valueOf(key), parts[0].substr(0, parts[0].find('=')), std::min(P, 15)))) return false;
    return true;
  }
  return false;
}
struct Term {
  truth::Coef c = truth::Coef(mpq_class(1));
  std::vector<std::pair<std::string, long>> factors;
};
bool showsReal(const std::string& key, const std::vector<std::pair<std::string, long>>& factors, int P) {
  auto m = truth::mono(key);
  if (m.size() != factors.size()) return false;
  std::vector<bool> used(factors.size());
  for (auto& a : m) {
    bool found = false;
    for (size_t i = 0; i < factors.size() && !found; i++)
      if (!used[i] && factors[i].second == a.second && showsAtom(a.first, factors[i].first, P)) found = used[i] = true;
    if (!found) return false;
  }
  return true;
}
bool factorsOf(const std::string& text, std::vector<std::pair<std::string, long>>& out) {
  for (auto& f : split(text, "*")) {
    auto pw = split(f, "^");
    if (pw.size() > 2) return false;
    long k = 1;
    if (pw.size() == 2) { mpz_class z; if (!integer(pw[1], z)) return false; k = z.get_si(); }
    out.push_back({pw[0], k});
  }
  return true;
}
bool showsRealText(const std::string& key, const std::string& text, int P) {
  mpq_class q, x;
  if (truth::isRational(key, &q)) return parseRational(text, x) && x == q;
  std::vector<std::pair<std::string, long>> f;
  return factorsOf(text, f) && showsReal(key, f, P);
}
// "(2*x + 1 ~ 3.82)" or a rational
bool parseCoefficient(const std::string& text, int field, truth::Coef& out) {
  mpq_class q;
  if (parseRational(text, q)) { out = truth::Coef(q); return true; }
  if (text.size() < 3 || text[0] != '(' || text.back() != ')') return false;
  std::string body = text.substr(1, text.size() - 2), approx;
  auto t = body.find(" ~ ");
  if (t != std::string::npos) { approx = body.substr(t + 3); body = body.substr(0, t); }
  std::vector<mpq_class> c;
  std::string gen = truth::fields[field].gen;
  // normalize "a - b" to a sum
  std::vector<std::pair<int, std::string>> terms;
  int sign = 1;
  std::string cur;
  for (size_t i = 0; i <= body.size(); i++) {
    char ch = i < body.size() ? body[i] : '+';
    if (ch == ' ') continue;
    if ((ch == '+' || ch == '-') ) {
      if (!cur.empty()) terms.push_back({sign, cur});
      cur.clear();
      sign = ch == '-' ? -1 : 1;
    } else cur += ch;
  }
  for (auto& x : terms) {
    mpq_class k = 1;
    long power = 0;
    auto at = gen.empty() ? std::string::npos : x.second.find(gen);
    std::string num = x.second.substr(0, at);
    if (at != std::string::npos) {
      power = 1;
      std::string rest = x.second.substr(at + gen.size());
      if (!rest.empty()) { if (rest[0] != '^') return false; power = std::stol(rest.substr(1)); }
      if (!num.empty() && num.back() == '*') num.pop_back();
    }
    if (!num.empty() && !parseRational(num, k)) return false;
    if (power < 0 || power > 20) return false;
    if ((long)c.size() <= power) c.resize(power + 1);
    c[power] += x.first * k;
  }
  out = truth::Coef(field, c);
  if (!approx.empty()) {
    auto b = truth::eval(out, 100);
    if (arb_is_finite(b.t) && !shows(truth::toMpq(arb_midref(b.t)), approx, 5)) return false;
  }
  return true;
}
bool showsElement(const truth::Elem& e, const std::string& text, int P, int field) {
  if (e.t.empty()) return text == "0";
  // terms with their signs
  std::vector<Term> terms;
  std::string rest = text;
  std::vector<std::pair<int, std::string>> parts;
  int depth = 0, sign = 1;
  std::string cur;
  for (size_t i = 0; i < rest.size();) {
    if (depth == 0 && i == 0 && rest[0] == '-') { sign = -1; i++; continue; }
    if (depth == 0 && (rest.compare(i, 3, " + ") == 0 || rest.compare(i, 3, " - ") == 0)) {
      parts.push_back({sign, cur});
      cur.clear();
      sign = rest[i + 1] == '-' ? -1 : 1;
      i += 3;
      continue;
    }
    if (rest[i] == '(' || rest[i] == '[') depth++;
    if (rest[i] == ')' || rest[i] == ']') depth--;
    cur += rest[i++];
  }
  parts.push_back({sign, cur});
  for (auto& p : parts) {
    Term t;
    std::vector<std::pair<std::string, long>> f;
    if (!factorsOf(p.second, f)) return false;
    for (auto& x : f) {
      truth::Coef c;
      if (!starts(x.first, R_) && x.second == 1 && parseCoefficient(x.first, field, c)) t.c = truth::mul(t.c, c);
      else t.factors.push_back(x);
    }
    if (p.first < 0) t.c = truth::neg(t.c);
    terms.push_back(t);
  }
  if (terms.size() != e.t.size()) return false;
  std::vector<bool> used(terms.size());
  for (auto& x : e.t) {
    bool found = false;
    for (size_t i = 0; i < terms.size() && !found; i++) {
      if (used[i] || terms[i].c != x.second) continue;
      if (x.first == "1" ? terms[i].factors.empty() : showsReal(x.first, terms[i].factors, P)) found = used[i] = true;
    }
    if (!found) return false;
  }
  return true;
}

// ------------------------------------------------------------------ printing
const int PRECISIONS[] = {6, 6, 6, 10, 17, 25, 8};

// Print x; the text if the stream is fine afterwards
template <typename T> std::string print(World& w, const T& x, int P, Disk disk, bool throwing, bool* good, Out* outcome) {
  std::string text;
  *outcome = w.call([&] {
    Sink sink(disk);
    std::ostream os(&sink);
    os.imbue(std::locale::classic());
    os.precision(P);
    if (throwing) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    struct Keep {
      Sink& s; std::ostream& o; std::string& t; bool* g;
      ~Keep() { heap::Quiet q; t = s.data; *g = o.good(); if (s.fired) count("disk.stream-failed"); }
    } keep{sink, os, text, good};
    os << x;
  });
  return text;
}
// Print completely, then to a failing stream, then again.  Returns the text.
template <typename T> std::string exercise(World& w, const T& x, int P, size_t firstArg) {
  bool good = false;
  Out o;
  std::string text = print(w, x, P, Disk{}, false, &good, &o);
  if (o != Out::OK) fail(w, "C13", "rejected", "printing failed: " + w.what);
  if (!good) {
    // only if memory ran out while printing
    if (!(w.op->allocFault > 0)) fail(w, "C13", "stream-state", "the stream is not good after printing " + text);
    count("probe.print-incomplete");
    text = print(w, x, P, Disk{}, false, &good, &o);
  }
  int mode = (int)((uint64_t)w.arg(firstArg) % 6);
  if (mode) {
    Disk d;
    d.mode = mode == 1 || mode == 2 ? 2 : 3;
    d.at = text.empty() ? 0 : (int64_t)((uint64_t)w.arg(firstArg + 1) % text.size());
    bool throwing = mode == 2 || mode >= 4;
    std::string part = print(w, x, P, d, throwing, &good, &o);
    if (w.op->allocFault == 0 || !w.faulted) {
      if (text.compare(0, part.size(), part) != 0) fail(w, "C13", "prefix", "a failing stream got " + part + " of " + text);
      if (!throwing && o != Out::OK) fail(w, "C13", "wrong-error", "printing to a stream which does not throw threw: " + w.what);
      if (throwing && o == Out::OK) fail(w, "C13", "no-error", "printing to a stream which throws did not throw");
      if (good && !text.empty()) fail(w, "C13", "stream-state", "the error of the stream was swallowed");
    }
    count("probe.print-to-failing-stream");
    std::string again = print(w, x, P, Disk{}, false, &good, &o);
    if (good && again != text) fail(w, "C13", "changed-text", "printed " + text + " before and " + again + " after a stream failed");
  }
  return text;
}
int precision(World& w, size_t i) { return PRECISIONS[(uint64_t)w.arg(i) % 7]; }
}  // namespace

OP(pr, "p.r") {
  RSlot& s = w.r(0);
  if (!s.p) return;
  int P = precision(w, 1);
  std::string text = exercise(w, *s.p, P, 2);
  if (!showsRealText(s.key, text, P)) fail(w, "C13", "text", s.key + " is printed as " + text);
  w.remember("C13", "text of " + s.key + " with " + to_s(P) + " digits", text);
  count("probe.printed-real");
}
OP(pf, "p.f") {
  FSlot& s = w.f(0);
  if (!s.v) return;
  int P = precision(w, 1);
  std::string text = exercise(w, *s.v, P, 2);
  if (!showsFloat(s.m, text, P)) fail(w, "C13", "text", s.m.str() + " is printed as " + text);
  w.remember("C13", "text of float " + s.m.str() + " with " + to_s(P) + " digits", text);
  count("probe.printed-float");
}
OP(pb, "p.b") {
  BSlot& s = w.b(0);
  if (!s.v) return;
  int P = precision(w, 1);
  std::string text = exercise(w, *s.v, P, 2);
  w.remember("C13", "text of ball " + truth::str(s.m.t) + " with " + to_s(P) + " digits", text);
  if (!arb_is_finite(s.m.t) || arf_cmpabs_2exp_si(arb_midref(s.m.t), 3000) > 0 || mag_cmp_2exp_si(arb_radref(s.m.t), 3000) > 0) return;
  if (!arf_is_zero(arb_midref(s.m.t)) && arf_cmpabs_2exp_si(arb_midref(s.m.t), -3000) < 0) return;
  if (!mag_is_zero(arb_radref(s.m.t)) && mag_cmp_2exp_si(arb_radref(s.m.t), -3000) < 0) return;
  mpq_class mid = truth::toMpq(arb_midref(s.m.t)), rad;
  arf_t r;
  arf_init(r);
  arf_set_mag(r, arb_radref(s.m.t));
  rad = truth::toMpq(r);
  arf_clear(r);
  mpq_class m = 0, e = 0;
  bool ok = true;
  if (!text.empty() && text[0] == '[') {
    auto pm = text.find("+/- ");
    ok = pm != std::string::npos && text.back() == ']';
    if (ok) {
      std::string a = text.substr(1, pm - 1), b = text.substr(pm + 4, text.size() - pm - 5);
      while (!a.empty() && a.back() == ' ') a.pop_back();
      ok = (a.empty() || parseDecimal(a, m)) && parseDecimal(b, e);
    }
  } else ok = parseDecimal(text, m);
  if (ok) ok = mid - rad >= m - e && mid + rad <= m + e;
  // and not much worse than what was asked for
  if (ok) {
    mpz_class ten;
    mpz_ui_pow_ui(ten.get_mpz_t(), 10, P);
    ok = e <= 3 * rad + abs(mid) * 100 / ten;
  }
  if (!ok) fail(w, "C13 C12", "text", "the interval " + truth::str(s.m.t) + " is printed as " + text);
  count("probe.printed-ball");
}
namespace {
template <typename Ring> void printElement(World& w) {
  auto& s = w.ring<Ring>().E[w.slot(0, NE)];
  if (!s.v || s.m.t.size() > 40) return;   // takes too long to print under a fault-injecting allocator
  int P = precision(w, 1);
  std::string text = exercise(w, *s.v, P, 2);
  int field = 0;
  if constexpr (std::is_same_v<Ring, NumberField>) field = std::max(0, fieldOf(w, s.mod->ring()));
  if (!showsElement(s.m, text, P, field)) fail(w, "C13", "text", "the element " + s.m.str() + " is printed as " + text);
  // (7 is written as -7*-1 if the generator is -1)
  std::string unit;
  for (size_t i = 0; i < s.keys.size(); i++)
    if (truth::isRational(s.keys[i]) && s.keys[i] != "1" && !s.coeffs[i].zero()) unit = " with " + s.keys[i];
  w.remember("C13", "text of element " + s.m.str() + unit + " over " + ringName(w, s.mod->ring()) + " with " + to_s(P) + " digits", text);
  count("probe.printed-element");
}
template <typename Ring> void printModule(World& w) {
  auto& s = w.ring<Ring>().M[w.slot(0, NM)];
  if (!s.p) return;
  int P = precision(w, 1);
  // (The generators are printed with the precision and the digits of the global locale.)
  if (std::locale() != std::locale::classic()) return;
  std::string text = exercise(w, *s.p, P, 2);
  const char* name = std::is_same_v<Ring, IntegerRing> ? "ℤ" : std::is_same_v<Ring, RationalField> ? "ℚ" : "K";
  std::string head = std::string(name) + "-Module(";
  bool ok = starts(text, head) && text.back() == ')';
  if (ok) {
    std::string body = text.substr(head.size(), text.size() - head.size() - 1);
    auto parts = split(body, ", ");
    if (body.empty()) parts.clear();
    ok = parts.size() == s.keys.size();
    // (generators are printed with the default precision)
    for (size_t i = 0; ok && i < parts.size(); i++) ok = showsRealText(s.keys[i], parts[i], 6);
  }
  if (!ok) fail(w, "C13", "text", "a module with " + to_s(s.keys.size()) + " generators is printed as " + text);
  count("probe.printed-module");
}
}  // namespace
OP(zpe, "z.pe") { printElement<IntegerRing>(w); }
OP(qpe, "q.pe") { printElement<RationalField>(w); }
OP(kpe, "k.pe") { printElement<NumberField>(w); }
OP(zpm, "z.pm") { printModule<IntegerRing>(w); }
OP(qpm, "q.pm") { printModule<RationalField>(w); }
OP(kpm, "k.pm") { printModule<NumberField>(w); }
