// The helpers for bindings: intervals and floats through exactreal::cppyy.
#include <exact-real/cppyy.hpp>

#include "world.hpp"

using namespace sim;
using truth::Dy;
namespace helper = exactreal::cppyy;

namespace {
// Numbers whose exact results are of a reasonable size
bool modestArf(const arf_t x) {
  auto d = truth::dyOf(x);
  return d.kind == Dy::FIN && (d.zero() || (abs(d.e) < 6000 && mpz_sizeinbase(d.m.get_mpz_t(), 2) < 12000));
}
bool modest(const BSlot& s) {
  if (!s.v || !arb_is_finite(s.m.t) || !modestArf(arb_midref(s.m.t))) return false;
  truth::Float r;
  arf_set_mag(r.t, arb_radref(s.m.t));
  return modestArf(r.t);
}
bool modest(const FSlot& s) { return s.v && modestArf(s.v->arf_t()); }
const char* shapes[] = {"add(a, b)", "sub(a, b)", "mul(a, b)", "truediv(a, b)", "neg(add(a, b))", "add(mul(a, b), c)", "sub(neg(mul(a, b)), c)", "mul(sub(a, b), truediv(b, c))"};
constexpr int SHAPES = 8;
bool divides(int shape) { return shape == 3 || shape == 7; }
}  // namespace

// h.arb d a b c shape prec
OP(harb, "h.arb") {
  BSlot &d = w.b(0), &a = w.b(1), &b = w.b(2), &c = w.b(3);
  if (!modest(a) || !modest(b) || !modest(c)) return;
  const int shape = (int)((uint64_t)w.arg(4) % SHAPES);
  exactreal::prec p = w.arg(5) < 0 && !divides(shape) ? ARF_PREC_EXACT : 2 + (exactreal::prec)((uint64_t)w.arg(5) % 3000);
  const Arb &A = *a.v, &B = *b.v, &C = *c.v;
  std::optional<Arb> got, want;
  Out o = w.call([&] {
    switch (shape) {
      case 0: got.emplace(helper::eval(helper::add(A, B), p)); want.emplace((A + B)(p)); break;
      case 1: got.emplace(helper::eval(helper::sub(A, B), p)); want.emplace((A - B)(p)); break;
      case 2: got.emplace(helper::eval(helper::mul(A, B), p)); want.emplace((A * B)(p)); break;
      case 3: got.emplace(helper::eval(helper::truediv(A, B), p)); want.emplace((A / B)(p)); break;
      case 4: got.emplace(helper::eval(helper::neg(helper::add(A, B)), p)); want.emplace((-(A + B))(p)); break;
      case 5: got.emplace(helper::eval(helper::add(helper::mul(A, B), C), p)); want.emplace((A * B + C)(p)); break;
      case 6: got.emplace(helper::eval(helper::sub(helper::neg(helper::mul(A, B)), C), p)); want.emplace((-(A * B) - C)(p)); break;
      default: got.emplace(helper::eval(helper::mul(helper::sub(A, B), helper::truediv(B, C)), p)); want.emplace(((A - B) * (B / C))(p)); break;
    }
  });
  std::string text = std::string(shapes[shape]) + " of " + truth::str(a.m.t) + ", " + truth::str(b.m.t) + ", " + truth::str(c.m.t) + " with " + to_s(p) + " bits";
  if (o != Out::OK) fail(w, "C21", "rejected", text + ": " + w.what);
  if (!arb_equal(got->arb_t(), want->arb_t())) fail(w, "C21", "interval", text + " is " + truth::str(got->arb_t()) + " but the operators say " + truth::str(want->arb_t()));
  count("probe.helper-interval");
  setBall(w, d, *got);
  Loud l;
  got.reset();
  want.reset();
}
// h.arf d a b c shape prec rnd
OP(harf, "h.arf") {
  FSlot &d = w.f(0), &a = w.f(1), &b = w.f(2), &c = w.f(3);
  if (!modest(a) || !modest(b) || !modest(c)) return;
  const int shape = (int)((uint64_t)w.arg(4) % SHAPES);
  exactreal::prec p = w.arg(5) < 0 && !divides(shape) ? ARF_PREC_EXACT : 2 + (exactreal::prec)((uint64_t)w.arg(5) % 3000);
  static const Arf::Round rounds[] = {Arf::Round::NEAR, Arf::Round::DOWN, Arf::Round::UP, Arf::Round::FLOOR, Arf::Round::CEIL};
  const Arf::Round r = rounds[(uint64_t)w.arg(6) % 5];
  const Arf &A = *a.v, &B = *b.v, &C = *c.v;
  std::optional<Arf> got, want;
  Out o = w.call([&] {
    switch (shape) {
      case 0: got.emplace(helper::eval(helper::add(A, B), p, r)); want.emplace((A + B)(p, r)); break;
      case 1: got.emplace(helper::eval(helper::sub(A, B), p, r)); want.emplace((A - B)(p, r)); break;
      case 2: got.emplace(helper::eval(helper::mul(A, B), p, r)); want.emplace((A * B)(p, r)); break;
      case 3: got.emplace(helper::eval(helper::truediv(A, B), p, r)); want.emplace((A / B)(p, r)); break;
      case 4: got.emplace(helper::eval(helper::neg(helper::add(A, B)), p, r)); want.emplace((-(A + B))(p, r)); break;
      case 5: got.emplace(helper::eval(helper::add(helper::mul(A, B), C), p, r)); want.emplace((A * B + C)(p, r)); break;
      case 6: got.emplace(helper::eval(helper::sub(helper::neg(helper::mul(A, B)), C), p, r)); want.emplace((-(A * B) - C)(p, r)); break;
      default: got.emplace(helper::eval(helper::mul(helper::sub(A, B), helper::truediv(B, C)), p, r)); want.emplace(((A - B) * (B / C))(p, r)); break;
    }
  });
  auto dy = [](const Arf& x) { return truth::dyOf(x.arf_t()).str(); };
  std::string text = std::string(shapes[shape]) + " of " + dy(A) + ", " + dy(B) + ", " + dy(C) + " with " + to_s(p) + " bits";
  if (o != Out::OK) fail(w, "C21", "rejected", text + ": " + w.what);
  if (!arf_equal(got->arf_t(), want->arf_t())) fail(w, "C21", "float", text + " is " + dy(*got) + " but the operators say " + dy(*want));
  count("probe.helper-float");
  { Loud l; want.reset(); }
  auto m = truth::dyOf(got->arf_t());
  setFloat(w, "C21", d, *got, m);
  Loud l;
  got.reset();
}
