// Stand-in for the "gmpxxll" submodule (empty in this checkout): an mpz_class
// that can be made from (and turned into) long long.
#ifndef VERIF_SHIM_GMPXXLL_HPP
#define VERIF_SHIM_GMPXXLL_HPP
#include <gmpxx.h>
#include <string>
namespace gmpxxll {
class mpz_class : public ::mpz_class {
 public:
  using ::mpz_class::mpz_class;
  mpz_class() {}
  mpz_class(const ::mpz_class& x) : ::mpz_class(x) {}
  mpz_class(long long x) : ::mpz_class(std::to_string(x)) {}
  mpz_class(unsigned long long x) : ::mpz_class(std::to_string(x)) {}
};
}  // namespace gmpxxll
#endif
