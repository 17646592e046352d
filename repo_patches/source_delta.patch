From b6c60524e996ad9f6be4cebdbda21a876f530a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 01/34] fix: hand out default seeds atomically

---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..359c690 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -18,10 +18,12 @@
  *  along with exact-real. If not, see <https://www.gnu.org/licenses/>.
  *********************************************************************/
 
+#include <atomic>
+
 #include "../exact-real/seed.hpp"
 
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed = 1337;
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From 0be0dbebee49e10cbc485bb7420b8fbc465b3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 02/34] fix: comparison of an Arb with a rational for
 inequality

---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..06b4d2b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From 9ab3229074e31335dd217de74c151c439d4087ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 03/34] fix: floor of negative rationals

---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..862b60c 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class floor;
+  mpz_fdiv_q(floor.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return floor;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From d6e4e3e3061e1c7cc1febcc294f3ad2b01a4e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 04/34] fix: leave elements unchanged when scaling them by a
 scalar fails

---
 libexactreal/src/element.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..944da13 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -66,16 +66,22 @@ class ElementImplementation {
 
   template <typename T>
   ElementImplementation& operator*=(const T& rhs) {
-    for (auto& c : coefficients)
+    // Work on a copy so that nothing changes if a multiplication throws.
+    auto result = coefficients;
+    for (auto& c : result)
       Ring::imul(c, rhs);
+    coefficients = std::move(result);
 
     return *this;
   }
 
   template <typename T>
   ElementImplementation& operator/=(const T& rhs) {
-    for (auto& c : coefficients)
+    // Work on a copy so that nothing changes if a division throws.
+    auto result = coefficients;
+    for (auto& c : result)
       Ring::idiv(c, rhs);
+    coefficients = std::move(result);
 
     return *this;
   }
-- 
2.43.0


From 427515c7c83366314d9e8203cb36d99faf1e2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/34] fix: do not leave a product of elements half assigned
 when memory runs out

---
 libexactreal/src/element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 944da13..b7c3be2 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -265,7 +265,7 @@ Element<Ring>& Element<Ring>::operator*=(const Element<Ring>& rhs) {
   }
 
   this->impl->parent = Module<Ring>::make(basis, this->impl->parent->ring());
-  this->impl->coefficients = coefficients;
+  this->impl->coefficients = std::move(coefficients);
 
   LIBEXACTREAL_ASSERT(this->impl->parent->basis() == basis, "order of generators in module is not deglex which is the assumption by Element::operator/=");
 
-- 
2.43.0


From de8f2325ff333cb1d7a7a6b3d3cef65cca1685c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 06/34] fix: balls around real numbers must contain these
 numbers

The midpoint was only approximated to the same precision as the radius of
the ball so frequently, e.g., for 1/3, the number was not in the ball.
---
 libexactreal/exact-real/real_number.hpp |  8 ++++----
 libexactreal/src/real_number.cc         | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..f1dafe0 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.335938 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333220395607033 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.328125 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333333 +/- 1.93e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..304cb48 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -35,6 +35,22 @@ namespace exactreal {
 
 const long ARF_DOUBLE_PRECISION = 54;
 
+namespace {
+
+// Return a ball with prec bits of relative accuracy that contains x.
+Arb enclosure(const RealNumber& x, const long prec) {
+  // The relative error of the midpoint must be smaller than the relative
+  // radius of the ball, so we need a few more bits here.
+  const Arf midpoint = x.arf(prec + 3);
+
+  Arb ball(midpoint);
+  arb_add_error_2exp_si(ball.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+
+  return ball;
+}
+
+}  // namespace
+
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
@@ -68,9 +84,7 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  Arf midpoint = arf(prec);
-  arb_set_arf(arb.arb_t(), midpoint.arf_t());
-  arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  arb = enclosure(*this, prec);
 
   assert(this->cmp(arb) == 0);
   assert(!*this || arb_rel_accuracy_bits(arb.arb_t()) >= prec);
-- 
2.43.0


From b08a05275a0ba39aaa93ef967146d0df022338b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 07/34] fix: exact comparison of real numbers with balls

---
 libexactreal/src/real_number.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 304cb48..3bebf3c 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -28,7 +28,6 @@
 #include "../exact-real/yap/arf.hpp"
 #include "impl/real_number_base.hpp"
 
-using std::max;
 using std::ostream;
 
 namespace exactreal {
@@ -63,13 +62,13 @@ RealNumber::operator bool() const {
 }
 
 int RealNumber::cmp(const Arb& arb) const {
-  auto interval = static_cast<std::pair<Arf, Arf>>(arb);
-  auto a = interval.first, b = interval.second;
+  // The exact end points of the ball.
+  Arf a, b;
+  arb_get_interval_arf(a.arf_t(), b.arf_t(), arb.arb_t(), ARF_PREC_EXACT);
 
-  auto approx = arf(max(arf_bits(a.arf_t()), arf_bits(b.arf_t())) + 1);
-  if (approx < a) {
+  if (*this < a) {
     return -1;
-  } else if (approx > b) {
+  } else if (*this > b) {
     return 1;
   } else {
     return 0;
@@ -147,11 +146,9 @@ bool RealNumber::operator<(const Arf& rhs) const {
   if (this->operator==(rhs)) {
     return false;
   }
-  Arb self = Arb::zero_pm_inf();
   Arb other = Arb(rhs);
   for (long prec = 2;; prec *= 2) {
-    refine(self, prec);
-    auto lt = self < other;
+    auto lt = enclosure(*this, prec) < other;
     if (lt.has_value()) {
       return *lt;
     }
-- 
2.43.0


From 1a395fb8a8e8eb662fe7a3f671fe7f9fb418a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 08/34] fix: convert real numbers to the closest double

---
 libexactreal/src/real_number.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 3bebf3c..8863eae 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -53,7 +53,21 @@ Arb enclosure(const RealNumber& x, const long prec) {
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  const auto rational = static_cast<std::optional<mpq_class>>(*this);
+
+  // Shrink the ball around this number until all its points are closest to
+  // the same double.
+  for (long prec = ARB_PRECISION_FAST - 3;; prec *= 2) {
+    const Arb ball = rational ? Arb(*rational, prec) : enclosure(*this, prec);
+
+    Arf a, b;
+    arb_get_interval_arf(a.arf_t(), b.arf_t(), ball.arb_t(), ARF_PREC_EXACT);
+
+    const double lower = static_cast<double>(a);
+    const double upper = static_cast<double>(b);
+    if (lower == upper)
+      return lower;
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From eb18ae5d422e6169686dd771d593a1c7e9bbd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 09/34] fix: do not leak serialized balls and floats when the
 stream throws

---
 libexactreal/exact-real/cereal.hpp | 11 +++++------
 libexactreal/src/arb.cc            |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..349af73 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -27,6 +27,7 @@
 #include <cereal/types/vector.hpp>
 #include <cereal/types/map.hpp>
 #include <e-antic/cereal.hpp>
+#include <memory>
 
 #include "arb.hpp"
 #include "arf.hpp"
@@ -146,11 +147,10 @@ struct Decerealizer : public IDecerealizer {
 
 template <typename Archive>
 void save(Archive& archive, const Arb& self) {
-  char* serialized = arb_dump_str(self.arb_t());
+  const std::unique_ptr<char, decltype(&flint_free)> serialized(arb_dump_str(self.arb_t()), &flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
@@ -166,11 +166,10 @@ void load(Archive& archive, Arb& self) {
 
 template <typename Archive>
 void save(Archive& archive, const Arf& self) {
-  char* serialized = arf_dump_str(self.arf_t());
+  const std::unique_ptr<char, decltype(&flint_free)> serialized(arf_dump_str(self.arf_t()), &flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 06b4d2b..7f836cb 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <memory>
 #include <ostream>
 
 #include "../exact-real/arf.hpp"
@@ -337,10 +338,8 @@ ostream& operator<<(ostream& os, const Arb& self) {
   // Note that the radius is also printed with respect to os.precision() which
   // means that the radius might be shortened, e.g., [0.5 +/- 1.08e-78] might
   // print as [0.5 +/- 1e-10].
-  char* s = arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE);
-  os << s;
-  flint_free(s);
-  return os;
+  const std::unique_ptr<char, decltype(&flint_free)> s(arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE), &flint_free);
+  return os << s.get();
 }
 
 template Arb::Arb(short);
-- 
2.43.0


From 04d551ee91bf854674491ebc78ec5a259faec5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 10/34] fix: restore elements from archives written by another
 process

Generators of a module are sorted by the order in which they were created in
the current process so coefficients must be permuted when loading.
---
 libexactreal/exact-real/cereal.hpp | 72 +++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 349af73..844bea7 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -26,6 +26,7 @@
 #include <cereal/types/memory.hpp>
 #include <cereal/types/vector.hpp>
 #include <cereal/types/map.hpp>
+#include <algorithm>
 #include <e-antic/cereal.hpp>
 #include <memory>
 
@@ -193,19 +194,56 @@ void save(Archive& archive, const Element<Ring>& self) {
   archive(cereal::make_nvp("coefficients", coefficients));
 }
 
+// A module that has been restored from an archive together with its generators
+// in the order in which they were archived. The order of the generators in the
+// restored module might be different since generators are sorted by the order
+// in which they were created in the current process.
+template <typename Ring>
+struct ArchivedModule {
+  std::shared_ptr<const Module<Ring>> module;
+  typename Module<Ring>::Basis basis;
+};
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, ArchivedModule<Ring>& self) {
+  // cereal insists on creating a new instance of T when deserializing a
+  // shared_ptr<T>. However this is not compatible with our uniqueness of
+  // modules (if the module already exists, we do not create a new one but just
+  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
+  // deduplication logic for a compact output format but do not rely on its
+  // deserialization for Module<Ring>.
+  uint32_t id;
+  archive(cereal::make_nvp("shared", id));
+
+  if (id & cereal::detail::msb_32bit) {
+    archive(cereal::make_nvp("basis", self.basis));
+    Ring ring;
+    archive(cereal::make_nvp("ring", ring));
+    self.module = Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::make_shared<ArchivedModule<Ring>>(self)));
+  } else {
+    self = *std::static_pointer_cast<ArchivedModule<Ring>>(archive.getSharedPointer(id));
+  }
+}
+
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  ArchivedModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
-  std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  if (coefficients.size() != parent.basis.size())
+    throw std::logic_error("malformed archive, number of coefficients does not match the number of generators");
 
-  self = Element<Ring>(module, coeffs);
+  // The coefficients are in the order of the archived generators.
+  const auto& basis = parent.module->basis();
+  std::vector<typename Ring::ElementClass> coeffs(basis.size());
+  for (size_t i = 0; i < coefficients.size(); i++)
+    coeffs.at(std::find(begin(basis), end(basis), parent.basis[i]) - begin(basis)) = coefficients[i];
+
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -296,25 +334,9 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
-  // cereal insists on creating a new instance of T when deserializing a
-  // shared_ptr<T>. However this is not compatible with our uniqueness of
-  // modules (if the module already exists, we do not create a new one but just
-  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
-  // deduplication logic for a compact output format but do not rely on its
-  // deserialization for Module<Ring>.
-  uint32_t id;
-  archive(cereal::make_nvp("shared", id));
-
-  if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
-    Ring ring;
-    archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
-  } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
-  }
+  exactreal::ArchivedModule<Ring> archived;
+  exactreal::load(archive, archived);
+  self = archived.module;
 }
 }  // namespace cereal
 
-- 
2.43.0


From 4ad078197a3e987407b77a163093120b23900cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 11/34] fix: random numbers in an interval must not duplicate
 random numbers in [0, 1]

---
 libexactreal/src/constrained_random_real_number.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..ab04f2f 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -191,6 +191,11 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     Arf initial = Arf(mantissa, e);
     auto inner = RealNumber::random(seed);
 
+    // Real numbers are unique so we must not create another number for the
+    // value 0 + inner·2^0.
+    if (initial == 0 && e == 1)
+      return inner;
+
     return factory().get(std::tuple{initial, e, inner}, [&]() {
       return new ConstrainedRandomRealNumber(initial, e, inner);
     });
-- 
2.43.0


From 82b81d47b219c9c51195e6272f7e0108e3682d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 12/34] fix: reject floor division by zero instead of looping
 forever

---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index b7c3be2..78bdf88 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -472,6 +472,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From cc85a8a43d716e2f8e6b274d1afb034e6fdc9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 13/34] fix: do not drop digits of a random number when out of
 memory

---
 libexactreal/src/random_real_number.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libexactreal/src/random_real_number.cc b/libexactreal/src/random_real_number.cc
index 09c7e09..bacb6b2 100644
--- a/libexactreal/src/random_real_number.cc
+++ b/libexactreal/src/random_real_number.cc
@@ -29,7 +29,7 @@
 
 #include <boost/random/linear_congruential.hpp>
 #include <boost/random/uniform_int_distribution.hpp>
-#include <sstream>
+#include <string>
 
 #include "../exact-real/arb.hpp"
 #include "../exact-real/arf.hpp"
@@ -46,7 +46,6 @@ using std::optional;
 using std::ostream;
 using std::shared_ptr;
 using std::string;
-using std::stringstream;
 
 namespace {
 
@@ -76,7 +75,9 @@ class RandomRealNumber final : public RealNumberBase {
     boost::random::uniform_int_distribution<size_t> index_dist(0, chars.size() - 1);
 
     long exp = 0;
-    stringstream os;
+    // Note that a stringstream would swallow an allocation failure here and
+    // silently drop digits.
+    string mantissa;
     // With d binary digits, we get a relative error at most 2^(1-d). Since we
     // want it to be at most 2^-prec, we need prec + 1 digits.
     for (long digits = 0; digits < prec + 1; digits++, exp--) {
@@ -85,10 +86,10 @@ class RandomRealNumber final : public RealNumberBase {
         digits--;
         continue;
       }
-      os << c;
+      mantissa.push_back(c);
     }
 
-    return Arf(os.str(), 2, exp);
+    return Arf(mantissa, 2, exp);
   }
 
   operator std::optional<mpq_class>() const override {
-- 
2.43.0


From e39236cd8ad2947a8dee06c2bedc7fbd093c922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 14/34] fix: do not loop or crash in Element::arb() for a
 precision below two bits

---
 libexactreal/src/element.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78bdf88..01e8a84 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -29,6 +29,7 @@
 #endif
 #include <e-antic/renfxx.h>
 
+#include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
 #include <cmath>
@@ -198,7 +199,9 @@ Arb Element<Ring>::arb(long accuracy) const {
     return Arb();
 
   using std::ceil;
-  long prec = accuracy + numeric_cast<long>(ceil(log2(numeric_cast<double>(impl->parent->rank()))));
+  // Note that arithmetic with balls and number field elements needs a
+  // precision of at least two bits.
+  long prec = std::max(2l, accuracy + numeric_cast<long>(ceil(log2(numeric_cast<double>(impl->parent->rank())))));
 
   while (true) {
     Arb ret;
-- 
2.43.0


From e8f80ae23049af96881b115df3643cd5d9589480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 15/34] fix: reject the division of the rational real number
 zero by zero

---
 libexactreal/src/real_number.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 8863eae..a207543 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -110,10 +110,13 @@ Arb RealNumber::arb(long prec) const {
 }
 
 std::optional<std::shared_ptr<const RealNumber>> RealNumber::operator/(const RealNumber& rhs) const {
+  auto rational = static_cast<std::optional<mpq_class>>(rhs);
+  if (rational && *rational == 0)
+    throw std::logic_error("division by zero");
+
   if (*this == rhs)
     return RealNumber::rational(1);
 
-  auto rational = static_cast<std::optional<mpq_class>>(rhs);
   if (rational) {
     if (*rational == 1)
       return this->shared_from_this();
-- 
2.43.0


From bd66769a16c713b538cda929f8b1e2bf96e5d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 16/34] fix: do not truncate floating point operands in
 expressions of Arb

Assigning a double to an Arb went through the implicit conversion to mpz_class,
so (x * 0.5)(64) was zero; an Arf operand did not compile.
---
 libexactreal/exact-real/arb.hpp |  2 ++
 libexactreal/src/arb.cc         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 9eafa98..9d85097 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -270,6 +270,8 @@ class LIBEXACTREAL_API Arb
   template <typename Integer, typename = std::enable_if_t<std::is_integral_v<Integer>>>
   Arb& operator=(Integer) noexcept;
   Arb& operator=(const mpz_class&) noexcept;
+  Arb& operator=(double) noexcept;
+  Arb& operator=(const Arf&) noexcept;
   ///@}
 
   /// Return the negative of this element.
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 7f836cb..bb420e1 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -313,6 +313,17 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
   return *this;
 }
 
+Arb& Arb::operator=(double rhs) noexcept {
+  // Without this, a double would be converted to an mpz_class, i.e., be truncated.
+  arb_set_d(arb_t(), rhs);
+  return *this;
+}
+
+Arb& Arb::operator=(const Arf& rhs) noexcept {
+  arb_set_arf(arb_t(), rhs.arf_t());
+  return *this;
+}
+
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
   arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
-- 
2.43.0


From 5a0c229596a0ed4470924784838d799ffba0d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 17/34] fix: end points of wide balls

arb_rel_accuracy_bits is not a valid precision for balls which do not determine
a single bit, arb_get_interval_arf crashed.
---
 libexactreal/src/arb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index bb420e1..23443d6 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -326,7 +326,9 @@ Arb& Arb::operator=(const Arf& rhs) noexcept {
 
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
-  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
+  // The relative accuracy is zero or negative for wide balls but
+  // arb_get_interval_arf needs a positive precision; the radius has MAG_BITS bits.
+  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<slong>(arb_rel_accuracy_bits(arb_t()), MAG_BITS));
   return ret;
 }
 
-- 
2.43.0


From 7f70987e5c5a1faa65f9583266093ca13c3cc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 18/34] fix: print random numbers in an interval with the right
 exponent
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The number is initial + inner·2^(e - 1) but it was printed as initial + inner·2^e.
---
 libexactreal/src/constrained_random_real_number.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index ab04f2f..7f10e8e 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -103,7 +103,7 @@ class ConstrainedRandomRealNumber final : public RealNumberBase {
   }
 
   RealNumber const& operator>>(ostream& out) const override {
-    out << "ℝ(" << initial << " + " << *inner << "p" << e << ")";
+    out << "ℝ(" << initial << " + " << *inner << "p" << (e - 1) << ")";
     if (lexical_cast<string>(static_cast<double>(initial)).compare(lexical_cast<string>(static_cast<double>(*this)))) {
       out << "[∼" << static_cast<double>(*this) << "]";
     }
-- 
2.43.0


From f81cfbfa4f62812043edb10314fc084ae1af44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 19/34] fix: do not leak the square of a real number when out
 of memory

---
 libexactreal/src/real_number_product.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 2d4953a..cf64625 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -354,9 +354,9 @@ class Key {
 
             return new RealNumberProduct{base.monomials, std::move(exponents), hash};
           } else {
-            RealNumberProduct* product = new RealNumberProduct{{data.lhs->shared_from_this()}, {2}, RealNumberBase::id(*data.lhs) * RealNumberBase::id(*data.lhs)};
+            std::unique_ptr<RealNumberProduct> product(new RealNumberProduct{{data.lhs->shared_from_this()}, {2}, RealNumberBase::id(*data.lhs) * RealNumberBase::id(*data.lhs)});
             this->data = MonomialsExponents{{RealNumberBase::id(*data.lhs)}, {2}, product->hash};
-            return product;
+            return product.release();
           }
         } else {
           if (typeid(*data.lhs) == typeid(const RealNumberProduct&)) {
-- 
2.43.0


From 963558bbafb6617eb4914d10724df7c82b170b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 20/34] fix: approximations of real numbers that are shared
 between threads

Threads which construct equal real numbers share one object. The approximations
cached in it were written without synchronisation, so threads computing with
real numbers of their own disturbed each other.
---
 libexactreal/src/impl/real_number_base.hpp | 3 +++
 libexactreal/src/real_number.cc            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libexactreal/src/impl/real_number_base.hpp b/libexactreal/src/impl/real_number_base.hpp
index 1ff357b..a4b6481 100644
--- a/libexactreal/src/impl/real_number_base.hpp
+++ b/libexactreal/src/impl/real_number_base.hpp
@@ -21,6 +21,7 @@
 #ifndef LIBEXACTREAL_REAL_NUMBER_BASE_HPP
 #define LIBEXACTREAL_REAL_NUMBER_BASE_HPP
 
+#include <mutex>
 #include <unordered_map>
 #include <vector>
 
@@ -47,6 +48,8 @@ class RealNumberBase : public RealNumber {
   /// in caches that don't hold a strong reference to a real number.
   const size_t uniqueId;
 
+  /// Guards the approximations that have already been computed.
+  mutable std::mutex cacheMutex;
   mutable std::optional<Arf> arf54;
   mutable std::optional<Arf> arf64;
   mutable std::unordered_map<long, Arf> large;
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index a207543..4be0e4b 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -221,6 +221,9 @@ bool RealNumber::operator==(const mpq_class& rat) const {
 }
 
 Arf RealNumberBase::arf(long prec) const {
+  // Equal real numbers are one object, even if they have been created by different threads.
+  const std::lock_guard<std::mutex> lock(cacheMutex);
+
   if (prec < 1)
     prec = 0;
 
-- 
2.43.0


From 146deca9b72c502c3cd8af97270e9d23b311b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 21/34] fix: one() of modules with a negative rational
 generator

The inverse of the generator was built from its numerator and denominator, so
its denominator was negative and GMP corrupted memory. An integer module
generated by -1 did not find its 1.
---
 libexactreal/src/module.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..0484c64 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -200,13 +200,15 @@ template <typename Ring>
 Element<Ring> Module<Ring>::one() const {
   for (int g = 0; g < rank(); g++) {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
-    if (rational) {
+    if (rational && *rational != 0) {
+      // Note that creating the inverse from numerator and denominator would not be canonical for a negative generator.
+      const mpq_class inverse = 1 / *rational;
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (inverse.get_den() == 1) {
+          return inverse.get_num() * gen(g);
         }
       } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+          return inverse * gen(g);
       }
     }
   }
-- 
2.43.0


From b1944c713e02a7c33801c82b87ec6bc455b8ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 22/34] fix: units of integer modules with a rational generator
 other than 1

The inverse of an element is in the module if it is an integer multiple of the
generator. The coefficient only says so when the generator is 1.
---
 libexactreal/src/element.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 01e8a84..6a0c398 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -539,10 +539,18 @@ bool Element<Ring>::unit() const {
     const auto& c = impl->coefficients[i];
     if (c == 0)
       continue;
-    if (!static_cast<std::optional<mpq_class>>(impl->parent->gen(i)))
-      return false;
-    if (!Ring::unit(impl->coefficients[i]))
+    const auto generator = static_cast<std::optional<mpq_class>>(*impl->parent->basis()[i]);
+    if (!generator || *generator == 0)
       return false;
+    if constexpr (Ring::isField) {
+      if (!Ring::unit(c))
+        return false;
+    } else {
+      // The inverse of c·g must be an integer multiple of g.
+      const mpq_class inverse = 1 / (c * *generator * *generator);
+      if (inverse.get_den() != 1)
+        return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 50d20e9c445628c9257e60f9e11d76f67845d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 23/34] fix: convert rational elements to the closest double
 also in the subnormal range

---
 libexactreal/src/element.cc | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 6a0c398..16b3308 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -826,25 +826,12 @@ Element<Ring>::operator bool() const {
 
 template <typename Ring>
 Element<Ring>::operator double() const {
-  {
-    auto rational = static_cast<std::optional<mpq_class>>(*this);
-    if (rational) {
-      Arf a;
-
-      fmpq_t q;
-      fmpq_init_set_readonly(q, rational->get_mpq_t());
-
-      arf_set_fmpq(a.arf_t(), q, DBL_MANT_DIG, ARF_RND_NEAR);
-
-      fmpq_clear_readonly(q);
-
-      return static_cast<double>(a);
-    }
-  }
+  const auto rational = static_cast<std::optional<mpq_class>>(*this);
 
-  // Since this is not a rational number, we can look at the approximate ball
-  // describing this value. Refining its radius, the entire ball will
-  // eventually be closer to a single double than to any other double.
+  // We look at the approximate ball describing this value. Refining its radius,
+  // the entire ball will eventually be closer to a single double than to any
+  // other double. (Also if this value is rational and exactly in the middle
+  // between two doubles since then the ball is eventually exact.)
   // We will certainly need 53 bits to see the full mantissa.
   // Since we ask for an additional bit, the ball around our
   // approximation contains at most one double. Since we ask for
@@ -854,7 +841,7 @@ Element<Ring>::operator double() const {
   long prec = DBL_MANT_DIG + 2;
 
   while (true) {
-    Arb a = arb(prec);
+    Arb a = rational ? Arb(*rational, prec) : arb(prec);
     auto bounds = static_cast<std::pair<Arf, Arf>>(a);
     auto lbound = static_cast<double>(bounds.first);
     auto ubound = static_cast<double>(bounds.second);
-- 
2.43.0


From 1480c82b1946433e0c065e0a2774547782593c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 24/34] fix: random numbers close to the largest double

---
 libexactreal/src/constrained_random_real_number.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 7f10e8e..97aa5bc 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -214,10 +214,15 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   // We rewrite x as a small interval such that any element of that interval
   // is closer to x than to another double.
   // We start with an interval that ends at the preceding and following
-  // double…
-  Arf lower = Arf(nextafter(x, -numeric_limits<double>::infinity()));
+  // double… (or at the power of two which would be that double if there were
+  // more exponents.)
+  const auto neighbour = [&](const double direction) {
+    const double next = nextafter(x, direction);
+    return isfinite(next) ? Arf(next) : Arf(mpz_class(next > 0 ? 1 : -1), numeric_limits<double>::max_exponent);
+  };
+  Arf lower = neighbour(-numeric_limits<double>::infinity());
   Arf midpoint = Arf(x);
-  Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
+  Arf upper = neighbour(numeric_limits<double>::infinity());
 
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
-- 
2.43.0


From ce77fa31a0af7ec79fe8b2f81549db1348a28217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 25/34] fix: reject random numbers in unbounded intervals

---
 libexactreal/src/constrained_random_real_number.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 97aa5bc..d4a9faa 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -147,6 +147,9 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     if (lower >= upper) {
       throw std::logic_error("interval must have an interior");
     }
+    if (!arf_is_finite(lower.arf_t()) || !arf_is_finite(upper.arf_t())) {
+      throw std::logic_error("not implemented - random number in unbounded interval");
+    }
 
     // We first rewrite a and b as mantissa + 2^exponent with the same exponent
     // and then select a random mantissa. Our random number is then going to be
-- 
2.43.0


From eaa0c7631368ff812be03bcd1f732be5697fd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 26/34] fix: leave a ball unchanged when it cannot be read from
 an archive

---
 libexactreal/exact-real/cereal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 844bea7..1c7d749 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -160,9 +160,12 @@ void load(Archive& archive, Arb& self) {
   double ignored;
   archive(data, ignored);
 
-  if (arb_load_str(self.arb_t(), data.c_str())) {
+  // (arb_load_str might already have changed the midpoint when it fails.)
+  Arb value;
+  if (arb_load_str(value.arb_t(), data.c_str())) {
     throw std::logic_error("malformed archive, failed to parse Arb");
   }
+  self = std::move(value);
 }
 
 template <typename Archive>
-- 
2.43.0


From eed48c68962d899b92e1549001a83287355fb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 27/34] fix: print the factors of a product in an order that
 only depends on their values

---
 libexactreal/src/real_number_product.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index cf64625..dbfc472 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -18,9 +18,11 @@
  *  along with exact-real. If not, see <https://www.gnu.org/licenses/>.
  *********************************************************************/
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <memory>
+#include <numeric>
 #include <set>
 #include <vector>
 #include <boost/variant2/variant.hpp>
@@ -421,8 +423,14 @@ RealNumberProduct::RealNumberProduct(Monomials monomials, Exponents exponents, s
 RealNumberProduct::RealNumberProduct(Monomials monomials, Exponents exponents) : RealNumberProduct(monomials, exponents, Key::Hash{}(Key{monomials, exponents})) {}
 
 RealNumber const& RealNumberProduct::operator>>(std::ostream& os) const {
+  // Print factors sorted by value to get stable outputs. (The order of the
+  // factors depends on the order in which they have been created.)
+  std::vector<size_t> order(monomials.size());
+  std::iota(begin(order), end(order), 0);
+  std::sort(begin(order), end(order), [&](size_t lhs, size_t rhs) { return *monomials[lhs] < *monomials[rhs]; });
+
   bool first = true;
-  for (size_t i = 0; i < monomials.size(); i++) {
+  for (size_t i : order) {
     if (!first) os << "*";
     first = false;
     os << *monomials[i];
-- 
2.43.0


From e7f0d4a48d04115d61f20de3b907ea6a0d39ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 28/34] fix: report when a value could not be serialized
 completely for the bindings

---
 libexactreal/exact-real/cppyy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libexactreal/exact-real/cppyy.hpp b/libexactreal/exact-real/cppyy.hpp
index 1637ebd..806f4fc 100644
--- a/libexactreal/exact-real/cppyy.hpp
+++ b/libexactreal/exact-real/cppyy.hpp
@@ -22,6 +22,7 @@
 
 #include <boost/type_traits/is_detected.hpp>
 #include <boost/yap/print.hpp>
+#include <ios>
 #include <iosfwd>
 #include <memory>
 #include <sstream>
@@ -100,6 +101,9 @@ std::string serialize(const T &value) {
     Archive archive(serialized);
     archive(value);
   }
+  // Streams do not throw when there is not enough memory for their buffer.
+  if (!serialized)
+    throw std::ios_base::failure("serialization is incomplete, could not write to the output buffer");
   return serialized.str();
 }
 
-- 
2.43.0


From 16e5db76d0c085aa2372ebeba5e73484e71b07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:32 +0000
Subject: [PATCH 29/34] fix: reject rational numbers without denominator and
 normalize fractions when reading an archive

---
 libexactreal/exact-real/cereal.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 1c7d749..b2f982c 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -70,6 +70,15 @@ struct CerealWrap {
   operator T() const { return inner; }
 };
 
+// Return the rational number that has been written as a string.
+inline mpq_class parse_rational(const std::string& str) {
+  mpq_class value(str);
+  if (value.get_den() == 0)
+    throw std::logic_error("malformed archive, denominator of rational number is zero");
+  value.canonicalize();
+  return value;
+}
+
 template <typename T>
 using MaybeWrap = std::conditional_t<CerealWrap<T>::needs_wrap(), CerealWrap<T>, T>;
 
@@ -120,7 +129,7 @@ struct Decerealizer : public IDecerealizer {
   virtual void load(const std::string& name, mpq_class& value) {
     std::string str;
     load(name, str);
-    value = mpq_class(str);
+    value = parse_rational(str);
   }
 
   virtual void load(const std::string& name, unsigned int& value) {
@@ -271,7 +280,7 @@ std::string save_minimal(const Archive&, const CerealWrap<mpq_class>& self) {
 
 template <typename Archive>
 void load_minimal(const Archive&, CerealWrap<mpq_class>& self, const std::string& value) {
-  self = CerealWrap{mpq_class(value)};
+  self = CerealWrap{parse_rational(value)};
 }
 
 template <typename Archive>
-- 
2.43.0


From 3c8e3eb30071d83a32900b515033589809cef8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:45 +0000
Subject: [PATCH 30/34] fix: reject products without positive powers and random
 numbers without digits when reading an archive

---
 libexactreal/src/constrained_random_real_number.cc | 3 +++
 libexactreal/src/real_number_product.cc            | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index d4a9faa..06537c9 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -124,6 +124,9 @@ class ConstrainedRandomRealNumber final : public RealNumberBase {
     archive.load("e", e);
     archive.load("inner", inner);
 
+    if (!inner)
+      throw std::logic_error("malformed archive, random number has no digits");
+
     self = factory().get(std::tuple{initial, e, inner}, [&]() { return new ConstrainedRandomRealNumber(initial, e, inner); });
   }
 
diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index dbfc472..68706a3 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -583,8 +583,11 @@ void RealNumberProduct::load(IDecerealizer& archive, std::shared_ptr<const RealN
 
   std::vector<std::shared_ptr<const RealNumber>> monomials;
 
-  for (const auto& factor : factors)
+  for (const auto& factor : factors) {
+    if (!factor.first || factor.second < 1)
+      throw std::logic_error("malformed archive, factors of a product are not positive powers of real numbers");
     monomials.push_back(factor.first);
+  }
 
   std::sort(begin(monomials), end(monomials), [](const auto& lhs, const auto& rhs) {
     return RealNumberBase::id(*lhs) < RealNumberBase::id(*rhs);
-- 
2.43.0


From bc9a64843adcfd0253ee4a19484175b1686a2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:45 +0000
Subject: [PATCH 31/34] fix: restore null pointers to modules and reject
 modules and elements with missing parts when reading an archive

---
 libexactreal/exact-real/cereal.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index b2f982c..c6ae826 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -227,8 +227,13 @@ void load(Archive& archive, ArchivedModule<Ring>& self) {
   uint32_t id;
   archive(cereal::make_nvp("shared", id));
 
-  if (id & cereal::detail::msb_32bit) {
+  if (id == 0) {
+    // A null pointer has been archived.
+    self = {};
+  } else if (id & cereal::detail::msb_32bit) {
     archive(cereal::make_nvp("basis", self.basis));
+    if (std::find(begin(self.basis), end(self.basis), nullptr) != end(self.basis))
+      throw std::logic_error("malformed archive, generator of module is missing");
     Ring ring;
     archive(cereal::make_nvp("ring", ring));
     self.module = Module<Ring>::make(self.basis, ring);
@@ -242,6 +247,8 @@ template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
   ArchivedModule<Ring> parent;
   archive(cereal::make_nvp("parent", parent));
+  if (!parent.module)
+    throw std::logic_error("malformed archive, module of element is missing");
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
-- 
2.43.0


From f5c3e958777d2857628699510413b64b67228653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:05 +0000
Subject: [PATCH 32/34] fix: terminate when comparing a real number to a
 floating point number or ball that is not a number

---
 libexactreal/src/real_number.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 4be0e4b..84ac012 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -160,6 +160,10 @@ bool RealNumber::operator==(const mpz_class& rhs) const noexcept {
 }
 
 bool RealNumber::operator<(const Arf& rhs) const {
+  // No real number is smaller or bigger than NaN.
+  if (arf_is_nan(rhs.arf_t())) {
+    return false;
+  }
   if (this->operator==(rhs)) {
     return false;
   }
@@ -173,6 +177,9 @@ bool RealNumber::operator<(const Arf& rhs) const {
 }
 
 bool RealNumber::operator>(const Arf& rhs) const {
+  if (arf_is_nan(rhs.arf_t())) {
+    return false;
+  }
   if (this->operator==(rhs)) {
     return false;
   }
-- 
2.43.0


From f9514487d1b35185f979d6c50dcd764f50a1c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:06 +0000
Subject: [PATCH 33/34] fix: throw when asking a module for a generator that
 does not exist instead of writing out of bounds

---
 libexactreal/src/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index 0484c64..b0cabfd 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -187,7 +187,7 @@ bool Module<Ring>::submodule(const Module<Ring>& supermodule) const {
 template <typename Ring>
 Element<Ring> Module<Ring>::gen(size j) const {
   std::vector<typename Ring::ElementClass> coefficients(this->rank());
-  coefficients[boost::numeric_cast<size_t>(j)] = 1;
+  coefficients.at(boost::numeric_cast<size_t>(j)) = 1;
   return Element(this->shared_from_this(), std::move(coefficients));
 }
 
-- 
2.43.0


From ed26c1515333b31ebf627da6a69b589e0d469a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:27 +0000
Subject: [PATCH 34/34] fix: compare an element to a long long in every locale

The number was printed by boost::lexical_cast in the global locale, which
might group its digits, and then rejected by GMP.
---
 libexactreal/src/element.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 16b3308..530697d 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -30,7 +30,6 @@
 #include <e-antic/renfxx.h>
 
 #include <algorithm>
-#include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
 #include <cmath>
 #include <map>
@@ -736,12 +735,12 @@ bool Element<Ring>::operator==(unsigned long rhs) const {
 
 template <typename Ring>
 bool Element<Ring>::operator==(long long rhs) const {
-  return *this == mpq_class(boost::lexical_cast<std::string>(rhs));
+  return *this == mpq_class(gmpxxll::mpz_class(rhs));
 }
 
 template <typename Ring>
 bool Element<Ring>::operator==(unsigned long long rhs) const {
-  return *this == mpq_class(boost::lexical_cast<std::string>(rhs));
+  return *this == mpq_class(gmpxxll::mpz_class(rhs));
 }
 
 template <typename Ring>
-- 
2.43.0

