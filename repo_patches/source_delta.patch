From 1e9307440bbde4f65e26b1e0ed40911dfa664531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 01/27] fix: reject trailing characters after a boolean
 parameter value

---
 openscenario/openscenario_interpreter/src/syntax/boolean.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
index bef6f81..099ce52 100644
--- a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
@@ -32,7 +32,8 @@ Boolean::Boolean(const std::string & target)
 {
   std::stringstream interpreter;
 
-  if (!(interpreter << target && interpreter >> std::boolalpha >> data)) {
+  if (!(interpreter << target && interpreter >> std::boolalpha >> data &&
+        (interpreter >> std::ws).eof())) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(target);
   }
 }
-- 
2.43.0


From 082927bc3ede74abddb8ce0ba2d72c9bf55a04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 02/27] fix: reject negative literals of unsigned types instead
 of wrapping them around

---
 .../src/syntax/unsigned_integer.cpp                    | 10 ++++++++--
 .../src/syntax/unsigned_short.cpp                      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..413a798 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -27,7 +27,7 @@ UnsignedInteger::UnsignedInteger(value_type value) { data = value; }
 UnsignedInteger::UnsignedInteger(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedInteger>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -55,7 +55,13 @@ UnsignedInteger::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedInteger & datum) -> std::istream &
 {
-  return is >> datum.data;
+  // NOTE: The standard library accepts a minus sign here and wraps the value around.
+  if (is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+    return is;
+  } else {
+    return is >> datum.data;
+  }
 }
 
 auto operator<<(std::ostream & os, const UnsignedInteger & datum) -> std::ostream &
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..c10229d 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -29,7 +29,7 @@ UnsignedShort::UnsignedShort(value_type value) { data = value; }
 UnsignedShort::UnsignedShort(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedShort>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -57,7 +57,13 @@ UnsignedShort::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedShort & datum) -> std::istream &
 {
-  return is >> datum.data;
+  // NOTE: The standard library accepts a minus sign here and wraps the value around.
+  if (is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+    return is;
+  } else {
+    return is >> datum.data;
+  }
 }
 
 auto operator<<(std::ostream & os, const UnsignedShort & datum) -> std::ostream &
-- 
2.43.0


From c5dc7dbdb01460d843c415c91bbeb0d5063b45a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 03/27] fix: compare equal infinities as equal

---
 .../openscenario_interpreter/functional/equal_to.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
index 7657557..74358f1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/functional/equal_to.hpp
@@ -35,7 +35,8 @@ struct equal_to<T, typename std::enable_if<std::is_floating_point<T>::value>::ty
 {
   constexpr auto operator()(const T & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 };
 
@@ -45,17 +46,20 @@ struct equal_to<std::valarray<T>, typename std::enable_if<std::is_floating_point
   constexpr auto operator()(
     const std::valarray<T> & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 
   constexpr auto operator()(const std::valarray<T> & lhs, const T & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 
   constexpr auto operator()(const T & lhs, const std::valarray<T> & rhs) const noexcept
   {
-    return std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
+    return lhs == rhs or
+           std::abs(lhs - rhs) < std::numeric_limits<typename std::decay<T>::type>::epsilon();
   }
 };
 }  // namespace syntax
-- 
2.43.0


From b5611c8cce08531cad3a0c39031b927b265ecb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 04/27] fix: make notEqualTo the negation of equalTo

---
 .../include/openscenario_interpreter/syntax/rule.hpp           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
index 56b2e55..145a5ce 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
@@ -92,8 +92,7 @@ struct Rule
         return std::less_equal()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       case notEqualTo:
-        return std::not_equal_to()(
-          std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
+        return !equal_to<T>()(std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       default:
         return {};
     }
-- 
2.43.0


From 1e4b4c7d4eb41858a30f5f499598ec357a672e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 05/27] fix: start the grid traversal at the next cell boundary
 in the positive direction

---
 .../src/sensor_simulation/occupancy_grid/grid_traversal.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..1337f54 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,8 +33,8 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  double tx = vx_ > 0 ? std::floor(start_x_) + 1 : std::floor(start_x_);
+  double ty = vy_ > 0 ? std::floor(start_y_) + 1 : std::floor(start_y_);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
   return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
-- 
2.43.0


From efff3ec84a0c64e0be1044e512918c93b3c75438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 06/27] fix: give the s value of a crossing of line segments
 despite rounding

---
 common/math/geometry/src/polygon/line_segment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..2e6f0bd 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <cmath>
 #include <geometry/intersection/intersection.hpp>
 #include <geometry/polygon/line_segment.hpp>
@@ -193,7 +194,11 @@ auto LineSegment::get2DIntersectionSValue(const LineSegment & line, const bool d
   -> std::optional<double>
 {
   if (const auto point = getIntersection2D(line); point.has_value()) {
-    return get2DIntersectionSValue(point.value(), denormalize_s);
+    /// @note The intersection point is on the line segment only up to rounding, so do not check that again.
+    const double proportion_2d = std::min(
+      std::hypot(point->x - start_point.x, point->y - start_point.y) / length_2d, 1.0);
+    return denormalize_s ? std::make_optional(proportion_2d * length)
+                         : std::make_optional(proportion_2d);
   } else {
     return std::nullopt;
   }
-- 
2.43.0


From ed1291a53c3ec0c8749d53d05968fe562e069b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 07/27] fix: override only running storyboard elements

An event with priority override stopped itself while starting and pushed
completed events of its maneuver through the stopTransition again.
---
 .../openscenario_interpreter/syntax/storyboard_element.hpp    | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..112d724 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -88,9 +88,7 @@ public:
 
   auto override()
   {
-    if (
-      not is<StoryboardElementState::standbyState>() and
-      not is<StoryboardElementState::stopTransition>()) {
+    if (is<StoryboardElementState::runningState>()) {
       transitionTo(stop_transition);
     }
     return current_state;
-- 
2.43.0


From cd99682bb9c8adec0de2107af6fb0e5c0d6157da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 08/27] fix: do not start waiting children when stopping a
 storyboard element

---
 .../syntax/storyboard_element.hpp                     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 112d724..cec47b3 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -118,8 +118,15 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
-      element.evaluate();
+      if (auto & child = element.as<StoryboardElement>();
+          child.is<StoryboardElementState::standbyState>()) {
+        // NOTE: A child that has not been started yet must not be started by stopping its parent.
+        child.transitionTo(stop_transition);
+        child.transitionTo(complete_state);
+      } else {
+        child.override();
+        element.evaluate();
+      }
     }
   }
 
-- 
2.43.0


From e5e18a7251afc9e1a33ed843e40c195a804b610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 09/27] fix: resolve name prefixes breadth first

Scopes of the given name in different depths of unnamed scopes were reported as
ambiguous although one of them is nearer.
---
 .../openscenario_interpreter/src/scope.cpp    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index 9aa255b..ccafb27 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -43,20 +43,30 @@ auto EnvironmentFrame::isOutermost() const noexcept -> bool { return outer_frame
 auto EnvironmentFrame::resolvePrefix(const Prefixed<Name> & prefixed_name) const
   -> std::list<const EnvironmentFrame *>
 {
-  std::list<const EnvironmentFrame *> result;
-
-  const auto it = inner_frames.equal_range(prefixed_name.prefixes.front());
-  std::for_each(
-    it.first, it.second, [&](auto && name_and_frame) { result.push_back(name_and_frame.second); });
+  // NOTE: breadth first search
+  for (std::vector<const EnvironmentFrame *> frames{this}; not frames.empty();) {
+    std::list<const EnvironmentFrame *> result;
+
+    std::vector<const EnvironmentFrame *> unnamed_frames;
+
+    for (auto && frame : frames) {
+      const auto it = frame->inner_frames.equal_range(prefixed_name.prefixes.front());
+      std::for_each(it.first, it.second, [&](auto && name_and_frame) {
+        result.push_back(name_and_frame.second);
+      });
+      std::copy(
+        frame->unnamed_inner_frames.begin(), frame->unnamed_inner_frames.end(),
+        std::back_inserter(unnamed_frames));
+    }
 
-  if (result.empty()) {
-    // BUG: must be breadth first search
-    for (auto & child : unnamed_inner_frames) {
-      result.merge(child->resolvePrefix(prefixed_name));
+    if (not result.empty()) {
+      return result;
+    } else {
+      frames = unnamed_frames;
     }
   }
 
-  return result;
+  return {};
 }
 
 auto EnvironmentFrame::outermostFrame() const noexcept -> const EnvironmentFrame &
-- 
2.43.0


From b3c7e53c32ab3ab79937d9eadfc9312445a05cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 10/27] fix: do not drop an unknown name prefix

A qualified name whose prefix names no scope was looked up, without the prefix,
in the outermost scope.
---
 .../openscenario_interpreter/src/scope.cpp    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index ccafb27..3e71eba 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -79,22 +79,23 @@ auto EnvironmentFrame::lookupFrame(const Prefixed<Name> & prefixed_name) const
 {
   assert(not prefixed_name.prefixes.empty());
 
-  if (isOutermost()) {
-    return this;
-  } else {
-    auto sibling_scope = outer_frame->resolvePrefix(prefixed_name);
-    switch (sibling_scope.size()) {
-      case 0:
-        assert(outer_frame);
-        return outer_frame->lookupFrame(prefixed_name);
-      case 1:
-        assert(sibling_scope.front());
-        return sibling_scope.front();
-      default:
+  const auto found = (isOutermost() ? *this : *outer_frame).resolvePrefix(prefixed_name);
+  switch (found.size()) {
+    case 0:
+      if (isOutermost()) {
         throw SyntaxError(
-          "There are multiple StoryboardElements that can be referenced by the name ",
+          "There is no StoryboardElement that can be referenced by the name ",
           std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
-    }
+      } else {
+        return outer_frame->lookupFrame(prefixed_name);
+      }
+    case 1:
+      assert(found.front());
+      return found.front();
+    default:
+      throw SyntaxError(
+        "There are multiple StoryboardElements that can be referenced by the name ",
+        std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
   }
 }
 
-- 
2.43.0


From 5b7a7214ccab6c0bc507fa4ddb0345b4a01c8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 11/27] fix: tolerate rounding in the angle between parallel
 vectors

The cosine of the angle between a vector and itself, (17.3, 51.9, 121.1) for
example, can be slightly greater than 1 after rounding, which was an error.
---
 .../geometry/include/geometry/vector3/internal_angle.hpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/include/geometry/vector3/internal_angle.hpp b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
index 30168a2..d46474e 100644
--- a/common/math/geometry/include/geometry/vector3/internal_angle.hpp
+++ b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
@@ -15,6 +15,7 @@
 #ifndef GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 #define GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 
+#include <algorithm>
 #include <geometry/vector3/inner_product.hpp>
 #include <geometry/vector3/is_like_vector3.hpp>
 #include <geometry/vector3/norm.hpp>
@@ -30,7 +31,9 @@ template <
     nullptr>
 auto getInternalAngle(const T & v0, const U & v1)
 {
-  const auto val = innerProduct(v0, v1) / (norm(v0) * norm(v1));
+  // NOTE: Rounding errors can put the cosine of (almost) parallel vectors slightly outside of [-1, 1].
+  const auto val =
+    std::clamp<double>(innerProduct(v0, v1) / (norm(v0) * norm(v1)), -1.0, 1.0);
   if (-1 <= val && val <= 1) {
     return std::acos(val);
   }
-- 
2.43.0


From acf8508eb6e3201fe033fcfd4e5d8a3aab10dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 12/27] fix: solve cubic equations with a triple root instead
 of producing NaN

---
 common/math/geometry/src/solver/polynomial_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..eb63941 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,7 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    if (const double q3 = q * q * q; q3 > 0 and r * r <= (q3 + tolerance)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From c2b32bec241fc302be02a4b197420266a97c93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 13/27] fix: let StoryboardElementStateCondition cease once the
 element has left the state

---
 .../syntax/storyboard_element_state_condition.hpp  |  2 ++
 .../syntax/storyboard_element_state_condition.cpp  | 14 ++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
index fde34c8..79284be 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
@@ -43,6 +43,8 @@ struct StoryboardElementStateCondition : private Scope
 
   StoryboardElementState current_state;
 
+  bool transitioned = false;
+
   explicit StoryboardElementStateCondition(const pugi::xml_node &, const Scope &);
 
   auto description() const -> String;
diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..b593d0a 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -16,6 +16,7 @@
 #include <openscenario_interpreter/syntax/storyboard.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>
+#include <utility>
 
 namespace openscenario_interpreter
 {
@@ -46,6 +47,7 @@ StoryboardElementStateCondition::StoryboardElementStateCondition(
     local()
       .ref<StoryboardElement>(storyboard_element_ref)
       .addTransitionCallback(state, [this](auto && storyboard_element) {
+        transitioned = true;
         current_state = storyboard_element.state().template as<StoryboardElementState>();
       });
   };
@@ -79,13 +81,13 @@ auto StoryboardElementStateCondition::evaluate() -> Object
      have transitioned to a different state than the one recorded in
      current_state.
 
-     Therefore, we must first check to see if the callback function has updated
-     current_state (= has the StoryboardElement transitioned to the monitored
-     state at least once since the last time evaluate was called), and then
-     check to see if the current StoryboardElement state is indeed the state
-     being monitored.
+     Therefore, we must first check to see if the callback function has been
+     called (= has the StoryboardElement transitioned to the monitored state at
+     least once since the last time evaluate was called), and then check to see
+     if the current StoryboardElement state is indeed the state being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  const auto monitored = update() == state;
+  return asBoolean(std::exchange(transitioned, false) or monitored);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 1fa21db809902bf63e5cdde0fad44773519ab2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 14/27] fix: do not take an empty name for an absolute one

---
 .../include/openscenario_interpreter/name.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
index 299f613..5a73456 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
@@ -57,7 +57,7 @@ struct Prefixed  // NOTE: 1.4.5. Naming conventions for OpenSCENARIO references
   }
 
   explicit Prefixed(const std::vector<std::string> given)
-  : absolute(not given.empty() and given.front().empty()),
+  : absolute(1 < given.size() and given.front().empty()),
     prefixes(
       absolute ? std::next(std::begin(given)) : std::begin(given), std::prev(std::end(given))),
     name(given.back())
-- 
2.43.0


From 7498a1d488e2775b08c5003ec6113421e8a90dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 15/27] fix: do not cut the square root in expressions to an
 integer

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index b9f8ea6..1d478dd 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -118,7 +118,7 @@ struct Value
   DEFINE_UNARY(round, [](double v) { return static_cast<int>(std::round(v)); }, double, int)
   DEFINE_UNARY(floor, [](double v) { return static_cast<int>(std::floor(v)); }, double, int)
   DEFINE_UNARY(ceil,  [](double v) { return static_cast<int>(std::ceil(v)); },  double, int)
-  DEFINE_UNARY(sqrt,  [](double v) { return static_cast<int>(std::sqrt(v)); },  double, int)
+  DEFINE_UNARY(sqrt,  [](double v) { return std::sqrt(v); },                    double, double)
   // clang-format on
   DEFINE_UNARY(operator-, -, Numeric, Numeric)
   DEFINE_UNARY(operator!, !, bool, bool)
-- 
2.43.0


From 7d95a7fb29bc9434e8c3d4feaf94ba3865ec574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 16/27] fix: reject an empty expression

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index 1d478dd..efe145a 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -236,9 +236,7 @@ std::string evaluate(const std::string & expression, const Scope & scope)
   auto first = expression.begin();
   auto last = expression.end();
 
-  qi::phrase_parse(first, last, parser, ascii::space, output);
-
-  if (first != last) {
+  if (not qi::phrase_parse(first, last, parser, ascii::space, output) or first != last) {
     THROW_SYNTAX_ERROR("Failed to parse ", std::quoted(expression));
   }
 
-- 
2.43.0


From 1a41b42dfdcb0ce6bd443d42f5d3b4594312abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 17/27] fix: simulation_interface: keep the control time and
 the is_defined flags of control commands

---
 simulation/simulation_interface/src/conversions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index 5d006d3..fd1f13d 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -493,16 +493,21 @@ void toProto(
   const autoware_control_msgs::msg::Lateral & message, autoware_control_msgs::Lateral & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_steering_tire_angle(message.steering_tire_angle);
   proto.set_steering_tire_rotation_rate(message.steering_tire_rotation_rate);
+  proto.set_is_defined_steering_tire_rotation_rate(
+    message.is_defined_steering_tire_rotation_rate);
 }
 
 void toMsg(
   const autoware_control_msgs::Lateral & proto, autoware_control_msgs::msg::Lateral & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.steering_tire_angle = proto.steering_tire_angle();
   message.steering_tire_rotation_rate = proto.steering_tire_rotation_rate();
+  message.is_defined_steering_tire_rotation_rate = proto.is_defined_steering_tire_rotation_rate();
 }
 
 void toProto(
@@ -510,9 +515,12 @@ void toProto(
   autoware_control_msgs::Longitudinal & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_velocity(message.velocity);
   proto.set_acceleration(message.acceleration);
   proto.set_jerk(message.jerk);
+  proto.set_is_defined_acceleration(message.is_defined_acceleration);
+  proto.set_is_defined_jerk(message.is_defined_jerk);
 }
 
 void toMsg(
@@ -520,15 +528,19 @@ void toMsg(
   autoware_control_msgs::msg::Longitudinal & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.velocity = proto.velocity();
   message.acceleration = proto.acceleration();
   message.jerk = proto.jerk();
+  message.is_defined_acceleration = proto.is_defined_acceleration();
+  message.is_defined_jerk = proto.is_defined_jerk();
 }
 
 void toProto(
   const autoware_control_msgs::msg::Control & message, autoware_control_msgs::Control & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   toProto(message.lateral, *proto.mutable_lateral());
   toProto(message.longitudinal, *proto.mutable_longitudinal());
 }
@@ -537,6 +549,7 @@ void toMsg(
   const autoware_control_msgs::Control & proto, autoware_control_msgs::msg::Control & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   toMsg(proto.lateral(), message.lateral);
   toMsg(proto.longitudinal(), message.longitudinal);
 }
-- 
2.43.0


From 214a286cdeaa4ba413c01f2cfb1556ca1e8464b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 18/27] fix: modify unsigned parameters by the given number
 instead of its whole part

---
 .../openscenario_interpreter/syntax/unsigned_integer.hpp      | 4 ++--
 .../openscenario_interpreter/syntax/unsigned_short.hpp        | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_integer.cpp  | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_short.cpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
index 8e05247..71ae575 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
@@ -37,9 +37,9 @@ struct UnsignedInteger
 
   auto operator++() noexcept -> UnsignedInteger &;
 
-  auto operator+=(const value_type &) -> UnsignedInteger &;
+  auto operator+=(const double &) -> UnsignedInteger &;
 
-  auto operator*=(const value_type &) -> UnsignedInteger &;
+  auto operator*=(const double &) -> UnsignedInteger &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
index 958076e..9d95245 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
@@ -36,9 +36,9 @@ struct UnsignedShort
 
   auto operator++() noexcept -> UnsignedShort &;
 
-  auto operator+=(const value_type &) -> UnsignedShort &;
+  auto operator+=(const double &) -> UnsignedShort &;
 
-  auto operator*=(const value_type &) -> UnsignedShort &;
+  auto operator*=(const double &) -> UnsignedShort &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 413a798..57eed63 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -39,13 +39,13 @@ auto UnsignedInteger::operator++() noexcept -> UnsignedInteger &
   return *this;
 }
 
-auto UnsignedInteger::operator+=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator+=(const double & rhs) -> UnsignedInteger &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedInteger::operator*=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator*=(const double & rhs) -> UnsignedInteger &
 {
   data *= rhs;
   return *this;
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index c10229d..b7ab67c 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -41,13 +41,13 @@ auto UnsignedShort::operator++() noexcept -> UnsignedShort &
   return *this;
 }
 
-auto UnsignedShort::operator+=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator+=(const double & rhs) -> UnsignedShort &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedShort::operator*=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator*=(const double & rhs) -> UnsignedShort &
 {
   data *= rhs;
   return *this;
-- 
2.43.0


From b6f4b6d76a544af7350db7f4873c18d01843758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 19/27] fix: send a new route after arrival only when Autoware
 waits for one

---
 .../include/concealer/field_operator_application.hpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/external/concealer/include/concealer/field_operator_application.hpp b/external/concealer/include/concealer/field_operator_application.hpp
index b93b56e..f5517e8 100644
--- a/external/concealer/include/concealer/field_operator_application.hpp
+++ b/external/concealer/include/concealer/field_operator_application.hpp
@@ -136,7 +136,10 @@ struct FieldOperatorApplication : public rclcpp::Node
     thunk();
 
     auto not_to_be = [&](auto current_state) {
-      return from_state.value <= current_state.value and current_state.value < to_state.value;
+      // NOTE: The states are passed through again after arrival, so the way may lead over the end.
+      return from_state.value <= to_state.value
+               ? from_state.value <= current_state.value and current_state.value < to_state.value
+               : from_state.value <= current_state.value or current_state.value < to_state.value;
     };
 
     while (not finalized.load() and not_to_be(getLegacyAutowareState())) {
-- 
2.43.0


From 930143aa5ce17b459edc212caf5844930908c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 20/27] fix: concealer AutowareUniverse::rethrow rethrows the
 exception itself, not a pointer to it

---
 external/concealer/src/autoware_universe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/concealer/src/autoware_universe.cpp b/external/concealer/src/autoware_universe.cpp
index 46be450..146e294 100644
--- a/external/concealer/src/autoware_universe.cpp
+++ b/external/concealer/src/autoware_universe.cpp
@@ -185,7 +185,7 @@ AutowareUniverse::~AutowareUniverse()
 auto AutowareUniverse::rethrow() -> void
 {
   if (is_thrown.load()) {
-    throw thrown;
+    std::rethrow_exception(thrown);
   }
 }
 
-- 
2.43.0


From e0c35399f239dee6837c7c478798c91aee1716be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:24 +0000
Subject: [PATCH 21/27] fix: concealer refuses negative seeds, as its message
 says

---
 external/concealer/src/publisher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/concealer/src/publisher.cpp b/external/concealer/src/publisher.cpp
index df76cdb..337c991 100644
--- a/external/concealer/src/publisher.cpp
+++ b/external/concealer/src/publisher.cpp
@@ -27,7 +27,7 @@ RandomNumberEngine::RandomNumberEngine(
   const rclcpp::node_interfaces::NodeParametersInterface::SharedPtr & node,
   const std::string & topic)
 : seed([&]() {
-    if (const auto value = common::getParameter<int>(node, topic + ".seed");
+    if (const std::int64_t value = common::getParameter<int>(node, topic + ".seed");
         std::random_device::min() <= value and value <= std::random_device::max()) {
       return value;
     } else {
-- 
2.43.0


From e39688ffb7e83720fcda0b6c7d8416950ceadeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:55 +0000
Subject: [PATCH 22/27] fix: cycle time of traffic signal controllers keeps
 fractions of seconds

---
 .../src/syntax/traffic_signal_controller.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..aacbf40 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,7 +100,7 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
+    std::cbegin(phases), std::cend(phases), 0.0,
     [](const auto & sum, const auto & phase) { return sum + phase.duration; });
 }
 
-- 
2.43.0


From 7575c73d249dfd7859c9b11124287152bd095895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 23/27] fix: conditions on traffic signal controllers without a
 current phase do not read past their phases

---
 .../src/syntax/traffic_signal_controller.cpp                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index aacbf40..197df18 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,9 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  // A controller that waits for its reference (or has no phases) is not in any phase yet.
+  static const String no_phase;
+  return current_phase != std::end(phases) ? (*current_phase).name : no_phase;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From b9d2c28914ebf74be9310359e7ff612afbda51b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:37 +0000
Subject: [PATCH 24/27] fix: time to collision is never minus infinite for a
 speed of approach of negative zero

---
 .../syntax/time_to_collision_condition.hpp                     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
index 3dc68ba..bd424c9 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
@@ -163,7 +163,8 @@ struct TimeToCollisionCondition : private Scope, private SimulatorCore::Conditio
       }
     };
 
-    return distance() / std::max(speed(), 0.0);
+    // NOTE: Adding 0.0 makes a negative zero positive, so that the result never is -inf.
+    return distance() / (std::max(speed(), 0.0) + 0.0);
   }
 
   auto evaluate()
-- 
2.43.0


From 4411fa5bbce82ca56c39d30ed4979737ca058119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:37 +0000
Subject: [PATCH 25/27] fix: RelativeClearanceCondition accepts entity
 selections as EntityRef

---
 .../src/syntax/relative_clearance_condition.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index b89e898..96b68f2 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -145,7 +145,7 @@ auto RelativeClearanceCondition::evaluate() -> Object
     if (not entity_refs.empty()) {
       return std::all_of(
         entity_refs.begin(), entity_refs.end(), [&](const auto & target_entity_ref) {
-          const auto & target_entity = global().entities->ref(target_entity_ref);
+          const auto & target_entity = global().entities->ref(target_entity_ref.name());
           if (target_entity.template is<ScenarioObject>()) {
             return is_relative_clearance_exist(
               triggering_scenario_object, target_entity.template as<ScenarioObject>().name);
-- 
2.43.0


From 2f1f8e92fa6577435bb7159301e8857f6ba5ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:37 +0000
Subject: [PATCH 26/27] fix: RelativeClearanceCondition ignores all triggering
 entities whatever the rule

---
 .../src/syntax/relative_clearance_condition.cpp      | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index 96b68f2..28ce000 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -178,16 +178,12 @@ auto RelativeClearanceCondition::evaluate() -> Object
             // exclude entities included in TriggeringEntities
             auto is_target_candidate_scenario_object_in_triggering_entities =
               [&](const ScenarioObject & target_candidate) -> bool {
-              bool is_included = false;
-              triggering_entities.apply(
-                [target_candidate, &is_included](const auto & triggering_scenario_object) {
+              return std::any_of(
+                triggering_entities.entity_refs.begin(), triggering_entities.entity_refs.end(),
+                [&](const auto & triggering_scenario_object) {
                   assert(triggering_scenario_object.template is<ScenarioObject>());
-                  if (triggering_scenario_object.name() == target_candidate.name) {
-                    is_included = true;
-                  }
-                  return true;
+                  return triggering_scenario_object.name() == target_candidate.name;
                 });
-              return is_included;
             };
             if (is_target_candidate_scenario_object_in_triggering_entities(
                   target_candidate_scenario_object)) {
-- 
2.43.0


From 207d7b0da94b3f656d45635b6d72a222f5e4483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:33 +0000
Subject: [PATCH 27/27] fix: StatusMonitor does not deadlock with its watchdog
 when it is destroyed

---
 common/status_monitor/src/status_monitor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index fc8fc0c..6f56e99 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -59,18 +59,19 @@ StatusMonitor::StatusMonitor()
 
 StatusMonitor::~StatusMonitor()
 {
-  auto lock = std::scoped_lock<std::mutex>(mutex);
-
   auto mark_as_exited = []() {
     if (auto iter = statuses.find(std::this_thread::get_id()); iter != std::end(statuses)) {
       std::get<1>(*iter).exited = true;
     }
   };
 
+  auto lock = std::unique_lock<std::mutex>(mutex);
+
   mark_as_exited();
 
   if (not --count) {
     terminating.store(true, std::memory_order_release);
+    lock.unlock();  // The watchdog may be waiting for the lock to write the statuses.
     watchdog.join();
     terminating.store(false, std::memory_order_release);
 
-- 
2.43.0

