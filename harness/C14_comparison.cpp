/*SPEC
{
 "property": "C14",
 "src": [],
 "inc": ["common/math/arithmetic/include"],
 "force_include": ["cmath"],
 "quick": {"time": 400, "qtimeout": 60000},
 "bounds": {"quick": "every triple of single-precision numbers (NaN and infinities included in the strict comparisons); bit-precise IEEE arithmetic", "thorough": "same"},
 "outside": "the double instantiation is the same template",
 "witness": ["less", "greater", "close"]
}
SPEC*/
#include <arithmetic/floating_point/comparison.hpp>

#include "sx.hpp"

using namespace math::arithmetic;

void sx_harness()
{
  const float a = sx_f32("a"), b = sx_f32("b");
  const bool finite = std::isfinite(a) & std::isfinite(b);
  const bool less = isDefinitelyLessThan(a, b), greater = isDefinitelyGreaterThan(a, b);
  const bool close = isApproximatelyEqualTo(a, b), essential = isEssentiallyEqualTo(a, b);
  sx_reach_if(less, "less");
  sx_reach_if(greater, "greater");
  sx_reach_if(close & (a != b), "close");
  sx_assert(not less or a < b, "definitely_less_implies_less");
  sx_assert(not greater or a > b, "definitely_greater_implies_greater");
  // the distance between the numbers, exact in double precision for close numbers and monotone for others
  if (finite) {
    sx_assert(less + greater + close == 1, "exactly_one_of_less_greater_and_close");
    sx_assert(not essential or close, "essentially_equal_implies_approximately_equal");
    sx_assert(a != b or (close and essential), "a_number_is_equal_to_itself");
    sx_assert(close == isApproximatelyEqualTo(b, a), "approximate_equality_is_symmetric");
    sx_assert(essential == isEssentiallyEqualTo(b, a), "essential_equality_is_symmetric");
    sx_assert(less == isDefinitelyGreaterThan(b, a), "less_mirrors_greater");
    // relative to the smaller number: equal numbers of different binades are at most half as far apart
    const float larger = std::fabs(a) < std::fabs(b) ? std::fabs(b) : std::fabs(a), smaller = std::fabs(a) < std::fabs(b) ? std::fabs(a) : std::fabs(b);
    const float distance = std::fabs(a - b), epsilon = 1.1920929e-7f;
    sx_assert(close == (distance <= larger * epsilon), "approximately_equal_within_a_rounding_error_of_the_larger");
    sx_assert(essential == (distance <= smaller * epsilon), "essentially_equal_within_a_rounding_error_of_the_smaller");
    // one unit in the last place is close, a factor of two is not
    const float half = b / 2;
    sx_assert(a != half or std::fabs(b) < 1e-30f or not close, "half_is_not_close");
  }
  const float c = sx_f32("c");
  sx_assert(isDefinitelyLessThan(a, b, c) == (less and isDefinitelyLessThan(b, c)), "a_chain_is_less_exactly_if_each_link_is");
}
