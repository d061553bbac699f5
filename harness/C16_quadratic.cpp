/*SPEC
{
 "property": "C16",
 "src": ["common/math/geometry/src/solver/polynomial_solver.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs"],
 "force_include": ["cmath", "cstdint", "vector"],
 "real": true, "float_samples": true,
 "quick": {"time": 300, "qtimeout": 30000},
 "bounds": {"quick": "every linear equation with coefficients in [-8, 8]; every quadratic equation with one of 6 leading coefficients and real roots in [-4, 4], or none; every range with bounds in [-6, 6]; linear equations with a root at any distance up to 1e-3 from an end of the range", "thorough": "same"},
 "outside": "double roots closer than 0.01 but different; roots of quadratic equations within 1e-4 of the ends of the range, of linear ones within 5e-8 to 2e-7 outside; rounding",
 "witness": ["linear", "two", "double", "none", "degenerate", "end"]
}
SPEC*/
#include <geometry/solver/polynomial_solver.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "sx.hpp"

using math::geometry::PolynomialSolver;
static bool near(double a, double b) { return (a - b < 1e-5) & (b - a < 1e-5); }

static bool has(const std::vector<double> & v, double x)
{
  bool r = false;
  for (const double y : v) r = r | near(x, y);
  return r;
}

void sx_harness()
{
  const PolynomialSolver solver;
  const int what = sx::pick("equation", 0, 5);
  const double lo = sx::real("min", -6, 6), hi = sx::real("max", -6, 6);
  sx_assume(lo <= hi);
  auto clear = [&](double x) { sx_assume(((x - lo >= 1e-4) | (x - lo <= -1e-4)) & ((x - hi >= 1e-4) | (x - hi <= -1e-4))); };
  auto inside = [&](double x) { return (lo <= x) & (x <= hi); };
  static const double leading[] = {1, -1, 0.5, -3, 8, -0.125};
  if (what == 0) {
    const double a = sx::real("a", -8, 8), x = sx::real("x", -8, 8);
    sx_assume((a >= 0.01) | (a <= -0.01));
    clear(x);
    const auto r = sx::boolean("as a quadratic one") ? solver.solveQuadraticEquation(0, a, -a * x, lo, hi) : solver.solveLinearEquation(a, -a * x, lo, hi);
    sx_reach("linear");
    sx_assert(r.size() <= 1, "a_linear_equation_has_at_most_one_root");
    sx_assert((r.size() == 1) == inside(x) and (r.empty() or near(r[0], x)), "the_root_of_a_linear_equation_is_found_within_the_range");
    sx_assert(near(solver.linear(a, -a * x, x), 0), "value_of_a_linear_polynomial");
  } else if (what <= 2) {
    const double a = leading[sx::pick("leading coefficient", 0, 5)];
    const double x = sx::real("x", -4, 4), y = what == 1 ? x + sx::real("apart", 0.01, 6) : x;
    clear(x);
    if (what == 1) clear(y);
    const auto r = solver.solveQuadraticEquation(a, -a * (x + y), a * x * y, lo, hi);
    if (what == 1) sx_reach("two"); else sx_reach("double");
    for (const double v : r) sx_assert((near(v, x) | near(v, y)) & (v >= lo) & (v <= hi), "every_value_is_a_root_within_the_range");
    sx_assert(not inside(x) or has(r, x), "a_root_within_the_range_is_found");
    sx_assert(not inside(y) or has(r, y), "a_root_within_the_range_is_found");
    sx_assert(r.size() <= 2, "a_quadratic_equation_has_at_most_two_roots");
    const double t = sx::real("t", -4, 4);
    sx_assert(near(solver.quadratic(a, -a * (x + y), a * x * y, t), a * (t - x) * (t - y)), "value_of_a_quadratic_polynomial");
  } else if (what == 3) {
    const double a = leading[sx::pick("leading coefficient", 0, 5)], x = sx::real("x", -4, 4), d = sx::real("above", 0.01, 16);
    const auto r = solver.solveQuadraticEquation(a, -2 * a * x, a * x * x + a * d, lo, hi);
    sx_reach("none");
    sx_assert(r.empty(), "an_equation_without_real_roots_has_none");
  } else if (what == 5) {
    // a root next to an end of the range
    sx_assume(hi - lo >= 0.01);
    const bool upper = sx::boolean("upper end"), outside = sx::boolean("outside");
    const double end = upper ? hi : lo, e = sx::real("off", 0, 1e-3), x = upper == outside ? end + e : end - e;
    sx_assume((e <= 5e-8) | (e >= 2e-7));
    const auto r = sx::boolean("as a quadratic one") ? solver.solveQuadraticEquation(0, 1, -x, lo, hi) : solver.solveLinearEquation(1, -x, lo, hi);
    sx_reach("end");
    sx_assert((r.size() == 1) == (not outside | (e <= 5e-8)), "a_root_is_found_up_to_the_tolerance_outside_the_range");
    for (const double v : r) sx_assert((lo <= v) & (v <= hi) & (v - x <= 1e-7) & (x - v <= 1e-7), "a_root_next_to_an_end_of_the_range_is_within_it");
  } else {
    const double b = sx::real("b", -8, 8);
    sx_assume((b >= 0.01) | (b <= -0.01) | (b == 0));
    try {
      const auto r = solver.solveLinearEquation(0, b, lo, hi);
      sx_assert(b != 0 and r.empty(), "a_constant_other_than_zero_has_no_root");
    } catch (const common::SimulationError &) {
      sx_reach("degenerate");
      sx_assert(b == 0, "only_the_zero_polynomial_is_rejected");
    }
  }
}
