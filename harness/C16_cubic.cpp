/*SPEC
{
 "property": "C16",
 "name": "C16_cubic",
 "src": ["common/math/geometry/src/solver/polynomial_solver.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs"],
 "force_include": ["cmath", "cstdint", "vector"],
 "real": true, "float_samples": true,
 "quick": {"time": 400, "qtimeout": 30000},
 "bounds": {"quick": "every cubic equation k((x-m)^3 - 3q(x-m) + 2r) = 0 with k one of 1, -2, 0.25: three roots with m in [-4, 4], q in [0.01, 9] and r well inside (-q^1.5, q^1.5); a double root and a single one in [-3, 3]; a triple root in [-4, 4]; one real root with m one of 0, 1.5, -3 (cube roots of the two radicands in [-2, 2]) and every range with bounds in [-8, 8]; every quadratic equation with two roots given as a cubic one", "thorough": "same"},
 "outside": "equations for which r^2 exceeds q^3 by less than 0.001 without being equal; roots within 1e-3 of the ends of the range; rounding",
 "witness": ["three", "one", "double", "triple", "quadratic"]
}
SPEC*/
#include <geometry/solver/polynomial_solver.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "sx.hpp"

using math::geometry::PolynomialSolver;
static bool near(double a, double b) { return (a - b < 1e-4) & (b - a < 1e-4); }

void sx_harness()
{
  const PolynomialSolver solver;
  static const double leading[] = {1, -2, 0.25};
  const int what = sx::pick("roots", 0, 4);
  const double k = leading[sx::pick("leading coefficient", 0, 2)];
  // k * ((x - m)^3 - 3 q (x - m) + 2 r)
  auto solve = [&](double m, double q, double r, double lo, double hi) {
    return solver.solveCubicEquation(k, -3 * k * m, 3 * k * (m * m - q), k * (-m * m * m + 3 * q * m + 2 * r), lo, hi);
  };
  if (what == 0) {
    const double m = sx::boolean("shifted") ? sx::real("centre", -4, 4) : 0;
    const double s = sx::real("s", 0.1, 3), r = sx::real("r", -27, 27);
    const double q = s * s;
    sx_assume((r < s * q - 0.001) & (r > -s * q + 0.001));
    const auto v = solve(m, q, r, -20, 20);
    sx_reach("three");
    sx_assert(v.size() == 3, "three_roots_are_found");
    // the sums and products of Vieta determine the three roots
    sx_assert(near(v[0] + v[1] + v[2], 3 * m), "the_sum_of_the_roots");
    const double a = v[0] - m, b = v[1] - m, c = v[2] - m;
    sx_assert(near(a * b + b * c + a * c, -3 * q), "the_sum_of_the_products_of_two_roots");
    sx_assert(near(a * b * c, -2 * r), "the_product_of_the_roots");
  } else if (what == 1) {
    static const double centre[] = {0, 1.5, -3};
    const double m = centre[sx::pick("centre", 0, 2)];
    const double w = sx::real("w", 0.1, 2), b = sx::real("b", -2, 2);
    sx_assume((b <= w) & (b >= -w));
    const double r0 = (w * w * w + b * b * b) / 2, q = w * b;
    const double r = sx::boolean("negative") ? -r0 : r0, x = r < 0 ? m + w + b : m - w - b;
    if (sx::boolean("negative q")) sx_assume(b <= 0); else sx_assume((b > 0) & (b < w - 0.05) & (r * r > q * q * q + 0.001));
    const bool limited = sx::boolean("limited range");
    const double lo = limited ? sx::real("min", -8, 8) : -20, hi = limited ? sx::real("max", -8, 8) : 20;
    sx_assume((lo <= hi) & ((x - lo >= 1e-3) | (x - lo <= -1e-3)) & ((x - hi >= 1e-3) | (x - hi <= -1e-3)));
    const auto v = solve(m, q, r, lo, hi);
    sx_reach("one");
    sx_assert((v.size() == 1) == ((lo < x) & (x < hi)) and v.size() <= 1, "the_only_real_root_is_found_within_the_range");
    for (const double y : v) sx_assert(near(y, x), "the_only_real_root");
  } else if (what == 2) {
    const double p = sx::real("p", -3, 3), s = sx::real("s", -3, 3);
    sx_assume((p - s >= 0.1) | (s - p >= 0.1));
    const auto v = solver.solveCubicEquation(k, -k * (2 * p + s), k * (p * p + 2 * p * s), -k * p * p * s, -20, 20);
    sx_reach("double");
    bool one = false, two = false;
    for (const double y : v) {
      sx_assert(near(y, p) | near(y, s), "every_value_is_one_of_the_two_roots");
      one = one | near(y, p), two = two | near(y, s);
    }
    sx_assert(one & two, "both_roots_are_found");
  } else if (what == 3) {
    const double m = sx::real("centre", -4, 4);
    const auto v = solve(m, 0, 0, -20, 20);
    sx_reach("triple");
    sx_assert(not v.empty(), "a_triple_root_is_found");
    for (const double y : v) sx_assert(near(y, m), "every_value_is_the_triple_root");
  } else {
    const double x = sx::real("x", -4, 4), y = x + sx::real("apart", 0.01, 6), lo = sx::real("min", -6, 6), hi = sx::real("max", -6, 6);
    auto clear = [&](double z) { return ((z - lo >= 1e-3) | (z - lo <= -1e-3)) & ((z - hi >= 1e-3) | (z - hi <= -1e-3)); };
    sx_assume((lo <= hi) & clear(x) & clear(y));
    const auto v = solver.solveCubicEquation(0, k, -k * (x + y), k * x * y, lo, hi);
    sx_reach("quadratic");
    bool one = false, two = false;
    for (const double z : v) {
      sx_assert((near(z, x) | near(z, y)) & (z >= lo) & (z <= hi), "every_value_is_a_root_of_the_quadratic_equation");
      one = one | near(z, x), two = two | near(z, y);
    }
    sx_assert(((lo < x) & (x < hi)) == one & ((lo < y) & (y < hi)) == two, "the_roots_of_the_quadratic_equation_are_found");
  }
}
