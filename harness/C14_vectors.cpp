/*SPEC
{
 "property": "C14",
 "src": ["common/math/geometry/src/{transform,vector3/ros_msg_converter}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "tf2"],
 "defs": ["EIGEN_DONT_VECTORIZE"],
 "force_include": ["cmath", "cstdint", "vector"],
 "real": true, "float_samples": true,
 "quick": {"time": 400, "qtimeout": 30000},
 "bounds": {"quick": "every pair of vectors with real components in [-8, 8], every scalar in [-8, 8]; truncation to every length in [0, 16] and normalization of every vector along 8 directions, angles between every two vectors along these directions or their opposites", "thorough": "16 directions"},
 "outside": "rounding; the angle of vectors shorter than 1/8",
 "witness": ["truncated", "kept", "normalized", "rejected"]
}
SPEC*/
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/vector3/vector3.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>

#include "sx.hpp"

using namespace math::geometry;

static bool near(double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }

void sx_harness()
{
  const int what = sx::pick("operation", 0, 6);
  // directions of rational length
  static const int quadruple[16][4] = {{1, 2, 2, 3}, {-2, 3, 6, 7}, {0, -3, 4, 5}, {0, 0, 1, 1}, {-1, 0, 0, 1}, {0, 1, 0, 1}, {4, 4, -7, 9}, {-6, -2, -9, 11}, {3, 4, 0, 5}, {2, -10, 11, 15}, {-8, 4, -1, 9}, {12, 0, -5, 13}, {-4, -13, 16, 21}, {-3, -2, -6, 7}, {6, -6, 7, 11}, {-2, 1, -2, 3}};
  const int directions = sx_tier() ? 16 : 8;
  double ax, ay, az;
  if (what == 1 or what == 2 or what == 6) {
    const int * q = quadruple[sx::pick("direction", 0, directions - 1)];
    const double length = sx::real("length", 0, 8);
    ax = length * q[0] / q[3], ay = length * q[1] / q[3], az = length * q[2] / q[3];
  } else {
    ax = sx::real("ax", -8, 8), ay = sx::real("ay", -8, 8), az = sx::real("az", -8, 8);
  }
  const auto a = vector3(ax, ay, az);
  const double aa = ax * ax + ay * ay + az * az;
  if (what == 0) {
    const double n = norm(a);
    sx_assert(n >= 0 and near(n * n, aa), "norm_is_the_euclidean_length");
    sx_assert(isfinite(a), "components_are_finite");
    return;
  }
  if (what == 1) {
    const double max = sx::real("max", 0, 16);
    const double m = aa - max * max;
    sx_assume((m >= 1e-4) | (m <= -1e-4));
    const auto t = truncate(a, max);
    if (m < 0) {
      sx_reach("kept");
      sx_assert((t.x == ax) & (t.y == ay) & (t.z == az), "a_vector_within_the_limit_is_kept");
    } else {
      sx_reach("truncated");
      sx_assert(near(t.x * t.x + t.y * t.y + t.z * t.z, max * max), "a_longer_vector_is_cut_to_the_limit");
      sx_assert(near(t.x * ay, t.y * ax) & near(t.y * az, t.z * ay) & near(t.x * az, t.z * ax) & (t.x * ax >= 0) & (t.y * ay >= 0) & (t.z * az >= 0), "truncation_keeps_the_direction");
    }
    return;
  }
  if (what == 2) {
    try {
      sx_assume((aa >= 1e-2) | (aa == 0));
      const auto n = normalize(a);
      sx_reach("normalized");
      sx_assert(near(n.x * n.x + n.y * n.y + n.z * n.z, 1), "a_normalized_vector_has_length_one");
      sx_assert(near(n.x * ay, n.y * ax) & near(n.y * az, n.z * ay) & near(n.x * az, n.z * ax) & (n.x * ax >= 0) & (n.y * ay >= 0) & (n.z * az >= 0), "normalization_keeps_the_direction");
    } catch (const common::SimulationError &) {
      sx_reach("rejected");
      sx_assert(aa == 0, "only_the_zero_vector_has_no_direction");
    }
    return;
  }
  double bx, by, bz;
  if (what == 6) {
    const int * q = quadruple[sx::pick("direction of the other", 0, directions - 1)];
    const double length = sx::real("length of the other", 0, 8), turn = sx_tier() ? 1 : sx::pick("turned", 0, 1) ? -1 : 1;
    bx = length * q[0] / q[3] * turn, by = length * q[1] / q[3] * turn, bz = length * q[2] / q[3] * turn;
  } else {
    bx = sx::real("bx", -8, 8), by = sx::real("by", -8, 8), bz = sx::real("bz", -8, 8);
  }
  const auto b = vector3(bx, by, bz);
  const double ab = ax * bx + ay * by + az * bz;
  if (what == 3) {
    sx_assert(near(innerProduct(a, b), ab), "inner_product");
    sx_assert(near(innerProduct(a, b), innerProduct(b, a)), "inner_product_is_symmetric");
    sx_assert(near(cross2d(a, b), ax * by - ay * bx), "cross_product_in_the_plane");
  } else if (what == 4) {
    const double h = hypot(a, b);
    const double dx = ax - bx, dy = ay - by, dz = az - bz;
    sx_assert(h >= 0 and near(h * h, dx * dx + dy * dy + dz * dz), "distance_is_the_length_of_the_difference");
  } else if (what == 5) {
    const double k = sx::real("k", -8, 8);
    sx_assume((k >= 0.125) | (k <= -0.125));
    const auto s = a + b, d = a - b, m = a * k, q = a / k;
    sx_assert(near(s.x, ax + bx) & near(s.y, ay + by) & near(s.z, az + bz), "sum");
    sx_assert(near(d.x, ax - bx) & near(d.y, ay - by) & near(d.z, az - bz), "difference");
    sx_assert(near(m.x, ax * k) & near(m.y, ay * k) & near(m.z, az * k), "scaling");
    sx_assert(near(q.x * k, ax) & near(q.y * k, ay) & near(q.z * k, az), "division");
    auto e = a;
    e += b;
    sx_assert(near(e.x, ax + bx) & near(e.y, ay + by) & near(e.z, az + bz), "sum_in_place");
  } else {
    const double bb = bx * bx + by * by + bz * bz;
    sx_assume((aa >= 1. / 64) & (bb >= 1. / 64));
    const double angle = getInternalAngle(a, b);
    const double c = std::cos(angle);
    sx_assert((angle >= 0) & (angle <= 3.1415926536), "angle_between_zero_and_pi");
    sx_assert(near(c * norm(a) * norm(b), ab), "cosine_of_the_angle");
  }
}
