/*SPEC
{
 "property": "C15",
 "src": ["common/math/geometry/src/{transform,vector3/ros_msg_converter}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "tf2"],
 "defs": ["EIGEN_DONT_VECTORIZE"],
 "force_include": ["cmath", "cstdint", "vector"],
 "real": true, "float_samples": true,
 "quick": {"time": 500, "qtimeout": 30000},
 "bounds": {"quick": "rotation matrix, product, relative rotation and transformation of points for every quaternion with real components in [-2, 2] and every point in [-8, 8]^3; relative poses at all positions for 6 x 6 orientations; interpolation (both ends and the middle) and angle difference from each of 6 orientations by every angle around each of 3 axes; heading of every yaw and pitch; orientation of vectors of every height over 8 directions in the plane", "thorough": "12 orientations, 6 axes"},
 "outside": "rounding; rotations closer than 1e-3 rad to each other or to a half turn apart (interpolation); tf2 is a stand-in with the same formulas",
 "witness": ["matrix", "point", "relative", "slerp", "difference", "heading", "direction"]
}
SPEC*/
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/transform.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>

#include "sx.hpp"

using namespace math::geometry;
using Quaternion = geometry_msgs::msg::Quaternion;
struct V { double x, y, z; };

static bool near(double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }
static bool near(const V & a, const V & b) { return near(a.x, b.x) & near(a.y, b.y) & near(a.z, b.z); }
static V cross(const V & a, const V & b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
// q v q* written with vectors: |q|^2-scaled rotation
static V rotate(const Quaternion & q, const V & v)
{
  const V u{q.x, q.y, q.z};
  const double uv = u.x * v.x + u.y * v.y + u.z * v.z, uu = u.x * u.x + u.y * u.y + u.z * u.z;
  const V c = cross(u, v);
  const double k = q.w * q.w - uu;
  return {2 * uv * u.x + k * v.x + 2 * q.w * c.x, 2 * uv * u.y + k * v.y + 2 * q.w * c.y, 2 * uv * u.z + k * v.z + 2 * q.w * c.z};
}
static Quaternion any(const char * name) { return makeQuaternion(sx::real((std::string(name) + "x").c_str(), -2, 2), sx::real((std::string(name) + "y").c_str(), -2, 2), sx::real((std::string(name) + "z").c_str(), -2, 2), sx::real((std::string(name) + "w").c_str(), -2, 2)); }
static double square(const Quaternion & q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
static V matrix(const Quaternion & q, const V & v)
{
  const Eigen::Matrix3d m = getRotationMatrix(q);
  return {m(0, 0) * v.x + m(0, 1) * v.y + m(0, 2) * v.z, m(1, 0) * v.x + m(1, 1) * v.y + m(1, 2) * v.z, m(2, 0) * v.x + m(2, 1) * v.y + m(2, 2) * v.z};
}

// 1/n: an exact rational for the solver
static double reciprocal(int n)
{
  const double u = sx::real(sx::nm("1/%d", n), 0, 1);
  sx_assume(u * n == 1);
  return u;
}
// rational unit quaternions
static Quaternion unit(int k)
{
  static const int q[12][5] = {{0, 0, 0, 1, 1}, {1, 2, 2, 4, 5}, {0, 0, -3, 4, 5}, {-1, 1, 3, 5, 6}, {2, -4, 5, -2, 7}, {1, -1, 1, 1, 2}, {0, 0, 1, 0, 1}, {-4, 0, 0, 3, 5}, {0, 3, 0, -4, 5}, {2, 2, -1, 0, 3}, {-5, -3, 1, 1, 6}, {4, -2, -2, 5, 7}};
  const int * p = q[k];
  const double u = p[4] == 1 ? 1 : reciprocal(p[4]);
  return makeQuaternion(p[0] * u, p[1] * u, p[2] * u, p[3] * u);
}

void sx_harness()
{
  const int units = sx_tier() ? 12 : 6;
  // rotations with exact components
  static const double exact[12][4] = {{0, 0, 0, 1}, {0.5, 0.5, 0.5, 0.5}, {0, 0, 1, 0}, {0.5, -0.5, -0.5, 0.5}, {-1, 0, 0, 0}, {-0.5, 0.5, 0.5, -0.5}, {0, 1, 0, 0}, {0, 0, 0, -1}, {0.5, 0.5, -0.5, 0.5}, {-0.5, -0.5, -0.5, 0.5}, {0, -1, 0, 0}, {0.5, -0.5, 0.5, -0.5}};
  auto one = [&] { const double * q = exact[sx::pick("rotation", 0, units - 1)]; return makeQuaternion(q[0], q[1], q[2], q[3]); };
  static const int basis[6][4] = {{0, 0, 1, 1}, {1, 0, 0, 1}, {0, -1, 0, 1}, {0, 0, -1, 1}, {-1, 0, 0, 1}, {0, 1, 0, 1}};
  // turning around an axis by twice the angle with this sine and cosine
  auto turn = [&](const int * n, double s, double c) {
    const double u = n[3] == 1 ? 1 : reciprocal(n[3]);
    return makeQuaternion(n[0] * u * s, n[1] * u * s, n[2] * u * s, c);
  };
  const int what = sx::pick("operation", 0, 9);
  auto vec = [](const char * n) { return V{sx::real((std::string(n) + "x").c_str(), -8, 8), sx::real((std::string(n) + "y").c_str(), -8, 8), sx::real((std::string(n) + "z").c_str(), -8, 8)}; };
  if (what == 0) {
    const Quaternion q = any("q");
    const V v = vec("v");
    sx_reach("matrix");
    sx_assert(near(matrix(q, v), rotate(q, v)), "rotation_matrix_rotates");
    const auto n = getNormalVector(q);
    sx_assert(near({n.x, n.y, n.z}, rotate(q, {0, 0, 1})), "normal_vector_is_the_rotated_z_axis");
    const double l = norm(q);
    sx_assert(l >= 0 and near(l * l, square(q)), "norm_of_a_quaternion");
  } else if (what == 9) {
    const double k = sx::real("length", 0, 8);
    sx_assume((k >= 0.01) | (k == 0));
    const Quaternion e = unit(sx::pick("rotation", 0, units - 1)), q = makeQuaternion(e.x * k, e.y * k, e.z * k, e.w * k);
    try {
      const auto u = normalize(q);
      sx_assert(near(u.x, e.x) & near(u.y, e.y) & near(u.z, e.z) & near(u.w, e.w), "normalization_keeps_the_rotation");
    } catch (const common::SimulationError &) {
      sx_assert(k == 0, "only_the_zero_quaternion_has_no_rotation");
    }
  } else if (what == 1) {
    // the product is the composition: R(a b) e = R(a) (R(b) e)
    const Quaternion a = any("a"), b = any("b"), c = a * b;
    const V h = {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
    sx_assert(near({c.x, c.y, c.z}, h) & near(c.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z), "product_of_quaternions");
    const Quaternion r = getRotation(a, c);  // a* (a b) = |a|^2 b
    const double aa = square(a);
    sx_assert(near({r.x, r.y, r.z}, {aa * b.x, aa * b.y, aa * b.z}) & near(r.w, aa * b.w), "relative_rotation_undoes_the_product");
    const auto s = a + b, d = a - b;
    sx_assert(near({s.x, s.y, s.z}, {a.x + b.x, a.y + b.y, a.z + b.z}) & near(s.w, a.w + b.w) & near({d.x, d.y, d.z}, {a.x - b.x, a.y - b.y, a.z - b.z}) & near(d.w, a.w - b.w), "sum_and_difference_of_quaternions");
  } else if (what == 2) {
    geometry_msgs::msg::Pose pose;
    pose.orientation = any("q");
    const V p = vec("p"), v = vec("v");
    pose.position.x = p.x, pose.position.y = p.y, pose.position.z = p.z;
    geometry_msgs::msg::Point point;
    point.x = v.x, point.y = v.y, point.z = v.z;
    const auto t = transformPoint(pose, point);
    const V e = rotate(pose.orientation, v);
    sx_reach("point");
    sx_assert(near({t.x, t.y, t.z}, {e.x + p.x, e.y + p.y, e.z + p.z}), "a_point_is_rotated_then_moved");
    const auto many = transformPoints(pose, {point, point});
    sx_assert(many.size() == 2 and near({many[1].x, many[1].y, many[1].z}, {t.x, t.y, t.z}) and near({many[0].x, many[0].y, many[0].z}, {t.x, t.y, t.z}), "points_are_transformed_one_by_one");
  } else if (what == 3) {
    // a pose relative to another one: moving by it from the first gives the second
    geometry_msgs::msg::Pose from, to;
    from.orientation = unit(sx::pick("rotation", 0, units - 1));
    to.orientation = unit(sx::pick("other rotation", 0, units - 1));
    const V a = vec("a"), b = vec("b");
    from.position.x = a.x, from.position.y = a.y, from.position.z = a.z;
    to.position.x = b.x, to.position.y = b.y, to.position.z = b.z;
    const auto r = getRelativePose(from, to);
    const V e = rotate(from.orientation, {r.position.x, r.position.y, r.position.z});
    sx_reach("relative");
    sx_assert(near({e.x + a.x, e.y + a.y, e.z + a.z}, b), "moving_by_the_relative_pose_reaches_the_other_position");
    const auto o = from.orientation * r.orientation;
    const double sign = o.w * to.orientation.w + o.x * to.orientation.x + o.y * to.orientation.y + o.z * to.orientation.z;
    sx_assert(near(sign * sign, 1), "turning_by_the_relative_pose_reaches_the_other_orientation");
  } else if (what == 4) {
    // interpolation from a rotation to one turned around an axis
    const double half = sx::real("half angle", 0.0005, 3.141);
    const Quaternion q = one(), d = turn(basis[sx::pick("axis", 0, sx_tier() ? 5 : 2)], std::sin(half), std::cos(half)), p = q * d;
    static const double steps[] = {0, 1, 0.5};
    const double t = steps[sx::pick("t", 0, 2)];
    const auto r = slerp(q, p, t);
    sx_reach("slerp");
    if (t == 0) sx_assert(near({r.x, r.y, r.z}, {q.x, q.y, q.z}) & near(r.w, q.w), "interpolation_starts_at_the_first");
    if (t == 1) sx_assert(near({r.x, r.y, r.z}, {p.x, p.y, p.z}) & near(r.w, p.w), "interpolation_ends_at_the_second");
    if (t == 0.5) {
      const double h = r.x * q.x + r.y * q.y + r.z * q.z + r.w * q.w;
      sx_assert(near(h, r.x * p.x + r.y * p.y + r.z * p.z + r.w * p.w), "the_middle_is_equally_far_from_both");
      const double apart = std::acos(q.w * p.w + q.x * p.x + q.y * p.y + q.z * p.z);
      sx_assert(near(h, std::cos(apart / 2)), "the_middle_is_half_way");
    }
  } else if (what == 5) {
    const bool left = sx::boolean("left");
    const double half = left ? sx::real("half angle", 0.0005, 1.57) : sx::real("half angle", -1.57, -0.0005), s = std::sin(half), c = std::cos(half);
    const Quaternion from = one(), to = from * turn(basis[sx::pick("axis", 0, sx_tier() ? 5 : 2)], s, c);
    const double d = getAngleDifference(from, to);
    sx_reach("difference");
    // the angle is 2 |half|
    sx_assert((d >= 0) & (d <= 3.1415926536), "angle_difference_between_zero_and_pi");
    sx_assert(near(std::cos(d / 2), c), "angle_difference_is_the_angle_turned_by");
  } else if (what == 6) {
    // orientation from roll, pitch and yaw
    const double yaw = sx::real("yaw", -3.1, 3.1), pitch = sx::pick("with pitch", 0, 1) ? sx::real("pitch", -1.5, 1.5) : 0;
    const auto q = convertEulerAngleToQuaternion(geometry_msgs::build<geometry_msgs::msg::Vector3>().x(0.0).y(pitch).z(yaw));
    const V e = rotate(q, {1, 0, 0});
    sx_reach("heading");
    sx_assert(near(e, {std::cos(pitch) * std::cos(yaw), std::cos(pitch) * std::sin(yaw), -std::sin(pitch)}), "heading_of_yaw_and_pitch");
  } else if (what == 7) {
    static const int plane[8][3] = {{3, 4, 5}, {-4, 3, 5}, {-5, -12, 13}, {8, -6, 10}, {1, 0, 1}, {0, -2, 2}, {-1, 0, 1}, {0, 3, 3}};
    const int * n = plane[sx::pick("direction", 0, 7)];
    const double z = sx::real("z", -8, 8);
    const auto q = convertDirectionToQuaternion(n[0], n[1], z);
    const V e = rotate(q, {1, 0, 0});
    sx_reach("direction");
    sx_assert(near({e.y * n[0], e.z * n[0], e.z * n[1]}, {e.x * n[1], e.x * z, e.y * z}) & (e.x * n[0] >= -1e-9) & (e.y * n[1] >= -1e-9) & (e.z * z >= -1e-9), "orientation_of_a_direction_points_along_it");
  } else {
    const double yaw = sx::real("yaw", -3.1, 3.1), k = sx::real("length", -8, 8);
    const auto q = convertEulerAngleToQuaternion(geometry_msgs::build<geometry_msgs::msg::Vector3>().x(0.0).y(0.0).z(yaw));
    const auto v = scalarToDirectionVector(k, q);
    sx_assert(near({v.x, v.y, v.z}, {k * std::cos(yaw), k * std::sin(yaw), 0}), "a_speed_points_along_the_heading");
  }
}
