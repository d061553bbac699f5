/*SPEC
{
 "property": "C29",
 "src": ["external/concealer/src/publisher.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["rosnode", "ros", "msgs", "tf2"],
 "inc": ["external/concealer/include", "common/get_parameter/include", "common/math/geometry/include", "common/math/arithmetic/include"],
 "defs": ["EIGEN_DONT_VECTORIZE"],
 "force_include": ["vector", "string", "iomanip", "iostream", "functional", "optional", "cmath", "cstdint"],
 "sx_flags": ["-fno-access-control"], "nat_flags": ["-fno-access-control", "-U_GLIBCXX_ASSERTIONS"],
 "quick": {"time": 600},
 "bounds": {"quick": "each of the 4 noisy messages; any finite values of its fields (velocities with a threshold and positions of a turned vehicle: a few values), any subset of two groups of errors with fixed distinct means and deviation 0, or all with deviations; the orientation none, turned by 90 degrees for positions; any seed of 32 bits", "thorough": "same"},
 "outside": "the distribution of the noise; errors of orientation on top of another orientation",
 "assumptions": ["parameters and publishers are stand-ins; a normal distribution with deviation 0, which the standard leaves undefined, gives its mean, as in libstdc++"],
 "witness": ["odometry", "velocity", "pose", "imu", "below", "silent", "refused seed", "repeated"]
}
SPEC*/
#include <concealer/publisher.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "sx.hpp"

namespace rclcpp
{
bool ok() { return sx_ros::world()->ok; }
}  // namespace rclcpp

namespace
{
using namespace concealer;
using sx_ros::published;
sx_ros::World * w;
int errors = 0;
bool additive, multiplicative;
double deviation = 0;

double number(const std::string & n)
{
  const double x = sx_f64(n.c_str());
  sx_assume(-1e9 < x and x < 1e9);
  return x;
}
struct Error
{
  double a, m;
  template <typename T>
  T of(T x) const
  {
    return x * ((T)m + (T)1) + (T)a;
  }
};
// configures the error with means of its own
Error error(const std::string & prefix)
{
  ++errors;
  const Error e{additive ? errors / 64.0 : 0, multiplicative ? errors / 8.0 : 0};
  w->parameters[prefix + ".additive.mean"] = e.a;
  w->parameters[prefix + ".multiplicative.mean"] = e.m;
  w->parameters[prefix + ".additive.standard_deviation"] = deviation;
  w->parameters[prefix + ".multiplicative.standard_deviation"] = deviation;
  return e;
}
template <typename V>
bool same3(const V & v, double x, double y, double z)
{
  return v.x == x and v.y == y and v.z == z;
}
struct Q
{
  double w, x, y, z;
  Q operator*(const Q & r) const { return {w * r.w - x * r.x - y * r.y - z * r.z, w * r.x + x * r.w + y * r.z - z * r.y, w * r.y - x * r.z + y * r.w + z * r.x, w * r.z + x * r.y - y * r.x + z * r.w}; }
};
Q about(int axis, double angle) { return {std::cos(angle / 2), axis == 0 ? std::sin(angle / 2) : 0, axis == 1 ? std::sin(angle / 2) : 0, axis == 2 ? std::sin(angle / 2) : 0}; }
template <typename V>
bool turned(const V & v, const Q & q)
{
  return std::abs(v.w * q.w + v.x * q.x + v.y * q.y + v.z * q.z) > 1 - 1e-9;
}
}  // namespace

void sx_harness()
{
  sx_ros::World world;
  sx_ros::world() = w = &world;
  errors = 0;
  rclcpp::Node node("noise");
  const int what = sx::pick("what", 0, 5);
  const double h = std::sqrt(0.5);
  if (what == 4) {  // seeds
    const int seed = (int)sx_bits("seed", 32);
    world.parameters["t.seed"] = seed;
    bool refused = false;
    try {
      Publisher<autoware_vehicle_msgs::msg::VelocityReport, NormalDistribution> p("t", node);
      sx_assert(p.getRandomizer().seed == (unsigned)seed, "the_seed_is_the_one_given");
    } catch (const common::Error &) {
      refused = true;
    }
    sx_assert(refused == (seed < 0), "seeds_out_of_range_are_refused");
    sx_reach_if(refused, "refused seed");
    return;
  }
  if (what == 5) {  // deviations: repeatable and independent of each other
    deviation = 0.25;
    const std::string n = ".autoware_vehicle_msgs::msg::VelocityReport.";
    const int seed = (int)sx::pick("seed", 1, 4) * 1000;
    for (const char * t : {"a", "b"}) {
      world.parameters[std::string(t) + ".seed"] = seed;
      for (const char * f : {"longitudinal_velocity", "lateral_velocity", "heading_rate"}) error(t + n + f + ".error");
    }
    Publisher<autoware_vehicle_msgs::msg::VelocityReport, NormalDistribution> a("a", node), b("b", node);
    autoware_vehicle_msgs::msg::VelocityReport m;
    m.longitudinal_velocity = sx::pick("velocity", -1, 1), m.lateral_velocity = 0, m.heading_rate = 2;
    for (int i = 0; i < 3; ++i) a(m), b(m);
    auto & x = published<autoware_vehicle_msgs::msg::VelocityReport>("a");
    auto & y = published<autoware_vehicle_msgs::msg::VelocityReport>("b");
    for (int i = 0; i < 3; ++i) {
      sx_assert(x[i].longitudinal_velocity == y[i].longitudinal_velocity and x[i].lateral_velocity == y[i].lateral_velocity and x[i].heading_rate == y[i].heading_rate, "the_same_seed_gives_the_same_noise");
      sx_assert(x[i].longitudinal_velocity != m.longitudinal_velocity and x[i].lateral_velocity != 0 and x[i].heading_rate != 2, "a_deviation_makes_noise");
      sx_assert(not i or (x[i].lateral_velocity != x[i - 1].lateral_velocity and x[i].heading_rate != x[i - 1].heading_rate), "a_deviation_makes_noise");
    }
    sx_reach("repeated");
    return;
  }
  additive = sx::pick("additive", 0, 1), multiplicative = sx::pick("multiplicative", 0, 1);
  const bool turn = sx::pick("turn", 0, 1);  // by 90 degrees about z
  if (what == 0) {
    const std::string n = "/k.nav_msgs::msg::Odometry.";
    Error position[3], linear[3], angular[3];
    for (int i = 0; i < 3; ++i) position[i] = error(n + "pose.pose.position.local_" + "xyz"[i] + ".error");
    const bool keep = sx::pick("keep", 0, 1);  // no errors of orientation
    additive = additive and not keep;
    Error orientation[3];
    for (int i = 0; i < 3; ++i) orientation[i] = error(n + "pose.pose.orientation." + "rpy"[i] + ".error");
    for (int i = 0; i < 3; ++i) linear[i] = error(n + "twist.twist.linear." + "xyz"[i] + ".error");
    for (int i = 0; i < 3; ++i) angular[i] = error(n + "twist.twist.angular." + "xyz"[i] + ".error");
    const double threshold = sx::pick("threshold", 0, 2) * 1.5;
    world.parameters[n + "speed_threshold"] = threshold;
    world.parameters["/k.seed"] = 1;
    Publisher<nav_msgs::msg::Odometry, NormalDistribution> p("/k", node);
    nav_msgs::msg::Odometry m;
    m.header.frame_id = "map";
    double v[9];
    for (int i = 0; i < 6; ++i) v[i] = turn and i < 3 ? (i + 1) * 1.25 : number(sx::nm("v", i));
    const int axis = sx::pick("axis", 0, 2), speed = sx::pick("speed", -1, 2);
    for (int i = 0; i < 3; ++i) v[6 + i] = i == axis ? speed * 1.5 : 0;
    m.pose.pose.position.x = v[0], m.pose.pose.position.y = v[1], m.pose.pose.position.z = v[2];
    m.twist.twist.angular.x = v[3], m.twist.twist.angular.y = v[4], m.twist.twist.angular.z = v[5];
    m.twist.twist.linear.x = v[6], m.twist.twist.linear.y = v[7], m.twist.twist.linear.z = v[8];
    m.pose.pose.orientation.w = turn ? h : 1, m.pose.pose.orientation.z = turn ? h : 0;
    p(m);
    const auto & r = published<nav_msgs::msg::Odometry>("/k").at(0);
    const bool below = std::abs(speed * 1.5) < threshold;
    const Error none{0, 0};
    const double dx = below ? 0 : position[0].a, dy = below ? 0 : position[1].a, dz = below ? 0 : position[2].a;
    const auto & o = r.pose.pose.position;
    auto near = [&](double a, double b, double d) { return turn ? std::abs(b + d - a) < 1e-9 : a == b + d; };
    sx_assert(near(o.x, v[0], turn ? -dy : dx) and near(o.y, v[1], turn ? dx : dy) and near(o.z, v[2], dz), "the_error_of_the_position_is_that_of_the_vehicle");
    if (below) sx_assert(same3(o, v[0], v[1], v[2]), "below_the_threshold_nothing_changes");
    auto e = [&](const Error & x) { return below ? none : x; };
    auto keeps = [&](const Error & x, double value) { return below ? value : x.of(value); };
    sx_assert(same3(r.twist.twist.linear, keeps(linear[0], v[6]), keeps(linear[1], v[7]), keeps(linear[2], v[8])), "each_value_has_its_own_error");
    sx_assert(same3(r.twist.twist.angular, keeps(angular[0], v[3]), keeps(angular[1], v[4]), keeps(angular[2], v[5])), "each_value_has_its_own_error");
    if (not turn) sx_assert(turned(r.pose.pose.orientation, about(0, e(orientation[0]).a) * about(1, e(orientation[1]).a) * about(2, e(orientation[2]).a)), "the_error_of_the_orientation_is_added");
    else if (not multiplicative and (below or (keep or not additive))) sx_assert(turned(r.pose.pose.orientation, Q{h, 0, 0, h}), "the_error_of_the_orientation_is_added");
    sx_assert(r.header.frame_id == "map", "the_rest_is_unchanged");
    for (int i = 0; i < 36; ++i) sx_assert(r.pose.covariance[i] == 0 and r.twist.covariance[i] == 0, "the_rest_is_unchanged");
    sx_reach("odometry");
    sx_reach_if(below, "below");
  } else if (what == 1) {
    const std::string n = "/v.autoware_vehicle_msgs::msg::VelocityReport.";
    const Error longitudinal = error(n + "longitudinal_velocity.error"), lateral = error(n + "lateral_velocity.error"), rate = error(n + "heading_rate.error");
    const double threshold = sx::pick("threshold", 0, 2) * 1.5;
    world.parameters[n + "speed_threshold"] = threshold;
    world.parameters["/v.seed"] = 0;
    Publisher<autoware_vehicle_msgs::msg::VelocityReport, NormalDistribution> p("/v", node);
    autoware_vehicle_msgs::msg::VelocityReport m;
    m.header.frame_id = "base_link";
    const int speed = sx::pick("speed", -1, 2);
    const bool aside = sx::pick("aside", 0, 1);
    m.longitudinal_velocity = aside ? 0 : speed * 1.5, m.lateral_velocity = aside ? speed * 1.5 : 0, m.heading_rate = (float)sx_f32("rate");
    sx_assume(-1e9f < m.heading_rate and m.heading_rate < 1e9f);
    p(m);
    const auto & r = published<autoware_vehicle_msgs::msg::VelocityReport>("/v").at(0);
    const bool below = std::abs(speed * 1.5) < threshold;
    sx_assert(r.longitudinal_velocity == (below ? m.longitudinal_velocity : longitudinal.of(m.longitudinal_velocity)), "each_value_has_its_own_error");
    sx_assert(r.lateral_velocity == (below ? m.lateral_velocity : lateral.of(m.lateral_velocity)), "each_value_has_its_own_error");
    sx_assert(r.heading_rate == (below ? m.heading_rate : rate.of(m.heading_rate)), "each_value_has_its_own_error");
    sx_assert(r.header.frame_id == "base_link", "the_rest_is_unchanged");
    sx_reach("velocity");
    sx_reach_if(below, "below");
  } else if (what == 2) {
    const std::string n = "/p.geometry_msgs::msg::PoseWithCovarianceStamped.pose.";
    Error position[3], orientation[3], covariance[6];
    for (int i = 0; i < 3; ++i) position[i] = error(n + "pose.position.local_" + "xyz"[i] + ".error");
    for (int i = 0; i < 3; ++i) orientation[i] = error(n + "pose.orientation." + "rpy"[i] + ".error");
    const char * names[] = {"x_x", "y_y", "z_z", "roll_roll", "pitch_pitch", "yaw_yaw"};
    for (int i = 0; i < 6; ++i) covariance[i] = error(n + "covariance." + names[i] + ".error");
    world.parameters["/p.seed"] = 1;
    Publisher<geometry_msgs::msg::PoseWithCovarianceStamped, NormalDistribution> p("/p", node);
    geometry_msgs::msg::PoseWithCovarianceStamped m;
    m.header.frame_id = "map";
    double v[3];
    for (int i = 0; i < 3; ++i) v[i] = turn ? (i + 1) * 1.25 : number(sx::nm("v", i));
    m.pose.pose.position.x = v[0], m.pose.pose.position.y = v[1], m.pose.pose.position.z = v[2];
    m.pose.pose.orientation.w = turn ? h : 1, m.pose.pose.orientation.z = turn ? h : 0;
    p(m);
    const auto & r = published<geometry_msgs::msg::PoseWithCovarianceStamped>("/p").at(0);
    auto near = [&](double a, double b, double d) { return turn ? std::abs(b + d - a) < 1e-9 : a == b + d; };
    const auto & o = r.pose.pose.position;
    const double dx = position[0].a, dy = position[1].a, dz = position[2].a;
    sx_assert(near(o.x, v[0], turn ? -dy : dx) and near(o.y, v[1], turn ? dx : dy) and near(o.z, v[2], dz), "the_error_of_the_position_is_that_of_the_vehicle");
    const Q before = turn ? Q{h, 0, 0, h} : Q{1, 0, 0, 0};
    sx_assert(turned(r.pose.pose.orientation, before * about(2, orientation[2].a) * about(1, orientation[1].a) * about(0, orientation[0].a)), "the_error_of_the_orientation_is_added");
    for (int i = 0; i < 36; ++i) sx_assert(r.pose.covariance[i] == (i % 7 ? 0 : covariance[i / 7].a), "each_value_has_its_own_error");
    sx_assert(r.header.frame_id == "map", "the_rest_is_unchanged");
    sx_reach("pose");
  } else {
    const std::string n = "/i.sensor_msgs::msg::Imu.";
    const char *axes = "xyz", *angles[] = {"roll_roll", "pitch_pitch", "yaw_yaw"}, *squares[] = {"x_x", "y_y", "z_z"};
    Error angular[3], linear[3], orientation[3], co[3], ca[3], cl[3];
    for (int i = 0; i < 3; ++i) {
      orientation[i] = error(n + "orientation." + "rpy"[i] + ".error");
      angular[i] = error(n + "angular_velocity." + axes[i] + ".error");
      linear[i] = error(n + "linear_acceleration." + axes[i] + ".error");
      co[i] = error(n + "orientation_covariance." + angles[i] + ".error");
      ca[i] = error(n + "angular_velocity_covariance." + squares[i] + ".error");
      cl[i] = error(n + "linear_acceleration_covariance." + squares[i] + ".error");
    }
    world.parameters["/i.seed"] = 1;
    Publisher<sensor_msgs::msg::Imu, NormalDistribution> p("/i", node);
    sensor_msgs::msg::Imu m;
    m.header.frame_id = "imu";
    double v[6];
    for (int i = 0; i < 6; ++i) v[i] = number(sx::nm("v", i));
    m.angular_velocity.x = v[0], m.angular_velocity.y = v[1], m.angular_velocity.z = v[2];
    m.linear_acceleration.x = v[3], m.linear_acceleration.y = v[4], m.linear_acceleration.z = v[5];
    m.orientation.w = 1;
    for (int i = 0; i < 9; ++i) m.orientation_covariance[i] = m.angular_velocity_covariance[i] = m.linear_acceleration_covariance[i] = 7;
    p.getRandomizer().active = not turn;
    p(m);
    const auto & r = published<sensor_msgs::msg::Imu>("/i").at(0);
    if (turn) {
      sx_assert(same3(r.angular_velocity, v[0], v[1], v[2]) and same3(r.linear_acceleration, v[3], v[4], v[5]) and same3(r.orientation, 0, 0, 0), "switched_off_nothing_changes");
      sx_reach("silent");
    } else {
      sx_assert(same3(r.angular_velocity, angular[0].of(v[0]), angular[1].of(v[1]), angular[2].of(v[2])), "each_value_has_its_own_error");
      sx_assert(same3(r.linear_acceleration, linear[0].of(v[3]), linear[1].of(v[4]), linear[2].of(v[5])), "each_value_has_its_own_error");
      sx_assert(turned(r.orientation, about(2, orientation[2].a) * about(1, orientation[1].a) * about(0, orientation[0].a)), "the_error_of_the_orientation_is_added");
      sx_reach("imu");
    }
    for (int i = 0; i < 9; ++i) {
      const bool set = not turn and i % 4 == 0;
      sx_assert(r.orientation_covariance[i] == (set ? co[i / 4].a : 7) and r.angular_velocity_covariance[i] == (set ? ca[i / 4].a : 7) and r.linear_acceleration_covariance[i] == (set ? cl[i / 4].a : 7), "each_value_has_its_own_error");
    }
    sx_assert(r.header.frame_id == "imu", "the_rest_is_unchanged");
  }
}
