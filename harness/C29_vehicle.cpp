/*SPEC
{
 "property": "C29",
 "src": ["external/concealer/src/autoware_universe.cpp", "external/concealer/src/path_with_lane_id.cpp", "external/concealer/src/publisher.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["rosnode", "ros", "msgs", "tf2"],
 "inc": ["external/concealer/include", "common/get_parameter/include", "common/math/geometry/include", "common/math/arithmetic/include"],
 "defs": ["EIGEN_DONT_VECTORIZE"],
 "force_include": ["vector", "string", "iomanip", "iostream", "functional", "optional", "cmath", "cstdint"],
 "sx_flags": ["-fno-access-control"], "nat_flags": ["-fno-access-control", "-U_GLIBCXX_ASSERTIONS"],
 "quick": {"time": 600},
 "bounds": {"quick": "any finite acceleration, position, angular velocity and command, a few velocities; the pose turned by 0, 90 or 180 degrees about an axis; commands received or not yet; 5 values of the architecture parameter; paths of up to 2 points with up to 2 lanes each; a request of any mode and a switch to manual, in both orders; each timer once or twice; with and without simulated localization; the spinner ends by itself, on request or by an exception", "thorough": "same"},
 "outside": "the middleware and the timers themselves; the reported pose in orientations other than these",
 "assumptions": ["publishers, subscriptions, services, timers, clock and the executor are stand-ins; no noise is configured; a normal distribution with deviation 0, which the standard leaves undefined and the parameters use for \"no noise\", gives its mean, as in libstdc++"],
 "witness": ["localization", "vehicle", "transform", "reverse", "autonomous", "manual", "refused", "no architecture", "failed"]
}
SPEC*/
#include <concealer/autoware_universe.hpp>

#include "sx.hpp"

namespace rclcpp
{
bool ok() { return sx_ros::world()->ok; }
}  // namespace rclcpp

extern "C" void sx_atomic_load(std::size_t n, const volatile void * p, void * r, int) __asm__("__atomic_load");
extern "C" void sx_atomic_store(std::size_t n, volatile void * p, void * v, int) __asm__("__atomic_store");
void sx_atomic_load(std::size_t n, const volatile void * p, void * r, int) { std::memcpy(r, const_cast<const void *>(p), n); }
void sx_atomic_store(std::size_t n, volatile void * p, void * v, int) { std::memcpy(const_cast<void *>(p), v, n); }

namespace
{
concealer::AutowareUniverse * vehicle = nullptr;
std::function<void()> body;
int started = 0, joined = 0;
}  // namespace

// the thread is run by the harness
namespace std
{
void thread::_M_start_thread(_State_ptr state, void (*)())
{
  ++started;
  std::shared_ptr<_State> s(state.release());
  body = [s]() { s->_M_run(); };
  _M_id = id(2);
}
void thread::join()
{
  ++joined;
  sx_assert(body == nullptr or vehicle->is_stop_requested.load(), "the_spinner_is_told_to_stop");
  if (body) body();
  body = nullptr;
  _M_id = id();
}
}  // namespace std

namespace
{
using namespace concealer;
double number(const char * n)
{
  const double x = sx_f64(n);
  sx_assume(-1e9 < x and x < 1e9);
  return x;
}
float number32(const char * n)
{
  const float x = sx_f32(n);
  sx_assume(-1e9f < x and x < 1e9f);
  return x;
}
bool same(const builtin_interfaces::msg::Time & a, const builtin_interfaces::msg::Time & b) { return a.sec == b.sec and a.nanosec == b.nanosec; }
template <typename V>
bool same3(const V & v, double x, double y, double z)
{
  return v.x == x and v.y == y and v.z == z;
}
}  // namespace

void sx_harness()
{
  sx_ros::World w;
  sx_ros::world() = &w;
  w.now = rclcpp::Time(std::int64_t(sx_bits("now", 40)), RCL_ROS_TIME);
  const builtin_interfaces::msg::Time now = w.now;
  const char * architectures[] = {"awf/universe/20240605", "awf/universe/20250130", "awf/universe/20250207", "", "something/else"};
  const int architecture = sx::pick("architecture", 0, 4);
  if (architecture) w.parameters["architecture_type"] = std::string(architectures[architecture]);
  // what is below the threshold is published as it is
  for (const char * t : {"/localization/kinematic_state", "/simulation/debug/localization/kinematic_state"}) {
    w.parameters[std::string(t) + ".nav_msgs::msg::Odometry.speed_threshold"] = 1e30;
  }
  const bool localization = sx::boolean("localization");
  std::unique_ptr<AutowareUniverse> u;
  bool thrown = false;
  try {
    u = std::make_unique<AutowareUniverse>(localization);
  } catch (...) {
    thrown = true;
  }
  if (architecture > 2) {
    sx_assert(thrown, "unknown_architectures_are_refused");
    sx_reach("no architecture");
    return;
  }
  sx_assert(not thrown and started == 1, "the_interface_starts");
  vehicle = u.get();

  const std::string a = localization ? "/localization/acceleration" : "/simulation/debug/localization/acceleration",
                    k = localization ? "/localization/kinematic_state" : "/simulation/debug/localization/kinematic_state",
                    p = localization ? "/simulation/debug/localization/pose_estimator/pose_with_covariance" : "/localization/pose_estimator/pose_with_covariance",
                    path = "/planning/scenario_planning/lane_driving/behavior_planning/path_with_lane_id";
  using sx_ros::published;
  auto fire = [&](int ms) {
    int n = 0;
    for (std::size_t i = 0; i < w.timers.size(); ++i) {
      if (w.timers[i].first == ms * 1000000LL) ++n, w.timers[i].second();
    }
    return n;
  };

  switch (sx::pick("what", 0, 4)) {
    case 0: {  // localization
      double v[15];
      const int speed = sx::pick("speed", 0, 2);
      for (int i = 0; i < 15; ++i) v[i] = 9 <= i and i < 12 ? speed * (i - 10.5) : number(sx::nm("v", i).c_str());
      geometry_msgs::msg::Accel accel;
      accel.linear.x = v[0], accel.linear.y = v[1], accel.linear.z = v[2], accel.angular.x = v[3], accel.angular.y = v[4], accel.angular.z = v[5];
      geometry_msgs::msg::Pose pose;
      pose.position.x = v[6], pose.position.y = v[7], pose.position.z = v[8];
      const double h = std::sqrt(0.5), turns[][4] = {{0, 0, 0, 1}, {0, 0, h, h}, {0, 0, 1, 0}, {h, 0, 0, h}, {0, -h, 0, h}};
      const double * q = turns[sx::pick("turn", 0, 4)];
      pose.orientation.x = q[0], pose.orientation.y = q[1], pose.orientation.z = q[2], pose.orientation.w = q[3];
      geometry_msgs::msg::Twist twist;
      twist.linear.x = v[9], twist.linear.y = v[10], twist.linear.z = v[11], twist.angular.x = v[12], twist.angular.y = v[13], twist.angular.z = v[14];
      fire(5);
      sx_assert(published<geometry_msgs::msg::TransformStamped>("/tf").empty(), "no_transform_before_the_first_pose");
      u->current_acceleration.store(accel);
      u->current_pose.store(pose);
      u->current_twist.store(twist);
      const int n = sx::pick("times", 1, 2);
      for (int i = 0; i < n; ++i) sx_assert(fire(20) == 1, "localization_is_published_at_50_hertz");
      for (const char * other : {"/localization/acceleration", "/simulation/debug/localization/acceleration"}) sx_assert(w.publishers.count(other) == (other == a), "what_is_simulated_is_published_for_use");
      auto & as = published<geometry_msgs::msg::AccelWithCovarianceStamped>(a);
      auto & ks = published<nav_msgs::msg::Odometry>(k);
      auto & ps = published<geometry_msgs::msg::PoseWithCovarianceStamped>(p);
      sx_assert((int)as.size() == n and (int)ks.size() == n and (int)ps.size() == n, "localization_is_published_at_50_hertz");
      sx_assert(same(as.back().header.stamp, now) and same(ks.back().header.stamp, now) and same(ps.back().header.stamp, now), "messages_have_the_current_time");
      sx_assert(same3(as.back().accel.accel.linear, v[0], v[1], v[2]) and same3(as.back().accel.accel.angular, v[3], v[4], v[5]), "acceleration_is_reported_as_it_is");
      sx_assert(ks.back().header.frame_id == "map" and same3(ks.back().pose.pose.position, v[6], v[7], v[8]) and same3(ks.back().pose.pose.orientation, q[0], q[1], q[2]) and ks.back().pose.pose.orientation.w == q[3], "pose_is_reported_as_it_is");
      sx_assert(same3(ks.back().twist.twist.linear, v[9], v[10], v[11]) and same3(ks.back().twist.twist.angular, v[12], v[13], v[14]), "twist_is_reported_as_it_is");
      for (int i = 0; i < 36; ++i) {
        sx_assert(ks.back().pose.covariance[i] == 0 and ks.back().twist.covariance[i] == 0 and ps.back().pose.covariance[i] == 0, "no_noise_no_covariance");
        sx_assert(as.back().accel.covariance[i] == (i % 7 ? 0 : 0.001), "covariance_is_on_the_diagonal");
      }
      const auto & o = ps.back().pose.pose.orientation;
      sx_assert(ps.back().header.frame_id == "map" and same3(ps.back().pose.pose.position, v[6], v[7], v[8]), "pose_is_reported_as_it_is");
      sx_assert(std::abs(o.x * q[0] + o.y * q[1] + o.z * q[2] + o.w * q[3]) > 1 - 1e-9, "pose_is_reported_as_it_is");
      sx_reach("localization");
      const bool moved = sx::boolean("moved");
      if (moved) {
        pose.position.x = v[0];
        u->current_pose.store(pose);
        fire(20);
      }
      sx_assert(fire(5) == 1, "the_transform_is_sent_at_200_hertz");
      auto & ts = published<geometry_msgs::msg::TransformStamped>("/tf");
      sx_assert(ts.size() == 1, "the_transform_is_sent_at_200_hertz");
      sx_assert(ts[0].header.frame_id == "map" and ts[0].child_frame_id == (localization ? "base_link" : "base_link_ground_truth") and same(ts[0].header.stamp, now), "the_transform_is_from_the_map_to_the_vehicle");
      sx_assert(same3(ts[0].transform.translation, moved ? v[0] : v[6], v[7], v[8]) and same3(ts[0].transform.rotation, q[0], q[1], q[2]) and ts[0].transform.rotation.w == q[3], "the_transform_is_the_pose");
      sx_reach("transform");
      break;
    }
    case 1: {  // vehicle
      const bool control_known = sx::boolean("control known"), gear_known = sx::boolean("gear known"), turn_known = sx::boolean("turn known");
      const float velocity = number32("velocity"), acceleration = number32("acceleration"), angle = number32("angle");
      const int gear = sx_bits("gear", 8), turn = sx_bits("turn", 8);
      if (control_known) {
        for (int last = 0; last < 2; ++last) {  // the last one counts
          autoware_control_msgs::msg::Control m;
          m.longitudinal.velocity = last ? velocity : 1, m.longitudinal.acceleration = last ? acceleration : 2, m.lateral.steering_tire_angle = last ? angle : 3;
          sx_ros::publish("/control/command/control_cmd", m);
        }
      }
      if (gear_known) {
        autoware_vehicle_msgs::msg::GearCommand m;
        m.command = gear;
        sx_ros::publish("/control/command/gear_cmd", m);
      }
      if (turn_known) {
        autoware_vehicle_msgs::msg::TurnIndicatorsCommand m;
        m.command = turn;
        sx_ros::publish("/control/command/turn_indicators_cmd", m);
      }
      geometry_msgs::msg::Twist twist;
      twist.linear.x = sx::pick("forward", -1, 1) * 12.25, twist.linear.y = sx::pick("aside", -1, 1) * 0.1, twist.angular.z = number("rate");
      u->current_twist.store(twist);
      const auto [v, acc, steer, sign, g] = u->getVehicleCommand();
      sx_assert(v == (control_known ? velocity : 0) and acc == (control_known ? acceleration : 0) and steer == (control_known ? angle : 0), "commands_are_passed_on_as_they_are");
      const int expected = gear_known ? gear : 0;
      sx_assert(g == expected, "commands_are_passed_on_as_they_are");
      sx_assert(sign == (expected == 0 ? 0 : expected == 20 or expected == 21 ? -1 : 1), "the_sign_is_that_of_the_gear");
      sx_reach_if(sign < 0, "reverse");
      sx_assert(fire(33) == 1, "vehicle_states_are_published_at_30_hertz");
      auto & m = published<autoware_vehicle_msgs::msg::ControlModeReport>("/vehicle/status/control_mode");
      auto & gs = published<autoware_vehicle_msgs::msg::GearReport>("/vehicle/status/gear_status");
      auto & ss = published<autoware_vehicle_msgs::msg::SteeringReport>("/vehicle/status/steering_status");
      auto & vs = published<autoware_vehicle_msgs::msg::VelocityReport>("/vehicle/status/velocity_status");
      auto & ts = published<autoware_vehicle_msgs::msg::TurnIndicatorsReport>("/vehicle/status/turn_indicators_status");
      sx_assert(m.size() == 1 and gs.size() == 1 and ss.size() == 1 and vs.size() == 1 and ts.size() == 1, "vehicle_states_are_published_at_30_hertz");
      sx_assert(same(gs[0].stamp, now) and same(ss[0].stamp, now) and same(vs[0].header.stamp, now) and same(ts[0].stamp, now), "messages_have_the_current_time");
      sx_assert(m[0].mode == 1, "the_mode_is_autonomous_at_first");
      sx_assert(gs[0].report == expected, "the_gear_is_the_one_commanded");
      sx_assert(ss[0].steering_tire_angle == (control_known ? angle : 0), "the_angle_is_the_one_commanded");
      sx_assert(vs[0].header.frame_id == "base_link" and vs[0].longitudinal_velocity == (float)twist.linear.x and vs[0].lateral_velocity == (float)twist.linear.y and vs[0].heading_rate == (float)twist.angular.z, "twist_is_reported_as_it_is");
      sx_assert(ts[0].report == (turn_known and turn != 0 ? turn : 1), "the_indicators_are_the_ones_commanded");
      sx_reach("vehicle");
      break;
    }
    case 2: {  // mode
      bool manual = false;
      for (int i = 0; i < 3; ++i) {
        const int step = sx::pick(sx::nm("step", i), 0, 2);
        if (step == 1) u->setManualMode(), manual = true;
        if (step == 2) {
          autoware_vehicle_msgs::srv::ControlModeCommand::Request q;
          autoware_vehicle_msgs::srv::ControlModeCommand::Response r;
          q.mode = sx_bits(sx::nm("mode", i).c_str(), 8);
          r.success = sx::boolean("before");
          sx_ros::call<autoware_vehicle_msgs::srv::ControlModeCommand>("/control/control_mode_request", q, r);
          sx_assert(r.success == (q.mode == 1), "only_autonomous_can_be_requested");
          if (q.mode == 1) manual = false;
          sx_reach_if(q.mode != 1, "refused");
        }
        sx_assert(u->getControlModeReport().mode == (manual ? 4 : 1), "the_mode_is_the_last_one_set");
      }
      fire(33);
      sx_assert(published<autoware_vehicle_msgs::msg::ControlModeReport>("/vehicle/status/control_mode").back().mode == (manual ? 4 : 1), "the_mode_is_the_last_one_set");
      sx_reach(manual ? "manual" : "autonomous");
      break;
    }
    case 3: {  // route
      sx_assert(u->getRouteLanelets().empty(), "no_path_no_lanelets");
      std::vector<std::int64_t> ids;
      auto fill = [&](auto m) {
        const int n = sx::pick("points", 0, 2);
        for (int i = 0; i < n; ++i) {
          m.points.emplace_back();
          const int l = sx::pick(sx::nm("lanes", i), 0, 2);
          for (int j = 0; j < l; ++j) {
            ids.push_back((std::int64_t)sx_bits(sx::nm("id", 2 * i + j).c_str(), 64));
            m.points.back().lane_ids.push_back(ids.back());
          }
        }
        sx_ros::publish(path, m);
      };
      if (architecture == 0) fill(tier4_planning_msgs::msg::PathWithLaneId());
      else fill(autoware_internal_planning_msgs::msg::PathWithLaneId());
      sx_assert(u->getRouteLanelets() == ids, "the_lanelets_are_those_of_the_path");
      break;
    }
    case 4: {  // spinner
      u->rethrow();
      int spins = 0;
      const int end = sx::pick("end", 0, 2), when = sx::pick("when", 1, 3);
      struct Failure
      {
        int number;
      };
      w.spun = [&]() {
        if (++spins == when) {
          if (end == 0) w.ok = false;
          if (end == 1) u->is_stop_requested.store(true);
          if (end == 2) throw Failure{when};
        }
        sx_assert(spins <= when, "the_spinner_ends");
      };
      try {
        body();
      } catch (...) {
        sx_assert(false, "exceptions_do_not_leave_the_thread");
      }
      body = nullptr;
      sx_assert(spins == when, "messages_are_handled_until_the_end");
      for (int i = 0; i < 2; ++i) {
        int caught = 0;
        try {
          u->rethrow();
        } catch (const Failure & f) {
          caught = f.number;
        } catch (...) {
          caught = -1;
        }
        sx_assert(caught == (end == 2 ? when : 0), "failures_are_reported_as_they_are");
      }
      sx_reach_if(end == 2, "failed");
      break;
    }
  }
  w.spun = [&]() { sx_assert(not vehicle->is_stop_requested.load(), "the_spinner_ends"); };
  u.reset();
  sx_assert(joined == 1, "the_spinner_is_awaited");
}
