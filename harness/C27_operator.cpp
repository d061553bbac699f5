/*SPEC
{
 "property": "C27",
 "src": ["external/concealer/src/{field_operator_application,is_package_exists,path_with_lane_id}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["rosnode", "ros", "msgs", "tf2"],
 "inc": ["external/concealer/include", "common/get_parameter/include"],
 "force_include": ["vector", "string", "iomanip", "iostream", "functional", "unordered_map", "algorithm", "random", "atomic", "thread", "optional"],
 "sx_flags": ["-fno-access-control"],
 "nat_flags": ["-fno-access-control"],
 "quick": {"time": 600},
 "bounds": {"quick": "initializing, planning and engaging one after the other from the start, Autoware staying in its state or stepping to the next at every second, with 3 or 6 s for it; each of these alone from each state; planning again after arrival; cooperation with up to 2 statuses with arbitrary modules, commands, 2 identifiers and 3 distances, twice in a row; every name of a module; every state and behaviour of the minimum risk maneuver up to 7", "thorough": "up to 7 s"},
 "outside": "states that Autoware jumps to; the other form of a route with segments is checked by its contents only; answers of Autoware that fail (C27_service)",
 "assumptions": ["the queue of tasks runs them one after the other (C25); subscriptions, clients and time are stand-ins"],
 "witness": ["engaged", "timed out", "initialized", "planned", "refused", "arrived", "cooperated", "no status", "auto mode", "no such module", "mrm", "emergency", "segments"]
}
SPEC*/
#include <concealer/field_operator_application.hpp>

#include "sx.hpp"

namespace rclcpp
{
bool ok() { return sx_ros::world()->ok; }
}  // namespace rclcpp
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(nanoseconds(sx_ros::world()->steady)); }

// a queue whose tasks the harness runs
namespace concealer
{
TaskQueue::TaskQueue() : finalized{false}, thrown{nullptr} {}
TaskQueue::~TaskQueue() {}
auto TaskQueue::empty() const -> bool { return thunks.empty(); }
auto TaskQueue::front() const -> Thunk { return thunks.front(); }
auto TaskQueue::pop() -> void { thunks.pop(); }
auto TaskQueue::rethrow() const -> void
{
  if (thrown) std::rethrow_exception(thrown);
}
}  // namespace concealer

using namespace concealer;
using State = LegacyAutowareState;
using namespace autoware_adapi_v1_msgs::srv;

namespace
{
void run(FieldOperatorApplication & a)
{
  auto & q = a.task_queue;
  try {
    while (not q.thrown and not q.empty()) {
      q.front()();
      q.pop();
    }
  } catch (...) {
    q.thrown = std::current_exception();
  }
}
template <typename F>
bool autoware_error(F f)
{
  try {
    f();
  } catch (const common::AutowareError &) {
    return true;
  }
  return false;
}

struct Autoware
{
  sx_ros::World & w;
  int state = State::undefined;
  bool posed = false, routed = false, engaged = false;
  int steps = 0;
  bool still = false;
  std::vector<std::string> requests;
  std::vector<int> states;  // at the requests
  InitializeLocalization::Request pose;
  SetRoutePoints::Request points;
  SetRoute::Request segments;
  tier4_external_api_msgs::srv::Engage::Request engage;

  template <typename T, typename F>
  void serve(const std::string & name, F f)
  {
    sx_ros::respond<T>(name, [this, name, f](const auto & request, auto & response) {
      requests.push_back(name);
      states.push_back(state);
      f(request, response);
      return true;
    });
  }
  explicit Autoware(sx_ros::World & w) : w(w)
  {
    auto ok = [](auto & response) { response.status.success = true; };
    serve<ChangeOperationMode>("/api/operation_mode/change_to_stop", [=](auto &, auto & r) { ok(r); });
    serve<ChangeOperationMode>("/api/operation_mode/enable_autoware_control", [=](auto &, auto & r) { ok(r); });
    serve<ClearRoute>("/api/routing/clear_route", [=](auto &, auto & r) { ok(r); });
    serve<InitializeLocalization>("/api/localization/initialize", [=](auto & q, auto & r) { ok(r), pose = q, posed = true; });
    serve<SetRoutePoints>("/api/routing/set_route_points", [=](auto & q, auto & r) { ok(r), points = q, routed = true; });
    serve<SetRoute>("/api/routing/set_route", [=](auto & q, auto & r) { ok(r), segments = q, routed = true; });
    serve<tier4_external_api_msgs::srv::Engage>("/api/external/set/engage", [=](auto & q, auto & r) { r.status.code = tier4_external_api_msgs::msg::ResponseStatus::SUCCESS, engage = q, engaged = true; });
    w.passed = [this] {
      if (not still and possible() and sx::boolean(sx::nm("step", steps++))) set(state == State::arrived_goal ? State::waiting_for_route : state + 1);
    };
  }
  bool possible() const
  {
    switch (state) {
      case State::initializing: return posed;
      case State::waiting_for_route: return routed;
      case State::waiting_for_engage: return engaged;
      case State::driving: return false;
      default: return true;
    }
  }
  void set(int s)
  {
    state = s;
    using namespace autoware_adapi_v1_msgs::msg;
    LocalizationInitializationState l;
    RouteState r;
    OperationModeState m;
    l.state = s == State::initializing ? LocalizationInitializationState::UNINITIALIZED : s == State::undefined ? 77 : LocalizationInitializationState::INITIALIZED;
    r.state = s == State::arrived_goal ? RouteState::ARRIVED : s <= State::waiting_for_route ? RouteState::UNSET : RouteState::SET;
    m.mode = s == State::driving ? OperationModeState::AUTONOMOUS : OperationModeState::STOP;
    m.is_autoware_control_enabled = s == State::driving;
    m.is_autonomous_mode_available = s >= State::waiting_for_engage;
    sx_ros::publish("/api/localization/initialization_state", l);
    sx_ros::publish("/api/routing/state", r);
    sx_ros::publish("/api/operation_mode/state", m);
  }
  int at(const std::string & name) const  // the state when it was requested
  {
    int result = -1;
    for (std::size_t i = 0; i < requests.size(); ++i)
      if (requests[i] == name) result = states[i];
    return result;
  }
  int count(const std::string & name) const { return std::count(requests.begin(), requests.end(), name); }
};
const std::string initialize = "/api/localization/initialize", set_route_points = "/api/routing/set_route_points", set_route = "/api/routing/set_route", set_engage = "/api/external/set/engage";

double number(const std::string & name) { return (int)sx_bits(name.c_str(), 16); }
geometry_msgs::msg::Pose pose(const char * name)
{
  geometry_msgs::msg::Pose p;
  p.position.x = number(name);
  p.orientation.w = 0.5;
  return p;
}
bool same(const geometry_msgs::msg::Pose & l, const geometry_msgs::msg::Pose & r) { return (l.position.x == r.position.x) & (l.position.y == r.position.y) & (l.orientation.w == r.orientation.w) & (l.orientation.z == r.orientation.z); }
}  // namespace

void sx_harness()
{
  sx_ros::World w;
  sx_ros::world() = &w;
  const int limit = sx::boolean("longer") ? sx_tier() ? 7 : 6 : 3;
  w.parameters["initialize_duration"] = limit;
  w.parameters["initialize_localization"] = 1;
  Autoware autoware(w);
  FieldOperatorApplication user(0);
  const auto start = geometry_msgs::msg::Pose(), goal = geometry_msgs::msg::Pose();
  const int what = sx::pick("what", 0, 7);
  if (what and limit != 3) return;
  if (what < 3) run(user), sx_assert(autoware.count("/api/operation_mode/change_to_stop") == 1 and autoware.requests.size() == 1, "autoware_is_stopped_first"), autoware.requests.clear(), autoware.states.clear();
  switch (what) {
    case 0: {
      autoware.set(State::undefined);
      sx_assert(not user.engaged() and not user.engageable(), "it_is_engaged_only_while_driving");
      const auto p = pose("start"), g = pose("goal"), v = pose("via");
      const bool again = limit == 3 and sx::boolean("initialize again");
      user.initialize(p);
      if (again) user.initialize(g);
      FieldOperatorApplication::RouteOption option;
      option.allow_goal_modification = sx_bits("option", 1);
      user.plan(g, std::vector<geometry_msgs::msg::Pose>{v}, option);
      sx_assert(not user.engageable(), "it_is_engageable_only_when_all_tasks_are_done");
      user.engage();
      sx_assert(not user.engaged(), "it_is_engaged_only_when_all_tasks_are_done");
      run(user);
      const std::vector<std::string> all = {initialize, set_route_points, set_engage};
      sx_assert(autoware.requests.size() <= 3, "everything_is_requested_once_and_in_order");
      for (std::size_t i = 0; i < autoware.requests.size() and i < 3; ++i) sx_assert(autoware.requests[i] == all[i], "everything_is_requested_once_and_in_order");
      sx_assert(autoware.at(initialize) <= State::initializing, "the_initial_pose_is_sent_before_localization");
      if (autoware.count(set_route_points)) sx_assert(autoware.at(set_route_points) == State::waiting_for_route, "a_route_is_sent_only_when_autoware_waits_for_one");
      if (autoware.count(set_engage)) sx_assert(autoware.at(set_engage) == State::waiting_for_engage, "autoware_is_engaged_only_when_it_waits_for_that");
      const bool failed = autoware_error([&] { user.engaged(); });
      sx_assert(failed == autoware_error([&] { user.engageable(); }) and failed == autoware_error([&] { user.spinSome(); }), "failures_are_reported_by_the_next_use");
      if (not failed) {
        sx_reach("engaged");
        sx_assert(autoware.state == State::driving and user.engaged() and not user.engageable() and autoware.requests.size() == 3, "it_is_engaged_only_while_driving");
        sx_assert(autoware.engage.engage, "everything_is_requested_once_and_in_order");
      } else {
        sx_reach("timed out");
        sx_assert(w.steady - 1 >= limit * 1000000000LL and w.steady - 1 < (limit + 1) * 1000000000LL, "autoware_gets_exactly_the_given_time");
      }
      if (autoware.count(initialize)) {
        const auto & r = autoware.pose;
        sx_assert(r.pose.size() == 1 and r.pose[0].header.frame_id == "map", "the_initial_pose_is_sent");
        if (r.pose.size() == 1) sx_assert(same(r.pose[0].pose.pose, p), "the_initial_pose_is_sent");
      }
      if (autoware.count(set_route_points)) {
        const auto & r = autoware.points;
        sx_assert(r.waypoints.size() == 1 and r.header.frame_id == "map" and r.option.allow_goal_modification == option.allow_goal_modification, "the_route_is_sent");
        if (r.waypoints.size() == 1) sx_assert(same(r.goal, g) & same(r.waypoints[0], v), "the_route_is_sent");
      }
      break;
    }
    case 1: {
      // alone, in each state
      const int state = sx::pick("state", State::undefined, State::arrived_goal), task = sx::pick("task", 0, 3);
      autoware.still = true;  // never gets anywhere
      autoware.set(state);
      if (task == 0) user.initialize(start);
      else if (task == 1) user.plan(goal, std::vector<geometry_msgs::msg::Pose>(), {});
      else if (task == 2) user.engage();
      else user.plan(goal, std::vector<autoware_adapi_v1_msgs::msg::RouteSegment>(), {});
      run(user);
      const bool failed = autoware_error([&] { user.engaged(); }), waited = w.steady > 1;
      const auto request = task == 0 ? initialize : task == 1 ? set_route_points : task == 2 ? set_engage : set_route;
      const bool requested = autoware.count(request);
      sx_assert((int)autoware.requests.size() == (requested ? 1 : 0), "nothing_else_is_requested");
      // what can be done at once, what has to wait for Autoware, and what is refused
      static const char expected[4][8] = {"wrRxxxx", "xwrxxxw", "xwwwr.x", "xwrxxxw"};
      switch (expected[task][state]) {
        case 'w': sx_assert(failed and waited and not requested, "nothing_is_requested_before_autoware_is_ready_for_it"); break;
        case 'r': sx_assert(requested and failed and waited, "it_waits_for_autoware_to_do_what_was_requested"); break;
        case 'R': sx_assert(requested and not failed, "it_is_done_when_autoware_is_there_already"); break;
        case '.': sx_assert(not requested and not failed and not waited, "it_is_done_when_autoware_is_there_already"); break;
        default:
          sx_reach("refused");
          sx_assert(failed and not requested and not waited, "what_autoware_cannot_do_in_its_state_is_refused");
      }
      break;
    }
    case 2: {
      // a second route after arrival, long after the time for initialization
      autoware.set(State::driving);
      user.engage();
      autoware.set(State::waiting_for_engage);
      run(user);
      if (user.task_queue.thrown) return;
      sx_assert(user.engaged(), "it_is_engaged_only_while_driving");
      autoware.set(State::arrived_goal);
      autoware.routed = false, autoware.engaged = false;
      sx_ros::pass(0);
      user.plan(goal, std::vector<geometry_msgs::msg::Pose>(), {});
      int waits = 0;
      w.passed = [&] {
        if (++waits > 8) {
          autoware.still = true;
          w.ok = false;
          user.finalized.store(true);
        } else if (autoware.possible() and sx::boolean(sx::nm("later", waits))) autoware.set(autoware.state == State::arrived_goal ? State::waiting_for_route : autoware.state + 1);
      };
      run(user);
      sx_assert(not user.task_queue.thrown, "there_is_no_limit_of_time_after_engaging");
      if (waits <= 8) {
        sx_reach("arrived");
        sx_assert(autoware.count(set_route_points) == 1 and autoware.at(set_route_points) == State::waiting_for_route, "a_route_is_sent_only_when_autoware_waits_for_one");
        sx_assert(user.engageable(), "a_planned_route_can_be_engaged");
      }
      break;
    }
    case 3: {
      using namespace tier4_rtc_msgs::msg;
      tier4_rtc_msgs::msg::CooperateStatusArray statuses;
      static const double distances[] = {-20.5, -20.0, 5.0};
      const int n = sx::pick("statuses", 0, 2);
      statuses.stamp.sec = 7;
      for (int i = 0; i < n; ++i) {
        CooperateStatus s;
        s.module.type = (std::uint8_t)sx_bits(sx::nm("module", i).c_str(), 8);
        s.uuid.uuid[15] = sx::pick(sx::nm("uuid", i), 1, 2);
        s.command_status.type = sx::pick(sx::nm("command", i), 0, 1);
        s.finish_distance = distances[sx::pick(sx::nm("distance", i), 0, 2)];
        statuses.statuses.push_back(s);
      }
      sx_ros::publish("/api/external/get/rtc_status", statuses);
      std::vector<tier4_rtc_msgs::srv::CooperateCommands::Request> commands;
      sx_ros::respond<tier4_rtc_msgs::srv::CooperateCommands>("/api/external/set/rtc_commands", [&](auto & q, auto &) {
        commands.push_back(q);
        return true;
      });
      user.task_queue.pop();
      std::vector<CooperateStatus> used;
      for (int k = 0; k < 2; ++k) {
        const int activate = sx::pick(sx::nm("activate", k), 0, 1);
        bool sent = true;
        try {
          user.sendCooperateCommand("CROSSWALK", activate ? "ACTIVATE" : "DEACTIVATE");
        } catch (const common::Error &) {
          sent = false;
        }
        run(user);
        int first = -1;
        for (int i = n - 1; i >= 0; --i) {
          const auto & s = statuses.statuses[i];
          bool fits = (s.module.type == 10) & (s.command_status.type != activate) & (s.finish_distance >= -20.0);
          for (const auto & u : used) fits = fits and not((u.uuid.uuid[15] == s.uuid.uuid[15]) & (u.command_status.type == s.command_status.type));
          if (fits) first = i;
        }
        sx_assert(sent == (first >= 0) and commands.size() == used.size() + (sent ? 1 : 0), "a_command_is_sent_exactly_if_there_is_a_fitting_request_not_answered_yet");
        if (not sent) {
          sx_reach("no status");
          break;
        }
        if (first < 0) break;
        sx_reach("cooperated");
        const auto & c = commands.back();
        sx_assert(c.commands.size() == 1 and c.stamp.sec == 7, "the_first_fitting_request_is_answered");
        if (c.commands.size() == 1) sx_assert((c.commands[0].uuid.uuid[15] == statuses.statuses[first].uuid.uuid[15]) & (c.commands[0].module.type == 10) & (c.commands[0].command.type == activate), "the_first_fitting_request_is_answered");
        used.push_back(statuses.statuses[first]);
      }
      bool refused = false;
      try {
        user.sendCooperateCommand("CROSSWALK", "activate");
      } catch (const common::Error &) {
        refused = true;
      }
      sx_assert(refused, "unknown_commands_are_refused");
      break;
    }
    case 4: {
      static const std::pair<const char *, int> modules[] = {{"NONE", 0}, {"LANE_CHANGE_LEFT", 1}, {"LANE_CHANGE_RIGHT", 2}, {"AVOIDANCE_LEFT", 3}, {"AVOIDANCE_RIGHT", 4}, {"GOAL_PLANNER", 5}, {"START_PLANNER", 6}, {"TRAFFIC_LIGHT", 8}, {"INTERSECTION", 9}, {"CROSSWALK", 10}, {"BLIND_SPOT", 11}, {"DETECTION_AREA", 12}, {"NO_STOPPING_AREA", 13}, {"OCCLUSION_SPOT", 14}, {"EXT_REQUEST_LANE_CHANGE_LEFT", 15}, {"EXT_REQUEST_LANE_CHANGE_RIGHT", 16}, {"AVOIDANCE_BY_LC_LEFT", 17}, {"AVOIDANCE_BY_LC_RIGHT", 18}, {"NO_DRIVABLE_LANE", 19}, {"INTERSECTION_OCCLUSION", 20}, {"PULL_OUT", -1}, {"crosswalk", -1}, {"", -1}};
      const auto & m = modules[sx::pick("module", 0, 22)];
      const bool enable = sx_bits("enable", 1);
      if (sx::boolean("managed")) w.packages.insert("rtc_auto_mode_manager");
      int requests = 0, type = -1;
      bool enabled = false;
      sx_ros::respond<tier4_rtc_msgs::srv::AutoModeWithModule>("/api/external/set/rtc_auto_mode", [&](auto & q, auto & r) { return ++requests, type = q.module.type, enabled = q.enable, r.success = true; });
      bool refused = false;
      try {
        user.requestAutoModeForCooperation(m.first, enable);
        run(user);
        user.task_queue.rethrow();
      } catch (const common::Error &) {
        refused = true;
      }
      if (w.packages.size() or m.second < 0) {
        sx_reach("no such module");
        sx_assert(refused and requests == 0, "unknown_modules_are_refused");
      } else {
        sx_reach("auto mode");
        sx_assert(not refused and requests == 1 and type == m.second and enabled == enable, "the_mode_of_the_module_is_requested");
      }
      break;
    }
    case 5: {
      static const char * states[] = {"UNKNOWN", "NORMAL", "MRM_OPERATING", "MRM_SUCCEEDED", "MRM_FAILED"}, *behaviors[] = {"UNKNOWN", "NONE", "EMERGENCY_STOP", "COMFORTABLE_STOP", "PULL_OVER"};
      autoware_adapi_v1_msgs::msg::MrmState m;
      m.state = (std::uint16_t)sx_bits("state", 3);
      m.behavior = (std::uint16_t)sx_bits("behavior", 3);
      bool refused = false;
      try {
        sx_ros::publish("/api/fail_safe/mrm_state", m);
      } catch (const common::Error &) {
        refused = true;
      }
      sx_reach("mrm");
      sx_assert(refused == (m.state > 4 or m.behavior > 4), "unknown_states_are_refused");
      if (not refused) sx_assert(user.minimum_risk_maneuver_state == states[m.state] and user.minimum_risk_maneuver_behavior == behaviors[m.behavior], "states_have_their_names");
      tier4_external_api_msgs::msg::Emergency e;
      e.emergency = sx_bits("emergency", 1);
      bool thrown = false;
      try {
        sx_ros::publish("/api/external/get/emergency", e);
      } catch (const common::Error &) {
        sx_reach("emergency");
        thrown = true;
      }
      sx_assert(thrown == e.emergency, "an_emergency_is_an_error");
      break;
    }
    case 6: {
      user.task_queue.pop();
      autoware.set(State::waiting_for_route);
      const auto g = pose("goal");
      std::vector<autoware_adapi_v1_msgs::msg::RouteSegment> segments(sx::pick("segments", 0, 2));
      for (std::size_t i = 0; i < segments.size(); ++i) segments[i].preferred.id = (std::int64_t)sx_bits(sx::nm("id", i).c_str(), 64);
      FieldOperatorApplication::RouteOption option;
      option.allow_goal_modification = sx_bits("option", 1);
      user.plan(g, segments, option);
      run(user);
      const auto & r = autoware.segments;
      sx_reach("segments");
      sx_assert(autoware.count(set_route) == 1 and r.segments.size() == segments.size() and r.header.frame_id == "map" and r.option.allow_goal_modification == option.allow_goal_modification, "the_route_is_sent");
      sx_assert(same(r.goal, g), "the_route_is_sent");
      for (std::size_t i = 0; i < segments.size() and i < r.segments.size(); ++i) sx_assert(r.segments[i].preferred.id == segments[i].preferred.id, "the_route_is_sent");
      break;
    }
    default: {
      user.task_queue.pop();
      double velocity = 0;
      const double v = number("velocity");
      int limits = 0;
      sx_ros::respond<tier4_external_api_msgs::srv::SetVelocityLimit>("/api/autoware/set/velocity_limit", [&](auto & q, auto & r) { return ++limits, velocity = q.velocity, r.status.code = 1, true; });
      user.setVelocityLimit(v);
      user.clearRoute();
      user.enableAutowareControl();
      run(user);
      sx_assert(not user.task_queue.thrown and limits == 1 and autoware.requests == std::vector<std::string>({"/api/routing/clear_route", "/api/operation_mode/enable_autoware_control"}), "everything_is_requested_once_and_in_order");
      sx_assert(velocity == v or v != v, "the_velocity_limit_is_sent");
      // a route given in one list: its last pose is the goal
      autoware.set(State::waiting_for_route);
      std::vector<geometry_msgs::msg::PoseStamped> route(sx::pick("route", 1, 3));
      for (std::size_t i = 0; i < route.size(); ++i) route[i].pose.position.x = number(sx::nm("x", i));
      const bool allow = sx_bits("allow", 1);
      user.plan(route, allow);
      run(user);
      const auto & r = autoware.points;
      sx_assert(autoware.count(set_route_points) == 1 and r.waypoints.size() == route.size() - 1 and r.option.allow_goal_modification == allow, "the_route_is_sent");
      sx_assert(same(r.goal, route.back().pose) or r.goal.position.x != r.goal.position.x, "the_route_is_sent");
      for (std::size_t i = 0; i < r.waypoints.size(); ++i) sx_assert(same(r.waypoints[i], route[i].pose) or r.waypoints[i].position.x != r.waypoints[i].position.x, "the_route_is_sent");
      sx_reach(autoware.posed ? "initialized" : "planned");
    }
  }
  if (autoware.posed) sx_reach("initialized");
}
