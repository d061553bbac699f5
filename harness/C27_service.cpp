/*SPEC
{
 "property": "C27",
 "src": ["common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["rosnode", "ros", "msgs"],
 "inc": ["external/concealer/include", "common/get_parameter/include"],
 "force_include": ["vector", "string", "iomanip", "iostream", "functional"],
 "quick": {"time": 500},
 "bounds": {"quick": "services of each of the 4 kinds of response, available after 0 to 4 waits of 3 s or never, with 0 to 10 s given for that; up to 3 attempts, each answered in time or not, by any response; ROS shut down at any of the first 4 waits", "thorough": "same"},
 "outside": "more attempts; more than 2 responses within one response",
 "assumptions": ["the service client, rates and the clock are stand-ins; time passes only while waiting"],
 "witness": ["answered", "given up", "unavailable", "late", "retried", "shut down"]
}
SPEC*/
#include <autoware_adapi_v1_msgs/srv/clear_route.hpp>
#include <concealer/service.hpp>
#include <tier4_external_api_msgs/srv/engage.hpp>
#include <tier4_rtc_msgs/srv/auto_mode_with_module.hpp>
#include <tier4_rtc_msgs/srv/cooperate_commands.hpp>

#include "sx.hpp"

namespace rclcpp
{
bool ok() { return sx_ros::world()->ok; }
}  // namespace rclcpp
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(nanoseconds(sx_ros::world()->steady)); }

namespace
{
// makes a response and tells if it is a success
bool response(autoware_adapi_v1_msgs::srv::ClearRoute::Response & r, int i)
{
  r.status.success = sx::boolean(sx::nm("success", i));
  r.status.code = (std::uint16_t)sx_bits(sx::nm("code", i).c_str(), 16);
  return r.status.success;
}
bool response(tier4_external_api_msgs::srv::Engage::Response & r, int i)
{
  r.status.code = (std::uint32_t)sx_bits(sx::nm("code", i).c_str(), 32);
  return r.status.code == tier4_external_api_msgs::msg::ResponseStatus::SUCCESS;
}
bool response(tier4_rtc_msgs::srv::AutoModeWithModule::Response & r, int i) { return r.success = sx::boolean(sx::nm("success", i)); }
bool response(tier4_rtc_msgs::srv::CooperateCommands::Response & r, int i)
{
  const int n = sx::pick(sx::nm("responses", i), 0, 2);
  bool all = true;
  for (int k = 0; k < n; ++k) {
    r.responses.emplace_back();
    r.responses.back().success = sx::boolean(sx::nm(k ? "second" : "first", i));
    all = all and r.responses.back().success;
  }
  return all;
}

template <typename T>
void check(sx_ros::World & w)
{
  const int waits = sx::pick("waits", 0, 5), limit = sx::pick("limit", 0, 10), attempts = sx::pick("attempts", 0, 3), shut = sx::pick("shut down", 0, 4);
  int waited = 0, asked = 0;
  bool succeeded = false, was_ready = false, late = false;
  w.ready = [&](const std::string & name) {
    sx_assert(name == "/service", "the_named_service_is_used");
    was_ready = waited >= waits and waits < 5;
    return was_ready;
  };
  w.passed = [&] {
    ++waited;
    if (shut and waited == shut and not asked) w.ok = false;
    if (waited > 60) {
      sx_assert(false, "it_does_not_wait_forever");
      throw 0;
    }
  };
  sx_ros::respond<T>("/service", [&](const auto &, auto & r) {
    sx_assert(not succeeded, "nothing_is_requested_after_a_success");
    sx_assert(was_ready or not w.ok, "nothing_is_requested_before_the_service_is_available");
    ++asked;
    if (asked > attempts) {
      sx_assert(false, "there_are_no_more_than_the_given_attempts");
      throw 0;
    }
    if (not sx::boolean(sx::nm("answered", asked))) {
      late = true;
      return false;
    }
    succeeded = response(r, asked);
    return true;
  });
  rclcpp::Node node("node");
  concealer::Service<T> service("/service", node);
  bool returned = false, failed = false;
  try {
    service(std::make_shared<typename T::Request>(), attempts, std::chrono::seconds(limit));
    returned = true;
  } catch (const common::AutowareError &) {
    failed = true;
  }
  sx_assert(returned != failed, "failures_are_autoware_errors");
  sx_assert(returned == succeeded, "it_returns_exactly_if_there_is_a_successful_answer_in_time");
  if (late) sx_reach("late");
  if (succeeded) {
    sx_reach("answered");
    if (asked > 1) sx_reach("retried");
  } else if (asked) {
    sx_reach("given up");
    sx_assert(asked == attempts, "it_gives_up_only_after_the_given_attempts");
  } else if (w.ok and attempts) {
    sx_reach("unavailable");
    // it has waited longer than the limit, at most by one interval
    sx_assert(w.steady - 1 > limit * 1000000000LL and w.steady - 1 <= limit * 1000000000LL + 3000000000LL, "an_unavailable_service_is_awaited_for_the_given_time");
  }
  if (not w.ok) sx_reach("shut down");
}
}  // namespace

void sx_harness()
{
  sx_ros::World w;
  sx_ros::world() = &w;
  switch (sx::pick("kind", 0, 3)) {
    case 0: return check<autoware_adapi_v1_msgs::srv::ClearRoute>(w);
    case 1: return check<tier4_external_api_msgs::srv::Engage>(w);
    case 2: return check<tier4_rtc_msgs::srv::AutoModeWithModule>(w);
    default: return check<tier4_rtc_msgs::srv::CooperateCommands>(w);
  }
}
