/*SPEC
{
 "property": "C27",
 "stubs": ["rosnode", "ros", "msgs"],
 "inc": ["external/concealer/include"],
 "force_include": ["vector", "string", "iostream", "functional"],
 "src": [],
 "quick": {"time": 300},
 "bounds": {"quick": "all states of localization (16 bits), route (16 bits) and operation mode (8 bits) with every combination of their flags and every time of the last change of the route in the first 100 s that is at or 1 ns, 0.25 s or 0.5 s - 1 ns after a multiple of 0.5 s", "thorough": "same"},
 "outside": "other times",
 "assumptions": ["the numbers of the states are those of the public message definitions"],
 "witness": ["initializing", "waiting", "arrived", "planning", "engage", "driving", "undefined", "old"]
}
SPEC*/
#include <rclcpp/rclcpp.hpp>

#include <concealer/legacy_autoware_state.hpp>
#include <cstring>

#include "sx.hpp"

using State = concealer::LegacyAutowareState;
using namespace autoware_adapi_v1_msgs::msg;

void sx_harness()
{
  if (sx::boolean("legacy")) {
    autoware_system_msgs::msg::AutowareState s;
    s.state = sx::pick("state", 1, 7);
    static const char * names[] = {"", "INITIALIZING", "WAITING_FOR_ROUTE", "PLANNING", "WAITING_FOR_ENGAGE", "DRIVING", "ARRIVED_GOAL", "FINALIZING"};
    const State state(s);
    sx_assert(std::strcmp(state, names[s.state]) == 0, "a_state_has_its_name");
    sx_assert(State(State::undefined).value == State::undefined and std::strcmp(State(State::undefined), "") == 0, "a_state_has_its_name");
    return;
  }
  LocalizationInitializationState l;
  RouteState r;
  OperationModeState m;
  l.state = (std::uint16_t)sx_bits("localization", 16);
  r.state = (std::uint16_t)sx_bits("route", 16);
  m.mode = (std::uint8_t)sx_bits("mode", 8);
  m.is_autoware_control_enabled = sx_bits("control", 1);
  m.is_autonomous_mode_available = sx_bits("available", 1);
  m.is_in_transition = sx_bits("transition", 1);
  m.is_stop_mode_available = sx_bits("stop available", 1);
  m.is_remote_mode_available = sx_bits("remote available", 1);
  m.is_local_mode_available = sx_bits("local available", 1);
  // in units of 0.5 s, with one of 4 offsets below
  const int now = (int)sx_bits("now", 8), changed = (int)sx_bits("changed", 8);
  static const std::int64_t offsets[] = {0, 1, 250000000, 499999999};
  const std::int64_t offset = offsets[sx::pick("offset", 0, 3)];
  sx_assume((now <= 200) & (changed <= now));
  sx_assume((changed < now) | (offset == 0));
  r.stamp.sec = changed >> 1;
  r.stamp.nanosec = (changed & 1 ? 500000000u : 0u) + (std::uint32_t)offset;
  const State state(l, r, m, rclcpp::Time(now * std::int64_t(500000000), RCL_ROS_TIME));
  // as documented by Autoware: the state is that of the first of localization, route and mode that is not done
  int expected;
  if (l.state == 0 or r.state == 0 or m.mode == 0) expected = State::initializing;
  else if (l.state == 1 or l.state == 2) expected = State::initializing;
  else if (l.state != 3) expected = State::undefined;
  else if (r.state == 3 and (now - changed < 4 or (now - changed == 4 and offset > 0))) {
    expected = State::arrived_goal;
  } else if (r.state == 1 or r.state == 3) {
    expected = State::waiting_for_route;
    if (r.state == 3) sx_reach("old");
  } else if (r.state != 2 and r.state != 4) expected = State::undefined;
  else if (m.mode > 4) expected = State::undefined;
  else if (m.mode != 1 and m.is_autoware_control_enabled) expected = State::driving;
  else expected = m.is_autonomous_mode_available ? State::waiting_for_engage : State::planning;
  static const char * witnesses[] = {"undefined", "initializing", "waiting", "planning", "engage", "driving", "arrived"};
  sx_reach(witnesses[expected]);
  sx_assert(state.value == expected, "the_state_is_that_of_localization_route_and_mode");
}
