/*SPEC
{
 "property": "C31",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/traffic_signal_state,syntax/traffic_signal_state_action,syntax/boolean,syntax/double,syntax/integer,syntax/unsigned_integer,syntax/unsigned_short,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "sx_flags": ["-fno-access-control"], "nat_flags": ["-fno-access-control"],
 "quick": {"time": 500},
 "bounds": {"quick": "8 texts of targets with any character at any position, and each of the 4 channels with 4 states", "thorough": "same"},
 "outside": "texts that differ in more than one character; '+' and '-' before numbers",
 "assumptions": ["the traffic lights are stand-ins"],
 "witness": ["conventional", "v2i", "detected", "malformed", "unknown refused", "shown", "cleared", "action"]
}
SPEC*/
#include <openscenario_interpreter/syntax/traffic_signal_state.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_state_action.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
bool space(char c) { return c == ' ' or ('\t' <= c and c <= '\r'); }
}  // namespace

void sx_harness()
{
  probe::lights = {};
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  if (sx::pick("what", 0, 1) == 0) {
    const char * bases[] = {"7", "348", "12 v2i", "34 conventional", "5 v2i_detected", "6 conventional_detected", "6  v2i", "8 v2i x"};
    std::string text = bases[sx::pick("base", 0, 7)];
    const int at = sx::pick("at", -1, (int)text.size() - 1);
    if (0 <= at) {
      text[at] = (char)sx_bits("byte", 8);
      sx_assume(text[at] != '+' and text[at] != '-');
    }
    // cut at white space, by hand
    std::vector<std::string> parts(1);
    for (std::size_t i = 0; i < text.size(); ++i) {
      if (not space(text[i])) parts.back() += text[i];
      else if (i == 0 or not space(text[i - 1])) parts.emplace_back();
    }
    bool good = parts.size() <= 2 and not parts[0].empty();
    std::int64_t id = 0;
    for (const char c : parts[0]) {
      if (c < '0' or '9' < c) good = false;
      id = id * 10 + (c - '0');
    }
    const std::string channel = parts.size() < 2 ? "conventional" : parts[1];
    const bool v2i = channel == "v2i" or channel == "v2i_detected", conventional = channel == "conventional" or channel == "conventional_detected", detected = channel == "v2i_detected" or channel == "conventional_detected";
    good = good and (v2i or conventional);
    bool accepted = false;
    try {
      const TrafficSignalState::TargetTrafficSignalChannel target(text);
      accepted = true;
      sx_assert(good and target.id == id, "the_target_is_the_one_written");
      sx_assert((target.channel == TrafficSignalState::TrafficSignalChannelType::v2i) == v2i and target.detected == detected, "the_channel_is_the_one_written");
      sx_reach(detected ? "detected" : v2i ? "v2i" : "conventional");
    } catch (const common::Error &) {
      sx_reach("malformed");
    }
    sx_assert(accepted == good, "malformed_targets_are_refused");
    return;
  }
  const char * channels[] = {"", " conventional", " v2i", " conventional_detected", " v2i_detected"}, *states[] = {"red", "green solidOn circle", "unknown", "red unknown"};
  const int channel = sx::pick("channel", 0, 4), state = sx::pick("state", 0, 3);
  auto document = xml(std::string("<TrafficSignalState trafficSignalId=\"12") + channels[channel] + "\" state=\"" + states[state] + "\"/>");
  bool refused = false;
  auto & l = probe::lights;
  std::map<lanelet::Id, std::vector<std::string>> * all[] = {&l.conventional, &l.conventional, &l.v2i, &l.conventional_detected, &l.v2i_detected};
  for (auto * m : all) (*m)[12] = {"before"}, (*m)[3] = {"other"};
  try {
    TrafficSignalState s(document->first_child(), scope);
    const bool first = sx::boolean("evaluate first");
    if (first) {
      s.evaluate();
      sx_assert(all[channel]->at(12).size() == 2 and all[channel]->at(12)[1] == states[state], "the_state_is_added_to_its_channel");
      sx_reach("shown");
    }
    s.clear();
    sx_assert(not all[channel]->count(12), "the_state_is_cleared_in_its_channel");
    sx_reach("cleared");
    s.evaluate();
    for (auto * m : all) {
      sx_assert(m->at(3).size() == 1, "other_lights_are_unchanged");
      if (m != all[channel]) sx_assert(m->at(12).size() == 1 and m->at(12)[0] == "before", "other_channels_are_unchanged");
      else sx_assert(m->at(12).size() == 1 and m->at(12)[0] == states[state], "the_state_is_added_to_its_channel");
    }
  } catch (const common::Error &) {
    refused = true;
  }
  sx_assert(refused == (state >= 2 and channel < 3), "unknown_is_for_detected_lights_only");
  sx_reach_if(refused, "unknown refused");
  auto action = xml(std::string("<TrafficSignalStateAction name=\"9007199254740993\" state=\"") + states[state] + "\"/>");
  TrafficSignalStateAction a(action->first_child(), scope);
  sx_assert(l.conventional.size() <= 2, "nothing_happens_before_the_start");
  a.start();
  sx_assert(l.conventional.at(9007199254740993) == std::vector<std::string>{states[state]} and l.conventional.at(3).size() == 1, "the_action_sets_the_state");
  sx_assert(a.accomplished() and a.endsImmediately(), "the_action_ends_at_once");
  sx_reach("action");
}
