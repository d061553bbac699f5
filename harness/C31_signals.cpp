/*SPEC
{
 "property": "C31",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/traffic_signals,syntax/traffic_signal_controller,syntax/traffic_signal_controller_action,syntax/traffic_signal_controller_condition,syntax/traffic_signal_state,syntax/traffic_signal_state_action,syntax/phase,syntax/boolean,syntax/double,syntax/integer,syntax/unsigned_integer,syntax/unsigned_short,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "real": true,
 "quick": {"time": 700},
 "bounds": {"quick": "one controller of 0 to 3 phases, or a second one with one of 3 delays to it, each duration one of 4 or unlimited, 4 kinds of signals; 5 evaluations at any times up to 2 s apart with a change of phase by an action before one of them", "thorough": "6 evaluations"},
 "outside": "longer histories; other durations and times; chains of controllers; predictions of detected states",
 "assumptions": ["the traffic lights and the simulation time are stand-ins"],
 "witness": ["next phase", "again", "action", "unlimited", "observer", "predicted", "no phase yet", "refused"]
}
SPEC*/
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_controller_action.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_controller_condition.hpp>
#include <openscenario_interpreter/syntax/traffic_signal_state_action.hpp>
#include <openscenario_interpreter/syntax/traffic_signals.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
using States = std::vector<std::pair<std::string, std::string>>;  // target, state
struct P
{
  double duration;
  States states;
};
struct Model
{
  std::string name;
  std::vector<P> phases;
  int current = -1;
  double since = 0;
  bool waits = false;   // for the time to begin
  double begins = 0;
  Model * observer = nullptr;
  double delay = 0;
};
const double inf = std::numeric_limits<double>::infinity();
const double durations[] = {0.5, 1, 1.75, inf, 0};
// signals of the phase p of a controller
States states(int kind, int p)
{
  const char * colors[] = {"red", "green", "yellow"};
  const std::string c = colors[p];
  switch (kind) {
    case 0: return {{"1", c}};
    case 1: return {{"1", c}, {"1 v2i", c + " circle"}, {"1 v2i", "straight"}, {"2", c}};
    case 2: return {{"1 conventional_detected", c}, {"2 v2i_detected", "unknown"}, {p ? "3 conventional" : "4 v2i", c}};
    default: return p == 1 ? States() : States{{p ? "2" : "1", c}};
  }
}
std::string text(const Model & m, bool observes, double delay)
{
  std::string s = "<TrafficSignalController name=\"" + m.name + "\"";
  if (observes) s += " delay=\"" + std::string(delay == 0 ? "0" : delay == 0.3125 ? "0.3125" : "1.0625") + "\" reference=\"A\"";
  s += ">";
  for (std::size_t i = 0; i < m.phases.size(); ++i) {
    const double d = m.phases[i].duration;
    s += std::string("<Phase name=\"") + "xyz"[i] + "\"" + (d == inf ? "" : d == 0.5 ? " duration=\"0.5\"" : d == 1 ? " duration=\"1\"" : d == 0 ? " duration=\"0\"" : " duration=\"1.75\"") + ">";
    for (const auto & [target, state] : m.phases[i].states) s += "<TrafficSignalState trafficSignalId=\"" + target + "\" state=\"" + state + "\"/>";
    s += "</Phase>";
  }
  return s + "</TrafficSignalController>";
}
using Map = std::map<lanelet::Id, std::vector<std::string>>;
struct Shown
{
  Map conventional, conventional_detected, v2i, v2i_detected;
  Map & of(const std::string & target, lanelet::Id & id)
  {
    id = target[0] - '0';
    if (target.size() == 1 or target == std::string(1, target[0]) + " conventional") return conventional;
    if (target.find("conventional_detected") != std::string::npos) return conventional_detected;
    return target.find("v2i_detected") != std::string::npos ? v2i_detected : v2i;
  }
};
Shown shown;
bool predicts = true;
std::vector<std::tuple<lanelet::Id, std::string, double>> future;

Map predicted(const P & p)
{
  Map m;
  lanelet::Id id;
  for (const auto & [t, s] : p.states) {
    Shown x;
    if (&x.of(t, id) == &x.v2i) m[id].push_back(s);
  }
  Map n = m;
  for (const auto & [t, s] : p.states) {
    Shown x;
    if (&x.of(t, id) == &x.conventional and not m.count(id) and probe::lights.v2i_enabled.count(id)) n[id].push_back(s);
  }
  return n;
}
void change(Model & m, int to)
{
  if (to == 0 and m.observer) m.observer->waits = true, m.observer->begins = probe::time + m.observer->delay;
  lanelet::Id id;
  if (0 <= m.current) {
    for (const auto & [t, s] : m.phases[m.current].states) shown.of(t, id).erase(id);
  }
  m.current = to, m.since = probe::time;
  for (const auto & [t, s] : m.phases[to].states) shown.of(t, id).erase(id);
  for (const auto & [t, s] : m.phases[to].states) shown.of(t, id)[id].push_back(s);
  // the next 6 phases that have a known time
  future.clear();
  double after = m.phases[to].duration;
  Map now;
  for (int k = 1; k <= 6; ++k) {
    const P & next = m.phases[(to + k) % m.phases.size()];
    if (after == inf or next.duration == inf) break;
    for (const auto & [id, list] : predicted(next)) now[id] = list;
    for (const auto & [id, list] : now) {
      for (const auto & s : list) future.emplace_back(id, s, after);
    }
    after += next.duration;
  }
}
void evaluate(Model & m, bool observes)
{
  if (m.phases.empty()) return;
  if (observes ? m.waits and m.begins < probe::time : m.current < 0) {
    m.waits = false;
    change(m, 0);
  } else if (0 <= m.current and m.phases[m.current].duration <= probe::time - m.since) {
    change(m, (m.current + 1) % m.phases.size());
  }
}
}  // namespace

void sx_harness()
{
  probe::lights = {};
  probe::time = 0;
  shown = {};
  future.clear();
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);

  Model a{"A"}, b{"B"};
  const bool two = sx::pick("two", 0, 1);
  const int n = sx::pick("phases", two ? 1 : 0, two ? 2 : 3), kind = sx::pick("signals", 0, two ? 0 : 3);
  if (kind == 1 and sx::pick("enabled", 0, 1)) probe::lights.v2i_enabled = {1, 2};
  if (kind == 0) probe::lights.v2i_enabled = {1};
  double cycle = 0, cycle_b = 0;
  for (int i = 0; i < n; ++i) {
    // the first kind of signals is tried with all durations
    const double d = durations[kind ? (i + kind) % 3 : sx::pick(sx::nm("duration", i), 0, two ? 2 : 4)];
    a.phases.push_back({d, states(kind, i)});
    cycle += d;
  }
  const double delays[] = {0, 0.3125, 1.0625};
  if (two) {
    const int k = sx::pick("phases of b", 1, 2);
    for (int i = 0; i < k; ++i) {
      const double d = durations[sx::pick(sx::nm("duration of b", i), 0, 2)];
      b.phases.push_back({d, {{"7", i ? "green" : "red"}}});
      cycle_b += d;
    }
    b.delay = delays[sx::pick("delay", 0, 2)];
    a.observer = &b;
  }
  auto document = xml("<TrafficSignals>" + text(a, false, 0) + (two ? text(b, true, b.delay) : "") + "</TrafficSignals>");
  std::unique_ptr<TrafficSignals> signals;
  bool refused = false;
  try {
    signals = std::make_unique<TrafficSignals>(document->child("TrafficSignals"), scope);
  } catch (const common::Error &) {
    refused = true;
  }
  sx_assert(refused == (two and cycle != cycle_b), "connected_controllers_have_the_same_cycle");
  if (refused) {
    sx_reach("refused");
    return;
  }
  auto action = xml("<TrafficSignalControllerAction trafficSignalControllerRef=\"A\" phase=\"y\"/>");
  TrafficSignalControllerAction to_y(action->first_child(), scope);
  auto condition = xml("<TrafficSignalControllerCondition trafficSignalControllerRef=\"A\" phase=\"y\"/>"), condition_b = xml("<TrafficSignalControllerCondition trafficSignalControllerRef=\"B\" phase=\"x\"/>");
  TrafficSignalControllerCondition in_y(condition->first_child(), scope), in_x(condition_b->first_child(), scope);

  const int steps = sx_tier() ? 6 : 5, acts = sx::pick("acts", -1, steps - 1);
  for (int i = 0; i < steps; ++i) {
    probe::time += sx::real(sx::nm("passed", i).c_str(), i ? 0.0009765625 : 0, 2);
    if (i == acts) {
      bool failed = false;
      try {
        to_y.start();
      } catch (const common::Error &) {
        failed = true;
      }
      sx_assert(failed == (n < 2), "only_known_phases_can_be_chosen");
      if (not failed) change(a, 1), sx_reach("action");
    }
    const int before = a.current, before_b = b.current;
    evaluate(a, false);
    if (two) evaluate(b, true);
    signals->evaluate();
    sx_assert(probe::lights.conventional == shown.conventional and probe::lights.v2i == shown.v2i, "the_lights_show_the_current_phases");
    sx_assert(probe::lights.conventional_detected == shown.conventional_detected and probe::lights.v2i_detected == shown.v2i_detected, "the_lights_show_the_current_phases");
    auto key = [](const auto & x) { return std::make_tuple(std::get<2>(x), std::get<0>(x)); };
    auto earlier = [&](const auto & x, const auto & y) { return key(x) < key(y); };
    auto real = probe::lights.predictions;
    std::stable_sort(real.begin(), real.end(), earlier);
    auto expected = future;
    std::stable_sort(expected.begin(), expected.end(), earlier);
    if (cycle > 0 and kind != 2) sx_assert(real == expected, "the_next_phases_are_predicted");
    auto name = [](const Object & o) { return static_cast<bool>(o.as<Boolean>()); };
    if (n) sx_assert(name(in_y.evaluate()) == (a.current == 1), "conditions_tell_the_current_phase");
    if (two) sx_assert(name(in_x.evaluate()) == (b.current == 0), "conditions_tell_the_current_phase");
    const auto & real_a = scope.ref<TrafficSignalController>(std::string("A"));
    if (0 <= a.current) sx_assert(real_a.currentPhaseSince() == a.since and real_a.currentPhaseName() == std::string(1, "xyz"[a.current]), "the_phase_lasts_since_it_began");
    if (n == 1 and i and a.since == probe::time) sx_reach("again");
    if (before == 0 and a.current == 1) sx_reach("next phase");
    if (0 <= a.current and a.phases[a.current].duration == inf) sx_reach("unlimited");
    if (before_b < 0 and b.current == 0) sx_reach("observer");
    if (two and b.current < 0) sx_reach("no phase yet");
    if (not expected.empty()) sx_reach("predicted");
  }
}
