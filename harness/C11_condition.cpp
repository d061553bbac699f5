/*SPEC
{
 "property": "C11",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/condition,syntax/condition_group,syntax/condition_edge,syntax/trigger,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 300},
 "bounds": {"quick": "a condition with each of the five edges and delays 0, 0.5 and 2, evaluated 5 times at any non-decreasing times (quarters of a second apart) with any values", "thorough": "7 evaluations"},
 "outside": "longer histories; other delays; times off the grid",
 "witness": ["true", "false", "delayed"]
}
SPEC*/
#include <openscenario_interpreter/syntax/trigger.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

void sx_harness()
{
  static const char * edges[] = {"none", "rising", "falling", "risingOrFalling", "sticky"};
  static const char * delays[] = {"0", "0.5", "2"};
  const int e = sx::pick("edge", 0, 4), d = sx::pick("delay", 0, 2), steps = sx_tier() ? 7 : 5;
  const double delay = d == 0 ? 0 : d == 1 ? 0.5 : 2;
  auto document = xml(std::string("<Condition name=\"c\" conditionEdge=\"") + edges[e] + "\" delay=\"" + delays[d] + "\"><ByValueCondition probe=\"0\"/></Condition>");
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Condition condition(document->first_child(), scope);
  double times[8];
  bool values[8], sticky = false;
  double now = 0;
  for (int n = 0; n < steps; ++n) {
    now = n == 0 ? 0.0 : now + sx::range(sx::nm("dt", n), 0, 6) * 0.25;
    times[n] = now;
    values[n] = sx::boolean(sx::nm("value", n));
    probe::time = now;
    probe::value = [&](int) { return values[n]; };
    const bool result = condition.evaluate().as<Boolean>();
    // the value as of the latest evaluation at or before now - delay, and the one before that
    bool have = false, have_previous = false, v = false, previous = false;
    for (int i = 0; i <= n; ++i) {
      const bool old = times[i] <= now - delay;
      if (i > 0) {
        previous = (old & values[i - 1]) | (not old & previous);
        have_previous = have_previous | old;
      }
      v = (old & values[i]) | (not old & v);
      have = have | old;
    }
    sticky = sticky | (have & v);
    const bool expected = e == 0 ? have & v : e == 1 ? have_previous & v & not previous : e == 2 ? have_previous & not v & previous : e == 3 ? have_previous & (v != previous) : sticky;
    sx_assert(result == expected, "value_of_the_edge_delay_ago");
    sx_assert(condition.current_value == result, "current_value");
    sx_reach_if(result, "true");
    sx_reach_if(not result, "false");
    sx_reach_if(result & (delay > 0), "delayed");
  }
}
