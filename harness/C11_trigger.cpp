/*SPEC
{
 "property": "C11",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/condition,syntax/condition_group,syntax/condition_edge,syntax/trigger,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 300},
 "bounds": {"quick": "every trigger of 0..3 groups, of one or two conditions each (one each if there are three), with edges none or rising, evaluated twice with any values", "thorough": "evaluated 3 times"},
 "outside": "larger triggers; delays (C11_condition)",
 "witness": ["true", "false", "empty"]
}
SPEC*/
#include <openscenario_interpreter/syntax/trigger.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

void sx_harness()
{
  static const char * edges[] = {"none", "rising"};
  // the groups' sizes, and for each condition its edge
  const int groups = sx::pick("groups", 0, 3), steps = sx_tier() ? 3 : 2;
  int size[3], edge[6], of[6], conditions = 0;
  std::string text = "<StartTrigger>";
  for (int g = 0; g < groups; ++g) {
    size[g] = groups == 3 ? 1 : sx::pick(sx::nm("size", g), 1, 2);
    text += "<ConditionGroup>";
    for (int c = 0; c < size[g]; ++c) {
      edge[conditions] = sx::pick(sx::nm("edge", conditions), 0, 1);
      of[conditions] = g;
      text += "<Condition name=\"c\" conditionEdge=\"" + std::string(edges[edge[conditions]]) + "\"><ByValueCondition probe=\"" + std::to_string(conditions) + "\"/></Condition>";
      ++conditions;
    }
    text += "</ConditionGroup>";
  }
  auto document = xml(text + "</StartTrigger>");
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Trigger trigger(document->first_child(), scope);
  bool previous[6] = {};
  for (int n = 0; n < steps; ++n) {
    probe::time = n;
    bool value[6], group[3] = {true, true, true}, expected = false;
    int evaluated[6] = {};
    for (int c = 0; c < conditions; ++c) {
      value[c] = sx::boolean(sx::nm("value", n * 6 + c));
      const bool result = edge[c] == 0 ? value[c] : n == 0 ? false : edge[c] == 1 ? value[c] & not previous[c] : not value[c] & previous[c];
      group[of[c]] = group[of[c]] & result;
    }
    for (int g = 0; g < groups; ++g) expected = expected | group[g];
    probe::value = [&](int c) { return ++evaluated[c], value[c]; };
    const bool result = trigger.evaluate().as<Boolean>();
    sx_assert(result == expected, "any_group_of_which_all_conditions_hold");
    for (int c = 0; c < conditions; ++c) {
      sx_assert(evaluated[c] == 1, "every_condition_is_evaluated_once");
      previous[c] = value[c];
    }
    if (result) {
      const auto index = trigger.activeConditionGroupIndex();
      for (int g = 0; g < groups; ++g) {
        if (g < index) sx_assert(not group[g], "active_group_is_the_first_that_holds");
        if (g == index) sx_assert(group[g], "active_group_holds");
      }
      sx_assert(index < groups, "active_group_exists");
    }
    sx_reach_if(result, "true");
    sx_reach_if(not result, "false");
    if (groups == 0) sx_reach("empty");
  }
}
