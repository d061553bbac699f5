/*SPEC
{
 "property": "C17",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/storyboard_element_state_condition,syntax/storyboard_element_state,syntax/storyboard_element_type,syntax/condition,syntax/condition_group,syntax/condition_edge,syntax/trigger,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 300},
 "bounds": {"quick": "every monitored state and another one; every history of 3 evaluations with up to 2 state changes of the element before each", "thorough": "4 evaluations"},
 "outside": "longer histories; callbacks that move the element on",
 "witness": ["in state", "passed through", "left"]
}
SPEC*/
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/storyboard.hpp>
#include <openscenario_interpreter/syntax/storyboard_element.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;
using State = StoryboardElementState;

namespace
{
struct Element : public Scope, public StoryboardElement
{
  explicit Element(const std::string & name, Scope & scope) : Scope(name, scope) {}
};
const Object * objects[] = {&standby_state, &running_state, &complete_state, &start_transition, &end_transition, &stop_transition};
const char * names[] = {"standbyState", "runningState", "completeState", "startTransition", "endTransition", "stopTransition"};
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  auto object = make<Element>("E", scope), other = make<Element>("F", scope);
  scope.insert("E", object);
  scope.insert("F", other);
  auto & element = object.as<StoryboardElement>();
  const int monitored = sx::pick("state", 0, 5);
  auto document = xml("<StoryboardElementStateCondition storyboardElementType=\"event\" storyboardElementRef=\"E\" state=\"" + std::string(names[monitored]) + "\"/>");
  auto condition = StoryboardElementStateCondition(document->first_child(), scope);
  while (not Storyboard::thunks.empty()) {
    Storyboard::thunks.front()();
    Storyboard::thunks.pop();
  }
  int another = sx::pick("another", 0, 4);
  another += another >= monitored;
  int state = 0;
  const int steps = sx_tier() ? 4 : 3;
  const int moved = sx::pick("other", 0, steps);
  bool before = false;
  for (int n = 0; n < steps; ++n) {
    bool reached = false;
    const int changes = sx::pick(sx::nm("changes", n), 0, 2);
    for (int c = 0; c < changes; ++c) {
      state = sx::boolean(sx::nm("to", n * 2 + c)) ? monitored : another;
      element.transitionTo(*objects[state]);
      reached = reached or state == monitored;
    }
    if (n == moved) other.as<StoryboardElement>().transitionTo(*objects[monitored]);
    const bool expected = reached or state == monitored;
    if (state == monitored) sx_reach("in state");
    else if (reached) sx_reach("passed through");
    else if (before) sx_reach("left");
    before = expected;
    sx_assert(condition.evaluate().as<Boolean>() == expected, "holds_exactly_if_the_element_was_in_the_state_since_the_previous_evaluation");
  }
}
