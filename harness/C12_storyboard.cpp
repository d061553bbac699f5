/*SPEC
{
 "property": "C12",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/act,syntax/maneuver_group,syntax/maneuver,syntax/event,syntax/action,syntax/actors,syntax/priority,syntax/condition,syntax/condition_group,syntax/condition_edge,syntax/trigger,syntax/storyboard_element_state,syntax/parameter_declarations,syntax/parameter_declaration,syntax/parameter_type,syntax/value_constraint_group,syntax/value_constraint,syntax/parameter_condition,syntax/integer,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 600},
 "bounds": {"quick": "an act with one maneuver of two events, of every combination of priorities and maximum execution counts 1 and 2, over 3 steps with any values of the triggers and any completion of the actions; the act started at any step and, if at all, stopped at any later step", "thorough": "4 steps; three events over 2 steps"},
 "outside": "more events and steps; several maneuvers, groups and acts; a stop trigger before the start; catalog references",
 "witness": ["start", "skip", "override", "restart", "stop", "complete"]
}
SPEC*/
#include <openscenario_interpreter/syntax/act.hpp>
#include <openscenario_interpreter/syntax/event.hpp>
#include <openscenario_interpreter/syntax/maneuver.hpp>
#include <openscenario_interpreter/syntax/maneuver_group.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;
using State = StoryboardElementState;

namespace
{
constexpr int MAX = 3;
int events, priority[MAX], limit[MAX];  // priority: 0 parallel, 1 skip, 2 override
// the model
State::value_type act, event_state[MAX], action_state[MAX];
bool pending[MAX];
int count[MAX], starts[MAX], runs[MAX];
bool trigger[MAX], done[MAX];
// observed
int seen_starts[MAX], seen_runs[MAX], entered[MAX];
State::value_type last[MAX + 3];

std::string condition(int probe, const char * tag)
{
  return "<" + std::string(tag) + "><ConditionGroup><Condition name=\"\" conditionEdge=\"none\"><ByValueCondition probe=\"" + std::to_string(probe) + "\"/></Condition></ConditionGroup></" + tag + ">";
}

void execute(int e)
{
  if (pending[e]) {
    pending[e] = false;
    event_state[e] = action_state[e] = State::completeState;
    return;
  }
  while (true) {
    if (event_state[e] == State::standbyState) {
      if (not trigger[e]) return;
      if (priority[e] == 1) {
        for (int o = 0; o < events; ++o) {
          if (o != e and event_state[o] == State::runningState and not pending[o]) {
            sx_reach("skip");
            return;
          }
        }
      }
      if (priority[e] == 2) {
        for (int o = 0; o < events; ++o) {
          if (o != e and event_state[o] == State::runningState) {
            sx_reach("override");
            pending[o] = true;
          }
        }
      }
      sx_reach(count[e] ? "restart" : "start");
      ++count[e];
      ++starts[e];
      event_state[e] = action_state[e] = State::runningState;
    }
    if (event_state[e] == State::completeState) return;
    if (action_state[e] == State::runningState) {
      ++runs[e];
      if (done[e]) action_state[e] = State::completeState;
    }
    if (action_state[e] != State::completeState) return;
    event_state[e] = count[e] < limit[e] ? State::standbyState : State::completeState;
  }
}

bool legal(State::value_type from, State::value_type to)
{
  switch (to) {
    case State::startTransition: return from == State::standbyState;
    case State::runningState: return from == State::startTransition;
    case State::endTransition: return from == State::runningState;
    case State::stopTransition: return from == State::runningState or from == State::standbyState;
    case State::standbyState: return from == State::endTransition or from == State::startTransition or from == State::standbyState;  // the last two: skipped
    case State::completeState: return from == State::endTransition or from == State::stopTransition;
    default: return false;
  }
}
}  // namespace

void sx_harness()
{
  const bool wide = sx_tier() and sx::pick("wide", 0, 1);
  events = wide ? 3 : 2;
  const int steps = wide ? 2 : sx_tier() ? 4 : 3;
  static const char * priorities[] = {"parallel", "skip", "override"};
  std::string text = "<Act name=\"A\"><ManeuverGroup name=\"G\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"M\">";
  for (int e = 0; e < events; ++e) {
    priority[e] = sx::pick(sx::nm("priority", e), 0, 2);
    limit[e] = sx::pick(sx::nm("maximumExecutionCount", e), 1, 2);
    const auto id = std::to_string(e);
    text += "<Event name=\"E" + id + "\" priority=\"" + priorities[priority[e]] + "\" maximumExecutionCount=\"" + std::to_string(limit[e]) + "\"><Action name=\"X" + id + "\"><UserDefinedAction probe=\"" + id + "\"/></Action>" + condition(e, "StartTrigger") + "</Event>";
    event_state[e] = action_state[e] = State::standbyState;
  }
  text += "</Maneuver></ManeuverGroup>" + condition(10, "StartTrigger") + condition(11, "StopTrigger") + "</Act>";
  auto document = xml(text);
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  auto object = make<Act>(document->first_child(), scope);
  scope.insert("A", object);
  StoryboardElement * element[MAX + 3];
  static const char * names[] = {"::A::G::M::E0", "::A::G::M::E1", "::A::G::M::E2"};
  for (int e = 0; e < events; ++e) element[e] = &scope.ref<StoryboardElement>(std::string(names[e]));
  element[events] = &scope.ref<StoryboardElement>(std::string("::A::G::M"));
  element[events + 1] = &scope.ref<StoryboardElement>(std::string("::A::G"));
  element[events + 2] = &object.as<StoryboardElement>();
  for (int i = 0; i < events + 3; ++i) {
    last[i] = State::standbyState;
    for (auto s : {State::standbyState, State::runningState, State::completeState, State::startTransition, State::endTransition, State::stopTransition, State::skipTransition}) {
      element[i]->addTransitionCallback(s, [i, s](auto && self) {
        if (self.state().template as<State>() != s) return;  // a callback called before has moved it on
        sx_assert(legal(last[i], s), "state_changes_along_the_transitions_of_the_standard");
        last[i] = s;
        if (s == State::runningState and i < events) {
          ++entered[i];
          sx_assert(entered[i] <= limit[i], "an_event_runs_at_most_its_maximum_number_of_times");
        }
      });
    }
  }
  const int begin = sx::pick("start", 0, steps - 1), end = sx::pick("stop", begin + 1, steps);
  act = State::standbyState;
  bool start = false, stop = false;
  probe::value = [&](int i) { return i == 10 ? start : i == 11 ? stop : trigger[i]; };
  probe::accomplished = [&](int i) { return done[i]; };
  probe::note = [&](int i, const char * what) { ++(*what == 's' ? seen_starts : seen_runs)[i]; };
  for (int n = 0; n < steps; ++n) {
    probe::time = n;
    start = n >= begin;
    stop = n >= end;
    for (int e = 0; e < events; ++e) {
      trigger[e] = sx::boolean(sx::nm("trigger", n * MAX + e));
      done[e] = sx::boolean(sx::nm("done", n * MAX + e));
    }
    // the model
    if (act == State::runningState and stop) {
      sx_reach("stop");
      act = State::completeState;
      for (int e = 0; e < events; ++e) {
        event_state[e] = action_state[e] = State::completeState;
        pending[e] = false;
      }
    } else if (act != State::completeState and start) {
      act = State::runningState;
      for (int e = 0; e < events; ++e) execute(e);
      bool complete = true;
      for (int e = 0; e < events; ++e) complete = complete and event_state[e] == State::completeState;
      if (complete) {
        sx_reach("complete");
        act = State::completeState;
      }
    }
    // the code
    object.as<Act>().evaluate();
    for (int e = 0; e < events; ++e) {
      const auto state = element[e]->state().as<State>();
      sx_assert(pending[e] ? state == State::stopTransition : state == event_state[e], "state_of_the_event");
      sx_assert(seen_starts[e] == starts[e], "action_is_started_once_per_execution_of_its_event");
      sx_assert(seen_runs[e] == runs[e], "action_runs_exactly_while_its_event_runs");
    }
    for (int i = 0; i < 3; ++i) sx_assert(element[events + i]->state().as<State>() == act, "state_of_the_enclosing_elements");
  }
}
