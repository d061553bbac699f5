/*SPEC
{
 "property": "C21",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/integer,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,syntax/parameter_type,syntax/parameter_declaration,syntax/parameter_action,syntax/parameter_modify_action,syntax/modify_rule,syntax/parameter_add_value_rule,syntax/parameter_multiply_by_value_rule,syntax/parameter_condition,syntax/parameter_set_action,syntax/value_constraint,syntax/value_constraint_group,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 500, "qtimeout": 20000},
 "bounds": {"quick": "every numeric parameter value in [0, 15000] (integers: [-15000, 15000]; doubles: every quarter of an integer in that range) modified by adding one of 5 and multiplying by one of 6 numbers, and then adding 2.5 or multiplying by 1.5; setting one of 5 texts; undeclared, boolean and string parameters", "thorough": "same"},
 "outside": "results that the type cannot represent (they are undefined); values beyond 2^53; other operands",
 "witness": ["added", "multiplied", "set", "not numeric", "undeclared"]
}
SPEC*/
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/parameter_action.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
void act(const std::string & ref, const std::string & text, Scope & scope)
{
  auto document = xml("<ParameterAction parameterRef=\"" + ref + "\">" + text + "</ParameterAction>");
  ParameterAction action(document->first_child(), scope);
  sx_assert(ParameterAction::endsImmediately(), "parameter_actions_end_immediately");
  action.start();
  action.run();
}

template <typename F>
bool throws(F f)
{
  try {
    f();
    return false;
  } catch (const std::exception &) {
    return true;
  }
}
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Scope inner("inner", scope);
  const int type = sx::pick("type", 0, 5);
  long long n = 0;
  double q = 0;
  Object o, other;
  switch (type) {
    case 0:
      n = (long long)(int)sx_bits("integer", 16) - 32768;
      sx_assume((n >= -15000) & (n <= 15000));
      o = make<Integer>(n), other = make<Integer>(n);
      break;
    case 1:
      n = (long long)(int)sx_bits("unsigned", 16);
      sx_assume(n <= 15000);
      o = make<UnsignedInteger>(n), other = make<UnsignedInteger>(n);
      break;
    case 2:
      n = (long long)(int)sx_bits("short", 16);
      sx_assume(n <= 15000);
      o = make<UnsignedShort>(n), other = make<UnsignedShort>(n);
      break;
    case 3:
      n = (long long)(int)sx_bits("quarters", 16) - 32768;
      sx_assume((n >= -15000) & (n <= 15000));
      o = make<Double>(n / 4.0), other = make<Double>(n / 4.0);
      break;
    case 4: o = make<Boolean>(true), other = make<Boolean>(true); break;
    default: o = make<String>("1"), other = make<String>("1");
  }
  scope.insert("p", o);
  scope.insert("other", other);
  static const char * names[] = {"p", "undeclared"};
  const int undeclared = sx::pick("undeclared", 0, 1);
  static const char * addends[] = {"0", "1", "-1", "2.5", "100"};
  static const double addend[] = {0, 1, -1, 2.5, 100};
  static const char * factors[] = {"0", "1", "0.5", "1.5", "2", "-1"};
  static const double factor[] = {0, 1, 0.5, 1.5, 2, -1};
  double value = type == 3 ? n / 4.0 : (double)n;
  const int steps = undeclared or type > 3 ? 1 : 2;
  for (int step = 0; step < steps; ++step) {
    std::string text;
    double expected;
    if (sx::boolean(sx::nm("multiply", step))) {
      const int k = step ? 3 : sx::pick("factor", 0, 5);
      text = std::string("<ModifyAction><Rule><MultiplyByValue value=\"") + factors[k] + "\"/></Rule></ModifyAction>";
      expected = value * factor[k];
      sx_reach("multiplied");
    } else {
      const int k = step ? 3 : sx::pick("addend", 0, 4);
      text = std::string("<ModifyAction><Rule><AddValue value=\"") + addends[k] + "\"/></Rule></ModifyAction>";
      expected = value + addend[k];
      sx_reach("added");
    }
    if (undeclared or type > 3) {
      sx_reach(undeclared ? "undeclared" : "not numeric");
      sx_assert(throws([&] { act(names[undeclared], text, inner); }), "only_numeric_parameters_can_be_modified");
      if (undeclared) {
        sx_assert(throws([&] { act("undeclared", "<SetAction value=\"1\"/>", inner); }), "only_declared_parameters_can_be_set");
        sx_assert(throws([&] {
          auto document = xml("<ParameterCondition parameterRef=\"undeclared\" rule=\"equalTo\" value=\"1\"/>");
          ParameterCondition(document->first_child(), inner).evaluate();
        }), "only_declared_parameters_can_be_compared");
      }
      return;
    }
    if (type == 1 or type == 2) sx_assume((expected > -1) & (expected < 65536));
    act("p", text, inner);
    value = type == 3 ? expected : (double)(long long)expected;
    const auto p = scope.ref(std::string("p"));
    switch (type) {
      case 0: sx_assert((double)p.as<Integer>().data == value, "a_modified_integer_has_the_whole_part_of_the_result"); break;
      case 1: sx_assert((double)p.as<UnsignedInteger>().data == value, "a_modified_unsigned_integer_has_the_whole_part_of_the_result"); break;
      case 2: sx_assert((double)p.as<UnsignedShort>().data == value, "a_modified_unsigned_short_has_the_whole_part_of_the_result"); break;
      default: sx_assert(p.as<Double>().data == value, "a_modified_double_has_the_result");
    }
  }
  const auto untouched = scope.ref(std::string("other"));
  switch (type) {
    case 0: sx_assert(untouched.as<Integer>().data == n, "other_parameters_keep_their_values"); break;
    case 1: sx_assert(untouched.as<UnsignedInteger>().data == (unsigned long long)n, "other_parameters_keep_their_values"); break;
    case 2: sx_assert(untouched.as<UnsignedShort>().data == (unsigned short)n, "other_parameters_keep_their_values"); break;
    default: sx_assert(untouched.as<Double>().data == n / 4.0, "other_parameters_keep_their_values");
  }
  // setting
  act("p", "<SetAction value=\"7\"/>", inner);
  sx_reach("set");
  auto document = xml("<ParameterCondition parameterRef=\"p\" rule=\"equalTo\" value=\"7\"/>");
  sx_assert(ParameterCondition(document->first_child(), inner).evaluate().as<Boolean>(), "a_parameter_has_the_value_assigned_last");
}
