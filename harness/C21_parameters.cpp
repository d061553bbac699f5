/*SPEC
{
 "property": "C21",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/integer,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,syntax/parameter_type,syntax/parameter_declaration,syntax/parameter_declarations,syntax/parameter_condition,syntax/parameter_set_action,syntax/value_constraint,syntax/value_constraint_group,scope,object,reader/attribute,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 700, "qtimeout": 20000},
 "bounds": {"quick": "every value of a parameter of every type compared by every rule with 3 values; every assignment of 5 texts to a parameter of every type; every integer against every group of two constraints over 3 values, every declaration of a value in [-2, 3] under two groups of up to two constraints", "thorough": "same"},
 "outside": "double parameters within the tolerance of comparisons (C03); other texts",
 "witness": ["compared", "assigned", "not assigned", "constraint", "accepted", "refused", "reserved", "condition"]
}
SPEC*/
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>
#include <openscenario_interpreter/syntax/parameter_declarations.hpp>
#include <openscenario_interpreter/syntax/parameter_set_action.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
const char * rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};

template <typename T>
bool relation(int rule, T l, T r)
{
  switch (rule) {
    case 0: return l == r;
    case 1: return l > r;
    case 2: return l < r;
    case 3: return l >= r;
    case 4: return l <= r;
    default: return l != r;
  }
}

const char * types[] = {"boolean", "double", "integer", "string", "unsignedInt", "unsignedShort", "dateTime"};

bool has_type(const Object & o, int type)
{
  switch (type) {
    case 0: return o.is<Boolean>();
    case 1: return o.is<Double>();
    case 2: return o.is<Integer>();
    case 4: return o.is<UnsignedInteger>();
    case 5: return o.is<UnsignedShort>();
    default: return o.is<String>();
  }
}

std::string constraint(int rule, int value)
{
  return "<ValueConstraint rule=\"" + std::string(rules[rule]) + "\" value=\"" + std::to_string(value) + "\"/>";
}
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Scope inner("inner", scope);
  switch (sx::pick("what", 0, 3)) {
    case 0: {
      const int r = sx::pick("rule", 0, 5);
      static const Rule::value_type values[] = {Rule::equalTo, Rule::greaterThan, Rule::lessThan, Rule::greaterOrEqual, Rule::lessOrEqual, Rule::notEqualTo};
      const int k = sx::pick("against", 0, 2);
      static const int against[] = {0, 7, 300};
      const auto text = std::to_string(against[k]);
      Object o;
      bool expected;
      std::string compared = text;
      switch (sx::pick("type", 0, 5)) {
        case 0: {
          const bool b = sx_bits("bool", 1);
          o = make<Boolean>(b), compared = k ? "true" : "false", expected = relation<int>(r, b, k != 0);
          break;
        }
        case 1: {
          const double d = sx_f64("double");
          const double x = d - against[k];
          sx_assume((x == 0) | (x > 1e-3) | (x < -1e-3));
          o = make<Double>(d), expected = relation<double>(r, d, against[k]);
          break;
        }
        case 2: {
          const int i = (int)sx_bits("integer", 32);
          o = make<Integer>(i), expected = relation<int>(r, i, against[k]);
          break;
        }
        case 3: {
          std::string s("7");
          s[0] = (char)sx_bits("char", 8);
          sx_assume((s[0] >= ' ') & (s[0] <= '~'));
          o = make<String>(s), expected = relation<int>(r, s.compare(text), 0);
          break;
        }
        case 4: {
          const unsigned u = (unsigned)sx_bits("unsigned", 32);
          o = make<UnsignedInteger>(u), expected = relation<unsigned>(r, u, against[k]);
          break;
        }
        default: {
          const unsigned short u = (unsigned short)sx_bits("short", 16);
          o = make<UnsignedShort>(u), expected = relation<int>(r, u, against[k]);
        }
      }
      sx_reach("compared");
      sx_assert(ParameterCondition::compare(o, Rule(values[r]), compared) == expected, "a_parameter_is_compared_as_a_value_of_its_type");
      scope.insert("p", o);
      auto document = xml("<ParameterCondition parameterRef=\"p\" rule=\"" + std::string(rules[r]) + "\" value=\"" + compared + "\"/>");
      sx_reach("condition");
      sx_assert(ParameterCondition(document->first_child(), inner).evaluate().as<Boolean>() == expected, "a_parameter_condition_compares_the_parameter");
      break;
    }
    case 1: {
      const int type = sx::pick("type", 0, 5);
      static const char * first[] = {"false", "1.5", "1", "one", "1", "1"};
      static const char * second[] = {"true", "-2.5", "-2", "two", "2", "2"};
      for (auto n : {"p", "q"}) {
        auto document = xml("<ParameterDeclaration name=\"" + std::string(n) + "\" parameterType=\"" + types[type] + "\" value=\"" + first[type] + "\"/>");
        ParameterDeclaration(document->first_child(), scope);
      }
      const auto p = scope.ref(std::string("p"));
      sx_assert(has_type(p, type), "a_parameter_has_the_declared_type");
      sx_assert(ParameterCondition::compare(p, Rule(Rule::equalTo), first[type]), "a_parameter_has_the_declared_value");
      static const char * texts[] = {"true", "x", "70000", "-1", "0.5"};
      static const bool fits[][5] = {{true, false, false, false, false}, {false, false, true, true, true}, {false, false, true, true, false}, {true, true, true, true, true}, {false, false, true, false, false}, {false, false, false, false, false}};
      const int k = sx::pick("text", -1, 4);
      const bool ok = k < 0 or fits[type][k];
      const std::string text = k < 0 ? second[type] : texts[k];
      bool failed = false;
      try {
        ParameterSetAction::set(inner, "p", text);
      } catch (const std::exception &) {
        failed = true;
      }
      sx_reach(ok ? "assigned" : "not assigned");
      sx_assert(failed != ok, "exactly_the_texts_of_values_of_the_type_can_be_assigned");
      sx_assert(has_type(scope.ref(std::string("p")), type), "a_parameter_keeps_its_type");
      sx_assert(ParameterCondition::compare(scope.ref(std::string("p")), Rule(Rule::equalTo), ok ? text : first[type]), "a_parameter_has_the_value_assigned_last");
      sx_assert(ParameterCondition::compare(inner.ref(std::string("q")), Rule(Rule::equalTo), first[type]), "other_parameters_keep_their_values");
      break;
    }
    case 2: {
      const int n = sx::pick("constraints", 1, 2), i = (int)sx_bits("value", 32);
      static const int values[] = {-3, 0, 5};
      std::string text;
      bool expected = true;
      for (int k = 0; k < n; ++k) {
        const int rule = sx::pick(sx::nm("rule", k), 0, 5), v = values[sx::pick(sx::nm("against", k), 0, 2)];
        text += constraint(rule, v);
        expected = expected & relation<int>(rule, i, v);
      }
      auto document = xml("<ConstraintGroup>" + text + "</ConstraintGroup>");
      sx_reach("constraint");
      sx_assert(ValueConstraintGroup(document->first_child(), scope).evaluate(make<Integer>(i)) == expected, "a_group_holds_if_all_of_its_constraints_do");
      break;
    }
    default: {
      const int value = sx::pick("value", -2, 3), groups = sx::pick("groups", 0, 2);
      const bool reserved = groups == 0 and sx::pick("reserved", 0, 1);
      std::string text = "<ParameterDeclarations><ParameterDeclaration name=\"" + std::string(reserved ? "OSCp" : "p") + "\" parameterType=\"" + types[sx::pick("type", 1, 2)] + "\" value=\"" + std::to_string(value) + "\">";
      bool expected = groups == 0;
      for (int g = 0; g < groups; ++g) {
        text += "<ConstraintGroup>";
        bool all = true;
        for (int c = 0; c <= g; ++c) {
          const int rule = sx::pick(sx::nm("rule", g * 2 + c), 0, 5), v = c;
          text += constraint(rule, v);
          all = all and relation<int>(rule, value, v);
        }
        expected = expected or all;
        text += "</ConstraintGroup>";
      }
      auto document = xml(text + "</ParameterDeclaration></ParameterDeclarations>");
      try {
        ParameterDeclarations(document->first_child(), scope);
        sx_reach("accepted");
        sx_assert(expected and not reserved, "a_declaration_outside_its_constraints_is_refused");
        sx_assert(ParameterCondition::compare(inner.ref(std::string("p")), Rule(Rule::equalTo), std::to_string(value)), "a_parameter_has_the_declared_value");
      } catch (const SyntaxError &) {
        sx_reach(reserved ? "reserved" : "refused");
        sx_assert(not expected or reserved, "a_declaration_within_its_constraints_is_accepted");
      }
    }
  }
}
