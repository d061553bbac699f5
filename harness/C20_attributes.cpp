/*SPEC
{
 "property": "C20",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/integer,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,scope,object,reader/attribute,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 700, "qtimeout": 20000},
 "bounds": {"quick": "every text of up to 2 characters of 5 kinds ($, parentheses, space, a letter), a substitution, expression or reference of one of 15 forms or none, and again up to 2 characters, as a String; every integer below 1000 as text, with and without a further character, as an Integer", "thorough": "up to 3 characters before and after"},
 "outside": "the value of an expression (C19); other texts; substitutions that yield substitutions; the output of ros2 commands (a stand-in)",
 "witness": ["literal", "reference", "no such parameter", "substituted", "unknown substitution", "empty", "absent", "number", "no number", "expression"]
}
SPEC*/
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

// expressions are C19's: here only which text is evaluated, and that its value becomes the attribute's
namespace openscenario_interpreter
{
inline namespace reader
{
std::string evaluate(const std::string & expression, const Scope &) { return "7" + expression; }
}  // namespace reader
}  // namespace openscenario_interpreter

namespace
{
struct Attribute
{
  const std::string * text;
  explicit operator bool() const { return text != nullptr; }
  const char * value() const { return text ? text->c_str() : ""; }
};
struct Node
{
  const std::string * text;
  Attribute attribute(const char * name) const { return {std::string(name) == "value" ? text : nullptr}; }
  const char * name() const { return "X"; }
};

std::string text(const char * tag, const char * alphabet, int longest)
{
  const int length = sx::pick(tag, 0, longest);
  std::string s(length, 'a');
  for (int i = 0; i < length; ++i) {
    const char c = sx::byte(sx::nm(tag, i).c_str());
    bool ok = false;
    for (const char * p = alphabet; *p; ++p) ok = ok | (c == *p);
    sx_assume(ok);
    s[i] = c;
  }
  return s;
}

bool word(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_'); }

enum Result { fine, unknown };

// replaces the last substitution until none is left
Result substituted(std::string & s)
{
  while (true) {
    bool found = false;
    for (int i = (int)s.size() - 2; i >= 0 and not found; --i) {
      if (s[i] != '$' or s[i + 1] != '(') continue;
      size_t w = i + 2, a, e;
      while (w < s.size() and word(s[w])) ++w;
      if (w == i + 2u) continue;
      a = w;
      if (a < s.size() and s[a] == ' ') ++a;
      e = a;
      while (e < s.size() and s[e] != ')') ++e;
      if (e == s.size()) continue;
      found = true;
      sx_reach("substituted");
      const auto name = s.substr(i + 2, w - i - 2), argument = s.substr(a, e - a);
      std::string value;
      if (name == "dirname") value = "/scenario/directory";
      else if (name == "find-pkg-share") value = "/share/" + argument;
      else if (name == "ros2") value = "output of ros2 " + argument;
      else if (name == "var" and argument == "a") value = "12";
      else return unknown;
      s = s.substr(0, i) + value + s.substr(e + 1);
    }
    if (not found) return fine;
  }
}
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope outer(&open_scenario);
  outer.insert("a", make<Integer>(12));
  Scope scope("inner", outer);
  const int longest = sx_tier() ? 3 : 2;
  switch (sx::pick("what", 0, 2)) {
    case 0: {
      static const char * middle[] = {"", "$(var a)", "$(var b)", "$(dirname)", "$(find-pkg-share p)", "$(ros2 x y)", "$(unheard of)", "$(var  a)", "$(var a", "$a", "${x}", "${$(var a)}", "${", "x}", "${x", "$}"};
      std::string s = text("before", "$( )a", longest) + middle[sx::pick("middle", 0, 15)];
      s += text("after", "$( )a", longest);
      std::string expected = s;
      const auto result = substituted(expected);
      bool reference = false, error = result == unknown;
      if (result == fine and not expected.empty() and expected[0] == '$') {
        reference = true;
        if (expected.size() > 2 and expected[1] == '{' and expected.back() == '}') sx_reach("expression"), expected = "7" + expected.substr(2, expected.size() - 3);
        else if (expected == "$a") expected = "12"; else error = true;
      }
      const Node node{&s};
      try {
        const auto value = readAttribute<String>("value", node, scope);
        sx_assert(not error, "a_reference_or_substitution_without_meaning_is_rejected");
        sx_reach(reference ? "reference" : expected.empty() ? "empty" : "literal");
        sx_assert(value == expected, "value_of_the_attribute");
        if (sx::boolean("default")) sx_assert(readAttribute<String>("value", node, scope, String("default")) == expected, "a_default_does_not_hide_the_attribute");
      } catch (const SyntaxError &) {
        sx_assert(error, "only_a_reference_or_substitution_without_meaning_is_rejected");
        sx_reach(result == unknown ? "unknown substitution" : "no such parameter");
      }
      break;
    }
    case 1: {
      const Node node{nullptr};
      bool failed = false;
      try {
        readAttribute<String>("value", node, scope);
      } catch (const SyntaxError &) {
        failed = true;
      }
      sx_reach("absent");
      sx_assert(failed, "a_required_attribute_must_be_there");
      sx_assert(readAttribute<String>("value", node, scope, String("default")) == "default", "the_default_stands_in_for_an_absent_attribute");
      sx_assert(readAttribute<Integer>("value", node, scope, Integer(3)) == 3, "the_default_stands_in_for_an_absent_attribute");
      sx_assert(not readAttribute<Double>("value", node, scope, std::nullopt), "an_absent_optional_attribute_has_no_value");
      break;
    }
    default: {
      int v = 0;
      std::string s;
      const bool negative = sx::boolean("negative");
      if (negative) s = "-";
      const int digits = sx::pick("digits", 1, 3);
      for (int i = 0; i < digits; ++i) {
        const char c = sx::byte(sx::nm("digit", i).c_str());
        sx_assume((c >= '0') & (c <= '9'));
        s += c;
        v = v * 10 + (c - '0');
      }
      const auto rest = text("rest", "a.-", 1);
      s += rest;
      const Node node{&s};
      try {
        const auto i = readAttribute<Integer>("value", node, scope);
        sx_reach("number");
        sx_assert(rest.empty(), "text_that_is_no_number_is_rejected");
        sx_assert(i == (negative ? -v : v), "value_of_a_numeric_attribute");
        const auto o = readAttribute<Integer>("value", node, scope, std::nullopt);
        sx_assert(o.has_value() and *o == i, "value_of_an_optional_attribute");
      } catch (const SyntaxError &) {
        sx_reach("no number");
        sx_assert(not rest.empty(), "a_number_is_accepted");
      }
    }
  }
}
