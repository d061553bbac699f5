/*SPEC
{
 "property": "C18",
 "src": ["common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "inc": ["openscenario/openscenario_interpreter/include"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "quick": {"time": 600},
 "bounds": {"quick": "every text of at most 7 characters taken from 5 or 6 kinds (separators, quotes, parentheses, two letters)", "thorough": "9 characters"},
 "outside": "longer texts; other characters",
 "witness": ["words", "absolute", "relative", "nothing", "call", "no call", "arguments", "quoted"]
}
SPEC*/
#include <openscenario_interpreter/name.hpp>
#include <openscenario_interpreter/regex/function_call_expression.hpp>
#include <openscenario_interpreter/string/split.hpp>

#include "sx.hpp"

using namespace openscenario_interpreter;

static std::string text(const char * alphabet, int longest)
{
  const int length = sx::pick("length", 0, longest);
  std::string s(length, 'a');
  for (int i = 0; i < length; ++i) {
    const char c = sx::byte(sx::nm("char", i).c_str());
    bool ok = false;
    for (const char * p = alphabet; *p; ++p) ok = ok | (c == *p);
    sx_assume(ok);
    s[i] = c;
  }
  return s;
}

static bool word(char c) { return (c == 'a') | (c == 'b') | (c == '@') | (c == '_'); }

// ARGUMENT ,? SPACE*  repeated, from position i; the arguments found
static bool arguments(const std::string & s, size_t i, size_t end, std::vector<std::string> & out)
{
  while (i < end) {
    const size_t begin = i;
    if (s[i] == '"') {
      for (++i; i < end and s[i] != '"'; ++i) {}
      if (i == end) return false;
      ++i;
    } else {
      while (i < end and s[i] != '(' and s[i] != '"' and s[i] != ' ' and s[i] != ',' and s[i] != ')') ++i;
      if (i == begin) return false;
    }
    out.push_back(s.substr(begin, i - begin));
    if (i < end and s[i] == ',') ++i;
    while (i < end and s[i] == ' ') ++i;
  }
  return true;
}

void sx_harness()
{
  const int longest = sx_tier() ? 9 : 7;
  switch (sx::pick("what", 0, 2)) {
    case 0: {
      const auto s = text("ab \t\n", longest);
      std::vector<std::string> expected{""};
      for (char c : s) {
        if ((c == ' ') | (c == '\t') | (c == '\n')) expected.push_back("");
        else expected.back() += c;
      }
      sx_reach("words");
      sx_assert(split(s) == expected, "words_between_single_spaces");
      break;
    }
    case 1: {
      const auto s = text("ab:", longest);
      std::vector<std::string> parts{""};
      bool colon = false;
      for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == ':' and i + 1 < s.size() and s[i + 1] == ':') parts.push_back(""), ++i;
        else parts.back() += s[i];
      }
      for (char c : parts.back()) colon = colon or c == ':';
      const bool absolute = parts.size() > 1 and parts[0].empty();
      try {
        const Prefixed<Name> name(s);
        sx_reach(absolute ? "absolute" : s.empty() ? "nothing" : "relative");
        sx_assert(not colon, "a_name_with_a_colon_is_rejected");
        sx_assert(name.absolute == absolute, "absolute_if_it_begins_with_the_separator");
        sx_assert(name.name == parts.back(), "the_last_part_is_the_name");
        sx_assert(std::vector<std::string>(name.prefixes.begin(), name.prefixes.end()) == std::vector<std::string>(parts.begin() + absolute, parts.end() - 1), "the_parts_before_are_the_prefixes");
        if (not name.prefixes.empty()) {
          const auto rest = name.strip<1>();
          sx_assert(not rest.absolute and rest.name == parts.back() and rest.prefixes.size() == name.prefixes.size() - 1 and (rest.prefixes.empty() or rest.prefixes.back() == name.prefixes.back()), "stripping_removes_the_first_prefix");
        }
      } catch (const SyntaxError &) {
        sx_assert(colon, "only_a_name_with_a_colon_is_rejected");
      }
      break;
    }
    default: {
      const auto s = text("ab(,) \"", longest);
      size_t i = 0;
      while (i < s.size() and word(s[i])) ++i;
      std::vector<std::string> list;
      const bool bare = i > 0 and i == s.size();
      const bool call = bare or (i > 0 and s[i] == '(' and s.back() == ')' and i + 1 < s.size() and arguments(s, i + 1, s.size() - 1, list));
      std::smatch result;
      const bool matches = std::regex_match(s, result, FunctionCallExpression::pattern());
      sx_reach(call ? "call" : "no call");
      sx_assert(matches == call, "a_call_is_a_name_with_an_optional_argument_list");
      if (matches and call) {
        sx_assert(result.str(1) == s.substr(0, i), "name_of_the_call");
        if (not list.empty()) sx_reach("arguments");
        for (auto & a : list) if (a[0] == '"') sx_reach("quoted");
        sx_assert(FunctionCallExpression::splitParameters(result.str(3)) == list, "arguments_of_the_call");
      }
    }
  }
}
