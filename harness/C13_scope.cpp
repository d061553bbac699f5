/*SPEC
{
 "property": "C13",
 "src": ["openscenario/openscenario_interpreter/src/{scope,object,utility/demangle,syntax/integer}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 500},
 "bounds": {"quick": "every tree of up to four scopes (any shape), each unnamed or named by any of two letters, each with any of the variables of two names, one of them possibly defined twice in a row; plain, qualified (one or two prefixes) and absolute references from any scope", "thorough": "five scopes"},
 "outside": "longer names and more prefixes; more scopes",
 "witness": ["found", "missing", "ambiguous", "shadowed", "qualified", "absolute"]
}
SPEC*/
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>

#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
constexpr int MAX = 5;
int frames, parent[MAX];
bool named[MAX];
char name[MAX];       // 'A' or 'B' if named
bool defines[MAX];    // a variable "x" in the frame
bool twice[MAX];

// scopes at the same distance are searched together; unnamed scopes are transparent; -1 nothing, -2 several
int variable_in(int frame)
{
  int level[MAX], n = 1;
  level[0] = frame;
  while (n) {
    int found = -1, inner[MAX], m = 0;
    for (int i = 0; i < n; ++i) {
      if (defines[level[i]]) found = found == -1 and not twice[level[i]] ? level[i] : -2;
      for (int f = level[i] + 1; f < frames; ++f) {
        if (parent[f] == level[i] and not named[f]) inner[m++] = f;
      }
    }
    if (found != -1) return found;
    n = m;
    for (int i = 0; i < m; ++i) level[i] = inner[i];
  }
  return -1;
}

int plain(int frame)
{
  const int found = variable_in(frame);
  return found != -1 or frame == 0 ? found : plain(parent[frame]);
}

int scope_in(int frame, char prefix)
{
  int level[MAX], n = 1;
  level[0] = frame;
  while (n) {
    int found = -1, inner[MAX], m = 0;
    for (int i = 0; i < n; ++i) {
      for (int f = level[i] + 1; f < frames; ++f) {
        if (parent[f] != level[i]) continue;
        if (not named[f]) {
          inner[m++] = f;
        } else if (name[f] == prefix) {
          found = found == -1 ? f : -2;
        }
      }
    }
    if (found != -1) return found;
    n = m;
    for (int i = 0; i < m; ++i) level[i] = inner[i];
  }
  return -1;
}
}  // namespace

void sx_harness()
{
  frames = sx_tier() ? 5 : 4;
  const OpenScenario open_scenario;
  std::vector<Scope> scopes;
  scopes.reserve(MAX);
  scopes.emplace_back(&open_scenario);
  parent[0] = -1;
  named[0] = false;
  for (int f = 1; f < frames; ++f) {
    parent[f] = sx::pick(sx::nm("parent", f), 0, f - 1);
    named[f] = sx::pick(sx::nm("named", f), 0, 1);
    name[f] = named[f] ? sx::boolean(sx::nm("name", f)) ? 'B' : 'A' : 0;
    scopes.emplace_back(std::string(named[f] ? 1 : 0, name[f]), scopes[parent[f]]);
  }
  bool any_twice = false;
  for (int f = 0; f < frames; ++f) {
    defines[f] = sx::pick(sx::nm("defines", f), 0, 1);
    twice[f] = false;
    if (defines[f]) scopes[f].insert("x", make<Integer>(f));
    if (f == 1 and defines[f] and sx::pick("twice", 0, 1)) {
      twice[f] = any_twice = true;
      scopes[f].insert("x", make<Integer>(f));
    }
  }
  const int from = sx::pick("from", 0, frames - 1), prefixes = sx::pick("prefixes", 0, 2);
  const bool absolute = prefixes and sx::pick("absolute", 0, 1);
  char prefix[2];
  std::string reference = absolute ? "::" : "";
  for (int i = 0; i < prefixes; ++i) {
    prefix[i] = sx::boolean(sx::nm("prefix", i)) ? 'B' : 'A';
    reference += prefix[i];
    reference += "::";
  }
  reference += "x";
  // where the reference leads
  int expected;
  if (not prefixes) {
    expected = plain(from);
  } else {
    int frame = absolute ? 0 : from, i = 0;
    if (not absolute) {
      int around = from ? parent[from] : 0;  // beginning among the scopes beside the given one, then further out
      while ((frame = scope_in(around, prefix[0])) == -1 and around) around = parent[around];
      ++i;
    }
    while (frame >= 0 and i < prefixes) frame = scope_in(frame, prefix[i++]);
    expected = frame < 0 ? frame : plain(frame);
  }
  int result;
  try {
    result = static_cast<int>(static_cast<std::int64_t>(scopes[from].ref<Integer>(reference)));
  } catch (const SyntaxError &) {
    result = -1;
  }
  if (expected >= 0) {
    sx_reach("found");
    if (prefixes) sx_reach(absolute ? "absolute" : "qualified");
    if (not prefixes and expected == from and from and plain(0) >= 0) sx_reach("shadowed");
  } else {
    sx_reach(expected == -1 ? "missing" : "ambiguous");
  }
  sx_assert(expected >= 0 or result < 0, "reference_to_nothing_or_to_several_is_rejected");
  sx_assert(expected < 0 or result >= 0, "reference_to_one_variable_is_accepted");
  sx_assert(expected < 0 or result == expected, "reference_denotes_the_nearest_variable");
}
