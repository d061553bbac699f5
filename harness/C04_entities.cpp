/*SPEC
{
 "property": "C04",
 "name": "C04_entities",
 "src": ["openscenario/openscenario_interpreter/src/syntax/triggering_entities_rule.cpp"],
 "quick": {"time": 100},
 "bounds": {"quick": "all / any / none over 0..5 entities with every combination of per-entity results", "thorough": "0..8 entities"},
 "outside": "more entities",
 "witness": ["true", "false", "empty"]
}
SPEC*/
#include <openscenario_interpreter/syntax/triggering_entities_rule.hpp>
#include <sstream>
#include <vector>

#include "sx.hpp"

using namespace openscenario_interpreter;

void sx_harness()
{
  const int k = sx::pick("rule", 0, 2);
  TriggeringEntitiesRule rule;
  std::stringstream s(k == 0 ? "all" : "any");
  s >> rule;
  if (k == 2) rule.value = TriggeringEntitiesRule::none;  // has no literal
  const int n = sx::pick("entities", 0, sx_tier() ? 8 : 5);
  std::vector<uint8_t> holds(n);
  bool all = true, any = false;
  for (int i = 0; i < n; ++i) {
    holds[i] = sx::boolean(sx::nm("holds", i));
    all = all & (holds[i] != 0);
    any = any | (holds[i] != 0);
  }
  const bool r = rule.apply(holds.begin(), holds.end(), [](uint8_t x) { return x != 0; });
  sx_assert(r == (k == 0 ? all : k == 1 ? any : not any), k == 0 ? "all" : k == 1 ? "any" : "none");
  if (n == 0) sx_reach("empty");
  if (r) sx_reach("true"); else sx_reach("false");
}
