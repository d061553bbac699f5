/*SPEC
{
 "property": "C22",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/integer,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 600},
 "bounds": {"quick": "every sequence of up to 4 children of 3 names, read with 8 pairs of cardinalities, as single elements, as groups and as a choice", "thorough": "5 children"},
 "outside": "more children, other cardinalities",
 "witness": ["too few", "too many", "right", "none of a choice", "two of a choice", "choice", "default", "missing", "group"]
}
SPEC*/
#include <openscenario_interpreter/reader/element.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
struct Item
{
  int id;
  explicit Item(const pugi::xml_node & node, const Scope &) : id(node.attribute("id").as_int()) {}
  explicit Item(const pugi::xml_node & node, const Scope &, int offset) : id(node.attribute("id").as_int() + offset) {}
};
struct Optional
{
  int id = -1;
  Optional() = default;
  explicit Optional(const pugi::xml_node & node, const Scope &) : id(node.attribute("id").as_int()) {}
};
struct OnlyA
{
  int id;
  explicit OnlyA(const pugi::xml_node & node, const Scope &) : id(node.attribute("id").as_int())
  {
    if (std::string(node.name()) != "A") throw SyntaxError("not an A");
  }
};

template <Cardinality Min, Cardinality Max>
void cardinality(const pugi::xml_node & node, const Scope & scope, const std::vector<int> & ids)
{
  const int n = ids.size();
  const bool ok = Min <= n and n <= Max;
  std::vector<int> seen;
  bool failed = false;
  try {
    traverse<Min, Max>(node, "A", [&](auto && child) { seen.push_back(child.attribute("id").as_int()); });
  } catch (const SyntaxError &) {
    failed = true;
  }
  sx_reach(ok ? "right" : n < Min ? "too few" : "too many");
  sx_assert(failed != ok, "rejected_exactly_if_there_are_too_few_or_too_many");
  if (ok) sx_assert(seen == ids, "every_child_is_visited_once_in_order");
  else sx_assert(seen.empty(), "nothing_is_read_when_rejected");
  failed = false;
  try {
    const auto items = readElements<Item, Min, Max>("A", node, scope);
    seen.clear();
    for (auto & i : items) seen.push_back(i.id);
    sx_assert(seen == ids, "every_element_is_read_once_in_order");
  } catch (const SyntaxError &) {
    failed = true;
  }
  sx_assert(failed != ok, "elements_are_rejected_exactly_if_there_are_too_few_or_too_many");
  failed = false;
  try {
    const auto items = readGroups<OnlyA, Min, Max>(node, scope);
    sx_reach("group");
    seen.clear();
    for (auto & i : items) seen.push_back(i.id);
    sx_assert(seen == ids, "every_member_of_a_group_is_read_once_in_order");
  } catch (const SyntaxError &) {
    failed = true;
  }
  sx_assert(failed != ok, "groups_are_rejected_exactly_if_there_are_too_few_or_too_many");
}
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  const int n = sx::pick("children", 0, sx_tier() ? 5 : 4);
  static const char * names[] = {"A", "B", "C"};
  std::string text = "<X>";
  std::vector<int> ids[3];
  for (int i = 0; i < n; ++i) {
    const int k = sx::pick(sx::nm("name", i), 0, 2);
    ids[k].push_back(i);
    text += std::string("<") + names[k] + " id=\"" + std::to_string(i) + "\"/>";
  }
  auto document = xml(text + "</X>");
  const auto node = document->first_child();
  switch (sx::pick("cardinality", 0, 8)) {
    case 0: cardinality<0, 0>(node, scope, ids[0]); break;
    case 1: cardinality<0, 1>(node, scope, ids[0]); break;
    case 2: cardinality<1, 1>(node, scope, ids[0]); break;
    case 3: cardinality<0, unbounded>(node, scope, ids[0]); break;
    case 4: cardinality<1, unbounded>(node, scope, ids[0]); break;
    case 5: cardinality<2, unbounded>(node, scope, ids[0]); break;
    case 6: cardinality<2, 3>(node, scope, ids[0]); break;
    case 7: cardinality<1, 2>(node, scope, ids[0]); break;
    default: {
      // one of A and B
      std::string called;
      int which = -1;
      bool failed = false;
      try {
        choice(node, {
          {"A", [&](auto && child) { called += "A"; which = child.attribute("id").as_int(); return unspecified; }},
          {"B", [&](auto && child) { called += "B"; which = child.attribute("id").as_int(); return unspecified; }}});
      } catch (const SyntaxError &) {
        failed = true;
      }
      const bool a = not ids[0].empty(), b = not ids[1].empty();
      sx_reach(a and b ? "two of a choice" : a or b ? "choice" : "none of a choice");
      sx_assert(failed == (a == b), "a_choice_is_rejected_exactly_unless_one_of_its_elements_is_there");
      if (failed) sx_assert(called.empty(), "nothing_is_called_when_rejected");
      else sx_assert(called == (a ? "A" : "B") and which == ids[a ? 0 : 1][0], "the_element_that_is_there_is_chosen");
      // single elements
      sx_assert(readElement<Optional>("A", node, scope).id == (a ? ids[0][0] : -1), "an_optional_element_has_its_default_exactly_if_absent");
      failed = false;
      try {
        sx_assert(readElement<Item>("B", node, scope).id == ids[1][0], "a_required_element_is_read");
        sx_assert(readElement<Item>("B", node, scope, 10).id == ids[1][0] + 10, "further_arguments_reach_the_element");
      } catch (const SyntaxError &) {
        failed = true;
      }
      sx_reach(b ? "default" : "missing");
      sx_assert(failed == not b, "a_required_element_must_be_there");
      Optional other;
      other.id = 77;
      sx_assert(readElement<Optional>("C", node, scope, other).id == (ids[2].empty() ? 77 : ids[2][0]), "the_given_default_stands_in_for_an_absent_element");
    }
  }
}
