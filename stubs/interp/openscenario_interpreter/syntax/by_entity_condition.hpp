// Stand-in leaf condition: its value at each evaluation is what the harness says.
#pragma once
#include <openscenario_interpreter/syntax/by_value_condition.hpp>
#include <functional>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <pugixml.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct ByEntityCondition
{
  const int index;
  explicit ByEntityCondition(const pugi::xml_node & node, Scope &) : index(node.attribute("probe").as_int()) {}
  auto description() const -> std::string { return "condition " + std::to_string(index); }
  auto type() const -> const std::type_info & { return typeid(ByEntityCondition); }
  auto evaluate() -> Object { return asBoolean(probe::value(index)); }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
