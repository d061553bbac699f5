// Stand-in for a scenario object: its name and its type only.
#pragma once
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/simulator_core.hpp>
#include <openscenario_interpreter/syntax/object_type.hpp>
#include <openscenario_interpreter/syntax/string.hpp>
#include <pugixml.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct ScenarioObject : public Scope
{
  ObjectType type;
  bool is_added = false;
  explicit ScenarioObject(const pugi::xml_node & node, Scope & scope) : Scope(readAttribute<String>("name", node, scope), scope)
  {
    const std::string kind = node.first_child().name();
    type.value = kind == "Vehicle" ? ObjectType::vehicle : kind == "Pedestrian" ? ObjectType::pedestrian : ObjectType::miscellaneous;
  }
  auto objectType() const -> ObjectType::value_type { return type; }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
