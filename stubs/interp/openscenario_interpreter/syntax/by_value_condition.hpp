// Stand-in leaf condition: its value at each evaluation is what the harness says.
#pragma once
#include <functional>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <pugixml.hpp>
namespace openscenario_interpreter
{
namespace probe
{
inline std::function<bool(int)> value = [](int) { return false; };  // value of leaf condition i now
inline std::function<void(int, const char *)> note = [](int, const char *) {};
}  // namespace probe
inline namespace syntax
{
struct ByValueCondition
{
  const int index;
  explicit ByValueCondition(const pugi::xml_node & node, Scope &) : index(node.attribute("probe").as_int()) {}
  auto description() const -> std::string { return "condition " + std::to_string(index); }
  auto type() const -> const std::type_info & { return typeid(ByValueCondition); }
  auto evaluate() -> Object { return asBoolean(probe::value(index)); }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
