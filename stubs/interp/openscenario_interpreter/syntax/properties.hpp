#pragma once
#include <openscenario_interpreter/scope.hpp>
#include <pugixml.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct Properties
{
  Properties() = default;
  explicit Properties(const pugi::xml_node &, Scope &) {}
};
}  // namespace syntax
}  // namespace openscenario_interpreter
