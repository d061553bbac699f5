#pragma once
#include <openscenario_interpreter/scope.hpp>
#include <pugixml.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct Orientation
{
  Orientation() = default;
  explicit Orientation(const pugi::xml_node &, Scope &) {}
};
}  // namespace syntax
}  // namespace openscenario_interpreter
