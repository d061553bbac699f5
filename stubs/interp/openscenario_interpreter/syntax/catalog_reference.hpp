#pragma once
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/scope.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct CatalogReference
{
  explicit CatalogReference(const pugi::xml_node &, Scope &) {}
  auto make() -> Object { throw SyntaxError("no catalogs here"); }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
