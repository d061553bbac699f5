#pragma once
#include <string>
#include <unordered_map>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct CatalogLocations
{
};
}  // namespace syntax
}  // namespace openscenario_interpreter
