#pragma once
#include <filesystem>
#include <openscenario_interpreter/scope.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct OpenScenario
{
  const std::filesystem::path pathname = "/scenario/directory/scenario.xosc";
};
}  // namespace syntax
}  // namespace openscenario_interpreter
