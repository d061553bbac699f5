// Stand-in for ROS parameters: the harness says which are set.
#pragma once
#include <map>
#include <string>
namespace common
{
inline std::map<std::string, bool> bool_parameters;
template <typename T>
auto getParameter(const std::string & name, T value = {}) -> T
{
  if constexpr (std::is_same_v<T, bool>)
    if (const auto i = bool_parameters.find(name); i != bool_parameters.end()) return i->second;
  return value;
}
}  // namespace common
