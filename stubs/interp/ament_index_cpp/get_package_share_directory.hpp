#pragma once
#include <stdexcept>
#include <string>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::runtime_error
{
  explicit PackageNotFoundError(const std::string & s) : std::runtime_error(s) {}
};
inline auto get_package_share_directory(const std::string & name) -> std::string { return "/share/" + name; }
inline auto get_package_prefix(const std::string & name) -> std::string { return "/prefix/" + name; }
}  // namespace ament_index_cpp
