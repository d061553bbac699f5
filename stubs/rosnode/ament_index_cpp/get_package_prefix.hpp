#pragma once
#include <rclcpp/rclcpp.hpp>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
inline std::string get_package_prefix(const std::string & name)
{
  if (not sx_ros::world()->packages.count(name)) throw PackageNotFoundError(name);
  return "/opt/" + name;
}
}  // namespace ament_index_cpp
