#pragma once
#include <rclcpp/rclcpp.hpp>
namespace tf2_ros
{
struct Buffer
{
  explicit Buffer(const std::shared_ptr<rclcpp::Clock> &) {}
};
}  // namespace tf2_ros
