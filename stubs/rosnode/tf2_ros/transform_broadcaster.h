#pragma once
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
namespace tf2_ros
{
struct TransformBroadcaster
{
  template <typename N>
  explicit TransformBroadcaster(N &&)
  {
    sx_ros::world()->publishers["/tf"] = std::vector<geometry_msgs::msg::TransformStamped>();
  }
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { sx_ros::published<geometry_msgs::msg::TransformStamped>("/tf").push_back(t); }
};
}  // namespace tf2_ros
