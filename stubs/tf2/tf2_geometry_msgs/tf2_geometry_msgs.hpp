#pragma once
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <tf2/LinearMath/all.h>

namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline void fromMsg(const geometry_msgs::msg::Point & m, Vector3 & v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Vector3 & v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::msg::Pose & m, Transform & t)
{
  t = Transform(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w), Vector3(m.position.x, m.position.y, m.position.z));
}
inline void fromMsg(const geometry_msgs::msg::Transform & m, Transform & t)
{
  t = Transform(Quaternion(m.rotation.x, m.rotation.y, m.rotation.z, m.rotation.w), Vector3(m.translation.x, m.translation.y, m.translation.z));
}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x();
  m.y = q.y();
  m.z = q.z();
  m.w = q.w();
  return m;
}
inline geometry_msgs::msg::Pose & toMsg(const Transform & t, geometry_msgs::msg::Pose & m)
{
  m.position.x = t.getOrigin().x();
  m.position.y = t.getOrigin().y();
  m.position.z = t.getOrigin().z();
  m.orientation = toMsg(t.getRotation());
  return m;
}
}  // namespace tf2
