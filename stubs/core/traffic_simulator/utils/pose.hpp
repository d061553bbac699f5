// Stand-in for the geometry of poses and lanes: differences one can tell apart.
#pragma once
#include <limits>
#include <traffic_simulator/api/api.hpp>
namespace traffic_simulator
{
inline namespace pose
{
using Pose = geometry_msgs::msg::Pose;
using Box = traffic_simulator_msgs::msg::BoundingBox;
inline auto quietNaNPose() -> Pose
{
  Pose p;
  p.position.x = p.position.y = p.position.z = std::numeric_limits<double>::quiet_NaN();
  return p;
}
inline auto quietNaNLaneletPose() -> LaneletPose
{
  LaneletPose p;
  p.s = p.offset = std::numeric_limits<double>::quiet_NaN();
  return p;
}
inline auto toCanonicalizedLaneletPose(const Pose & p, bool) -> std::optional<CanonicalizedLaneletPose>
{
  LaneletPose l;
  l.lanelet_id = 1;
  l.s = p.position.x;
  l.offset = p.position.y;
  return CanonicalizedLaneletPose(l);
}
inline auto toMapPose(const CanonicalizedLaneletPose & c) -> Pose
{
  Pose p;
  p.position.x = c.pose.s;
  p.position.y = c.pose.offset;
  p.position.z = 0;
  return p;
}
inline auto relativePose(const Pose & from, const Pose & to) -> std::optional<Pose>
{
  Pose p;
  p.position.x = to.position.x - from.position.x;
  p.position.y = to.position.y - from.position.y;
  p.position.z = to.position.z - from.position.z;
  p.orientation = to.orientation;
  return p;
}
inline auto boundingBoxRelativePose(const Pose & from, const Box & from_box, const Pose & to, const Box & to_box) -> std::optional<Pose>
{
  Pose p = *relativePose(from, to);
  p.position.x += from_box.center.x + 2 * to_box.center.x;
  p.position.y += from_box.center.y + 2 * to_box.center.y;
  p.position.z += from_box.center.z + 2 * to_box.center.z;
  return p;
}
inline auto relativeLaneletPose(const CanonicalizedLaneletPose & from, const CanonicalizedLaneletPose & to, const RoutingConfiguration & r) -> LaneletPose
{
  LaneletPose p;
  p.s = to.pose.s - from.pose.s + (r.allow_lane_change ? 32 : 0);
  p.offset = to.pose.offset - from.pose.offset + (r.allow_lane_change ? 64 : 0);
  return p;
}
inline auto boundingBoxRelativeLaneletPose(const CanonicalizedLaneletPose & from, const Box & from_box, const CanonicalizedLaneletPose & to, const Box & to_box, const RoutingConfiguration & r) -> LaneletPose
{
  LaneletPose p = relativeLaneletPose(from, to, r);
  p.s += from_box.center.x + 2 * to_box.center.x;
  p.offset += from_box.center.y + 2 * to_box.center.y;
  return p;
}
}  // namespace pose
}  // namespace traffic_simulator
