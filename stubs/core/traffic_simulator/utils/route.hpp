#pragma once
#include <traffic_simulator/utils/pose.hpp>
namespace traffic_simulator
{
namespace route
{
// (to the left, to the right) according to the offsets
inline auto countLaneChanges(const CanonicalizedLaneletPose & from, const CanonicalizedLaneletPose & to, const RoutingConfiguration & r) -> std::optional<std::pair<int, int>>
{
  if (not r.allow_lane_change) return std::nullopt;
  const int d = static_cast<int>(to.pose.lanelet_id - from.pose.lanelet_id);
  if (d > 50 or d < -50) return std::nullopt;
  return d > 0 ? std::make_pair(d, 0) : std::make_pair(0, -d);
}
}
}
