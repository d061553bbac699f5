#pragma once
#include <traffic_simulator/utils/pose.hpp>
namespace traffic_simulator
{
namespace distance
{
inline auto boundingBoxDistance(const Pose & a, const Box & p, const Pose & b, const Box & q) -> std::optional<double> { return boundingBoxRelativePose(a, p, b, q)->position.x; }
}
}
