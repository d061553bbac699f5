/*SPEC
{
 "property": "C10",
 "src": ["common/math/geometry/src/{polygon/line_segment,intersection/intersection,transform,vector3/ros_msg_converter}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "tf2"],
 "force_include": ["cmath", "cstdint", "vector"],
 "quick": {"time": 600, "qtimeout": 60000},
 "bounds": {"quick": "every pair of segments with end points on the integer grid 0..4, collinear, touching and degenerate ones included", "thorough": "grid 0..7"},
 "outside": "coordinates off the grid",
 "witness": ["intersect", "collinear", "touch", "apart"]
}
SPEC*/
#include <geometry/intersection/intersection.hpp>
#include <geometry/polygon/line_segment.hpp>

#include "sx.hpp"

using math::geometry::LineSegment;
struct P
{
  double x, y;
};

static double orientation(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool within(P a, P b, P c)
{
  return ((a.x <= c.x) & (c.x <= b.x) | (b.x <= c.x) & (c.x <= a.x)) & ((a.y <= c.y) & (c.y <= b.y) | (b.y <= c.y) & (c.y <= a.y));
}
static geometry_msgs::msg::Point point(P p)
{
  geometry_msgs::msg::Point r;
  r.x = p.x;
  r.y = p.y;
  r.z = 0;
  return r;
}

void sx_harness()
{
  P p[4];
  for (int i = 0; i < 4; ++i) {
    p[i].x = static_cast<double>(sx::range(sx::nm("x", i), 0, sx_tier() ? 7 : 4));
    p[i].y = static_cast<double>(sx::range(sx::nm("y", i), 0, sx_tier() ? 7 : 4));
  }
  // one exploration per direction of the first segment
  const int limit = sx_tier() ? 7 : 4;
  const int dx = sx::pick("dx", -limit, limit), dy = sx::pick("dy", -limit, limit);
  p[1].x = p[0].x + dx;
  p[1].y = p[0].y + dy;
  sx_assume((p[1].x >= 0) & (p[1].x <= limit) & (p[1].y >= 0) & (p[1].y <= limit));
  const bool degenerate = ((p[0].x == p[1].x) & (p[0].y == p[1].y)) | ((p[2].x == p[3].x) & (p[2].y == p[3].y));
  sx_assume(not degenerate);
  const LineSegment a(point(p[0]), point(p[1])), b(point(p[2]), point(p[3]));
  const auto o0 = orientation(p[0], p[1], p[2]), o1 = orientation(p[0], p[1], p[3]), o2 = orientation(p[2], p[3], p[0]), o3 = orientation(p[2], p[3], p[1]);
  const bool proper = (((o0 > 0) & (o1 < 0)) | ((o0 < 0) & (o1 > 0))) & (((o2 > 0) & (o3 < 0)) | ((o2 < 0) & (o3 > 0)));
  const bool touching = ((o0 == 0) & within(p[0], p[1], p[2])) | ((o1 == 0) & within(p[0], p[1], p[3])) | ((o2 == 0) & within(p[2], p[3], p[0])) | ((o3 == 0) & within(p[2], p[3], p[1]));
  const bool expected = proper | touching;
  const bool r = math::geometry::isIntersect2D(a, b);
  sx_assert(r == expected, "intersect_exactly_if_a_point_is_shared");
  if (r) {
    sx_reach("intersect");
    sx_reach_if((o0 == 0) & (o1 == 0), "collinear");
    sx_reach_if(touching & (o0 != 0), "touch");
  } else {
    sx_reach("apart");
  }
}
