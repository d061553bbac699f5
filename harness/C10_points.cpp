/*SPEC
{
 "property": "C10",
 "src": ["common/math/geometry/src/{polygon/line_segment,intersection/intersection,transform,vector3/ros_msg_converter}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "tf2"],
 "force_include": ["cmath", "cstdint", "vector"],
 "real": true, "float_samples": true,
 "quick": {"time": 300},
 "bounds": {"quick": "intersection point, s value and point at s of every pair of segments, the first from any real point in [-8, 8] along each of 12 vectors, the second likewise", "thorough": "24 vectors each"},
 "outside": "touching within 1e-6 without crossing; parallel segments (C10_segments decides whether they intersect), other directions; rounding",
 "witness": ["intersect", "apart"]
}
SPEC*/
#include <geometry/intersection/intersection.hpp>
#include <geometry/polygon/line_segment.hpp>

#include "sx.hpp"

using math::geometry::LineSegment;
static geometry_msgs::msg::Point point(double x, double y)
{
  geometry_msgs::msg::Point r;
  r.x = x;
  r.y = y;
  r.z = 0;
  return r;
}

void sx_harness()
{
  static const int direction[24][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {-4, 3}, {-3, -4}, {4, -3}, {2, 0}, {0, 5}, {-7, 0}, {0, -3}, {5, 12}, {-12, 5}, {-5, -12}, {12, -5}, {6, 8}, {-8, 6}, {-6, -8}, {8, -6}, {4, 3}, {-3, 4}, {-4, -3}, {3, -4}};
  const int d = sx::pick("direction", 0, sx_tier() ? 23 : 11);
  const double dx = direction[d][0], dy = direction[d][1];
  const double ax = sx::real("ax", -8, 8), ay = sx::real("ay", -8, 8);
  const double bx = ax + dx, by = ay + dy;
  const int e = sx::pick("direction of the other", 0, sx_tier() ? 23 : 11);
  const double fx = direction[e][0], fy = direction[e][1];
  const double cx = sx::real("cx", -8, 8), cy = sx::real("cy", -8, 8), ex = cx + fx, ey = cy + fy;
  const double det = dx * fy - dy * fx;
  const LineSegment a(point(ax, ay), point(bx, by)), b(point(cx, cy), point(ex, ey));
  // Cramer's rule for a + s d = c + t f
  const double s = ((cx - ax) * fy - (cy - ay) * fx), t = ((cx - ax) * dy - (cy - ay) * dx);
  if (det == 0) return;
  const double sgn = det > 0 ? 1 : -1;
  const double eps = 1e-6;
  const bool inside = (s * sgn >= eps) & (s * sgn <= det * sgn - eps) & (t * sgn >= eps) & (t * sgn <= det * sgn - eps);
  const bool outside = (s * sgn <= -eps) | (s * sgn >= det * sgn + eps) | (t * sgn <= -eps) | (t * sgn >= det * sgn + eps);
  const double margins[] = {s * sgn, t * sgn, (det - s) * sgn, (det - t) * sgn};
  for (const double m : margins) sx_assume((m >= eps) | (m <= -eps));
  const auto p = a.getIntersection2D(b);
  sx_assert(not inside or p.has_value(), "crossing_segments_have_an_intersection_point");
  sx_assert(not outside or not p.has_value(), "segments_apart_have_none");
  if (p) {
    sx_reach("intersect");
    const double px = p->x - ax, py = p->y - ay;
    // det * (p - a) == s * d
    const double ex0 = px * det - s * dx, ey0 = py * det - s * dy;
    sx_assert((ex0 < eps) & (ex0 > -eps) & (ey0 < eps) & (ey0 > -eps), "intersection_point_lies_on_both_lines");
    const auto along = a.get2DIntersectionSValue(b, false);
    sx_assert(along.has_value(), "crossing_segments_have_an_s_value");
    const double e1 = *along * det - s;
    sx_assert((e1 < eps) & (e1 > -eps), "s_value_is_the_normalized_position_of_the_crossing");
    const auto q = a.getPoint(*along, false);
    const double e2 = q.x - p->x, e3 = q.y - p->y;
    sx_assert((e2 < eps) & (e2 > -eps) & (e3 < eps) & (e3 > -eps), "point_at_the_s_value_is_the_crossing");
  } else {
    sx_reach("apart");
  }
}
