/*SPEC
{
 "property": "C09",
 "src": ["simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp"],
 "force_include": ["cmath", "cstdint"],
 "real": true,
 "quick": {"time": 400},
 "bounds": {"quick": "every segment, in any direction, with real coordinates in [0, 3)", "thorough": "coordinates in [0, 4)"},
 "outside": "segments whose extent in x or y is below 1e-3 without being parallel to an axis; longer segments; rounding",
 "witness": ["left", "down", "integral start", "several"]
}
SPEC*/
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>

#include "sx.hpp"

namespace
{
void verify(double x0, double y0, double x1, double y1, double t, double limit)
{
  const double vx = x1 - x0, vy = y1 - y0;
  const double tiny = 1e-3;
  if (x0 != x1) sx_assume((vx > tiny) | (vx < -tiny));
  if (y0 != y1) sx_assume((vy > tiny) | (vy < -tiny));
  simple_sensor_simulator::GridTraversal traversal(x0, y0, x1, y1);
  const double eps = 1e-6;
  const double px = x0 + t * vx, py = y0 + t * vy;
  bool covered = false;
  int n = 0, lx = 0, ly = 0;
  auto check = [&](int x, int y) {
    if (n == 0) {
      sx_assert((x <= x0) & (x0 < x + 1) & (y <= y0) & (y0 < y + 1), "starts_in_the_cell_of_the_start");
    } else {
      const int dx = x - lx, dy = y - ly;
      sx_assert((dx == 0) != (dy == 0) and dx * dx + dy * dy == 1, "moves_to_an_adjacent_cell");
      sx_assert((dx == 0 or (dx > 0) == (vx > 0)) and (dy == 0 or (dy > 0) == (vy > 0)), "moves_towards_the_end");
    }
    covered = covered | ((x - eps <= px) & (px <= x + 1 + eps) & (y - eps <= py) & (py <= y + 1 + eps));
    lx = x;
    ly = y;
    ++n;
  };
  auto i = traversal.begin();
  for (; i != traversal.end(); ++i) {
    sx_assert(n < 3 * limit, "terminates");
    const auto [x, y] = *i;
    check(x, y);
  }
  const auto [x, y] = *i;  // the cell of the end point, which a caller does not see
  check(x, y);
  sx_assert((x - eps <= x1) & (x1 <= x + 1 + eps) & (y - eps <= y1) & (y1 <= y + 1 + eps), "ends_in_the_cell_of_the_end");
  sx_assert(covered, "every_point_of_the_segment_lies_in_a_visited_cell");
  if (vx < 0) sx_reach("left");
  if (vy < 0) sx_reach("down");
  if (n > 4) sx_reach("several");
  sx_reach_if(x0 == 1, "integral start");
}
}  // namespace

void sx_harness()
{
  const double limit = sx_tier() ? 4 : 3;
  const double x0 = sx_f64("x0"), y0 = sx_f64("y0"), x1 = sx_f64("x1"), y1 = sx_f64("y1"), t = sx_f64("t");
  sx_assume((x0 >= 0) & (x0 < limit) & (y0 >= 0) & (y0 < limit) & (x1 >= 0) & (x1 < limit) & (y1 >= 0) & (y1 < limit));
  sx_assume((t >= 0) & (t <= 1));
  // 0: any direction, 1: parallel to the y axis, 2: parallel to the x axis (at quarters)
  const int kind = sx::pick("parallel", 0, 2);
  if (kind) {
    const double fixed = sx::pick("fixed", 0, 4 * limit - 1) * 0.25;
    const double from = kind == 1 ? y0 : x0, to = kind == 1 ? y1 : x1;
    kind == 1 ? verify(fixed, from, fixed, to, t, limit) : verify(from, fixed, to, fixed, t, limit);
  } else {
    verify(x0, y0, x1, y1, t, limit);
  }
}
