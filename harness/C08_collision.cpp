/*SPEC
{
 "property": "C08",
 "src": [],
 "force_include": ["string", "unordered_map"],
 "quick": {"time": 300},
 "bounds": {"quick": "every history of 5 collision reports against 2 participants at any non-decreasing times, multiples of 1/64 s below 64 s", "thorough": "histories of 6 reports against 3 participants"},
 "outside": "longer histories; times off the grid (rounding of the difference); time running backwards",
 "witness": ["new", "repeated", "again"]
}
SPEC*/
#include <cmath>
#include <random_test_runner/metrics/ego_collision_metric.hpp>

#include "sx.hpp"

void sx_harness()
{
  EgoCollisionMetric metric;
  static const char * names[] = {"npc0", "npc1", "npc2"};
  const int others = sx_tier() ? 3 : 2, k = sx_tier() ? 6 : 5;
  bool known[3] = {false, false, false};
  double last[3] = {0, 0, 0}, previous = 0;
  for (int i = 0; i < k; ++i) {
    const int who = sx::pick(sx::nm("who", i), 0, others - 1);
    const double now = sx::grid(sx::nm("time", i), 0, 4095, 1. / 64);
    if (i) sx_assume(now >= previous);
    previous = now;
    const bool reported = metric.isThereEgosCollisionWith(names[who], now);
    const bool expected = not known[who] or now - last[who] > 0.5;
    sx_assert(reported == expected, "reported_once_per_contact");
    if (not known[who]) sx_reach("new"); else if (reported) sx_reach("again"); else sx_reach("repeated");
    known[who] = true;
    last[who] = now;
  }
}
