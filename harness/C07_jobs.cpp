/*SPEC
{
 "property": "C07",
 "src": ["simulation/traffic_simulator/src/job/job.cpp", "simulation/traffic_simulator/src/job/job_list.cpp"],
 "stubs": ["ros", "msgs"],
 "quick": {"time": 400},
 "bounds": {"quick": "every history of 5 operations: register an exclusive job (2 kinds, 2 update points) or run the jobs of an update point with any step time; each run of a job finishes or not, in every combination", "thorough": "histories of 6 operations"},
 "outside": "longer histories, more kinds; jobs that register jobs while running; non-exclusive jobs",
 "witness": ["finished", "replaced", "elapsed"]
}
SPEC*/
#include <traffic_simulator/job/job_list.hpp>

#include "sx.hpp"

using namespace traffic_simulator::job;

namespace
{
struct Model
{
  Type type;
  Event event;
  bool active = true;
  double elapsed = 0;
  int cleanups = 0, runs = 0;
};
Model model[8];
int jobs = 0, cleaned[8], ran[8], order[64], nth = 0;
double told[8];
bool answer[8];
}  // namespace

void sx_harness()
{
  JobList list;
  const Type types[] = {Type::LINEAR_VELOCITY, Type::STAND_STILL_DURATION};
  const Event events[] = {Event::PRE_UPDATE, Event::POST_UPDATE};
  const int k = sx_tier() ? 6 : 5;
  for (int step = 0; step < k; ++step) {
    const int op = sx::pick(sx::nm("operation", step), 0, 5);
    if (op < 4) {
      const int id = jobs++;
      for (int i = 0; i < id; ++i) {
        if (model[i].active and model[i].type == types[op & 1]) {
          model[i].active = false;
          ++model[i].cleanups;
          sx_reach("replaced");
        }
      }
      model[id] = Model();
      model[id].type = types[op & 1];
      model[id].event = events[op >> 1];
      list.append(
        [id](const double elapsed) {
          ++ran[id];
          told[id] = elapsed;
          order[nth++ & 63] = id;
          return answer[id];
        },
        [id]() { ++cleaned[id]; }, types[op & 1], true, events[op >> 1]);
    } else {
      const double dt = sx_f64(sx::nm("step", step).c_str());
      for (int i = 0; i < jobs; ++i) answer[i] = sx::boolean(sx::nm("done", step * 8 + i));
      nth = 0;
      list.update(dt, events[op - 4]);
      int expected_order = 0;
      for (int i = 0; i < jobs; ++i) {
        if (model[i].active and model[i].event == events[op - 4]) {
          ++model[i].runs;
          sx_assert(told[i] == model[i].elapsed or (told[i] != told[i] and model[i].elapsed != model[i].elapsed), "elapsed_time");
          if (model[i].runs > 1) sx_reach("elapsed");
          sx_assert(expected_order < nth and order[expected_order] == i, "order");
          ++expected_order;
          if (answer[i]) {
            model[i].active = false;
            ++model[i].cleanups;
            sx_reach("finished");
          }
          model[i].elapsed = model[i].elapsed + dt;
        }
      }
      sx_assert(nth == expected_order, "only_active_jobs_of_the_update_point_run");
    }
    for (int i = 0; i < jobs; ++i) {
      sx_assert(ran[i] == model[i].runs, "runs");
      sx_assert(cleaned[i] == model[i].cleanups, "clean_up_exactly_once");
    }
  }
}
