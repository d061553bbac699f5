/*SPEC
{
 "property": "C24",
 "src": ["common/status_monitor/src/status_monitor.cpp"],
 "stubs": ["ros", "msgs", "nlohmann"],
 "inc": ["common/status_monitor/include"],
 "force_include": ["atomic", "algorithm", "functional", "string", "optional"],
 "fork_selects": true,
 "quick": {"time": 400},
 "bounds": {"quick": "every history of 3 steps of two threads (touch, exit, change of the threshold, temporary threshold with or without an exception), every nanosecond clock reading up to about 12 days, every threshold up to 1000 s", "thorough": "4 steps"},
 "outside": "longer histories, more threads, steps within one report; a clock that goes back",
 "assumptions": ["the clock is std::chrono::system_clock::now, replaced by a symbolic one; the watchdog thread is not started, its reports are made by calling write()", "the JSON library is replaced by a tree of the values written"],
 "witness": ["unresponsive", "responsive", "exited", "temporary threshold", "exception", "intervals"]
}
SPEC*/
#include <nlohmann/json.hpp>
#include <status_monitor/status_monitor.hpp>

#include "sx.hpp"

namespace
{
std::int64_t clock_now = 0;
unsigned long current = 1;
}  // namespace

namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clock_now)); }
}  // namespace _V2
}  // namespace chrono
void thread::_M_start_thread(_State_ptr, void (*)()) {}
void thread::join() {}
}  // namespace std
extern "C" pthread_t pthread_self() noexcept { return current; }

namespace
{
struct Thread
{
  bool known = false, exited = false;
  std::int64_t last = 0;
  std::vector<std::int64_t> intervals;
};
Thread threads[3];
std::int64_t threshold = 10;

void touched()
{
  auto & t = threads[current];
  if (t.known) t.intervals.push_back(clock_now - t.last);
  t.known = true;
  t.last = clock_now;
}

// whether a reported number of milliseconds is the one of the least (greatest) interval; on a tie of either
bool reported(std::int64_t ms, const std::vector<std::int64_t> & xs, bool greatest)
{
  bool found = false;
  for (auto a : xs) {
    bool extreme = true;
    for (auto b : xs)
      if (greatest ? b > a : b < a) {
        extreme = false;
        break;
      }
    if (extreme) found = found | (ms == a / 1000000);
  }
  return found;
}

void report()
{
  nlohmann::dumped() = nlohmann::json();
  common::status_monitor.write();
  auto & j = nlohmann::dumped();
  bool all = true;
  std::size_t n = 0;
  for (unsigned long k = 1; k <= 2; ++k) {
    auto & t = threads[k];
    if (not t.known) continue;
    ++n;
    const bool good = t.exited or clock_now - t.last < threshold * 1000000000;
    all = all & good;
    sx_reach(t.exited ? "exited" : good ? "responsive" : "unresponsive");
    int found = 0;
    for (auto & x : j["threads"].items) {
      if (x["thread_id"].s != std::to_string(k)) continue;
      ++found;
      sx_assert(x["good"].kind == nlohmann::json::boolean and x["good"].b == good, "a_thread_is_bad_exactly_if_unresponsive_for_the_threshold");
      sx_assert(x["name"].s == (k == 1 ? "a" : "b"), "a_thread_is_reported_under_its_name");
      sx_assert(x["since_last_access_ms"].i == (clock_now - t.last) / 1000000, "the_time_since_the_last_access_is_reported");
      if (not t.intervals.empty()) {
        sx_reach("intervals");
        sx_assert(reported(x["minimum_access_interval_ms"].i, t.intervals, false), "the_least_interval_is_reported");
        sx_assert(reported(x["maximum_access_interval_ms"].i, t.intervals, true), "the_greatest_interval_is_reported");
      }
    }
    sx_assert(found == 1, "every_thread_that_touched_is_reported_once");
  }
  sx_assert(j["threads"].size() == n, "every_thread_that_touched_is_reported_once");
  sx_assert(j["good"].kind == nlohmann::json::boolean and j["good"].b == all, "the_process_is_good_exactly_if_every_thread_is");
  sx_assert(j["threshold"].i == threshold, "the_threshold_in_force_is_reported");
  sx_assert(j["unix_time"].i == clock_now / 1000000000, "the_time_is_reported");
}
}  // namespace

void sx_harness()
{
  using namespace std::chrono;
  const int steps = sx_tier() ? 4 : 3;
  for (int i = 0; i < steps; ++i) {
    clock_now += sx::range(sx::nm("dt", i), 0, 1000000000000000);
    current = sx::pick(sx::nm("thread", i), 1, i ? 2 : 1);
    const auto name = current == 1 ? "a" : "b";
    switch (sx::pick(sx::nm("step", i), i ? 0 : 3, 3)) {
      case 0: {
        threshold = sx::range(sx::nm("threshold", i), 0, 1000);
        common::status_monitor.updateThreshold(seconds(threshold));
        break;
      }
      case 1: {
        if (not threads[current].known) break;
        const auto before = threshold;
        const auto other = sx::range(sx::nm("threshold", i), 0, 1000);
        const bool fails = sx::boolean(sx::nm("fails", i));
        try {
          common::status_monitor.overrideThreshold(seconds(other), [&]() {
            sx_reach("temporary threshold");
            touched();
            threshold = other;
            clock_now += sx::range(sx::nm("inside", i), 0, 1000000000000000);
            report();
            if (fails) throw 1;
          });
          sx_assert(not fails, "an_exception_leaves_the_temporary_threshold");
        } catch (int) {
          sx_reach("exception");
          sx_assert(fails, "an_exception_leaves_the_temporary_threshold");
        }
        touched();
        threshold = before;
        break;
      }
      case 2: {
        { common::StatusMonitor of_this_thread; }
        threads[current].exited = threads[current].known;
        break;
      }
      default:
        common::status_monitor.touch(name);
        touched();
    }
  }
  clock_now += sx::range("dt", 0, 1000000000000000);
  report();
}
