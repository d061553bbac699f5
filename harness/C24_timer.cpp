/*SPEC
{
 "property": "C24",
 "src": [],
 "stubs": ["nlohmann"],
 "force_include": ["string", "cstdint"],
 "fork_selects": true,
 "quick": {"time": 400, "qtimeout": 20000},
 "bounds": {"quick": "every history of 3 measurements under 2 names, durations of 0 to 1000000 ns", "thorough": "4 measurements"},
 "outside": "more measurements; the deviation",
 "witness": ["measured", "saved", "two of a name"]
}
SPEC*/
#include <filesystem>
#include <fstream>
#include <nlohmann/json.hpp>
#include <openscenario_interpreter/utility/execution_timer.hpp>

#include "sx.hpp"

namespace
{
std::int64_t now_ns = 0;
struct Clock
{
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(now_ns)); }
};
}  // namespace

void sx_harness()
{
  openscenario_interpreter::ExecutionTimer<Clock> timer;
  std::vector<std::int64_t> times[2];
  const char * tags[] = {"evaluate", "output"};
  const int n = sx_tier() ? 4 : 3;
  for (int i = 0; i < n; ++i) {
    const int k = sx::pick(sx::nm("tag", i), 0, 1);
    const auto d = sx::range(sx::nm("duration", i), 0, 1000000);
    int called = 0;
    now_ns = 1000000000 * (i + 1);
    const auto result = timer.invoke(tags[k], [&]() {
      ++called;
      now_ns += d;
    });
    times[k].push_back(d);
    sx_reach("measured");
    sx_assert(called == 1, "what_is_measured_runs_once");
    sx_assert(result.count() == d, "the_time_measured_is_returned");
  }
  nlohmann::dumped() = nlohmann::json();
  timer.save("/dev/null");
  auto & j = nlohmann::dumped();
  for (int k = 0; k < 2; ++k) {
    const auto & t = times[k];
    const std::string tag = tags[k];
    if (t.empty()) {
      sx_assert(not j.contains(tag + "/min") and not j.contains(tag + "/count"), "only_what_was_measured_is_saved");
      continue;
    }
    const auto & s = timer.getStatistics(tag);
    std::int64_t sum = 0;
    for (auto d : t) sum += d;
    // the extremes, either one on a tie
    std::vector<std::int64_t> least, most;
    for (auto a : t) {
      bool is_least = true, is_most = true;
      for (auto b : t) {
        if (b < a) is_least = false;
        if (b > a) is_most = false;
      }
      if (is_least) least.push_back(a);
      if (is_most) most.push_back(a);
    }
    const auto one_of = [](auto value, const std::vector<std::int64_t> & xs, auto f) {
      bool found = false;
      for (auto x : xs) found = found | (value == f(x));
      return found;
    };
    const auto same = [](auto x) { return x; };
    const auto in_seconds = [](auto x) { return static_cast<double>(x) * 1e-9; };
    sx_reach("saved");
    sx_reach_if(t.size() > 1, "two of a name");
    sx_assert(one_of(boost::accumulators::min(s), least, same), "the_least_time");
    sx_assert(one_of(boost::accumulators::max(s), most, same), "the_greatest_time");
    sx_assert(boost::accumulators::count(s) == t.size(), "the_number_of_measurements");
    const double mean = static_cast<double>(sum) / static_cast<double>(t.size());
    sx_assert(boost::accumulators::mean(s) == mean, "the_mean_time");
    sx_assert(j[tag + "/count"].i == static_cast<std::int64_t>(t.size()), "the_number_of_measurements_is_saved");
    sx_assert(one_of(j[tag + "/min"].d, least, in_seconds), "the_least_time_is_saved_in_seconds");
    sx_assert(one_of(j[tag + "/max"].d, most, in_seconds), "the_greatest_time_is_saved_in_seconds");
    if (t.size() == 1) sx_assert(j[tag + "/stddev"].d == 0, "a_single_measurement_does_not_deviate");
    sx_assert(j[tag + "/mean"].d == mean * 1e-9, "the_mean_time_is_saved_in_seconds");
  }
  timer.clear();
  nlohmann::dumped() = nlohmann::json();
  timer.save("/dev/null");
  sx_assert(nlohmann::dumped().size() == 0, "nothing_is_left_after_clearing");
}
