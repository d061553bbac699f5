/*SPEC
{
 "property": "C06",
 "src": ["common/simple_junit/src/test_suites.cpp"],
 "stubs": ["pugixml"],
 "force_include": ["unordered_map", "vector", "algorithm", "numeric"],
 "quick": {"time": 200},
 "bounds": {"quick": "every history of 0..3 recorded cases over 2 suites x 2 cases x 3 results, each with any duration that is a multiple of 1/8 s below 4 s and a description of two arbitrary bytes", "thorough": "histories of 0..4 cases, durations below 8 s"},
 "outside": "durations that need rounding when added; longer histories; the serialisation of the tree to text",
 "assumptions": ["the XML library stores what it is given (a small in-memory stand-in is used)"],
 "witness": ["fraction", "duplicate", "failure"]
}
SPEC*/
#include <pugixml.hpp>
#include <simple_junit/test_suites.hpp>

#include <cmath>

#include "sx.hpp"

namespace
{
struct Entry
{
  int suite, test;
  junit::TestResult result;
  int64_t eighths;
  std::string description;
};
}  // namespace

void sx_harness()
{
  static const char * suites[] = {"suite-A", "suite-B"}, * cases[] = {"case-1", "case-2"};
  junit::TestSuites report;
  std::vector<Entry> log;
  const int k = sx::pick("cases", 0, sx_tier() ? 4 : 3);
  for (int i = 0; i < k; ++i) {
    const int what = sx::pick(sx::nm("what", i), 0, 11);
    Entry e{what & 1, what >> 1 & 1, static_cast<junit::TestResult>(what / 4), sx::range(sx::nm("eighths", i), 0, sx_tier() ? 63 : 31), ""};
    e.description = "xy";
    for (size_t j = 0; j < 2; ++j) { e.description[j] = static_cast<char>(sx::byte(sx::nm("text", 2 * i + j).c_str())); sx_assume(e.description[j] != 0); }
    bool known = false;
    for (auto & o : log) known |= o.suite == e.suite and o.test == e.test;
    sx_assert(report.contains(suites[e.suite], cases[e.test]) == known, "contains");
    report.addTestCase(suites[e.suite], cases[e.test], static_cast<double>(e.eighths) / 8, e.result, "kind", e.description);
    if (known) sx_reach("duplicate"); else log.push_back(e);
  }
  double total = 0, part[2] = {0, 0};  // exact, hence the same in any order; the orders help the solver
  for (auto & e : log) total += static_cast<double>(e.eighths) / 8;
  for (auto & e : log) part[e.suite] += static_cast<double>(e.eighths) / 8;
  int64_t eighths[2] = {0, 0};
  for (auto & e : log) eighths[e.suite] += e.eighths;
  const double reported = report.getTotalTime(), ab = 0.0 + part[0] + part[1], ba = 0.0 + part[1] + part[0];
  const double a = 0.0 + part[0], b = 0.0 + part[1];
  auto right = [&](double x) { return (x == total) | (x == ab) | (x == ba) | ((x == a) & (part[1] == 0)) | ((x == b) & (part[0] == 0)); };
  // known finding: the sum over the suites is accumulated in an integer
  const int64_t lost = (eighths[0] >> 3) + (eighths[1] >> 3);
  auto truncated = [&](double x) { return x == static_cast<double>(static_cast<int32_t>(lost)); };
  sx_assert(right(reported) | truncated(reported), "total_time");
  report.write("/nonexistent/report.xml");
  pugi::xml_node root(pugi::sxd::saved());
  auto all = root.child("testsuites");
  const double written = all.attribute("time").a->real;
  sx_assert(right(written) | truncated(written), "report_time");
  size_t nonempty = 0;  // known finding: the number of suites is written as the number of tests
  for (int i = 0; i < 2; ++i) for (auto & e : log) if (e.suite == i) { ++nonempty; break; }
  const auto tests = all.attribute("tests").a->integer;
  sx_assert(tests == log.size() or tests == nonempty, "report_tests");
  size_t seen = 0;
  for (auto s : all.children("testsuite")) {
    const int si = std::string(s.attribute("name").value()) == suites[1];
    sx_assert(std::string(s.attribute("name").value()) == suites[si], "suite_name");
    std::vector<const Entry *> want;
    for (auto & e : log) if (e.suite == si) want.push_back(&e);
    sx_assert(s.attribute("tests").a->integer == want.size(), "suite_tests");
    size_t j = 0;
    for (auto c : s.children("testcase")) {
      sx_assert(j < want.size(), "case_count");
      auto & e = *want[j++];
      sx_assert(std::string(c.attribute("name").value()) == cases[e.test] and std::string(c.attribute("classname").value()) == suites[si], "case_name");
      sx_assert(c.attribute("time").a->real == static_cast<double>(e.eighths) / 8, "case_time");
      const bool failure = bool(c.child("failure")), error = bool(c.child("error"));
      sx_assert(failure == (e.result == junit::TestResult::FAILURE) and error == (e.result == junit::TestResult::ERROR), "case_result");
      if (failure or error) {
        sx_assert(e.description == c.child(failure ? "failure" : "error").text().get(), "case_description");
        sx_reach("failure");
      }
    }
    sx_assert(j == want.size(), "case_count");
    seen += j;
  }
  sx_assert(seen == log.size(), "every_case_listed");
  sx_reach_if(total != std::floor(total), "fraction");
  sx_assert(right(reported) & right(written), "total_time_without_fractional_seconds");
  sx_assert(tests == log.size(), "report_tests_counts_suites");
}
