/*SPEC
{
 "property": "C06",
 "src": [],
 "stubs": ["pugixml"],
 "quick": {"time": 300},
 "bounds": {"quick": "every history of 0..3 recorded results over 2 suites x 2 cases x {passed, failed, error}, each with a type of 0..1 and a message of 0..2 arbitrary bytes", "thorough": "histories of 0..4 results"},
 "outside": "longer histories and texts; the serialisation of the tree to text (done by the XML library)",
 "assumptions": ["the XML library stores what it is given (a small in-memory stand-in is used)"],
 "witness": ["some", "twice", "message"]
}
SPEC*/
#include <pugixml.hpp>
#include <simple_junit/junit5.hpp>

#include "sx.hpp"

namespace
{
struct Entry
{
  int suite, test, kind;
  std::string type, message;
};
unsigned long long number(pugi::xml_node n, const char * name)
{
  auto a = n.attribute(name);
  sx_assert(bool(a), (std::string(name) + "_attribute_present").c_str());
  return std::strtoull(a.value(), nullptr, 10);
}
}  // namespace

void sx_harness()
{
  static const char * suites[] = {"suite-A", "suite-B"}, * cases[] = {"case-1", "case-2"};
  common::JUnit5 report("all");
  std::vector<Entry> log;
  const int k = sx::pick("results", 0, sx_tier() ? 4 : 3);
  for (int i = 0; i < k; ++i) {
    const int what = sx::pick(sx::nm("what", i), 0, 11);
    Entry e{what & 1, what >> 1 & 1, what / 4, "", ""};
    if (e.kind) {
      // the last result carries symbolic texts, the others distinguishable ones
      if (i + 1 == k) {
        e.type.assign(sx::pick("type_length", 0, 1), 't');
        e.message.assign(sx::pick("message_length", 0, 2), 'm');
        for (auto & c : e.type) { c = static_cast<char>(sx::byte("type")); sx_assume(c != 0); }
        for (size_t j = 0; j < e.message.size(); ++j) { e.message[j] = static_cast<char>(sx::byte(sx::nm("message", j).c_str())); sx_assume(e.message[j] != 0); }
        if (e.message.size()) sx_reach("message");
      } else {
        e.type = "type" + std::to_string(i);
        e.message = "message" + std::to_string(i);
      }
    }
    auto & c = report.testsuite(suites[e.suite]).testcase(cases[e.test]);
    if (e.kind == 0) c.pass.push_back(common::junit::Pass());
    if (e.kind == 1) c.failure.push_back(common::junit::Failure(e.type, e.message));
    if (e.kind == 2) c.error.push_back(common::junit::Error(e.type, e.message));
    log.push_back(e);
  }
  report.write_to("report.xml");
  pugi::xml_node root(pugi::sxd::saved());
  auto all = root.child("testsuites");
  auto count = [&](int suite, int test, int kind) {
    unsigned long long n = 0;
    for (auto & e : log) n += (suite < 0 or e.suite == suite) and (test < 0 or e.test == test) and (kind < 0 or e.kind == kind);
    return n;
  };
  sx_assert(std::string(all.attribute("name").value()) == "all", "report_name");
  sx_assert(number(all, "failures") == count(-1, -1, 1), "total_failures");
  sx_assert(number(all, "errors") == count(-1, -1, 2), "total_errors");
  sx_assert(number(all, "tests") == count(-1, -1, -1), "total_tests");
  int seen_suites = 0;
  for (auto s : all.children("testsuite")) {
    ++seen_suites;
    const int si = std::string(s.attribute("name").value()) == suites[1];
    sx_assert(std::string(s.attribute("name").value()) == suites[si], "suite_name");
    sx_assert(number(s, "failures") == count(si, -1, 1), "suite_failures");
    sx_assert(number(s, "errors") == count(si, -1, 2), "suite_errors");
    sx_assert(number(s, "tests") == count(si, -1, -1), "suite_tests");
    int seen_cases = 0;
    for (auto c : s.children("testcase")) {
      ++seen_cases;
      const int ci = std::string(c.attribute("name").value()) == cases[1];
      sx_assert(std::string(c.attribute("name").value()) == cases[ci], "case_name");
      for (int kind = 1; kind <= 2; ++kind) {
        std::vector<const Entry *> want;
        for (auto & e : log) if (e.suite == si and e.test == ci and e.kind == kind) want.push_back(&e);
        size_t j = 0;
        for (auto x : c.children(kind == 1 ? "failure" : "error")) {
          sx_assert(j < want.size(), "case_entry_count");
          sx_assert(bool(x.attribute("type")) == not want[j]->type.empty() and want[j]->type == x.attribute("type").value(), "case_entry_type");
          sx_assert(bool(x.attribute("message")) == not want[j]->message.empty() and want[j]->message == x.attribute("message").value(), "case_entry_message");
          ++j;
        }
        sx_assert(j == want.size(), "case_entry_count");
      }
    }
    int want_cases = 0;
    for (int t = 0; t < 2; ++t) want_cases += count(si, t, -1) > 0;
    sx_assert(seen_cases == want_cases, "case_listed_once");
  }
  int want_suites = 0;
  for (int t = 0; t < 2; ++t) want_suites += count(t, -1, -1) > 0;
  sx_assert(seen_suites == want_suites, "suite_listed_once");
  if (k) sx_reach("some");
  for (int t = 0; t < 4; ++t) if (count(t & 1, t >> 1, -1) > 1) sx_reach("twice");
}
