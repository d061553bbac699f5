/*SPEC
{
 "property": "C03",
 "src": ["openscenario/openscenario_interpreter/src/syntax/rule.cpp", "openscenario/openscenario_interpreter/src/object.cpp", "openscenario/openscenario_interpreter/src/utility/demangle.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs"],
 "force_include": ["cstdint", "iomanip", "string", "openscenario_interpreter/expression.hpp", "openscenario_interpreter/pointer.hpp", "pugixml.hpp", "openscenario_interpreter/object.hpp"],
 "libs": ["-lpugixml"],
 "quick": {"time": 200},
 "bounds": {"quick": "all six rules; every pair of doubles (all 2^128 bit patterns, scalars), every pair of 64-bit integers, vectors of 2 doubles against a scalar and against another vector, every pair of strings of 0..2 bytes",
            "thorough": "as quick with vectors of 3 and strings of up to 3 bytes"},
 "outside": "longer vectors and strings",
 "witness": ["scalar", "vector", "string", "integer", "near", "text_rule"]
}
SPEC*/
#include <openscenario_interpreter/syntax/rule.hpp>
#include <sstream>

#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
constexpr double eps = 0x1p-52;

bool near(double a, double b) { return (a == b) | (std::abs(a - b) < eps); }

bool expected(int rule, double a, double b)
{
  switch (rule) {
    case 0: return near(a, b);
    case 1: return a > b;
    case 2: return a < b;
    case 3: return a >= b;
    case 4: return a <= b;
    default: return not near(a, b);
  }
}
const char * names[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};

Rule named(int k)
{
  Rule r;
  std::stringstream s(names[k]);
  s >> r;
  return r;
}
std::string label(const char * what, int k) { return std::string(what) + "_" + names[k]; }
}  // namespace

void sx_harness()
{
  const int k = sx::pick("rule", 0, 5);
  const auto rule = named(k);
  sx_reach("text_rule");
  switch (sx::pick("kind", 0, 4)) {
    case 0: {
      const double a = sx_f64("a"), b = sx_f64("b");
      sx_assert(rule(a, b) == expected(k, a, b), label("scalar", k).c_str());
      sx_reach("scalar");
      sx_reach_if((a != b) & near(a, b), "near");
      break;
    }
    case 1: {
      const int n = sx_tier() ? 3 : 2;
      std::valarray<double> a(n);
      for (int i = 0; i < n; ++i) a[i] = sx_f64(sx::nm("a", i).c_str());
      const double b = sx_f64("b");
      const std::valarray<bool> r = rule(a, b);
      sx_assert(r.size() == a.size(), label("vector_size", k).c_str());
      for (int i = 0; i < n; ++i) sx_assert(r[i] == expected(k, a[i], b), label("vector_scalar", k).c_str());
      sx_reach("vector");
      break;
    }
    case 2: {
      const int n = 2;
      std::valarray<double> a(n), b(n);
      for (int i = 0; i < n; ++i) {
        a[i] = sx_f64(sx::nm("a", i).c_str());
        b[i] = sx_f64(sx::nm("b", i).c_str());
      }
      const std::valarray<bool> r = rule(a, b);
      for (int i = 0; i < n; ++i) sx_assert(r[i] == expected(k, a[i], b[i]), label("vector_vector", k).c_str());
      break;
    }
    case 3: {
      const auto a = static_cast<int64_t>(sx_bits("a", 64)), b = static_cast<int64_t>(sx_bits("b", 64));
      const bool want = k == 0 ? a == b : k == 1 ? a > b : k == 2 ? a < b : k == 3 ? a >= b : k == 4 ? a <= b : a != b;
      sx_assert(rule(a, b) == want, label("integer", k).c_str());
      sx_reach("integer");
      break;
    }
    default: {
      const int n = sx_tier() ? 3 : 2;
      std::string s[2];
      for (int j = 0; j < 2; ++j) {
        s[j].resize(sx::pick(j ? "length_b" : "length_a", 0, n));
        for (size_t i = 0; i < s[j].size(); ++i) s[j][i] = static_cast<char>(sx::byte(sx::nm(j ? "b" : "a", i).c_str()));
      }
      int order = 0;  // unsigned lexicographic
      for (size_t i = 0; order == 0 and (i < s[0].size() or i < s[1].size()); ++i) {
        const int x = i < s[0].size() ? static_cast<unsigned char>(s[0][i]) : -1, y = i < s[1].size() ? static_cast<unsigned char>(s[1][i]) : -1;
        order = x < y ? -1 : x > y ? 1 : 0;
      }
      const bool want = k == 0 ? order == 0 : k == 1 ? order > 0 : k == 2 ? order < 0 : k == 3 ? order >= 0 : k == 4 ? order <= 0 : order != 0;
      sx_assert(rule(s[0], s[1]) == want, label("string", k).c_str());
      sx_reach("string");
    }
  }
}
