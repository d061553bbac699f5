/*SPEC
{
 "property": "C02",
 "src": ["openscenario/openscenario_interpreter/src/syntax/double.cpp",
         "openscenario/openscenario_interpreter/src/utility/demangle.cpp",
         "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "quick": {"time": 250},
 "bounds": {"quick": "double literals: every string of 0..3 bytes, every 1..2-byte continuation of INF, +INF, -INF, I, -, 1., 12, 1e, and 'd.d', 'dde-d', 'd.de+d', 'ddddd', '-d.ddd' with every digit symbolic; attribute and parameter-value routes",
            "thorough": "as quick with 0..4 bytes and 3-byte continuations"},
 "outside": "mantissas above 10^15, powers of ten beyond +-22, hexadecimal literals, the spelling of not-a-number",
 "assumptions": ["the decimal value of a literal is what strtod gives; strtod is modelled: exact decimal conversion for mantissas below 10^15 and powers of ten up to 22"],
 "witness": ["accepted", "rejected", "infinite", "digits"]
}
SPEC*/
#include <boost/lexical_cast.hpp>
#include <cmath>
#include <openscenario_interpreter/syntax/double.hpp>
#include <sstream>

#include "sx.hpp"

using namespace openscenario_interpreter;

bool parse(const std::string & s, bool attribute, double & out)
{
  try {
    out = attribute ? boost::lexical_cast<Double>(s).data : Double(s).data;
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
bool digit(char c) { return (c >= '0') & (c <= '9'); }

// [+-]?(d+(.d*)?|.d+)([eE][+-]?d+)?
struct Decimal
{
  bool ok = false, negative = false;
  long long mantissa = 0;
  int exponent = 0;
};
Decimal decimal(const std::string & s)
{
  Decimal r;
  size_t i = 0;
  if (i < s.size() and (s[i] == '-' or s[i] == '+')) r.negative = s[i++] == '-';
  int n = 0, scale = 0;
  for (; i < s.size() and digit(s[i]); ++i, ++n) r.mantissa = r.mantissa * 10 + (s[i] - '0');
  if (i < s.size() and s[i] == '.') {
    ++i;
    for (; i < s.size() and digit(s[i]); ++i, ++n, --scale) r.mantissa = r.mantissa * 10 + (s[i] - '0');
  }
  if (n == 0) return r;
  if (i < s.size() and (s[i] == 'e' or s[i] == 'E')) {
    ++i;
    bool en = false;
    if (i < s.size() and (s[i] == '-' or s[i] == '+')) en = s[i++] == '-';
    int e = 0, m = 0;
    for (; i < s.size() and digit(s[i]); ++i, ++m) e = e * 10 + (s[i] - '0');
    if (m == 0) return r;
    scale += en ? -e : e;
  }
  r.exponent = scale;
  r.ok = i == s.size();
  return r;
}
std::string bytes(int n, int from = 0)
{
  std::string s(n, '\0');
  for (int i = 0; i < n; ++i) s[i] = static_cast<char>(sx::byte(sx::nm("byte", from + i).c_str()));
  return s;
}
const double inf = HUGE_VAL;

void any(const std::string & s, bool attribute)
{
  const std::string how = attribute ? "Double_attribute" : "Double_parameter";
  for (char c : s) {
    if ((c == 'x') | (c == 'X')) return;
  }
  std::string t = s;
  while (not t.empty() and std::isspace(static_cast<unsigned char>(t.back()))) t.pop_back();
  while (not t.empty() and std::isspace(static_cast<unsigned char>(t.front()))) t.erase(0, 1);
  bool sign = not t.empty() and (t[0] == '-' or t[0] == '+');
  const bool negative = sign and t[0] == '-';
  std::string u = sign ? t.substr(1) : t;
  std::string lower = u;
  for (auto & c : lower) c = (c >= 'A' and c <= 'Z') ? static_cast<char>(c + 32) : c;
  const bool infinite = lower == "inf" or lower == "infinity", nan = lower.substr(0, 3) == "nan";
  const auto d = decimal(t);
  if (d.ok and (d.exponent > 22 or d.exponent < -22)) return;
  double v = 0;
  const bool accepted = parse(s, attribute, v);
  if (accepted) {
    if (nan) return;
    sx_assert(d.ok or infinite, (how + "_malformed_literal_accepted").c_str());
    if (infinite) {
      sx_assert(v == (negative ? -inf : inf), (how + "_wrong_infinity").c_str());
      sx_reach("infinite");
    } else if (d.ok) {
      sx_assert(v == std::strtod(t.c_str(), nullptr), (how + "_wrong_value").c_str());
      sx_reach("accepted");
    }
  } else {
    if (attribute) sx_assert(not(u == "INF" and s == t), (how + "_INF_rejected").c_str());
    sx_assert(not(d.ok and s == t and d.exponent <= 22 and d.exponent >= -22), (how + "_valid_literal_rejected").c_str());
    sx_reach("rejected");
  }
}

void sx_harness()
{
  const bool attribute = sx::pick("attribute", 0, 1);
  static const char * prefix[] = {"", "INF", "+INF", "-INF", "I", "-", "1.", "12", "1e", "-IN"};
  static const char * shape[] = {"d.d", "dde-d", "d.de+d", "ddddd", "-d.ddd", "dd.", ".ddd", "+d"};
  const int p = sx::pick("shape", 0, 17);
  const int tail = sx_tier() ? 3 : 2;
  if (p < 10) {
    const int n = p == 0 ? sx::pick("length", 0, tail + 1) : sx::pick("length", 0, p < 4 ? 1 : tail);
    return any(prefix[p] + bytes(n), attribute);
  }
  std::string s;
  int k = 0;
  for (const char * c = shape[p - 10]; *c; ++c) {
    if (*c == 'd') {
      s.push_back(static_cast<char>('0' + sx::range(sx::nm("digit", k++), 0, 9)));
    } else {
      s.push_back(*c);
    }
  }
  sx_reach("digits");
  any(s, attribute);
}
