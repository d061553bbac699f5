/*SPEC
{
 "property": "C02",
 "src": ["openscenario/openscenario_interpreter/src/syntax/{integer,unsigned_integer,unsigned_short,boolean}.cpp",
         "openscenario/openscenario_interpreter/src/object.cpp",
         "openscenario/openscenario_interpreter/src/utility/demangle.cpp",
         "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "force_include": ["cstdint", "iomanip", "string", "openscenario_interpreter/expression.hpp", "openscenario_interpreter/pointer.hpp", "pugixml.hpp", "openscenario_interpreter/object.hpp"],
 "libs": ["-lpugixml"],
 "quick": {"time": 300},
 "bounds": {"quick": "boolean, integer, unsignedInt and unsignedShort literals: every string of 0..4 bytes (0..6 for boolean, 0..5 after the prefix 't'/'f'), and every 1..2-byte continuation of the prefixes next to the type's limits; attribute and parameter-value routes",
            "thorough": "as quick with 0..5 bytes and 3-byte continuations"},
 "outside": "longer strings that are neither near a limit nor short",
 "witness": ["accepted", "rejected", "at_max", "at_min"]
}
SPEC*/
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>
#include <sstream>

#include "sx.hpp"

using namespace openscenario_interpreter;

bool space(char c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }

template <typename T>
bool parse(const std::string & s, bool attribute, T & out)
{
  try {
    out = attribute ? boost::lexical_cast<T>(s) : T(s);
    return true;
  } catch (const std::exception &) {
    return false;
  }
}

// what the literal denotes: sign and digits (leading zeros stripped)
struct Number
{
  bool wellformed = false, negative = false, trimmed = false;
  std::string digits;
};
Number denote(std::string s)
{
  Number n;
  const size_t before = s.size();
  while (not s.empty() and space(s.back())) s.pop_back();
  while (not s.empty() and space(s.front())) s.erase(0, 1);
  n.trimmed = before != s.size();
  size_t i = 0;
  if (i < s.size() and (s[i] == '-' or s[i] == '+')) n.negative = s[i++] == '-';
  n.wellformed = i < s.size();
  for (; i < s.size(); ++i) {
    if (s[i] < '0' or s[i] > '9') { n.wellformed = false; return n; }
    if (not(n.digits.empty() and s[i] == '0')) n.digits.push_back(s[i]);
  }
  return n;
}
bool exceeds(const std::string & d, const char * limit)
{
  const size_t n = std::strlen(limit);
  if (d.size() != n) return d.size() > n;
  for (size_t i = 0; i < n; ++i) {
    if (d[i] != limit[i]) return d[i] > limit[i];
  }
  return false;
}

template <typename T>
void integral(const std::string & type, const std::string & s, bool attribute, const char * max, const char * min)
{
  T v{};
  const bool accepted = parse<T>(s, attribute, v);
  const auto n = denote(s);
  const bool in = n.wellformed and not exceeds(n.digits, n.negative ? min : max);
  const std::string how = type + (attribute ? "_attribute" : "_parameter");
  if (accepted) {
    sx_assert(n.wellformed, (how + "_malformed_literal_accepted").c_str());
    if (n.wellformed) {
      sx_assert(in, (how + "_out_of_range_literal_accepted").c_str());
      if (in) {
        uint64_t m = 0;
        for (char c : n.digits) m = m * 10 + static_cast<uint64_t>(c - '0');
        if (n.negative) m = 0 - m;
        sx_assert(static_cast<uint64_t>(v.data) == m, (how + "_wrong_value").c_str());
        sx_reach("accepted");
        if (n.digits == max) sx_reach("at_max");
        if (n.negative and n.digits == min) sx_reach("at_min");
      }
    }
  } else {
    sx_assert(not in or n.trimmed or (n.negative and min[0] == 0), (how + "_valid_literal_rejected").c_str());
    sx_reach("rejected");
  }
}

std::string bytes(int n)
{
  std::string s(n, '\0');
  for (int i = 0; i < n; ++i) s[i] = static_cast<char>(sx::byte(sx::nm("byte", i).c_str()));
  return s;
}

void sx_harness()
{
  const bool attribute = sx::pick("attribute", 0, 1);
  const int full = sx_tier() ? 5 : 4, tail = sx_tier() ? 3 : 2;
  const int type = sx::pick("type", 0, 3);
  if (type == 0) {
    static const char * prefix[] = {"", "t", "f", "tru", "fals"};
    const int p = sx::pick("prefix", 0, 4);
    const std::string s = prefix[p] + bytes(sx::pick("length", 0, p == 0 ? 6 : 5));
    Boolean v;
    v.data = true;
    const bool accepted = parse<Boolean>(s, attribute, v);
    std::string t = s;
    while (not t.empty() and space(t.back())) t.pop_back();
    while (not t.empty() and space(t.front())) t.erase(0, 1);
    const std::string how = attribute ? "Boolean_attribute" : "Boolean_parameter";
    const bool is_true = t == "true", is_false = t == "false";
    if (accepted) {
      sx_assert(is_true or is_false, (how + "_malformed_literal_accepted").c_str());
      if (is_true or is_false) {
        sx_assert(v.data == is_true, (how + "_wrong_value").c_str());
        std::stringstream ss;
        ss << v;
        sx_assert(ss.str() == (is_true ? "true" : "false"), (how + "_prints_another_literal").c_str());
        sx_reach("accepted");
      }
    } else {
      sx_assert(s != "true" and s != "false", (how + "_valid_literal_rejected").c_str());
      sx_reach("rejected");
    }
    return;
  }
  static const char * ipre[] = {"", "922337203685477580", "-922337203685477580", "+92233720368547758", "00000000000000000000"};
  static const char * upre[] = {"", "1844674407370955161", "-1844674407370955161", "+184467440737095516", "00000000000000000000"};
  static const char * spre[] = {"", "6553", "-6553", "+655", "0000"};
  const int p = sx::pick("prefix", 0, 4);
  const int n = p == 0 ? sx::pick("length", 0, full) : sx::pick("length", 1, tail);
  const std::string s = std::string(type == 1 ? ipre[p] : type == 2 ? upre[p] : spre[p]) + bytes(n);
  if (type == 1) return integral<Integer>("Integer", s, attribute, "9223372036854775807", "9223372036854775808");
  if (type == 2) return integral<UnsignedInteger>("UnsignedInteger", s, attribute, "18446744073709551615", "");
  return integral<UnsignedShort>("UnsignedShort", s, attribute, "65535", "");
}
