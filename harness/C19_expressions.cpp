/*SPEC
{
 "property": "C19",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/integer,syntax/boolean,syntax/double,syntax/rule,syntax/unsigned_integer,syntax/unsigned_short,syntax/parameter_type,scope,object,reader/attribute,utility/demangle}.cpp", "@harness/interp_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "inc": ["openscenario/openscenario_interpreter/src"],
 "stubs": ["ros", "msgs", "interp"],
 "force_include": ["interp_force.hpp"],
 "libs": ["-lpugixml", "-lboost_json"],
 "quick": {"time": 700, "qtimeout": 20000},
 "bounds": {"quick": "every expression of three operands and two arithmetic operators, with parentheses around either pair or a minus sign, the operands being integer parameters in [-1000, 1000], floating point parameters (any finite value), two of them also unsigned parameters in [0, 1000] (products: 60) or literals; every expression of three booleans; rounding functions and square roots of any floating point value below 1e9; powers and remainders of a few values; results up to two digits as text", "thorough": "same"},
 "outside": "longer and more deeply nested expressions; overflow",
 "witness": ["integers", "floating", "booleans", "functions", "type error", "unsigned", "text", "malformed"]
}
SPEC*/
#include <evaluate.cpp>  // the code under test: its grammar and values are not declared anywhere else
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>

#include "interp_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
Value value(const std::string & expression, const Scope & scope)
{
  Grammar<decltype(expression.begin())> parser{scope};
  Value output;
  auto first = expression.begin();
  auto last = expression.end();
  qi::phrase_parse(first, last, parser, ascii::space, output);
  if (first != last) throw std::runtime_error("not parsed");
  return output;
}

struct Number
{
  bool floating;
  int i;
  double f;
  int positive = 0;  // 1: unsigned, 2: unsigned short
};

double real(const Number & x) { return x.floating ? x.f : x.positive == 2 ? (double)(unsigned short)x.i : x.positive ? (double)(unsigned int)x.i : (double)x.i; }

Number apply(char o, Number x, Number y)
{
  if (o == '/') return {true, 0, real(x) / real(y)};
  if (x.floating or y.floating) {
    const double l = real(x), r = real(y);
    return {true, 0, o == '+' ? l + r : o == '-' ? l - r : l * r};
  }
  return {false, o == '+' ? x.i + y.i : o == '-' ? x.i - y.i : x.i * y.i, 0};
}

Number minus(Number x) { return {x.floating, -x.i, -x.f}; }

bool same(const Value & v, const Number & n)
{
  if (v.same_as<double>()) {
    const double d = std::get<double>(v.data);
    std::uint64_t x, y;
    std::memcpy(&x, &d, 8), std::memcpy(&y, &n.f, 8);
    if (not n.floating) return false;
    if (x == y) return true;
    return (d == n.f) | ((d != d) & (n.f != n.f));
  }
  if (n.floating) return false;
  if (v.same_as<int>()) return std::get<int>(v.data) == n.i;
  if (v.same_as<unsigned int>()) return (long)std::get<unsigned int>(v.data) == (long)n.i;
  if (v.same_as<unsigned short>()) return std::get<unsigned short>(v.data) == n.i;
  return false;
}

int integer(const std::string & name, int lo, int hi)
{
  const int i = (int)sx_bits(name.c_str(), 32);
  sx_assume((i >= lo) & (i <= hi));
  return i;
}
}  // namespace

void sx_harness()
{
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  static const char * names[] = {"a", "b", "c"};
  static const char operators[] = "+-*/";
  auto operand = [&](int n, int kind, std::string & text) -> Number {
    text = std::string("$") + names[n];
    switch (kind) {
      case 0: {
        const int i = integer(sx::nm("integer", n), -1000, 1000);
        scope.insert(names[n], make<Integer>(i));
        return {false, i, 0};
      }
      case 1: {
        const double d = sx_f64(sx::nm("double", n).c_str());
        sx_assume((d <= 1e300) & (d >= -1e300));
        scope.insert(names[n], make<Double>(d));
        return {true, 0, d};
      }
      case 2: text = "7"; return {false, 7, 0};
      case 3: text = "2.5"; return {true, 0, 2.5};
      case 4: {
        const int i = integer(sx::nm("unsigned", n), 0, 1000);
        scope.insert(names[n], make<UnsignedInt>((unsigned int)i));
        return {false, i, 0, 1};
      }
      default: {
        const int i = integer(sx::nm("short", n), 0, 1000);
        scope.insert(names[n], make<UnsignedShort>((unsigned short)i));
        return {false, i, 0, 2};
      }
    }
  };
  switch (sx::pick("what", 0, 6)) {
    case 0: {
      std::string t[3];
      Number v[3];
      const int kinds = sx::pick("kinds", 0, 3);
      static const int kind[][3] = {{0, 0, 0}, {1, 1, 1}, {0, 1, 2}, {3, 0, 1}};
      for (int n = 0; n < 3; ++n) v[n] = operand(n, kind[kinds][n], t[n]);
      const char p = operators[sx::pick("first", 0, 3)], q = operators[sx::pick("second", 0, 3)];
      std::string text;
      Number expected;
      switch (sx::pick("form", 0, 4)) {
        case 0:
          text = t[0] + p + t[1] + q + t[2];
          expected = (q == '*' or q == '/') and (p == '+' or p == '-') ? apply(p, v[0], apply(q, v[1], v[2])) : apply(q, apply(p, v[0], v[1]), v[2]);
          break;
        case 1:
          text = "(" + t[0] + " " + p + " " + t[1] + ") " + q + t[2];
          expected = apply(q, apply(p, v[0], v[1]), v[2]);
          break;
        case 2:
          text = t[0] + p + "( " + t[1] + q + t[2] + ")";
          expected = apply(p, v[0], apply(q, v[1], v[2]));
          break;
        case 3:
          text = "-" + t[0] + p + t[1];
          expected = apply(p, minus(v[0]), v[1]);
          break;
        default:
          text = t[0] + p + " -" + t[1];
          expected = apply(p, v[0], minus(v[1]));
      }
      sx_reach(expected.floating ? "floating" : "integers");
      sx_assert(same(value(text, scope), expected), "value_of_an_arithmetic_expression");
      break;
    }
    case 1: {
      bool v[3];
      for (int n = 0; n < 3; ++n) scope.insert(names[n], make<Boolean>(v[n] = sx_bits(sx::nm("bool", n).c_str(), 1)));
      const bool p = sx::boolean("first and"), q = sx::boolean("second and"), negated = sx::boolean("negated");
      auto is = [](bool conjunction, bool x, bool y) { return conjunction ? x & y : x | y; };
      std::string o = p ? " and " : " or ", e = q ? " and " : " or ", text;
      bool expected;
      const bool first = negated != v[0];
      std::string a = negated ? "not $a" : "$a";
      switch (sx::pick("form", 0, 2)) {
        case 0:
          text = a + o + "$b" + e + "$c";
          expected = not p and q ? first | (v[1] & v[2]) : is(q, is(p, first, v[1]), v[2]);
          break;
        case 1:
          text = "(" + a + o + "$b)" + e + "$c";
          expected = is(q, is(p, first, v[1]), v[2]);
          break;
        default:
          text = (negated ? "not ($a" : "($a") + e + "$c)" + o + "$b";
          expected = is(p, negated != is(q, v[0], v[2]), v[1]);
      }
      sx_reach("booleans");
      const auto result = value(text, scope);
      sx_assert(result.same_as<bool>() and std::get<bool>(result.data) == expected, "value_of_a_boolean_expression");
      sx_assert(evaluate(text, scope) == (expected ? "true" : "false"), "text_of_a_boolean");
      break;
    }
    case 2: {
      std::string t;
      const auto x = operand(0, 1, t).f;
      sx_reach("functions");
      const int f = sx::pick("function", 0, 5);
      if (f < 3) {
        sx_assume((x <= 1e9) & (x >= -1e9));
        static const char * function[] = {"floor", "ceil", "round"};
        const auto result = value(std::string(function[f]) + "($a)", scope);
        sx_assert(result.same_as<int>(), "rounding_yields_an_integer");
        const double i = std::get<int>(result.data);
        if (f == 0) sx_assert((i <= x) & (x < i + 1), "floor");
        if (f == 1) sx_assert((i >= x) & (x > i - 1), "ceil");
        if (f == 2) sx_assert((x - i <= 0.5) & (x - i >= -0.5), "round");
      } else if (f == 3) {
        sx_assume(x >= 0);
        const auto result = value("sqrt($a)", scope);
        sx_assert(result.same_as<double>() and std::get<double>(result.data) == std::sqrt(x), "square_root");
      } else if (f == 4) {
        static const double samples[] = {0, 1, 2, 3.5, -2, 10};
        const double b = samples[sx::pick("base", 0, 5)];
        const int e = sx::pick("exponent", 0, 3);
        scope.insert("b", make<Double>(b));
        double expected = 1;
        for (int i = 0; i < e; ++i) expected *= b;
        const auto result = value("pow($b, " + std::to_string(e) + ")", scope);
        sx_assert(result.same_as<double>() and std::get<double>(result.data) == expected, "power");
      } else {
        const int l = sx::pick("dividend", -5, 5), r = sx::pick("divisor", 1, 3);
        scope.insert("b", make<Integer>(l));
        const auto result = value("$b%" + std::to_string(r), scope);
        sx_assert(same(result, {result.same_as<double>(), l % r, double(l % r)}), "remainder");
      }
      break;
    }
    case 3: {
      scope.insert("a", make<Boolean>(sx::boolean("bool")));
      scope.insert("b", make<Integer>(integer("b", -10, 10)));
      static const char * wrong[] = {"$a + 1", "$b and true", "$a or 2", "not $b", "-$a", "$b * false", "round($b + true)", "$b % $a", "1 - $a"};
      bool failed = false;
      sx_reach("type error");
      try {
        value(wrong[sx::pick("expression", 0, 8)], scope);
      } catch (const std::runtime_error &) {
        failed = true;
      }
      sx_assert(failed, "arithmetic_on_booleans_and_logic_on_numbers_is_rejected");
      break;
    }
    case 4: {
      std::string t[2];
      Number v[2];
      for (int n = 0; n < 2; ++n) v[n] = operand(n, sx::pick(sx::nm("kind", n), n == 0 ? 4 : 0, n == 0 ? 5 : 5), t[n]);
      const char p = operators[sx::pick("first", 0, 3)];
      if (p == '*') for (const auto & x : v) if (not x.floating) sx_assume((x.i >= -60) & (x.i <= 60));
      const auto expected = apply(p, v[0], v[1]);
      const auto result = value(t[0] + p + t[1], scope);
      sx_reach("unsigned");
      sx_assert(same(result, expected) or expected.i < 0, "value_of_an_expression_of_unsigned_numbers");
      sx_assert(same(result, expected), "negative_results_of_unsigned_numbers");
      break;
    }
    case 5: {
      const int a = integer("a", -20, 20);
      scope.insert("a", make<Integer>(a));
      sx_reach("text");
      if (sx::boolean("attribute")) {
        auto document = xml("<X value=\"${ $a*2 + 1 }\"/>");
        const auto i = readAttribute<Integer>("value", document->first_child(), scope);
        sx_assert(i == a * 2 + 1, "an_attribute_is_the_value_of_its_expression");
      } else {
        sx_assert(evaluate("3 * $a", scope) == std::to_string(3 * a), "text_of_an_integer");
      }
      break;
    }
    default: {
      scope.insert("a", make<Integer>(1));
      scope.insert("s", make<String>("text"));
      static const char * wrong[] = {"", "1 +", "$a $a", "(1", "1)", "2 ** 3", "$z", "$s", "foo(1)", "1 + + 2", "pow(1)", "true false", "$"};
      bool failed = false;
      sx_reach("malformed");
      try {
        evaluate(wrong[sx::pick("expression", 0, 12)], scope);
      } catch (const common::Error &) {
        failed = true;
      }
      sx_assert(failed, "malformed_expressions_are_rejected");
    }
  }
}
