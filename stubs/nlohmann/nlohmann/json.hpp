// Stands in for the JSON library: a tree that keeps the values as they are (also symbolic ones) instead of turning them
// into text. dump() hands the tree to the harness (nlohmann::dumped()).
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace nlohmann
{
class json
{
public:
  enum Kind { null, boolean, integer, number, text, list, object } kind = null;
  bool b = false;
  std::int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<json> items;
  std::map<std::string, json> members;

  json() = default;
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> or std::is_convertible_v<T, std::string>>>
  json(const T & v)
  {
    if constexpr (std::is_same_v<T, bool>) kind = boolean, b = v;
    else if constexpr (std::is_integral_v<T>) kind = integer, i = v;
    else if constexpr (std::is_floating_point_v<T>) kind = number, d = v;
    else kind = text, s = v;
  }
  static json array()
  {
    json j;
    j.kind = list;
    return j;
  }
  json & operator[](const std::string & k)
  {
    kind = object;
    return members[k];
  }
  json & operator[](const char * k) { return (*this)[std::string(k)]; }
  void push_back(const json & j)
  {
    kind = list;
    items.push_back(j);
  }
  template <typename... Ts>
  void emplace_back(Ts &&... xs)
  {
    push_back(json(std::forward<Ts>(xs)...));
  }
  std::size_t size() const { return kind == list ? items.size() : members.size(); }
  bool empty() const { return size() == 0; }
  bool contains(const std::string & k) const { return members.count(k) != 0; }
  std::string dump(int = -1) const;
};
inline json & dumped()
{
  static json j;
  return j;
}
inline std::string json::dump(int) const
{
  dumped() = *this;
  return "";
}
}  // namespace nlohmann
