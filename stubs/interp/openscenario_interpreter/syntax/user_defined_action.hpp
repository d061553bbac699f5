// Stand-in leaf action: whether it is accomplished is what the harness says; its starts and runs are reported.
#pragma once
#include <openscenario_interpreter/syntax/by_value_condition.hpp>
namespace openscenario_interpreter
{
namespace probe
{
inline std::function<bool(int)> accomplished = [](int) { return true; };
}
inline namespace syntax
{
struct UserDefinedAction
{
  const int index;
  const bool immediate;
  explicit UserDefinedAction(const pugi::xml_node & node, Scope &) : index(node.attribute("probe").as_int()), immediate(node.attribute("immediate").as_bool()) {}
  auto accomplished() const -> bool { return probe::accomplished(index); }
  auto endsImmediately() const -> bool { return immediate; }
  auto run() const -> void { probe::note(index, "run"); }
  auto start() const -> void { probe::note(index, "start"); }
  auto type() const -> const std::type_info & { return typeid(UserDefinedAction); }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
