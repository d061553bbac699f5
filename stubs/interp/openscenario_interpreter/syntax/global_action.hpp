#pragma once
#include <openscenario_interpreter/syntax/user_defined_action.hpp>
// Stand-in leaf action: whether it is accomplished is what the harness says; its starts and runs are reported.
namespace openscenario_interpreter
{
inline namespace syntax
{
struct GlobalAction
{
  const int index;
  const bool immediate;
  explicit GlobalAction(const pugi::xml_node & node, Scope &) : index(node.attribute("probe").as_int()), immediate(node.attribute("immediate").as_bool()) {}
  auto accomplished() const -> bool { return probe::accomplished(index); }
  auto endsImmediately() const -> bool { return immediate; }
  auto run() const -> void { probe::note(index, "run"); }
  auto start() const -> void { probe::note(index, "start"); }
  auto type() const -> const std::type_info & { return typeid(GlobalAction); }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
