#pragma once
#include <boost/json.hpp>
#include <list>
#include <openscenario_interpreter/syntax/private_action.hpp>
namespace openscenario_interpreter
{
inline namespace syntax
{
struct Private
{
  std::list<PrivateAction> actions;
  explicit Private(const pugi::xml_node & node, Scope & scope)
  {
    for (const auto & each : node.children("PrivateAction")) actions.emplace_back(each, scope);
  }
  auto accomplished() const -> bool { for (auto & a : actions) if (not a.accomplished()) return false; return true; }
  auto endsImmediately() const -> bool { for (auto & a : actions) if (not a.endsImmediately()) return false; return true; }
  auto run() -> void { for (auto & a : actions) a.run(); }
  auto start() -> void { for (auto & a : actions) a.start(); }
  auto startInstantaneousActions() -> void { for (auto & a : actions) if (a.endsImmediately()) a.start(); }
  auto startNonInstantaneousActions() -> void { for (auto & a : actions) if (not a.endsImmediately()) a.start(); }
  auto runInstantaneousActions() -> void { for (auto & a : actions) if (a.endsImmediately()) a.run(); }
  auto runNonInstantaneousActions() -> void { for (auto & a : actions) if (not a.endsImmediately()) a.run(); }
  friend auto operator<<(boost::json::object & json, const Private &) -> boost::json::object & { return json; }
};
}  // namespace syntax
}  // namespace openscenario_interpreter
