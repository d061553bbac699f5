// Definitions of what is not compiled with the harnesses of the interpreter.
#include <openscenario_interpreter/reader/evaluate.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/entity.hpp>

namespace openscenario_interpreter
{
inline namespace reader
{
__attribute__((weak)) std::string evaluate(const std::string &, const Scope &) { throw std::runtime_error("harness: no expressions"); }
}  // namespace reader
inline namespace syntax
{
Entity::Entity(const pugi::xml_node &, const Scope &) {}
}  // namespace syntax
}  // namespace openscenario_interpreter
namespace concealer
{
auto dollar(const std::string & command) -> std::string { return "output of " + command + "\n"; }
}
