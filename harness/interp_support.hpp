// What the interpreter's sources need from the parts that are not compiled with the harness.
#pragma once
#include <memory>
#include <openscenario_interpreter/reader/evaluate.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/user_defined_action.hpp>
#include <pugixml.hpp>
#include <stdexcept>

inline auto xml(const std::string & text)
{
  auto document = std::make_unique<pugi::xml_document>();
  if (not document->load_string(text.c_str())) throw std::runtime_error("harness: " + text);
  return document;
}
