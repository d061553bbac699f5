// What harnesses of conditions and actions on entities share.
#pragma once
#include <memory>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/simulator_core.hpp>
#include <pugixml.hpp>
#include <stdexcept>
#include <string>

inline auto xml(const std::string & text)
{
  auto document = std::make_unique<pugi::xml_document>();
  if (not document->load_string(text.c_str())) throw std::runtime_error("harness: " + text);
  return document;
}

// two vehicles A and B, a pedestrian P, the selections S (A and P), V (vehicles) and M (miscellaneous objects: none)
inline auto entities_xml()
{
  return xml(
    "<Entities><ScenarioObject name=\"A\"><Vehicle/></ScenarioObject><ScenarioObject name=\"B\"><Vehicle/></ScenarioObject><ScenarioObject name=\"P\"><Pedestrian/></ScenarioObject>"
    "<EntitySelection name=\"S\"><Members><EntityRef entityRef=\"A\"/><EntityRef entityRef=\"P\"/></Members></EntitySelection>"
    "<EntitySelection name=\"V\"><Members><ByType objectType=\"vehicle\"/></Members></EntitySelection>"
    "<EntitySelection name=\"M\"><Members><ByType objectType=\"miscellaneous\"/></Members></EntitySelection></Entities>");
}
