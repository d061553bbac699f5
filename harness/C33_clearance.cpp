/*SPEC
{
 "property": "C33",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/relative_clearance_condition,syntax/relative_lane_range,syntax/by_type,syntax/object_type,syntax/entities,syntax/position,syntax/orientation,syntax/world_position,syntax/relative_world_position,syntax/relative_object_position,syntax/lane_position,syntax/reference_context,syntax/entity,syntax/entity_selection,syntax/selected_entities,syntax/triggering_entities,syntax/triggering_entities_rule,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/integer,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "common/math/geometry/src/{transform,vector3/ros_msg_converter}.cpp", "@harness/core_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["core", "ros", "msgs", "tf2"],
 "force_include": ["interp_force.hpp"],
 "sx_flags": ["-fno-access-control", "-fdelayed-template-parsing"],
 "nat_flags": ["-fno-access-control"],
 "libs": ["-lpugixml", "-lboost_json"],
 "real": true,
 "quick": {"time": 600},
 "bounds": {"quick": "one or two triggering entities under any and all; the clearance to a given entity, to a selection and to all others; none, one and two lane ranges; with and without free space; three entities at any real position on their lanes, each along or against its lane", "thorough": "the same"},
 "outside": "the geometry of lanes itself (a stand-in); more entities and ranges; a selection of triggering entities",
 "witness": ["clear", "not clear", "against the lane", "no route", "two triggering entities"]
}
SPEC*/
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/relative_clearance_condition.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>

#include "core_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

void sx_harness()
{
  static const char * names[] = {"A", "B", "P"};
  static const int lanes[] = {0, 1, -2, 99};  // of P (99: cannot be reached)
  const bool all = sx::pick("all", 0, 1), freespace = sx::pick("freespace", 0, 1);
  const int triggering_count = sx::pick("triggering", 1, 2), target = sx::pick("target", 0, 3), ranges = sx::pick("ranges", 0, 3);
  auto world = entities_xml();
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Entities entities(world->first_child(), scope);
  SimulatorCore::core = std::make_unique<traffic_simulator::API>();
  auto & core = *SimulatorCore::core;
  const bool p_added = target != 0 or sx::pick("p_added", 0, 1);
  double s[3], box[3];
  int lane[3];
  bool against[3];
  for (int i = 0; i < 3; ++i) {
    auto e = core.entities[names[i]] = std::make_shared<traffic_simulator::EgoEntity>();
    entities.ref(EntityRef(std::string(names[i]))).as<ScenarioObject>().is_added = i < 2 or p_added;
    traffic_simulator::LaneletPose pose;
    lane[i] = i < 2 ? i : lanes[sx::pick("lane", 0, 3)];
    pose.lanelet_id = 100 + lane[i];
    pose.s = s[i] = sx::real(sx::nm("s", i), -50, 50);
    pose.offset = 0;
    against[i] = i == 0 and sx::pick("against", 0, 1);
    pose.rpy.z = against[i] ? -3.0 : 0.5;
    e->lanelet_pose = traffic_simulator::CanonicalizedLaneletPose(pose);
    e->box.center.x = box[i] = i == 1 ? 3 : 0.5;
  }
  if (against[0]) sx_reach("against the lane");
  auto triggering = xml(std::string("<TriggeringEntities triggeringEntitiesRule=\"") + (all ? "all" : "any") + "\"><EntityRef entityRef=\"A\"/>" + (triggering_count == 2 ? "<EntityRef entityRef=\"B\"/>" : "") + "</TriggeringEntities>");
  TriggeringEntities triggering_entities(triggering->first_child(), scope);
  if (triggering_count == 2) sx_reach("two triggering entities");
  // all others; P; the selection of A and P (only with one triggering entity B... kept to P and A); P and B
  static const char * targets[] = {"", "<EntityRef entityRef=\"P\"/>", "<EntityRef entityRef=\"S\"/>", "<EntityRef entityRef=\"B\"/><EntityRef entityRef=\"P\"/>"};
  static const char * range_texts[] = {"", "<RelativeLaneRange from=\"0\" to=\"1\"/>", "<RelativeLaneRange from=\"1\"/>", "<RelativeLaneRange to=\"-2\"/><RelativeLaneRange from=\"1\" to=\"1\"/>"};
  auto node = xml(std::string("<RelativeClearanceCondition distanceBackward=\"5\" distanceForward=\"20\" oppositeLanes=\"false\" freeSpace=\"") + (freespace ? "true" : "false") + "\">" + range_texts[ranges] + targets[target] + "</RelativeClearanceCondition>");
  RelativeClearanceCondition condition(node->first_child(), scope, triggering_entities);
  const bool result = condition.evaluate().as<Boolean>();
  bool expected = all;
  for (int t = 0; t < triggering_count; ++t) {
    bool clear = true;
    for (int o = 0; o < 3; ++o) {
      const bool considered = target == 0 ? (o >= triggering_count and (o < 2 or p_added)) : target == 1 ? o == 2 : target == 2 ? o != 1 : o != 0;
      if (not considered) continue;
      int d = lane[o] - lane[t];
      const bool routable = d <= 50;
      if (against[t]) d = -d;
      const bool lateral = ranges == 0 or (routable and (ranges == 1 ? d >= 0 and d <= 1 : ranges == 2 ? d >= 1 : d <= -2 or d == 1));
      if (not routable and ranges) sx_reach("no route");
      double ahead = s[o] - s[t] + 32 + (freespace ? box[t] + 2 * box[o] : 0);
      if (against[t]) ahead = -ahead;
      const bool longitudinal = (ahead >= 0 and ahead <= 20) | (ahead < 0 and ahead >= -5);
      clear = clear & not(lateral & longitudinal);
    }
    expected = all ? expected & clear : expected | clear;
  }
  sx_assert(result == expected, "clearance");
  sx_reach_if(result, "clear");
  sx_reach_if(not result, "not clear");
  SimulatorCore::core.reset();
}
