/*SPEC
{
 "property": "C33",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/speed_condition,syntax/relative_speed_condition,syntax/relative_distance_condition,syntax/distance_condition,syntax/reach_position_condition,syntax/time_to_collision_condition_target,syntax/coordinate_system,syntax/relative_distance_type,syntax/routing_algorithm,syntax/by_type,syntax/object_type,syntax/entities,syntax/position,syntax/orientation,syntax/world_position,syntax/relative_world_position,syntax/relative_object_position,syntax/lane_position,syntax/reference_context,syntax/entity,syntax/entity_selection,syntax/selected_entities,syntax/triggering_entities,syntax/triggering_entities_rule,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/integer,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "common/math/geometry/src/{transform,vector3/ros_msg_converter}.cpp", "@harness/core_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["core", "ros", "msgs", "tf2"],
 "force_include": ["interp_force.hpp"],
 "sx_flags": ["-fno-access-control", "-fdelayed-template-parsing"],
 "nat_flags": ["-fno-access-control"],
 "libs": ["-lpugixml", "-lboost_json"],
 "real": true,
 "quick": {"time": 600},
 "bounds": {"quick": "RelativeDistanceCondition and DistanceCondition with every combination of coordinate system, distance type, routing algorithm and free space, positions given in the world, on a lane and relative to an object, ReachPositionCondition and TimeToCollisionCondition, for any real poses and boxes (Euclidean distances: Pythagorean ones, with and without altitude), with or without the entity being there", "thorough": "the same"},
 "outside": "the geometry of poses and lanes itself (a stand-in, whose results are told apart by direction, boxes and lane changes); rounding",
 "witness": ["unsupported", "not added", "free space", "lane change", "approaching", "moving away"]
}
SPEC*/
#include <openscenario_interpreter/reader/element.hpp>
#include <openscenario_interpreter/syntax/distance_condition.hpp>
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/reach_position_condition.hpp>
#include <openscenario_interpreter/syntax/relative_distance_condition.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/time_to_collision_condition.hpp>

#include "core_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

namespace
{
double number(const char * n) { return sx::real(n, -50, 50); }
}  // namespace

void sx_harness()
{
  static const char * systems[] = {"entity", "lane", "road", "trajectory"};
  static const char * types[] = {"longitudinal", "lateral", "euclidianDistance"};
  static const char * algorithms[] = {"undefined", "shortest", "fastest"};
  const int kind = sx::pick("kind", 0, 4);  // relative distance, distance, reach position, time to collision with an entity, with a position
  const bool reach = kind == 2;
  const int system = reach ? 0 : sx::pick("system", 0, 3), type = reach ? 2 : sx::pick("type", 0, 2), algorithm = reach ? 0 : sx::pick("algorithm", 0, 2);
  const bool freespace = not reach and sx::pick("freespace", 0, 1), slope = type == 2 and sx::pick("slope", 0, 1);
  const bool to_entity = kind == 0 or kind == 3;
  const int position = to_entity ? 0 : sx::pick("position", 0, 2);  // world, lane, relative to object
  const bool supported = (system == 0 and algorithm == 0) or (system == 1 and algorithm < 2 and type < 2);
  common::bool_parameters["consider_pose_by_road_slope"] = slope;
  auto world = entities_xml();
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Entities entities(world->first_child(), scope);
  SimulatorCore::core = std::make_unique<traffic_simulator::API>();
  auto & core = *SimulatorCore::core;
  for (auto n : {"A", "B"}) {
    core.entities[n] = std::make_shared<traffic_simulator::EgoEntity>();
    entities.ref(EntityRef(std::string(n))).as<ScenarioObject>().is_added = true;
  }
  auto &a = *core.entities["A"], &b = *core.entities["B"];
  const bool missing = supported and not reach and sx::pick("missing", 0, 1);
  a.pose.orientation.w = b.pose.orientation.w = 1;
  // the differences as far as they are part of a Euclidean distance are Pythagorean
  const bool euclid = type == 2;
  double px = 0, py = 0, pz = 0;
  std::string where;
  if (euclid) {
    a.pose.position.x = 1;
    a.pose.position.y = 2;
    a.pose.position.z = 5;
    px = 1 + sx::pick("dx", -1, 1) * 8;
    py = 2 + sx::pick("dy", -1, 1) * 6;
    pz = slope ? 5 + sx::pick("dz", 0, 1) * 24 : 7;
  } else {
    a.pose.position.x = number("ax");
    a.pose.position.y = number("ay");
    a.pose.position.z = 3;
    px = to_entity ? number("px") : 7;
    py = to_entity ? number("py") : -9;
    pz = to_entity ? 3 : 0;
  }
  if (position == 1) pz = 0;
  if (to_entity or position == 2) {
    // B stands half way back if it is only the reference of the position
    b.pose.position.x = to_entity ? px : px - 4;
    b.pose.position.y = to_entity ? py : py - 2;
    b.pose.position.z = to_entity ? pz : pz - 1;
  }
  auto text = [](double x) { return std::to_string(static_cast<int>(x)); };
  if (position == 0)
    where = "<WorldPosition x=\"" + (to_entity ? "0" : text(px)) + "\" y=\"" + (to_entity ? "0" : text(py)) + "\" z=\"" + (to_entity ? "0" : text(pz)) + "\"/>";
  else if (position == 1)
    where = "<LanePosition roadId=\"\" laneId=\"1\" s=\"" + text(px) + "\" offset=\"" + text(py) + "\"/>";
  else
    where = "<RelativeObjectPosition entityRef=\"B\" dx=\"4\" dy=\"2\" dz=\"1\"/>";
  if (freespace) {
    a.box.center.x = euclid ? 0 : number("box_ax");
    a.box.center.y = euclid ? 0 : number("box_ay");
    b.box.center.x = euclid ? 0 : number("box_bx");
    b.box.center.y = euclid ? 0 : number("box_by");
    if (euclid) a.box.center.z = slope ? 0 : 1, a.box.center.x = 0;
    sx_reach("free space");
  }
  const double lx = number("lane_s"), ly = number("lane_offset"), mx = number("lane_s2"), my = number("lane_offset2");
  traffic_simulator::LaneletPose lane;
  lane.s = lx;
  lane.offset = ly;
  a.lanelet_pose = traffic_simulator::CanonicalizedLaneletPose(lane);
  lane.s = mx;
  lane.offset = my;
  b.lanelet_pose = traffic_simulator::CanonicalizedLaneletPose(lane);
  const double speed = kind < 3 ? 0 : sx::pick("speed", -1, 2);
  a.twist.linear.x = speed;
  if (kind == 4) a.twist.linear.y = type == 1 ? speed : 0;
  if (kind == 4 and type == 1) a.twist.linear.x = 9;
  if (missing) {
    core.entities.erase("A");
    entities.ref(EntityRef(std::string("A"))).as<ScenarioObject>().is_added = false;
    sx_reach("not added");
  }
  double expected = std::numeric_limits<double>::quiet_NaN();
  if (supported and not missing) {
    const double bx = freespace ? a.box.center.x + (to_entity ? 2 * b.box.center.x : 0) : 0, by = freespace ? a.box.center.y + (to_entity ? 2 * b.box.center.y : 0) : 0;
    if (system == 0) {
      const double dx = px - a.pose.position.x + bx, dy = py - a.pose.position.y + by, dz = pz - a.pose.position.z;
      expected = type == 2 ? std::sqrt(dx * dx + dy * dy + (slope ? dz * dz : 0)) : type == 0 ? dx : dy;
      if (to_entity) expected = std::abs(expected);
    } else {
      const double change = algorithm == 1 ? 1 : 0;
      expected = type == 0 ? (to_entity ? mx : px) - lx + bx + 32 * change : (to_entity ? my : py) - ly + by + 64 * change;
      if (change) expected = std::abs(expected), sx_reach("lane change");
    }
    if (kind >= 3) {
      // the distance over the speed of the approach
      const double closing = to_entity ? (type == 0 ? speed : type == 1 ? 0 : std::abs(speed)) : euclid ? std::abs(speed) : speed;
      if (closing > 0) sx_reach("approaching"); else sx_reach("moving away");
      sx_assume(not(closing <= 0 and expected == 0));
      const double inf = std::numeric_limits<double>::infinity();
      expected = closing > 0 ? expected / closing : expected > 0 ? inf : -inf;
    }
  }
  const std::string attributes = " freespace=\"" + std::string(freespace ? "true" : "false") + "\" coordinateSystem=\"" + systems[system] + "\" relativeDistanceType=\"" + types[type] + "\" routingAlgorithm=\"" + algorithms[algorithm] + "\" rule=\"lessThan\" value=\"10\"";
  auto triggering = xml("<TriggeringEntities triggeringEntitiesRule=\"any\"><EntityRef entityRef=\"A\"/></TriggeringEntities>");
  TriggeringEntities triggering_entities(triggering->first_child(), scope);
  bool result = false, failed = false;
  double measured = 0;
  try {
    if (kind == 0) {
      auto node = xml("<RelativeDistanceCondition entityRef=\"B\"" + attributes + "/>");
      RelativeDistanceCondition c(node->first_child(), scope, triggering_entities);
      result = c.evaluate().as<Boolean>();
      measured = c.results.front()[0];
    } else if (kind == 1) {
      auto node = xml("<DistanceCondition" + attributes + "><Position>" + where + "</Position></DistanceCondition>");
      DistanceCondition c(node->first_child(), scope, triggering_entities);
      result = c.evaluate().as<Boolean>();
      measured = c.results.front()[0];
    } else if (reach) {
      auto node = xml("<ReachPositionCondition tolerance=\"10\"><Position>" + where + "</Position></ReachPositionCondition>");
      ReachPositionCondition c(node->first_child(), scope, triggering_entities);
      result = c.evaluate().as<Boolean>();
      measured = c.results.front()[0];
    } else {
      auto node = xml("<TimeToCollisionCondition" + attributes + "><TimeToCollisionConditionTarget>" + (kind == 3 ? std::string("<EntityRef entityRef=\"B\"/>") : "<Position>" + where + "</Position>") + "</TimeToCollisionConditionTarget></TimeToCollisionCondition>");
      TimeToCollisionCondition c(node->first_child(), scope, triggering_entities);
      result = c.evaluate().as<Boolean>();
      measured = c.evaluations.front()[0];
    }
  } catch (const common::Error &) {
    failed = true;
  }
  SimulatorCore::core.reset();
  if (not supported) {
    sx_reach("unsupported");
    sx_assert(failed, "unsupported_combination");
    return;
  }
  static const char * what[] = {"relative_distance", "distance", "reach_position", "time_to_collision_with_entity", "time_to_collision_with_position"};
  sx_assert(not failed, "supported_combination");
  if (missing)
    sx_assert(not result and measured != measured, "not_added");
  else {
    if (std::isinf(expected) or std::isinf(measured))
      sx_assert(measured == expected, what[kind]);
    else if (euclid)
      sx_assert(measured - expected < 1e-9 and expected - measured < 1e-9, what[kind]);
    else
      sx_assert(measured == expected, what[kind]);
    if (not euclid) sx_assert(result == (expected < 10), "rule");
  }
}
