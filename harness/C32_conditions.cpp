/*SPEC
{
 "property": "C32",
 "src": ["openscenario/openscenario_interpreter/src/{syntax/speed_condition,syntax/relative_speed_condition,syntax/time_headway_condition,syntax/stand_still_condition,syntax/acceleration_condition,syntax/collision_condition,syntax/by_object_type,syntax/by_type,syntax/object_type,syntax/entities,syntax/position,syntax/orientation,syntax/world_position,syntax/relative_world_position,syntax/relative_object_position,syntax/lane_position,syntax/reference_context,syntax/entity,syntax/entity_selection,syntax/selected_entities,syntax/triggering_entities,syntax/triggering_entities_rule,syntax/boolean,syntax/double,syntax/unsigned_integer,syntax/unsigned_short,syntax/integer,syntax/rule,scope,object,reader/attribute,reader/element,utility/demangle}.cpp", "common/math/geometry/src/{transform,vector3/ros_msg_converter}.cpp", "@harness/core_support.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["core", "ros", "msgs", "tf2"],
 "force_include": ["interp_force.hpp"],
 "sx_flags": ["-fno-access-control", "-fdelayed-template-parsing"],
 "nat_flags": ["-fno-access-control"],
 "libs": ["-lpugixml", "-lboost_json"],
 "real": true,
 "quick": {"time": 600},
 "bounds": {"quick": "eight kinds of conditions (speed, relative speed, acceleration, standing still, time headway, collision with an entity, collision with a type) with every rule, direction and compatibility mode, over seven groups of triggering entities (single, several, selections by name, by type and empty ones) under any and all, with any real state of the three entities", "thorough": "the same"},
 "outside": "rounding of the numbers; rotated observers; other groups",
 "witness": ["true", "false", "not added", "empty selection"]
}
SPEC*/
#include <openscenario_interpreter/syntax/acceleration_condition.hpp>
#include <openscenario_interpreter/syntax/collision_condition.hpp>
#include <openscenario_interpreter/syntax/entities.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/relative_speed_condition.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/speed_condition.hpp>
#include <openscenario_interpreter/syntax/stand_still_condition.hpp>
#include <openscenario_interpreter/syntax/time_headway_condition.hpp>

#include "core_support.hpp"
#include "sx.hpp"

using namespace openscenario_interpreter;

void sx_harness()
{
  static const char * names[] = {"A", "B", "P"};
  static const char * rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
  static const std::vector<const char *> groups[] = {{"A"}, {"A", "B"}, {"B", "S"}, {"V"}, {"V", "P"}, {"M"}, {"S"}};
  static const std::vector<std::vector<int>> members[] = {{{0}}, {{0}, {1}}, {{1}, {0, 2}}, {{0, 1}}, {{0, 1}, {2}}, {{}}, {{0, 2}}};
  const int kind = sx::pick("kind", 0, 7), group = sx::pick("group", 0, 6);
  const bool all = sx::pick("all", 0, 1);
  auto world = entities_xml();
  const OpenScenario open_scenario;
  Scope scope(&open_scenario);
  Entities entities(world->first_child(), scope);
  SimulatorCore::core = std::make_unique<traffic_simulator::API>();
  auto & core = *SimulatorCore::core;
  // which of the entities exist: B (to which conditions refer) always does
  const int missing = kind == 0 or kind == 5 ? sx::pick("missing", 0, 1) : 0;
  bool added[3] = {missing != 1, true, true};
  if (missing) sx_reach("not added");
  for (int i = 0; i < 3; ++i) {
    if (added[i]) core.entities[names[i]] = std::make_shared<traffic_simulator::EgoEntity>();
    entities.ref(EntityRef(std::string(names[i]))).as<ScenarioObject>().is_added = added[i];
  }
  const int rule = sx::pick("rule", 0, kind >= 6 ? 0 : missing ? 4 : 5);
  std::string refs, text;
  for (auto name : groups[group]) refs += std::string("<EntityRef entityRef=\"") + name + "\"/>";
  auto triggering = xml("<TriggeringEntities triggeringEntitiesRule=\"" + std::string(all ? "all" : "any") + "\">" + refs + "</TriggeringEntities>");
  TriggeringEntities triggering_entities(triggering->first_child(), scope);
  if (members[group][0].empty()) sx_reach("empty selection");
  const std::string compare = std::string(" rule=\"") + rules[rule] + "\" value=\"4\"";
  double value[3] = {0, 0, 0};
  bool result = false, colliding[3] = {false, false, false};
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  if (kind == 0) {
    const int direction = sx::pick("direction", 0, 3), standard = sx::pick("standard", 0, 1);
    SpeedCondition::compatibility = standard ? Compatibility::standard : Compatibility::legacy;
    for (int i = 0; i < 3; ++i) {
      if (not added[i]) { value[i] = nan; continue; }
      auto & linear = core.entities[names[i]]->twist.linear;
      const bool norm = direction == 0 and standard;
      linear.x = norm ? 2.0 * sx::pick(sx::nm("vx", i), 0, 2) : sx::real(sx::nm("vx", i), -50, 50);
      linear.y = norm ? 3.0 : sx::real(sx::nm("vy", i), -50, 50);
      linear.z = norm ? 0.0 : sx::real(sx::nm("vz", i), -50, 50);
      value[i] = norm ? std::sqrt(linear.x * linear.x + 9) : direction < 2 ? linear.x : direction == 2 ? linear.y : linear.z;
    }
    text = direction == 1 ? " direction=\"longitudinal\"" : direction == 2 ? " direction=\"lateral\"" : direction == 3 ? " direction=\"vertical\"" : "";
    auto node = xml("<SpeedCondition" + compare + text + "/>");
    result = SpeedCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
  } else if (kind == 1) {
    for (int i = 0; i < 3; ++i) {
      value[i] = core.entities[names[i]]->accel.linear.x = sx::real(sx::nm("a", i), -50, 50);
      core.entities[names[i]]->accel.linear.y = sx::real(sx::nm("ay", i), -50, 50);
    }
    auto node = xml("<AccelerationCondition" + compare + "/>");
    result = AccelerationCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
  } else if (kind == 2) {
    sx_assume(rule == 1);
    for (int i = 0; i < 3; ++i) value[i] = core.entities[names[i]]->stand_still = sx::real(sx::nm("duration", i), -50, 50);
    auto node = xml("<StandStillCondition duration=\"4\"/>");
    result = StandStillCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
  } else if (kind == 3 or kind == 4) {
    sx_assume(rule != 5);
    const double speed = kind == 3 ? 2 : 0;
    for (int i = 0; i < 3; ++i) {
      auto & e = *core.entities[names[i]];
      e.pose.position.x = sx::real(sx::nm("x", i), -50, 50);
      e.twist.linear.x = speed;
    }
    for (int i = 0; i < 3; ++i) {
      const double behind = core.entities["B"]->pose.position.x - core.entities[names[i]]->pose.position.x;
      value[i] = behind < 0 ? nan : speed > 0 ? behind / speed : inf;
    }
    auto node = xml("<TimeHeadwayCondition entityRef=\"B\" freespace=\"false\" alongRoute=\"false\"" + compare + "/>");
    result = TimeHeadwayCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
  } else if (kind == 5) {
    const int direction = sx::pick("direction", 0, 2);
    const int heading = sx::pick("heading", 0, 1);  // the observer's: along x, or opposite
    core.entities["B"]->pose.orientation.w = heading ? 0 : 1;
    core.entities["B"]->pose.orientation.z = heading ? 1 : 0;
    for (int i = 0; i < 3; ++i)
      if (added[i]) core.entities[names[i]]->twist.linear.x = direction == 0 ? (double)sx::pick(sx::nm("v", i), -3, 3) : sx::real(sx::nm("v", i), -50, 50);
    const double v = core.entities["B"]->twist.linear.x;
    for (int i = 0; i < 3; ++i) {
      if (not added[i]) { value[i] = nan; continue; }
      const double own = core.entities[names[i]]->twist.linear.x;
      // all drive along x, but B may drive along -x; relative to B, as B sees it
      const double relative = i == 1 ? 0 : heading ? -own - v : own - v;
      value[i] = direction == 0 ? std::abs(relative) : direction == 1 ? relative : 0;
    }
    text = direction == 1 ? " direction=\"longitudinal\"" : direction == 2 ? " direction=\"lateral\"" : "";
    auto node = xml("<RelativeSpeedCondition entityRef=\"B\"" + compare + text + "/>");
    result = RelativeSpeedCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
  } else {
    const bool ab = sx::boolean("collision_ab"), bp = sx::boolean("collision_bp"), ap = sx::boolean("collision_ap");
    core.collisions[{"A", "B"}] = ab;
    core.collisions[{"B", "P"}] = bp;
    core.collisions[{"A", "P"}] = ap;
    if (kind == 6) {
      colliding[0] = ab;
      colliding[2] = bp;
      auto node = xml("<CollisionCondition><EntityRef entityRef=\"B\"/></CollisionCondition>");
      result = CollisionCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
    } else {
      colliding[0] = ab;
      colliding[1] = ab;
      colliding[2] = ap | bp;
      auto node = xml("<CollisionCondition><ByType type=\"vehicle\"/></CollisionCondition>");
      result = CollisionCondition(node->first_child(), scope, triggering_entities).evaluate().as<Boolean>();
    }
  }
  bool expected = all;
  for (auto & one : members[group]) {
    bool holds = true;  // a selection satisfies the condition if all of its members do
    for (int i : one) {
      const double v = value[i];
      const bool equal = v == 4 or std::abs(v - 4) < std::numeric_limits<double>::epsilon();
      const bool h = kind >= 6 ? colliding[i] : rule == 0 ? equal : rule == 1 ? v > 4 : rule == 2 ? v < 4 : rule == 3 ? v >= 4 : rule == 4 ? v <= 4 : not equal;
      holds = holds & h;
    }
    expected = all ? expected & holds : expected | holds;
  }
  static const char * what[] = {"speed", "acceleration", "stand_still", "time_headway", "time_headway_standing", "relative_speed", "collision_with_entity", "collision_with_type"};
  sx_assert(result == expected, what[kind]);
  sx_reach_if(result, "true");
  sx_reach_if(not result, "false");
  SimulatorCore::core.reset();
}
