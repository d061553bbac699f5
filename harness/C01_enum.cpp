/*SPEC
{
 "property": "C01",
 "src": ["openscenario/openscenario_interpreter/src/syntax/{command,condition_edge,coordinate_system,following_mode,fractional_cloud_cover,parameter_type,precipitation_type,priority,reference_context,relative_distance_type,route_strategy,routing_algorithm,rule,storyboard_element_state,storyboard_element_type,triggering_entities_rule,wetness,dynamics_dimension,dynamics_shape,misc_object_category,pedestrian_category,speed_target_value_type,vehicle_category}.cpp",
         "openscenario/openscenario_interpreter/src/object.cpp",
         "openscenario/openscenario_interpreter/src/utility/demangle.cpp",
         "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs"],
 "force_include": ["cstdint", "iomanip", "string", "openscenario_interpreter/expression.hpp", "openscenario_interpreter/pointer.hpp", "pugixml.hpp", "openscenario_interpreter/object.hpp"],
 "libs": ["-lpugixml"],
 "quick": {"time": 300},
 "bounds": "every string of 0..L+1 bytes (each byte any of 256 values), L = length of the longest literal of the type; all 23 enumerated attribute types",
 "outside": "strings longer than the longest literal by more than one byte",
 "witness": ["accepted", "rejected", "unsupported", "alias"]
}
SPEC*/
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/syntax/command.hpp>
#include <openscenario_interpreter/syntax/condition_edge.hpp>
#include <openscenario_interpreter/syntax/coordinate_system.hpp>
#include <openscenario_interpreter/syntax/dynamics_dimension.hpp>
#include <openscenario_interpreter/syntax/dynamics_shape.hpp>
#include <openscenario_interpreter/syntax/following_mode.hpp>
#include <openscenario_interpreter/syntax/fractional_cloud_cover.hpp>
#include <openscenario_interpreter/syntax/misc_object_category.hpp>
#include <openscenario_interpreter/syntax/parameter_type.hpp>
#include <openscenario_interpreter/syntax/pedestrian_category.hpp>
#include <openscenario_interpreter/syntax/precipitation_type.hpp>
#include <openscenario_interpreter/syntax/priority.hpp>
#include <openscenario_interpreter/syntax/reference_context.hpp>
#include <openscenario_interpreter/syntax/relative_distance_type.hpp>
#include <openscenario_interpreter/syntax/route_strategy.hpp>
#include <openscenario_interpreter/syntax/routing_algorithm.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/speed_target_value_type.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_state.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_type.hpp>
#include <openscenario_interpreter/syntax/triggering_entities_rule.hpp>
#include <openscenario_interpreter/syntax/vehicle_category.hpp>
#include <openscenario_interpreter/syntax/wetness.hpp>
#include <sstream>
#include <vector>

#include "sx.hpp"

using namespace openscenario_interpreter;

struct Lit
{
  const char * text;
  int value;              // -1: recognised but unsupported
  const char * printed;   // canonical spelling
};
#define OK(T, ID) Lit{#ID, static_cast<int>(T::ID), #ID}
#define AS(T, S, ID) Lit{S, static_cast<int>(T::ID), S}
#define AL(T, S, ID) Lit{S, static_cast<int>(T::ID), #ID}
#define NO(ID) Lit{#ID, -1, nullptr}

template <typename T>
void check(const std::string & type, const std::vector<Lit> & lits)
{
  int max = 0;
  for (auto & l : lits) max = std::max<int>(max, std::strlen(l.text));
  const int n = sx::pick("length", 0, max + 1);
  std::string s(n, '\0');
  for (int i = 0; i < n; ++i) s[i] = static_cast<char>(sx::byte(sx::nm("byte", i).c_str()));

  int got = -1;
  bool accepted = false;
  T value{};
  try {
    value = boost::lexical_cast<T>(s);
    accepted = true;
    got = static_cast<int>(static_cast<typename T::value_type>(value));
  } catch (const std::exception &) {
  }

  if (not accepted) {
    bool literal = false;
    for (auto & l : lits) {
      if (l.value >= 0 and std::strlen(l.text) == static_cast<size_t>(n)) {
        bool eq = true;
        for (int i = 0; i < n; ++i) eq &= (s[i] == l.text[i]);
        literal |= eq;
      }
    }
    sx_assert(not literal, (type + "_literal_rejected").c_str());
    sx_reach("rejected");
    return;
  }
  bool exact = false, right = false;
  const char * printed = nullptr;
  for (auto & l : lits) {
    if (std::strlen(l.text) == static_cast<size_t>(n)) {
      bool eq = true;
      for (int i = 0; i < n; ++i) eq &= (s[i] == l.text[i]);
      if (eq) {
        exact = l.value >= 0;
        right = l.value == got;
        printed = l.printed;
        if (exact and s != std::string(printed)) sx_reach("alias");
      }
    }
  }
  sx_assert(exact, (type + "_accepts_a_string_that_is_no_supported_literal").c_str());
  sx_assert(right, (type + "_literal_parsed_to_another_value").c_str());
  if (exact and right) {
    sx_reach("accepted");
    std::string out;
    try {
      std::stringstream ss;
      ss << value;
      out = ss.str();
    } catch (const std::exception &) {
    }
    sx_assert(out == printed, (type + "_prints_another_literal").c_str());
  }
}

// recognised-but-unsupported literals are a subset of "not supported": they have to throw.
template <typename T>
void refuse(const std::string & type, const std::vector<Lit> & lits)
{
  for (auto & l : lits) {
    if (l.value < 0) {
      bool threw = false;
      try {
        boost::lexical_cast<T>(std::string(l.text));
      } catch (const std::exception &) {
        threw = true;
      }
      sx_assert(threw, (type + "_unsupported_literal_accepted").c_str());
      sx_reach("unsupported");
    }
  }
}
template <typename T>
void both(const std::string & type, const std::vector<Lit> & lits)
{
  refuse<T>(type, lits);
  check<T>(type, lits);
}

void sx_harness()
{
  switch (sx::pick("type", 0, 22)) {
    case 0:
      return both<Command>("Command", {OK(Command, exitFailure), OK(Command, exitSuccess), OK(Command, nop), OK(Command, print)});
    case 1:
      return both<ConditionEdge>("ConditionEdge", {OK(ConditionEdge, none), OK(ConditionEdge, sticky), OK(ConditionEdge, rising), OK(ConditionEdge, falling), OK(ConditionEdge, risingOrFalling)});
    case 2:
      return both<CoordinateSystem>("CoordinateSystem", {OK(CoordinateSystem, entity), OK(CoordinateSystem, lane), NO(road), NO(trajectory)});
    case 3:
      return both<FollowingMode>("FollowingMode", {OK(FollowingMode, follow), OK(FollowingMode, position)});
    case 4:
#define F(X) OK(FractionalCloudCover, X)
      return both<FractionalCloudCover>("FractionalCloudCover", {F(zeroOktas), F(oneOktas), F(twoOktas), F(threeOktas), F(fourOktas), F(fiveOktas), F(sixOktas), F(sevenOktas), F(eightOktas), F(nineOktas)});
    case 5:
#define P(S, X) AS(ParameterType, S, X)
      return both<ParameterType>("ParameterType", {P("integer", INTEGER), P("double", DOUBLE), P("string", STRING), P("unsignedInt", UNSIGNED_INT), P("unsignedShort", UNSIGNED_SHORT), P("boolean", BOOLEAN), P("dateTime", DATE_TIME)});
    case 6:
      return both<PrecipitationType>("PrecipitationType", {OK(PrecipitationType, dry), OK(PrecipitationType, rain), OK(PrecipitationType, snow)});
    case 7:
      return both<Priority>("Priority", {OK(Priority, parallel), OK(Priority, skip), OK(Priority, override), AL(Priority, "overwrite", override)});
    case 8:
      return both<ReferenceContext>("ReferenceContext", {OK(ReferenceContext, relative), NO(absolute)});
    case 9:
#define R(X) OK(RelativeDistanceType, X)
      return both<RelativeDistanceType>("RelativeDistanceType", {R(longitudinal), R(lateral), R(euclidianDistance), AL(RelativeDistanceType, "cartesianDistance", euclidianDistance)});
    case 10:
      return both<RouteStrategy>("RouteStrategy", {OK(RouteStrategy, shortest), NO(fastest), NO(leastIntersections), NO(random)});
    case 11:
#define A(X) OK(RoutingAlgorithm, X)
      return both<RoutingAlgorithm>("RoutingAlgorithm", {AS(RoutingAlgorithm, "assignedRoute", assigned_route), A(fastest), AS(RoutingAlgorithm, "leastIntersections", least_intersections), A(shortest), A(undefined)});
    case 12:
#define U(X) OK(Rule, X)
      return both<Rule>("Rule", {U(equalTo), U(greaterThan), U(lessThan), U(greaterOrEqual), U(lessOrEqual), U(notEqualTo)});
    case 13:
#define S(X) OK(StoryboardElementState, X)
      return both<StoryboardElementState>("StoryboardElementState", {S(startTransition), S(endTransition), S(stopTransition), S(skipTransition), S(completeState), S(runningState), S(standbyState)});
    case 14:
#define T(X) OK(StoryboardElementType, X)
      return both<StoryboardElementType>("StoryboardElementType", {T(act), T(action), T(event), T(maneuver), T(maneuverGroup), T(story)});
    case 15:
      return both<TriggeringEntitiesRule>("TriggeringEntitiesRule", {OK(TriggeringEntitiesRule, all), OK(TriggeringEntitiesRule, any)});
    case 16:
#define W(X) OK(Wetness, X)
      return both<Wetness>("Wetness", {W(dry), W(moist), W(wetWithPuddles), W(lowFlooded), W(highFlooded)});
    case 17:
      return both<DynamicsDimension>("DynamicsDimension", {OK(DynamicsDimension, rate), OK(DynamicsDimension, time), OK(DynamicsDimension, distance)});
    case 18:
      return both<DynamicsShape>("DynamicsShape", {OK(DynamicsShape, cubic), OK(DynamicsShape, linear), OK(DynamicsShape, step), NO(sinusoidal)});
    case 19:
      return both<MiscObjectCategory>("MiscObjectCategory", {OK(MiscObjectCategory, obstacle), NO(barrier), NO(building), NO(crosswalk), NO(gantry), NO(none), NO(parkingSpace), NO(patch), NO(pole), NO(railing), NO(roadMark), NO(soundBarrier), NO(streetLamp), NO(trafficIsland), NO(tree), NO(vegetation), NO(wind)});
    case 20:
      return both<PedestrianCategory>("PedestrianCategory", {OK(PedestrianCategory, pedestrian), NO(wheelchair), NO(animal)});
    case 21:
      return both<SpeedTargetValueType>("SpeedTargetValueType", {OK(SpeedTargetValueType, delta), OK(SpeedTargetValueType, factor)});
    case 22:
#define V(X) OK(VehicleCategory, X)
      return both<VehicleCategory>("VehicleCategory", {V(bicycle), V(bus), V(car), V(motorbike), V(truck), V(semitrailer), V(trailer), V(train), V(tram), V(van)});
  }
}
