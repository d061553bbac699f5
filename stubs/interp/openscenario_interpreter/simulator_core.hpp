// Stand-in for the connection to the simulator: the harness says what time it is.
#pragma once
#include <cmath>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/entity.hpp>
#include <openscenario_interpreter/syntax/string.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <valarray>
namespace lanelet
{
using Id = std::int64_t;
}
namespace openscenario_interpreter
{
namespace probe
{
inline double time = 0;
// the traffic lights: what is shown by each kind of them
struct Lights
{
  std::map<lanelet::Id, std::vector<std::string>> conventional, conventional_detected, v2i, v2i_detected;
  std::vector<std::tuple<lanelet::Id, std::string, double>> predictions;
  std::set<lanelet::Id> v2i_enabled;
};
inline Lights lights;
}
struct SimulatorCore
{
  class CoordinateSystemConversion {};
  class ActionApplication {};
  class ConditionEvaluation
  {
  protected:
    static auto evaluateSimulationTime() -> double { return probe::time; }
  };
  class NonStandardOperation
  {
  protected:
    static void clearConventionalTrafficLightsState(lanelet::Id i) { probe::lights.conventional.erase(i); }
    static void clearConventionalDetectedTrafficLightsState(lanelet::Id i) { probe::lights.conventional_detected.erase(i); }
    static void clearV2ITrafficLightsState(lanelet::Id i) { probe::lights.v2i.erase(i); }
    static void clearV2IDetectedTrafficLightsState(lanelet::Id i) { probe::lights.v2i_detected.erase(i); }
    static void addConventionalTrafficLightsState(lanelet::Id i, const std::string & s) { probe::lights.conventional[i].push_back(s); }
    static void addConventionalDetectedTrafficLightsState(lanelet::Id i, const std::string & s) { probe::lights.conventional_detected[i].push_back(s); }
    static void addV2ITrafficLightsState(lanelet::Id i, const std::string & s) { probe::lights.v2i[i].push_back(s); }
    static void addV2IDetectedTrafficLightsState(lanelet::Id i, const std::string & s) { probe::lights.v2i_detected[i].push_back(s); }
    static void setConventionalTrafficLightsState(lanelet::Id i, const std::string & s) { probe::lights.conventional[i] = {s}; }
    static void addV2ITrafficLightsStatePrediction(lanelet::Id i, const std::string & s, double after) { probe::lights.predictions.emplace_back(i, s, after); }
    static void clearV2ITrafficLightsStatePredictions() { probe::lights.predictions.clear(); }
    static bool isV2ITrafficLightEnabled(lanelet::Id i) { return probe::lights.v2i_enabled.count(i); }
  };
};
}  // namespace openscenario_interpreter
