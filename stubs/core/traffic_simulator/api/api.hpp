// Stand-in for the traffic simulator the interpreter talks to: entities have the state the harness gives them.
#pragma once
#include <boost/math/constants/constants.hpp>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>
#include <traffic_simulator_msgs/msg/behavior_parameter.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
#include <traffic_simulator_msgs/msg/lanelet_pose.hpp>
#include <traffic_simulator_msgs/msg/polyline_trajectory.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <get_parameter/get_parameter.hpp>
namespace lanelet
{
using Id = std::int64_t;
}
namespace traffic_simulator
{
using LaneletPose = traffic_simulator_msgs::msg::LaneletPose;
struct CanonicalizedLaneletPose
{
  LaneletPose pose;
  explicit CanonicalizedLaneletPose(const LaneletPose & p) : pose(p) {}
  explicit operator LaneletPose() const { return pose; }
};
struct Configuration {};
struct Lights
{
#define SX_ANY(NAME) template <typename... Ts> auto NAME(Ts &&...) {}
  SX_ANY(setTrafficLightsState) SX_ANY(clearTrafficLightsState) SX_ANY(addTrafficLightsState) SX_ANY(clearState) SX_ANY(addState)
  SX_ANY(setTrafficLightsConfidence) SX_ANY(getTrafficLightsComposedState) SX_ANY(compareTrafficLightsState) SX_ANY(resetUpdate)
  SX_ANY(addTrafficLightsStatePrediction) SX_ANY(clearTrafficLightsStatePredictions)
};
struct Entity
{
  geometry_msgs::msg::Accel accel;
  geometry_msgs::msg::Twist twist;
  geometry_msgs::msg::Pose pose;
  traffic_simulator_msgs::msg::BoundingBox box;
  std::optional<CanonicalizedLaneletPose> lanelet_pose;
  double stand_still = 0, velocity_limit = 0;
  std::optional<double> lateral_collision_threshold;
  traffic_simulator_msgs::msg::BehaviorParameter behavior;
  std::vector<std::pair<std::string, std::string>> calls;
  auto getCurrentAccel() const -> const geometry_msgs::msg::Accel & { return accel; }
  auto getCurrentTwist() const -> const geometry_msgs::msg::Twist & { return twist; }
  auto getMapPose() const -> const geometry_msgs::msg::Pose & { return pose; }
  auto getBoundingBox() const -> const traffic_simulator_msgs::msg::BoundingBox & { return box; }
  auto getCanonicalizedLaneletPose() const { return lanelet_pose; }
  auto getStandStillDuration() const { return stand_still; }
  auto setBehaviorParameter(const traffic_simulator_msgs::msg::BehaviorParameter & b) { behavior = b; }
  auto getBehaviorParameter() const { return behavior; }
  auto setVelocityLimit(double v) { velocity_limit = v; }
  auto setLateralCollisionThreshold(std::optional<double> v) { lateral_collision_threshold = v; }
  auto getCurrentAction() const -> std::string { return "stop"; }
  SX_ANY(activateOutOfRangeJob) SX_ANY(requestAcquirePosition) SX_ANY(requestAssignRoute) SX_ANY(requestFollowTrajectory) SX_ANY(requestLaneChange)
  SX_ANY(requestSpeedChange) SX_ANY(setStatus) SX_ANY(requestWalkStraight)
};
struct EgoEntity : public Entity
{
  void engage() {}
  bool isEngageable() const { return true; }
  bool isEngaged() const { return true; }
  std::string getMinimumRiskManeuverBehaviorName() const { return ""; }
  std::string getMinimumRiskManeuverStateName() const { return ""; }
  std::string getEmergencyStateName() const { return ""; }
  std::string getTurnIndicatorsCommandName() const { return ""; }
  SX_ANY(sendCooperateCommand)
  std::map<std::string, bool> parameters;
  std::vector<std::pair<std::string, bool>> modes;
  template <typename T> void setParameter(const std::string & n, const T & v) { parameters[n] = v; }
  void requestAutoModeForCooperation(const std::string & m, bool b) { modes.emplace_back(m, b); }
};
struct API
{
  template <typename... Ts> explicit API(Ts &&...) {}
  std::map<std::string, std::shared_ptr<EgoEntity>> entities;
  std::map<std::pair<std::string, std::string>, bool> collisions;
  double time = 0;
  Lights lights[4];
  auto getEntity(const std::string & n) const -> Entity &
  {
    if (auto i = entities.find(n); i != entities.end()) return *i->second;
    throw common::Error("no entity");
  }
  auto getEgoEntity(const std::string & n) const -> EgoEntity &
  {
    if (auto i = entities.find(n); i != entities.end()) return *i->second;
    throw common::Error("no entity");
  }
  auto getEntityPointer(const std::string & n) const -> std::shared_ptr<Entity>
  {
    auto i = entities.find(n);
    return i == entities.end() ? nullptr : i->second;
  }
  auto getFirstEgoName() const -> std::optional<std::string> { return std::nullopt; }
  bool checkCollision(const std::string & a, const std::string & b) const
  {
    const auto i = collisions.find({std::min(a, b), std::max(a, b)});
    return a != b and i != collisions.end() and i->second;
  }
  double getCurrentTime() const { return time; }
  void despawnEntities() {}
  void closeZMQConnection() {}
  bool updateFrame() { return true; }
  void startNpcLogic() {}
  void setTrafficSignalV2IFeature(lanelet::Id, bool) {}
  bool isV2ITrafficLightEnabled(lanelet::Id) const { return true; }
  Lights * getConventionalTrafficLights() { return lights; }
  Lights * getConventionalDetectedTrafficLights() { return lights + 1; }
  Lights * getV2ITrafficLights() { return lights + 2; }
  Lights * getV2IDetectedTrafficLights() { return lights + 3; }
  SX_ANY(spawn) SX_ANY(despawn) SX_ANY(attachImuSensor) SX_ANY(attachLidarSensor) SX_ANY(attachDetectionSensor) SX_ANY(attachOccupancyGridSensor) SX_ANY(attachPseudoTrafficLightDetector)
};
}  // namespace traffic_simulator
namespace simulation_api_schema
{
#define SX_SET(NAME) template <typename T> void set_##NAME(const T &) {}
struct SensorConfiguration
{
  SX_SET(entity) SX_SET(frame_id) SX_SET(add_gravity) SX_SET(use_seed) SX_SET(seed) SX_SET(noise_standard_deviation_orientation) SX_SET(noise_standard_deviation_twist)
  SX_SET(noise_standard_deviation_acceleration) SX_SET(architecture_type) SX_SET(horizontal_resolution) SX_SET(lidar_sensor_delay) SX_SET(scan_duration)
  SX_SET(detect_all_objects_in_range) SX_SET(object_recognition_delay) SX_SET(pos_noise_stddev) SX_SET(probability_of_lost) SX_SET(random_seed) SX_SET(range)
  SX_SET(object_recognition_ground_truth_delay) SX_SET(update_duration) SX_SET(filter_by_range) SX_SET(height) SX_SET(resolution) SX_SET(width)
  template <typename T> void add_vertical_angles(const T &) {}
};
using ImuSensorConfiguration = SensorConfiguration;
using LidarConfiguration = SensorConfiguration;
using DetectionSensorConfiguration = SensorConfiguration;
using OccupancyGridSensorConfiguration = SensorConfiguration;
using PseudoTrafficLightDetectorConfiguration = SensorConfiguration;
}  // namespace simulation_api_schema
