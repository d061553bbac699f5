/*SPEC
{
 "property": "C23",
 "src": ["simulation/simulation_interface/src/{conversions,operators,constants}.cpp", "%protos/*.pb.cc", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["ros", "msgs", "protos"],
 "libs": ["-lprotobuf"],
 "quick": {"time": 600},
 "bounds": {"quick": "every value of every numeric field (all 64-bit patterns, so also NaN and infinities), names out of 3, polylines of up to 2 vertices", "thorough": "polylines of up to 4 vertices"},
 "outside": "the wire format (generated by protoc), longer polylines, other names, gear commands outside the enumeration",
 "assumptions": ["ROS messages are plain structs generated from the .msg texts (rosidl's layout), protocol buffers are generated by protoc from the repository's .proto files"],
 "witness": ["message to protocol buffer", "protocol buffer to message", "entity type refused", "entity subtype refused", "known type", "bulb"]
}
SPEC*/
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/operators.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <sstream>
#include <traffic_simulator_msgs/msg/traffic_light_bulb_v1.hpp>

#include "sx.hpp"

using namespace simulation_interface;

namespace
{
template <typename T>
bool same(const T & a, const T & b)
{
  if constexpr (std::is_same_v<T, double>) {
    std::uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    return x == y;
  } else if constexpr (std::is_same_v<T, float>) {
    std::uint32_t x, y;
    std::memcpy(&x, &a, 4);
    std::memcpy(&y, &b, 4);
    return x == y;
  } else {
    return a == b;
  }
}

// The three uses of a list of corresponding fields: fill the message, fill the protocol buffer, compare the two
struct Filler
{
  int n = 0;
  std::string tag;
  template <typename T>
  T fresh()
  {
    const auto name = sx::nm(tag.c_str(), n++);
    if constexpr (std::is_same_v<T, double>) {
      const auto b = sx_bits(name.c_str(), 64);
      double d;
      std::memcpy(&d, &b, 8);
      return d;
    } else if constexpr (std::is_same_v<T, float>) {
      const auto b = static_cast<std::uint32_t>(sx_bits(name.c_str(), 32));
      float d;
      std::memcpy(&d, &b, 4);
      return d;
    } else if constexpr (std::is_same_v<T, bool>) {
      return sx::boolean(name.c_str());
    } else if constexpr (std::is_same_v<T, std::string>) {
      static const char * names[] = {"", "ego", "a longer name that is not stored inline"};
      return names[(n + rotation) % 3];
    } else {
      return static_cast<T>(sx_bits(name.c_str(), 8 * sizeof(T)));
    }
  }
  int rotation = 0;
};
struct FillMessage : Filler
{
  template <typename M, typename G, typename S>
  void operator()(M & m, G &&, S &&)
  {
    m = fresh<M>();
  }
};
struct FillProto : Filler
{
  template <typename M, typename G, typename S>
  void operator()(M &, G &&, S && set)
  {
    set(fresh<M>());
  }
};
struct Compare
{
  bool equal = true;
  template <typename M, typename G, typename S>
  void operator()(M & m, G && get, S &&)
  {
    const bool s = same<M>(m, get());
    equal = equal & s;
  }
};

#define F(FIELD) f(m.FIELD, [&] { return p.FIELD(); }, [&](auto v) { p.set_##FIELD(v); })
#define SUB(FIELD) fields(f, m.FIELD, *p.mutable_##FIELD())
#define LIST(MESSAGE, PROTO, ...)                              \
  template <typename V>                                        \
  void fields(V & f, MESSAGE & m, PROTO & p)                   \
  {                                                            \
    __VA_ARGS__;                                               \
  }
LIST(geometry_msgs::msg::Point, geometry_msgs::Point, F(x); F(y); F(z))
LIST(geometry_msgs::msg::Vector3, geometry_msgs::Vector3, F(x); F(y); F(z))
LIST(geometry_msgs::msg::Quaternion, geometry_msgs::Quaternion, F(x); F(y); F(z); F(w))
LIST(geometry_msgs::msg::Pose, geometry_msgs::Pose, SUB(position); SUB(orientation))
LIST(geometry_msgs::msg::Twist, geometry_msgs::Twist, SUB(linear); SUB(angular))
LIST(geometry_msgs::msg::Accel, geometry_msgs::Accel, SUB(linear); SUB(angular))
LIST(traffic_simulator_msgs::msg::BoundingBox, traffic_simulator_msgs::BoundingBox, SUB(center); SUB(dimensions))
LIST(traffic_simulator_msgs::msg::Performance, traffic_simulator_msgs::Performance, F(max_speed); F(max_acceleration); F(max_acceleration_rate); F(max_deceleration); F(max_deceleration_rate))
LIST(traffic_simulator_msgs::msg::Axle, traffic_simulator_msgs::Axle, F(max_steering); F(wheel_diameter); F(track_width); F(position_x); F(position_z))
LIST(traffic_simulator_msgs::msg::Axles, traffic_simulator_msgs::Axles, SUB(front_axle); SUB(rear_axle))
LIST(traffic_simulator_msgs::msg::VehicleParameters, traffic_simulator_msgs::VehicleParameters, F(name); SUB(performance); SUB(bounding_box); SUB(axles))
LIST(traffic_simulator_msgs::msg::PedestrianParameters, traffic_simulator_msgs::PedestrianParameters, F(name); SUB(bounding_box))
LIST(traffic_simulator_msgs::msg::MiscObjectParameters, traffic_simulator_msgs::MiscObjectParameters, F(name); SUB(bounding_box))
LIST(traffic_simulator_msgs::msg::ActionStatus, traffic_simulator_msgs::ActionStatus, F(current_action); SUB(twist); SUB(accel); F(linear_jerk))
LIST(traffic_simulator_msgs::msg::LaneletPose, traffic_simulator_msgs::LaneletPose, F(lanelet_id); F(s); F(offset); SUB(rpy))
LIST(builtin_interfaces::msg::Duration, builtin_interfaces::Duration, F(sec); F(nanosec))
LIST(builtin_interfaces::msg::Time, builtin_interfaces::Time, F(sec); F(nanosec))
LIST(rosgraph_msgs::msg::Clock, rosgraph_msgs::Clock, SUB(clock))
LIST(std_msgs::msg::Header, std_msgs::Header, SUB(stamp); F(frame_id))
LIST(autoware_control_msgs::msg::Lateral, autoware_control_msgs::Lateral, SUB(stamp); SUB(control_time); F(steering_tire_angle); F(steering_tire_rotation_rate); F(is_defined_steering_tire_rotation_rate))
LIST(autoware_control_msgs::msg::Longitudinal, autoware_control_msgs::Longitudinal, SUB(stamp); SUB(control_time); F(velocity); F(acceleration); F(jerk); F(is_defined_acceleration); F(is_defined_jerk))
LIST(autoware_control_msgs::msg::Control, autoware_control_msgs::Control, SUB(stamp); SUB(control_time); SUB(lateral); SUB(longitudinal))
LIST(traffic_simulator_msgs::msg::Vertex, traffic_simulator_msgs::Vertex, F(time); SUB(position))

// the enumerations: the meaning of each value by its name in both interfaces
using EntityType = traffic_simulator_msgs::msg::EntityType;
using EntitySubtype = traffic_simulator_msgs::msg::EntitySubtype;
using GearCommand = autoware_vehicle_msgs::msg::GearCommand;
struct Named
{
  int message, proto;
  const char * name;
};
#define T(NAME) {EntityType::NAME, traffic_simulator_msgs::EntityType_Enum_##NAME, #NAME}
const Named types[] = {T(EGO), T(VEHICLE), T(PEDESTRIAN), T(MISC_OBJECT)};
#undef T
#define T(NAME) {EntitySubtype::NAME, traffic_simulator_msgs::EntitySubtype_Enum_##NAME, #NAME}
const Named subtypes[] = {T(UNKNOWN), T(CAR), T(TRUCK), T(BUS), T(TRAILER), T(MOTORCYCLE), T(BICYCLE), T(PEDESTRIAN)};
#undef T
#define T(NAME) {GearCommand::NAME, autoware_vehicle_msgs::NAME, #NAME}
const Named gears[] = {T(NONE), T(NEUTRAL), T(DRIVE), T(DRIVE_2), T(DRIVE_3), T(DRIVE_4), T(DRIVE_5), T(DRIVE_6), T(DRIVE_7), T(DRIVE_8), T(DRIVE_9), T(DRIVE_10), T(DRIVE_11), T(DRIVE_12),
  T(DRIVE_13), T(DRIVE_14), T(DRIVE_15), T(DRIVE_16), T(DRIVE_17), T(DRIVE_18), T(REVERSE), T(REVERSE_2), T(PARK), T(LOW), T(LOW_2)};
#undef T
const Named & entity_type() { return types[sx::pick("type", 0, 3)]; }
const Named & entity_subtype() { return subtypes[sx::pick("subtype", 0, 7)]; }

template <typename V>
void status_fields(V & f, traffic_simulator_msgs::msg::EntityStatus & m, traffic_simulator_msgs::EntityStatus & p)
{
  F(time); F(name); SUB(bounding_box); SUB(action_status); SUB(pose); SUB(lanelet_pose); F(lanelet_pose_valid);
}
template <typename V>
void status_fields(V & f, traffic_simulator_msgs::msg::EntityStatus & m, simulation_api_schema::EntityStatus & p)
{
  F(time); F(name); SUB(action_status); SUB(pose);
}

template <typename M, typename P>
void both()
{
  {
    M m;
    P p;
    FillMessage fill;
    fill.tag = "m";
    fields(fill, m, p);
    // the target holds other values before
    FillProto before;
    before.tag = "b";
    before.rotation = 1;
    M unused;
    fields(before, unused, p);
    toProto(m, p);
    sx_reach("message to protocol buffer");
    Compare c;
    fields(c, m, p);
    sx_assert(c.equal, "every_field_of_the_message_is_in_the_protocol_buffer");
  }
  {
    M m, unused;
    P p, q;
    FillProto fill;
    fill.tag = "p";
    fields(fill, unused, p);
    FillMessage before;
    before.tag = "c";
    before.rotation = 1;
    fields(before, m, q);
    toMsg(p, m);
    sx_reach("protocol buffer to message");
    Compare c;
    fields(c, m, p);
    sx_assert(c.equal, "every_field_of_the_protocol_buffer_is_in_the_message");
  }
}

template <typename P>
void status(bool whole)
{
  const auto & type = entity_type();
  const auto & subtype = entity_subtype();
  {
    traffic_simulator_msgs::msg::EntityStatus m;
    P p;
    FillMessage fill;
    fill.tag = "m";
    status_fields(fill, m, p);
    m.type.type = type.message;
    m.subtype.value = subtype.message;
    toProto(m, p);
    Compare c;
    status_fields(c, m, p);
    sx_assert(c.equal, "every_field_of_a_status_is_in_the_protocol_buffer");
    sx_assert(p.type().type() == type.proto and p.subtype().value() == subtype.proto, "a_status_keeps_its_types");
  }
  {
    traffic_simulator_msgs::msg::EntityStatus m, unused;
    P p;
    FillProto fill;
    fill.tag = "p";
    status_fields(fill, unused, p);
    p.mutable_type()->set_type(static_cast<traffic_simulator_msgs::EntityType_Enum>(type.proto));
    p.mutable_subtype()->set_value(static_cast<traffic_simulator_msgs::EntitySubtype_Enum>(subtype.proto));
    FillMessage before;
    before.tag = "c";
    before.rotation = 1;
    traffic_simulator_msgs::EntityStatus q;
    status_fields(before, m, q);
    toMsg(p, m);
    Compare c;
    status_fields(c, m, p);
    sx_assert(c.equal, "every_field_of_a_status_is_in_the_message");
    sx_assert(m.type.type == type.message and m.subtype.value == subtype.message, "a_status_keeps_its_types");
    if (not whole) {
      traffic_simulator_msgs::msg::EntityStatus empty;
      traffic_simulator_msgs::EntityStatus e;
      Compare d;
      fields(d, m.bounding_box, *e.mutable_bounding_box());
      fields(d, m.lanelet_pose, *e.mutable_lanelet_pose());
      sx_assert(d.equal and not m.lanelet_pose_valid, "what_the_protocol_does_not_carry_is_reset");
    }
  }
}
}  // namespace

void sx_harness()
{
  switch (sx::pick("what", 0, 30)) {
    case 0: return both<geometry_msgs::msg::Point, geometry_msgs::Point>();
    case 1: return both<geometry_msgs::msg::Vector3, geometry_msgs::Vector3>();
    case 2: return both<geometry_msgs::msg::Quaternion, geometry_msgs::Quaternion>();
    case 3: return both<geometry_msgs::msg::Pose, geometry_msgs::Pose>();
    case 4: return both<geometry_msgs::msg::Twist, geometry_msgs::Twist>();
    case 5: return both<geometry_msgs::msg::Accel, geometry_msgs::Accel>();
    case 6: return both<traffic_simulator_msgs::msg::BoundingBox, traffic_simulator_msgs::BoundingBox>();
    case 7: return both<traffic_simulator_msgs::msg::Performance, traffic_simulator_msgs::Performance>();
    case 8: return both<traffic_simulator_msgs::msg::Axle, traffic_simulator_msgs::Axle>();
    case 9: return both<traffic_simulator_msgs::msg::Axles, traffic_simulator_msgs::Axles>();
    case 10: return both<traffic_simulator_msgs::msg::VehicleParameters, traffic_simulator_msgs::VehicleParameters>();
    case 11: return both<traffic_simulator_msgs::msg::PedestrianParameters, traffic_simulator_msgs::PedestrianParameters>();
    case 12: return both<traffic_simulator_msgs::msg::MiscObjectParameters, traffic_simulator_msgs::MiscObjectParameters>();
    case 13: return both<traffic_simulator_msgs::msg::ActionStatus, traffic_simulator_msgs::ActionStatus>();
    case 14: return both<traffic_simulator_msgs::msg::LaneletPose, traffic_simulator_msgs::LaneletPose>();
    case 15: return both<builtin_interfaces::msg::Duration, builtin_interfaces::Duration>();
    case 16: return both<builtin_interfaces::msg::Time, builtin_interfaces::Time>();
    case 17: return both<rosgraph_msgs::msg::Clock, rosgraph_msgs::Clock>();
    case 18: return both<std_msgs::msg::Header, std_msgs::Header>();
    case 19: return both<autoware_control_msgs::msg::Lateral, autoware_control_msgs::Lateral>();
    case 20: return both<autoware_control_msgs::msg::Longitudinal, autoware_control_msgs::Longitudinal>();
    case 21: return both<autoware_control_msgs::msg::Control, autoware_control_msgs::Control>();
    case 22: return status<traffic_simulator_msgs::EntityStatus>(true);
    case 23: return status<simulation_api_schema::EntityStatus>(false);
    case 24: {  // entity types, also unknown ones
      EntityType m;
      traffic_simulator_msgs::EntityType p;
      m.type = sx_bits("type", 8);
      int i = -1;
      for (int k = 0; k < 4; ++k)
        if (m.type == types[k].message) i = k;
      bool failed = false, unprintable = false;
      std::ostringstream os, os2;
      try {
        toProto(m, p);
      } catch (const common::SimulationError &) {
        failed = true;
      }
      try {
        traffic_simulator_msgs::operator<<(os, m);
      } catch (const common::Error &) {
        unprintable = true;
      }
      sx_reach(i < 0 ? "entity type refused" : "known type");
      sx_assert(failed == (i < 0), "exactly_the_unknown_entity_types_are_refused");
      sx_assert(unprintable == (i < 0), "exactly_the_unknown_entity_types_cannot_be_printed");
      if (i < 0) return;
      sx_assert(p.type() == types[i].proto, "an_entity_type_is_converted_by_its_name");
      sx_assert(os.str() == types[i].name, "an_entity_type_is_printed_by_its_name");
      EntityType back;
      toMsg(p, back);
      sx_assert(back.type == m.type, "an_entity_type_comes_back");
      traffic_simulator_msgs::operator<<(os2, p);
      sx_assert(os2.str() == types[i].name, "an_entity_type_is_printed_by_its_name");
      return;
    }
    case 25: {
      EntitySubtype m;
      traffic_simulator_msgs::EntitySubtype p;
      m.value = sx_bits("subtype", 8);
      int i = -1;
      for (int k = 0; k < 8; ++k)
        if (m.value == subtypes[k].message) i = k;
      bool failed = false, unprintable = false;
      std::ostringstream os, os2;
      try {
        toProto(m, p);
      } catch (const common::SimulationError &) {
        failed = true;
      }
      try {
        traffic_simulator_msgs::operator<<(os, m);
      } catch (const common::Error &) {
        unprintable = true;
      }
      sx_reach(i < 0 ? "entity subtype refused" : "known type");
      sx_assert(failed == (i < 0), "exactly_the_unknown_entity_subtypes_are_refused");
      sx_assert(unprintable == (i < 0), "exactly_the_unknown_entity_subtypes_cannot_be_printed");
      if (i < 0) return;
      sx_assert(p.value() == subtypes[i].proto, "an_entity_subtype_is_converted_by_its_name");
      sx_assert(os.str() == subtypes[i].name, "an_entity_subtype_is_printed_by_its_name");
      EntitySubtype back;
      toMsg(p, back);
      sx_assert(back.value == m.value, "an_entity_subtype_comes_back");
      traffic_simulator_msgs::operator<<(os2, p);
      sx_assert(os2.str() == subtypes[i].name, "an_entity_subtype_is_printed_by_its_name");
      return;
    }
    case 26: {  // gears and vehicle commands
      const auto & gear = gears[sx::pick("gear", 0, 24)];
      std::tuple<autoware_control_msgs::msg::Control, GearCommand> m;
      traffic_simulator_msgs::VehicleCommand p;
      FillMessage fill;
      fill.tag = "m";
      fields(fill, std::get<0>(m), *p.mutable_control());
      fields(fill, std::get<1>(m).stamp, *p.mutable_gear_command()->mutable_stamp());
      std::get<1>(m).command = gear.message;
      toProto(m, p);
      Compare c;
      fields(c, std::get<0>(m), *p.mutable_control());
      fields(c, std::get<1>(m).stamp, *p.mutable_gear_command()->mutable_stamp());
      sx_assert(c.equal, "every_field_of_a_vehicle_command_is_in_the_protocol_buffer");
      sx_assert(p.gear_command().command() == gear.proto, "a_gear_is_converted_by_its_name");
      GearCommand back;
      toMsg(p.gear_command(), back);
      sx_assert(back.command == gear.message, "a_gear_comes_back");
      Compare d;
      fields(d, back.stamp, *p.mutable_gear_command()->mutable_stamp());
      sx_assert(d.equal, "the_stamp_of_a_gear_comes_back");
      return;
    }
    case 27: {  // polylines
      traffic_simulator_msgs::msg::PolylineTrajectory m;
      const int n = sx::pick("vertices", 0, sx_tier() ? 4 : 2);
      m.shape.vertices.resize(n);
      FillMessage fill;
      fill.tag = "m";
      traffic_simulator_msgs::Vertex unused;
      for (auto & v : m.shape.vertices) fields(fill, v, unused);
      m.initial_distance_offset = fill.fresh<double>();
      m.dynamic_constraints_ignorable = fill.fresh<bool>();
      m.base_time = fill.fresh<double>();
      m.closed = fill.fresh<bool>();
      auto p = toProtobufMessage(m);
      Compare c;
      const auto sizes = p.shape().vertices_size() == n;
      sx_assert(sizes, "a_trajectory_keeps_its_vertices");
      if (not sizes) return;
      for (int i = 0; i < n; ++i) fields(c, m.shape.vertices[i], *p.mutable_shape()->mutable_vertices(i));
      sx_assert(c.equal, "every_vertex_is_in_the_protocol_buffer_in_order");
      sx_assert(same(m.initial_distance_offset, p.initial_distance_offset()) and same(m.base_time, p.base_time()) and m.closed == p.closed() and m.dynamic_constraints_ignorable == p.dynamic_constraints_ignorable(), "every_field_of_a_trajectory_is_in_the_protocol_buffer");
      auto back = toROS2Message(p);
      sx_assert(static_cast<int>(back.shape.vertices.size()) == n, "a_trajectory_keeps_its_vertices");
      Compare d;
      for (int i = 0; i < n; ++i) fields(d, back.shape.vertices[i], *p.mutable_shape()->mutable_vertices(i));
      sx_assert(d.equal, "every_vertex_comes_back_in_order");
      sx_assert(same(m.initial_distance_offset, back.initial_distance_offset) and same(m.base_time, back.base_time) and m.closed == back.closed and m.dynamic_constraints_ignorable == back.dynamic_constraints_ignorable, "every_field_of_a_trajectory_comes_back");
      return;
    }
    case 28: {  // traffic light bulbs
      using B = traffic_simulator_msgs::msg::TrafficLightBulbV1;
      namespace S = simulation_api_schema;
      simulation_api_schema::TrafficLight p;
      const int color = sx::pick("color", 0, 5), shape = sx::pick("shape", 0, 11), state = sx::pick("status", 0, 4);
      p.set_color(static_cast<S::TrafficLight_Color>(color));
      p.set_shape(static_cast<S::TrafficLight_Shape>(shape));
      p.set_status(static_cast<S::TrafficLight_Status>(state));
      Filler fill;
      fill.tag = "confidence";
      const auto confidence = fill.fresh<float>();
      p.set_confidence(confidence);
      B b;
      b.color = b.shape = b.status = 99;
      toMsg(p, b);
      sx_reach("bulb");
      const int colors[] = {B::RED, B::AMBER, B::GREEN, B::WHITE, B::UNKNOWN, B::UNKNOWN};
      // up-left and up-right arrows are not supported
      const int shapes[] = {B::CIRCLE, B::LEFT_ARROW, B::RIGHT_ARROW, B::UP_ARROW, B::UNKNOWN, B::UNKNOWN, B::DOWN_ARROW, B::DOWN_LEFT_ARROW, B::DOWN_RIGHT_ARROW, B::CROSS, B::UNKNOWN, B::UNKNOWN};
      const int states[] = {B::SOLID_OFF, B::SOLID_ON, B::FLASHING, B::UNKNOWN, B::UNKNOWN};
      sx_assert(b.color == colors[color], "the_color_of_a_bulb_is_kept");
      sx_assert(b.shape == shapes[shape], "the_shape_of_a_bulb_is_kept");
      sx_assert(b.status == states[state], "the_status_of_a_bulb_is_kept");
      sx_assert(same(b.confidence, confidence), "the_confidence_of_a_bulb_is_kept");
      return;
    }
    case 29: {  // values outside the enumerations in a protocol buffer
      traffic_simulator_msgs::EntityType p;
      p.set_type(static_cast<traffic_simulator_msgs::EntityType_Enum>(sx::range("type", 4, 1000)));
      EntityType m;
      m.type = 1;
      bool failed = false;
      try {
        toMsg(p, m);
      } catch (const common::SimulationError &) {
        failed = true;
      }
      sx_assert(failed, "an_unknown_entity_type_is_refused");
      traffic_simulator_msgs::EntitySubtype q;
      q.set_value(static_cast<traffic_simulator_msgs::EntitySubtype_Enum>(sx::range("subtype", 8, 1000)));
      EntitySubtype n;
      failed = false;
      try {
        toMsg(q, n);
      } catch (const common::SimulationError &) {
        failed = true;
      }
      sx_assert(failed, "an_unknown_entity_subtype_is_refused");
      return;
    }
    default: {  // endpoints
      const bool any = sx::pick("host", 0, 1);
      static const unsigned ports[] = {0, 1, 5555, 65535, 4294967295u};
      const auto port = ports[sx::pick("port", 0, 4)];
      const std::string text = std::to_string(port);
      sx_assert(getEndPoint(TransportProtocol::TCP, any ? HostName::ANY : HostName::LOCALHOST, port) == std::string("tcp://") + (any ? "*" : "localhost") + ":" + text, "an_endpoint_names_protocol_host_and_port");
      static const char * hosts[] = {"localhost", "192.168.0.1", "simulator"};
      const std::string host = hosts[sx::pick("name", 0, 2)];
      sx_assert(getEndPoint(TransportProtocol::TCP, host, port) == "tcp://" + host + ":" + text, "an_endpoint_names_protocol_host_and_port");
      return;
    }
  }
}
