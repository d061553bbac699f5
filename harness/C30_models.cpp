/*SPEC
{
 "property": "C30",
 "src": ["simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/{sim_model_interface,sim_model_delay_steer_acc,sim_model_delay_steer_acc_geared,sim_model_delay_steer_acc_geared_wo_fall_guard,sim_model_delay_steer_vel,sim_model_ideal_steer_acc,sim_model_ideal_steer_acc_geared,sim_model_ideal_steer_vel}.cpp"],
 "stubs": ["ros", "msgs"],
 "inc": ["simulation/simple_sensor_simulator/include", "/usr/include/eigen3"],
 "defs": ["EIGEN_DONT_VECTORIZE"],
 "force_include": ["cmath", "cstdint", "vector", "functional", "deque", "iostream"],
 "real": true, "float_samples": true,
 "quick": {"time": 600},
 "bounds": {"quick": "one step of 1/32 s of each of the 7 models without acceleration map, from any state within the limits with any command in [-100, 100], for 3 sets of limits and time constants, with and without dead band, every gear; constant motion at any speed in [-2, 2] with 5 angles of steering and 5 directions; sequences of 4 commands with delays of 0 to 3 steps", "thorough": "same"},
 "outside": "rounding; other parameters; the model with an acceleration map; pose after a step with changing speed on a curve",
 "assumptions": ["arithmetic on real numbers"],
 "witness": ["stopped", "limited", "reverse", "dead band", "straight", "delayed", "rolls", "held", "circle"]
}
SPEC*/
#include <simple_sensor_simulator/vehicle_simulation/vehicle_model/sim_model.hpp>

#include "sx.hpp"

namespace
{
using WoFallGuard = autoware::simulator::simple_planning_simulator::SimModelDelaySteerAccGearedWoFallGuard;
enum Kind { ACC, GEARED, FREE, VEL, IDEAL_ACC, IDEAL_GEARED, IDEAL_VEL };
constexpr double dt = 1.0 / 32, eps = 1e-7;

struct Limits
{
  double speed, steer, rate, steer_rate, acc_constant, steer_constant;
};
const Limits all[] = {{10, 0.5, 3, 1, 0.125, 0.25}, {50, 1, 7, 5, 0.03125, 0.25}, {2, 0.25, 1, 0.5, 0.5, 0.0625}};
Limits l;

std::unique_ptr<SimModelInterface> make(int kind, int delay, double dead_band)
{
  const double d = delay * dt;
  switch (kind) {
    case ACC: return std::make_unique<SimModelDelaySteerAcc>(l.speed, l.steer, l.rate, l.steer_rate, 2.5, dt, d, l.acc_constant, d, l.steer_constant, dead_band, 1.0, 1.0);
    case GEARED: return std::make_unique<SimModelDelaySteerAccGeared>(l.speed, l.steer, l.rate, l.steer_rate, 2.5, dt, d, l.acc_constant, d, l.steer_constant, dead_band, 1.0, 1.0);
    case FREE: return std::make_unique<WoFallGuard>(l.speed, l.steer, l.rate, l.steer_rate, 2.5, dt, d, l.acc_constant, d, l.steer_constant, dead_band, 0.0, 1.0, 1.0);
    case VEL: return std::make_unique<SimModelDelaySteerVel>(l.speed, l.steer, l.rate, l.steer_rate, 2.5, dt, d, l.acc_constant, d, l.steer_constant, dead_band);
    case IDEAL_ACC: return std::make_unique<SimModelIdealSteerAcc>(2.5);
    case IDEAL_GEARED: return std::make_unique<SimModelIdealSteerAccGeared>(2.5);
    default: return std::make_unique<SimModelIdealSteerVel>(2.5);
  }
}
double clamp(double x, double limit) { return x < -limit ? -limit : x > limit ? limit : x; }
bool within(double a, double x, double b) { return a - eps <= x and x <= b + eps; }
bool drives(int gear) { return (2 <= gear and gear <= 19) or gear == 23 or gear == 24; }
bool reverses(int gear) { return gear == 20 or gear == 21; }
}  // namespace

void sx_harness()
{
  const int kind = sx::pick("kind", 0, 6), dim = kind == FREE ? 7 : kind == VEL ? 5 : kind < VEL ? 6 : kind == IDEAL_VEL ? 3 : 4;
  const bool ideal = kind >= IDEAL_ACC, geared = kind == GEARED or kind == IDEAL_GEARED;
  l = all[sx::pick("limits", 0, ideal ? 0 : 2)];
  const int steps = kind == FREE ? 3 : 1;  // of the steering command among the inputs
  auto input = [&](SimModelInterface & m, double u, double steer, int gear, double slope) {
    Eigen::VectorXd v(kind == FREE ? 4 : 2);
    v(0) = u;
    v(steps) = steer;
    if (kind == FREE) v(1) = gear, v(2) = slope;
    m.setInput(v);
    m.setGear(gear);
  };
  if (not ideal and sx::pick("sequence", 0, 1)) {  // a delayed command takes effect after the delay, and then as if it were given then
    const int delay = sx::pick("delay", 0, 3);
    auto delayed = make(kind, delay, 0), direct = make(kind, 0, 0);
    // commands in the linear range
    for (int i = 0; i < 4; ++i) {
      const double unit = 1.0 / 16;
      auto u = [&](int k) { return k < 0 ? 0 : (k * 5 % 4 + 1) * unit; };
      auto s = [&](int k) { return k < 0 ? 0 : (k * 3 % 4 + 1) * unit / 4; };
      input(*delayed, u(i), s(i), 2, 0);
      input(*direct, u(i - delay), s(i - delay), 2, 0);
      delayed->update(dt);
      direct->update(dt);
      sx_assert(delayed->getVx() == direct->getVx() and delayed->getSteer() == direct->getSteer() and delayed->getAx() == direct->getAx() and delayed->getX() == direct->getX() and delayed->getY() == direct->getY() and delayed->getYaw() == direct->getYaw(), "commands_take_effect_after_their_delay");
      if (i < delay) sx_assert(delayed->getVx() == 0 and delayed->getSteer() == 0, "commands_take_effect_after_their_delay");
      if (i == delay) sx_assert(delayed->getSteer() > 0, "commands_take_effect_after_their_delay");
    }
    sx_reach_if(delay, "delayed");
    return;
  }
  if (sx::pick("circle", 0, 1)) {  // at constant speed and steering
    auto m = make(kind, 0, 0);
    const double steer = sx::pick("steering", -2, 2) / 16.0, yaw = sx::pick("turned", -2, 2) * 0.75, x = sx::real("x", -100, 100), y = sx::real("y", -100, 100), rate = std::tan(steer) / 2.5;
    const bool steady = sx::pick("steady", 0, 1);
    const double vx = steady ? sx::pick("speed", -2, 2) * 0.75 : sx::real("vx", -2, 2);
    Eigen::VectorXd state(dim);
    for (int i = 0; i < dim; ++i) state(i) = 0;
    state(0) = x, state(1) = y, state(2) = yaw;
    if (dim > 3) state(3) = vx;
    if (dim > 4) state(4) = steer;
    m->setState(state);
    input(*m, kind == VEL or kind == IDEAL_VEL ? vx : 0, steer, kind == GEARED or kind == IDEAL_GEARED ? (vx < 0 ? 20 : 2) : 2, 0);
    m->update(dt);
    sx_assert(within(vx, m->getVx(), vx) and m->getSteer() == steer and m->getVy() == 0, "speed_and_steering_are_kept");
    sx_assert(within(vx * rate, m->getWz(), vx * rate), "the_yaw_rate_is_that_of_the_steering");
    sx_assert(within(yaw + vx * rate * dt, m->getYaw(), yaw + vx * rate * dt), "the_vehicle_turns_with_its_steering");
    if (steady) {
      const double middle = yaw + (kind == FREE ? 0 : vx * rate * dt / 2);
      const double tolerance = 1e-5;
      const double ex = x + vx * std::cos(middle) * dt - m->getX(), ey = y + vx * std::sin(middle) * dt - m->getY();
      sx_assert(-tolerance < ex and ex < tolerance and -tolerance < ey and ey < tolerance, "the_vehicle_moves_as_it_points");
      sx_reach_if(rate != 0, "circle");
    }
    return;
  }
  const double dead_band = ideal or not sx::pick("dead band", 0, 1) ? 0 : 1.0 / 64;
  auto m = make(kind, 0, dead_band);
  const bool straight = sx::pick("straight", 0, 1);
  const double x = sx::real("x", -100, 100), y = sx::real("y", -100, 100), vx = sx::real("vx", -l.speed, l.speed);
  const double yaw = straight ? 0 : sx::real("yaw", -3, 3), steer = straight ? 0 : sx::real("steer", -l.steer, l.steer), acc = sx::real("acc", -l.rate, l.rate), pedal = sx::real("pedal", -l.rate, l.rate);
  const double u = sx::real("u", -100, 100), su = straight ? 0 : sx::real("su", -100, 100), slope = kind == FREE ? sx::real("slope", -5, 5) : 0;
  const int gear = geared or kind == FREE ? (int)sx::pick("gear", 0, 25) : 2;
  Eigen::VectorXd state(dim);
  state(0) = x, state(1) = y, state(2) = yaw;
  if (dim > 3) state(3) = vx;
  if (dim > 4) state(4) = steer;
  if (dim > 5) state(5) = acc;
  if (dim > 6) state(6) = pedal;
  m->setState(state);
  input(*m, u, su, gear, slope);
  sx_assert(m->getX() == x and m->getY() == y and m->getYaw() == yaw and m->getVy() == 0 and m->getVx() == (kind == IDEAL_VEL ? u : vx), "the_state_is_the_one_set");
  if (not ideal) sx_assert(m->getSteer() == steer, "the_state_is_the_one_set");
  m->update(dt);
  const double v = m->getVx(), s = m->getSteer(), a = m->getAx();
  if (not ideal) {
    sx_assert(within(-l.speed, v, l.speed), "the_speed_stays_within_its_limit");
    sx_assert(within(-l.steer, s, l.steer), "the_steering_stays_within_its_limit");
    sx_assert(within(-l.steer_rate * dt, s - steer, l.steer_rate * dt), "the_steering_turns_within_its_rate");
    const double target = clamp(su, l.steer), difference = target - steer;
    if (difference > dead_band) sx_assert(within(steer, s, target - dead_band), "the_steering_turns_to_the_command");
    else if (difference < -dead_band) sx_assert(within(target + dead_band, s, steer), "the_steering_turns_to_the_command");
    else sx_assert(within(steer, s, steer), "the_steering_turns_to_the_command");
    sx_reach_if(dead_band > 0 and s == steer and su != steer, "dead band");
    sx_reach_if(v == l.speed, "limited");
  }
  bool stopped = false;
  if (geared) {
    if (drives(gear)) sx_assert(v >= 0, "the_vehicle_moves_as_its_gear_allows");
    else if (reverses(gear)) sx_assert(v <= 0, "the_vehicle_moves_as_its_gear_allows");
    else sx_assert(v == 0, "the_vehicle_moves_as_its_gear_allows");
    // what would it do without gear?
    auto free = make(kind == GEARED ? ACC : IDEAL_ACC, 0, dead_band);
    free->setState(state);
    input(*free, u, su, gear, slope);
    free->update(dt);
    const double w = free->getVx();
    stopped = drives(gear) ? w < 0 : reverses(gear) ? w > 0 : true;
    if (stopped) {
      sx_assert(v == 0 and m->getX() == x and m->getY() == y and m->getYaw() == yaw, "what_the_gear_does_not_allow_stops_the_vehicle");
      sx_assert(within(-vx / dt, a, -vx / dt), "the_acceleration_is_that_of_the_stop");
      sx_reach("stopped");
    } else {
      sx_assert(v == w and m->getX() == free->getX() and m->getY() == free->getY() and m->getYaw() == free->getYaw(), "what_the_gear_allows_is_done");
      if (kind == IDEAL_GEARED) sx_assert(within((v - vx) / dt, a, (v - vx) / dt), "the_acceleration_is_that_of_the_speed");
      else sx_assert(a == free->getAx(), "what_the_gear_allows_is_done");
    }
    sx_reach_if(v < 0, "reverse");
  } else if (kind == ACC) {
    const double target = clamp(u, l.rate);
    sx_assert(target < acc ? within(target, a, acc) : within(acc, a, target), "the_acceleration_follows_the_command");
    sx_assert(within(-l.rate * dt, v - vx, l.rate * dt), "the_speed_changes_within_its_rate");
    const double low = vx + (target < acc ? target : acc) * dt, high = vx + (target < acc ? acc : target) * dt;
    sx_assert(within(clamp(low, l.speed), v, clamp(high, l.speed)), "the_speed_follows_the_acceleration");
  } else if (kind == VEL) {
    const double target = clamp(u, l.speed);
    sx_assert(within(-l.rate * dt, v - vx, l.rate * dt), "the_speed_changes_within_its_rate");
    sx_assert(target < vx ? within(target, v, vx) : within(vx, v, target), "the_speed_follows_the_command");
    sx_assert(within((v - vx) / dt, a, (v - vx) / dt), "the_acceleration_is_that_of_the_speed");
  } else if (kind == FREE) {
    sx_assert(within((v - vx) / dt, a, (v - vx) / dt), "the_acceleration_is_that_of_the_speed");
    double expected;  // acceleration: the pedal drives in the direction of the gear or brakes against the motion, the slope acts except when parked
    const double weight = slope < 0 ? -slope : slope;
    if (pedal >= 0) expected = gear == 0 or gear == 22 ? 0 : gear == 1 ? slope : reverses(gear) ? slope - pedal : slope + pedal;
    else if (vx != 0) expected = vx > 0 ? slope + pedal : slope - pedal;
    else expected = -pedal >= weight ? 0 : slope;
    double w = clamp(vx + expected * dt, l.speed);
    // the sign of the speed changes or is 0, and the brake (as it is after the step) holds the vehicle
    const double after = pedal - (pedal - clamp(u, l.rate)) / l.acc_constant * dt;
    const bool crosses = (vx >= 0 and w <= 0) or (vx <= 0 and w >= 0);
    if (crosses and -after >= weight + eps) sx_assert(v == 0, "the_brake_holds_the_vehicle"), sx_reach("held");
    else if (not crosses or -after < weight - eps) sx_assert(within(w, v, w), "pedal_slope_and_gear_accelerate_the_vehicle");
    sx_reach_if(gear == 1 and v < 0 and vx == 0, "rolls");
  } else if (kind == IDEAL_ACC) {
    sx_assert(within(vx + u * dt, v, vx + u * dt) and a == u and s == su, "commands_take_effect_at_once");
  } else {
    sx_assert(v == u and s == su, "commands_take_effect_at_once");
    sx_assert(within(u / dt, a, u / dt), "the_acceleration_is_that_of_the_speed");
    input(*m, u + 1, su, gear, slope);
    m->update(dt);
    sx_assert(within(1 / dt, m->getAx(), 1 / dt), "the_acceleration_is_that_of_the_speed");
    m->setState(state);
  }
  if (straight) {
    sx_assert(m->getWz() == 0, "straight_stays_straight");
    sx_assert(m->getY() == y and m->getYaw() == 0, "straight_stays_straight");
    if (kind != FREE and kind != IDEAL_VEL and not stopped) {
      const double low = vx < v ? vx : v, high = vx < v ? v : vx, moved = m->getX() - x;
      if (ideal) sx_assert(within((low + high) / 2 * dt, moved, (low + high) / 2 * dt), "the_vehicle_moves_at_its_speed");
      else sx_assert(within(low * dt - l.rate * dt * dt, moved, high * dt + l.rate * dt * dt), "the_vehicle_moves_at_its_speed");
    } else if (kind == FREE) {
      sx_assert(within(vx * dt, m->getX() - x, vx * dt), "the_vehicle_moves_at_its_speed");
    }
    sx_reach("straight");
  }
}
