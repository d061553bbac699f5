// What the concealer uses of nodes: publishers, subscriptions, clients, services, timers, parameters. Everything is
// registered under its name in sx_ros::world(), which the harnesses use to deliver messages, answer requests, fire
// timers and let time pass.
#pragma once
#include_next <rclcpp/rclcpp.hpp>

#include <any>
#include <future>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

struct rmw_qos_profile_t
{
};
inline rmw_qos_profile_t rmw_qos_profile_services_default;

namespace sx_ros
{
struct World
{
  bool ok = true;
  std::int64_t steady = 1;                    // nanoseconds
  rclcpp::Time now{std::int64_t(0), RCL_ROS_TIME};
  std::function<void()> passed;               // after time has passed
  std::function<void()> spun;                 // when an executor spins
  std::function<bool(const std::string &)> ready;  // is the service available?
  std::map<std::string, std::any> subscriptions, publishers, responders, services, parameters;
  std::vector<std::pair<std::int64_t, std::function<void()>>> timers;
  std::set<std::string> packages;
};
inline World *& world()
{
  static World * w = nullptr;
  return w;
}
inline void pass(std::int64_t ns)
{
  world()->steady += ns;
  if (world()->passed) world()->passed();
}
// gives the message to the subscription of the topic
template <typename T>
void publish(const std::string & topic, const T & message)
{
  std::any_cast<std::function<void(const std::shared_ptr<const T> &)> &>(world()->subscriptions.at(topic))(std::make_shared<const T>(message));
}
template <typename T>
std::vector<T> & published(const std::string & topic)
{
  return std::any_cast<std::vector<T> &>(world()->publishers.at(topic));
}
// answers requests: false = no answer in time
template <typename T>
void respond(const std::string & service, std::function<bool(const typename T::Request &, typename T::Response &)> f)
{
  world()->responders[service] = f;
}
template <typename T>
void call(const std::string & service, const typename T::Request & request, typename T::Response & response)
{
  auto q = std::make_shared<typename T::Request>(request);
  auto r = std::make_shared<typename T::Response>();
  std::any_cast<std::function<void(std::shared_ptr<typename T::Request>, std::shared_ptr<typename T::Response>)> &>(world()->services.at(service))(q, r);
  response = *r;
}
}  // namespace sx_ros

namespace rclcpp
{
inline void init(int, char **) {}
struct QoS
{
  explicit QoS(int) {}
  QoS & transient_local() { return *this; }
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
};
struct NodeOptions
{
  NodeOptions & use_global_arguments(bool) { return *this; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool) { return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
};
struct ParameterValue
{
  std::any value;
  template <typename T>
  explicit ParameterValue(const T & v) : value(v)
  {
  }
};
struct Parameter
{
  std::any value;
  template <typename T>
  T get_value() const
  {
    return std::any_cast<T>(value);
  }
};
namespace node_interfaces
{
struct NodeBaseInterface
{
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
};
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  bool has_parameter(const std::string & name) const { return sx_ros::world()->parameters.count(name); }
  void declare_parameter(const std::string & name, const ParameterValue & v) { sx_ros::world()->parameters[name] = v.value; }
  Parameter get_parameter(const std::string & name) const { return {sx_ros::world()->parameters.at(name)}; }
};
}  // namespace node_interfaces
template <typename T>
struct Subscription
{
  using SharedPtr = std::shared_ptr<Subscription>;
};
template <typename T>
struct Publisher
{
  using SharedPtr = std::shared_ptr<Publisher>;
  std::string topic;
  void publish(const T & m) { sx_ros::published<T>(topic).push_back(m); }
};
template <typename T>
struct Service
{
  using SharedPtr = std::shared_ptr<Service>;
};
template <typename T>
struct Client
{
  using SharedPtr = std::shared_ptr<Client>;
  std::string name;
  struct Future
  {
    bool answered;
    std::shared_ptr<typename T::Response> response;
    template <typename D>
    std::future_status wait_for(const D & d) const
    {
      if (answered) return std::future_status::ready;
      sx_ros::pass(std::chrono::nanoseconds(d).count());
      return std::future_status::timeout;
    }
    std::shared_ptr<typename T::Response> get() const { return response; }
  };
  bool service_is_ready() const { return not sx_ros::world()->ready or sx_ros::world()->ready(name); }
  Future async_send_request(const std::shared_ptr<typename T::Request> & request)
  {
    Future f{false, std::make_shared<typename T::Response>()};
    using F = std::function<bool(const typename T::Request &, typename T::Response &)>;
    auto & responders = sx_ros::world()->responders;
    if (responders.count(name)) f.answered = std::any_cast<F &>(responders.at(name))(*request, *f.response);
    return f;
  }
};
struct TimerBase
{
  using SharedPtr = std::shared_ptr<TimerBase>;
};
class WallRate
{
  std::chrono::nanoseconds period_;

public:
  explicit WallRate(std::chrono::nanoseconds p) : period_(p) {}
  std::chrono::nanoseconds period() const { return period_; }
  bool sleep()
  {
    sx_ros::pass(period_.count());
    return true;
  }
};
template <typename C>
class GenericRate : public WallRate
{
public:
  explicit GenericRate(std::chrono::nanoseconds p) : WallRate(p) {}
};
class Node
{
  std::shared_ptr<Clock> clock = std::make_shared<Clock>();

public:
  explicit Node(const std::string &, const NodeOptions & = {}) {}
  Node(const std::string &, const std::string &, const NodeOptions & = {}) {}
  Logger get_logger() const { return {}; }
  Time now() const { return sx_ros::world()->now; }
  std::shared_ptr<Clock> get_clock() const
  {
    clock->value = sx_ros::world()->now;
    return clock;
  }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() const { return nullptr; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() const { return std::make_shared<node_interfaces::NodeParametersInterface>(); }
  template <typename T, typename F>
  typename Subscription<T>::SharedPtr create_subscription(const std::string & topic, const QoS &, F && f)
  {
    sx_ros::world()->subscriptions[topic] = std::function<void(const std::shared_ptr<const T> &)>(std::forward<F>(f));
    return std::make_shared<Subscription<T>>();
  }
  template <typename T>
  typename Publisher<T>::SharedPtr create_publisher(const std::string & topic, const QoS &)
  {
    sx_ros::world()->publishers[topic] = std::vector<T>();
    return std::make_shared<Publisher<T>>(Publisher<T>{topic});
  }
  template <typename T>
  typename Client<T>::SharedPtr create_client(const std::string & name, const rmw_qos_profile_t &)
  {
    return std::make_shared<Client<T>>(Client<T>{name});
  }
  template <typename T, typename F>
  typename Service<T>::SharedPtr create_service(const std::string & name, F && f)
  {
    sx_ros::world()->services[name] = std::function<void(std::shared_ptr<typename T::Request>, std::shared_ptr<typename T::Response>)>(std::forward<F>(f));
    return std::make_shared<Service<T>>();
  }
  template <typename D, typename F>
  TimerBase::SharedPtr create_wall_timer(const D & d, F && f)
  {
    sx_ros::world()->timers.emplace_back(std::chrono::nanoseconds(d).count(), std::forward<F>(f));
    return std::make_shared<TimerBase>();
  }
};
template <typename D, typename F>
TimerBase::SharedPtr create_timer(Node * node, const std::shared_ptr<Clock> &, const D & d, F && f)
{
  return node->create_wall_timer(d, std::forward<F>(f));
}
namespace executors
{
struct SingleThreadedExecutor
{
  void add_node(const node_interfaces::NodeBaseInterface::SharedPtr &) {}
  void spin_some()
  {
    if (sx_ros::world()->spun) sx_ros::world()->spun();
  }
};
}  // namespace executors
}  // namespace rclcpp
