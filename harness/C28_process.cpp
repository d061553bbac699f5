/*SPEC
{
 "property": "C28",
 "src": ["external/concealer/src/{field_operator_application,is_package_exists,path_with_lane_id}.cpp", "common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"],
 "stubs": ["os", "rosnode", "ros", "msgs", "tf2"],
 "inc": ["external/concealer/include", "common/get_parameter/include"],
 "force_include": ["vector", "string", "iomanip", "iostream", "functional", "unordered_map", "algorithm", "random", "atomic", "thread", "optional", "os_force.hpp"],
 "sx_flags": ["-fno-access-control"],
 "nat_flags": ["-fno-access-control"],
 "quick": {"time": 300},
 "bounds": {"quick": "Autoware started by the simulator or not; up to 2 updates, at each of which the process runs, has exited with any code, was killed by any signal, is gone, or ROS is shut down; the end of the simulation, where the process ends in time or not or the wait fails in any of the documented ways", "thorough": "same"},
 "outside": "signals other than those the code handles",
 "assumptions": ["kill, killpg, sigtimedwait and waitpid are stand-ins that record what they are given"],
 "witness": ["runs", "exited", "killed", "gone", "not started here", "ends in time", "ends by force", "interrupted", "spun", "shut down"]
}
SPEC*/
#include <concealer/field_operator_application.hpp>

#include "sx.hpp"

namespace rclcpp
{
bool ok() { return sx_ros::world()->ok; }
}  // namespace rclcpp
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(nanoseconds(sx_ros::world()->steady)); }

namespace concealer
{
TaskQueue::TaskQueue() : finalized{false}, thrown{nullptr} {}
TaskQueue::~TaskQueue() {}
auto TaskQueue::empty() const -> bool { return thunks.empty(); }
auto TaskQueue::front() const -> Thunk { return thunks.front(); }
auto TaskQueue::pop() -> void { thunks.pop(); }
auto TaskQueue::rethrow() const -> void
{
  if (thrown) std::rethrow_exception(thrown);
}
}  // namespace concealer

namespace
{
constexpr pid_t pid = 4711;
struct Process
{
  int state = 0;  // runs, exited, killed, gone, continues after being stopped
  int status = 0;
  bool reaped = false;
  std::vector<int> signals, group_signals;
  int wait_result = 0;  // of the wait for its end, 0 or an error
  int timeout = -1;
  int waits = 0, peeks = 0;
  bool ending = false;
} * process;
struct Exit
{
};
}  // namespace
pid_t sx_fork() { return -1; }
int sx_execvp(const char *, char * const[]) { return -1; }
FILE * sx_popen(const char *, const char *) { return nullptr; }
int sx_pclose(FILE *) { return 0; }
char * sx_fgets(char *, int, FILE *) { return nullptr; }
void sx_exit(int) { throw Exit(); }
pid_t sx_waitpid(pid_t p, int * status, int options)
{
  sx_assert(p == pid, "only_the_process_of_autoware_is_touched");
  if (process->state == 3 or process->reaped) {
    errno = ECHILD;
    return -1;
  }
  if (process->ending) {
    ++process->waits;
    sx_assert(not(options & WNOHANG), "its_end_is_awaited");
    // nothing to wait for unless it was told to end
    sx_assert(not process->signals.empty(), "it_is_told_to_end_before_its_end_is_awaited");
    if (process->wait_result == EAGAIN) sx_assert(process->group_signals == std::vector<int>{SIGKILL}, "what_does_not_end_in_time_is_killed");
    process->reaped = true;
    return pid;
  }
  ++process->peeks;
  sx_assert(options & WNOHANG, "updates_do_not_wait");
  if (process->state == 0) return 0;
  *status = process->status;
  if (process->state < 3) process->reaped = true;
  return pid;
}
int sx_kill(pid_t p, int s)
{
  sx_assert(p == pid, "only_the_process_of_autoware_is_touched");
  process->signals.push_back(s);
  return 0;
}
int sx_killpg(pid_t p, int s)
{
  sx_assert(p == pid, "only_the_process_of_autoware_is_touched");
  process->group_signals.push_back(s);
  return 0;
}
int sx_sigtimedwait(const sigset_t * set, siginfo_t *, const timespec * timeout)
{
  process->timeout = timeout->tv_sec;
  sx_assert(sigismember(set, SIGCHLD) == 1 and timeout->tv_nsec == 0, "its_end_is_awaited");
  if (process->wait_result) {
    errno = process->wait_result;
    return -1;
  }
  return SIGCHLD;
}

void sx_harness()
{
  sx_ros::World w;
  sx_ros::world() = &w;
  Process p;
  process = &p;
  w.parameters["initialize_duration"] = 3;
  w.parameters["initialize_localization"] = 1;
  const int given = sx::pick("timeout", -1, 2);
  if (given >= 0) w.parameters["sigterm_timeout"] = given;
  const bool started = sx::boolean("started");
  int spins = 0;
  w.spun = [&] { ++spins; };
  bool ended = false;
  {
    concealer::FieldOperatorApplication user(started ? pid : 0);
    const int updates = sx::pick("updates", 0, 2);
    int expected_spins = 0;
    for (int i = 0; i < updates and not ended; ++i) {
      p.state = sx::pick(sx::nm("state", i), 0, 4);
      switch (p.state) {
        case 1: p.status = (int)sx_bits("code", 8) << 8; break;
        case 2:
          p.status = (int)sx_bits("signal", 7);
          sx_assume((p.status != 0) & (p.status != 0x7f));
          break;
        case 4: p.status = 0xffff;
      }
      if (p.state == 0 and sx::boolean(sx::nm("shut down", i))) w.ok = false;
      std::string message;
      try {
        user.spinSome();
      } catch (const common::AutowareError & e) {
        ended = true;
        message = e.what();
      }
      if (not w.ok) {
        sx_reach("shut down");
        sx_assert(not ended and p.peeks <= i, "nothing_happens_after_ros_was_shut_down");
        break;
      }
      const bool over = started and p.state >= 1 and p.state <= 3;
      sx_assert(ended == over, "the_end_of_autoware_is_reported");
      if (over) sx_reach(p.state == 1 ? "exited" : p.state == 2 ? "killed" : "gone");
      else {
        ++expected_spins;
        sx_reach(started ? "runs" : "not started here");
        sx_assert(spins == expected_spins, "messages_are_handled_at_every_update");
      }
      if (over) {
        // only reported once
        bool again = false;
        try {
          user.spinSome();
        } catch (const common::AutowareError &) {
          again = true;
        }
        sx_assert(not again, "the_end_of_autoware_is_reported_once");
        ++expected_spins;
      }
    }
    if (spins) sx_reach("spun");
    p.ending = true;
    if (not ended and p.state != 3) p.state = 0;
    static const int results[] = {0, EAGAIN, EINTR, EINVAL};
    p.wait_result = results[sx::pick("wait", 0, 3)];
  }
  if (not started or ended) sx_assert(p.signals.empty() and p.group_signals.empty() and p.waits == 0, "a_process_that_is_not_ours_or_over_is_left_alone");
  else {
    sx_assert(p.signals == std::vector<int>{SIGINT}, "it_is_told_to_end_before_its_end_is_awaited");
    sx_assert(p.timeout == (given < 0 ? 5 : given), "it_has_the_configured_time_to_end");
    sx_assert(p.group_signals.empty() == (p.wait_result != EAGAIN), "what_does_not_end_in_time_is_killed");
    sx_assert(p.reaped and p.waits == 1, "its_end_is_awaited");
    sx_reach(p.wait_result == 0 ? "ends in time" : p.wait_result == EAGAIN ? "ends by force" : "interrupted");
  }
}
