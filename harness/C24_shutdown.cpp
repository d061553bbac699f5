/*SPEC
{
 "property": "C24",
 "src": ["common/status_monitor/src/status_monitor.cpp"],
 "stubs": ["ros", "msgs", "nlohmann"],
 "inc": ["common/status_monitor/include"],
 "force_include": ["atomic", "algorithm", "functional", "string", "optional"],
 "sx_flags": ["-fno-access-control"], "nat_flags": ["-fno-access-control"],
 "quick": {"time": 400},
 "bounds": {"quick": "a thread that is watched, or not, and ends while reports are written, and every schedule of it and the reporting thread with at most 4 preemptions: before and after every operation on the mutex, whenever it is asked for the time, and while the reporting thread sleeps", "thorough": "at most 6 preemptions"},
 "outside": "more threads; more preemptions; preemption between single memory accesses (data races, weak memory)",
 "assumptions": ["the two threads are run as coroutines on one thread; the mutex, sleeping, joining and starting of the thread are replaced by a model that makes the choice of the next thread a symbolic variable; the JSON library is replaced by a tree of the values written; the file is not written"],
 "witness": ["ended", "preempted", "reported", "watched", "not the last"]
}
SPEC*/
#include <algorithm>
#include <ctime>
#include <nlohmann/json.hpp>
#include <status_monitor/status_monitor.hpp>
#include <ucontext.h>
#include <vector>

#include "sx.hpp"

namespace
{
ucontext_t contexts[2];
alignas(16) char stack[1 << 18];
int running = 0;  // 0 = the main thread, 1 = the dispatcher
bool started = false, finished = false, slept = false;
void * body = nullptr;  // constant initialization: the monitor is constructed before
int choices = 0, preemptions = 0, idle = 0;

void change()
{
  const int other = 1 - running, self = running;
  running = other;
  swapcontext(&contexts[self], &contexts[other]);
}
bool other_runs() { return running == 1 or (started and not finished); }
// a point where the other thread may go on
void point()
{
  if (not other_runs() or preemptions == (sx_tier() ? 6 : 4)) return;
  if (choices > 400) {
    sx_assert(false, "the_threads_make_progress");
    return;
  }
  if (not sx::boolean(sx::nm("switch", choices++))) return;
  ++preemptions;
  sx_reach("preempted");
  change();
}
void dispatcher()
{
  auto * state = static_cast<std::thread::_State *>(body);
  state->_M_run();
  delete state;
  finished = true;
  running = 0;
}
// waits for the other thread
void blocked(const char * what)
{
  sx_assert(other_runs(), what);
  if (other_runs()) change();
}
}  // namespace

namespace std
{
void thread::_M_start_thread(_State_ptr state, void (*)())
{
  body = state.release();
  started = true;
  finished = false;
  _M_id = id(2);
  getcontext(&contexts[1]);
  contexts[1].uc_stack.ss_sp = stack;
  contexts[1].uc_stack.ss_size = sizeof(stack);
  contexts[1].uc_link = &contexts[0];
  makecontext(&contexts[1], dispatcher, 0);
}
void thread::join()
{
  int turns = 0;
  while (not finished) {
    if (++turns > 20) {
      sx_assert(false, "the_report_thread_ends");
      break;
    }
    change();
  }
  _M_id = id();
}
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  point();
  return time_point(duration(0));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  if (m != common::StatusMonitor::mutex.native_handle()) return 0;  // one of the standard library's
  point();
  while (m->__data.__lock) blocked("no_deadlock");
  m->__data.__lock = 1;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  if (m != common::StatusMonitor::mutex.native_handle()) return 0;
  m->__data.__lock = 0;
  point();
  return 0;
}
extern "C" int nanosleep(const timespec *, timespec *)
{
  if (running == 1) {
    sx_reach("reported");
    change();
  }
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const timespec * a, timespec * b) { return nanosleep(a, b); }

void sx_harness()
{
  // common::status_monitor has been constructed, the reporting thread has been started but has not run yet
  sx_assert(started, "the_first_monitor_starts_the_reports");
  if (sx::boolean("watched")) {
    sx_reach("watched");
    common::status_monitor.touch("a");
  }
  if (sx::boolean("another")) {
    { common::StatusMonitor another; }
    sx_assert(not finished, "reports_go_on_while_there_is_a_monitor");
    sx_reach("not the last");
  }
  const int turns = sx::pick("turns", 0, 2);
  for (int i = 0; i < turns; ++i)
    if (other_runs()) change();
  // there is one in every translation unit that includes the header: this one and status_monitor.cpp
  common::status_monitor.~StatusMonitor();
  common::status_monitor.~StatusMonitor();
  sx_assert(finished, "the_last_monitor_ends_the_reports");
  sx_reach("ended");
}
