/*SPEC
{
 "property": "C25",
 "src": ["external/concealer/src/task_queue.cpp"],
 "stubs": ["ros", "msgs"],
 "inc": ["external/concealer/include"],
 "force_include": ["atomic", "functional", "string", "memory"],
 "quick": {"time": 600},
 "bounds": {"quick": "3 tasks, each of which may throw and the first of which may queue another one, and every schedule of the two threads with at most 3 preemptions: they can be preempted before and after every operation on the mutex, whenever the dispatcher asks whether to go on or sleeps, and inside tasks; destruction after the queue was seen empty or at once", "thorough": "at most 5 preemptions"},
 "outside": "more tasks; more preemptions; preemption between single memory accesses (data races, weak memory)",
 "assumptions": ["the two threads are run as coroutines on one thread; the mutex, sleeping, joining and starting of the thread are replaced by a model that makes the choice of the next thread a symbolic variable; rclcpp stays ok"],
 "witness": ["all done", "failure reported", "dropped", "queued by a task", "preempted", "seen empty"]
}
SPEC*/
#include <algorithm>
#include <concealer/task_queue.hpp>
#include <ctime>
#include <stdexcept>
#include <ucontext.h>
#include <vector>

#include "sx.hpp"

namespace
{
ucontext_t contexts[2];
alignas(16) char stack[1 << 18];
int running = 0;  // 0 = the main thread, 1 = the dispatcher
bool started = false, finished = false, slept = false;
std::function<void()> body;
int choices = 0, preemptions = 0, idle = 0;

void change()
{
  const int other = 1 - running, self = running;
  running = other;
  swapcontext(&contexts[self], &contexts[other]);
}
bool other_runs() { return running == 1 or (started and not finished); }
// a point where the other thread may go on
void point()
{
  if (not other_runs() or preemptions == (sx_tier() ? 5 : 3)) return;
  if (choices > 400) {
    sx_assert(false, "the_threads_make_progress");
    return;
  }
  if (not sx::boolean(sx::nm("switch", choices++))) return;
  ++preemptions;
  sx_reach("preempted");
  change();
}
void dispatcher()
{
  body();
  finished = true;
  running = 0;
}
// waits for the other thread
void blocked(const char * what)
{
  sx_assert(other_runs(), what);
  if (other_runs()) change();
}
}  // namespace

namespace std
{
void thread::_M_start_thread(_State_ptr state, void (*)())
{
  body = [s = state.release()]() {
    s->_M_run();
    delete s;
  };
  started = true;
  _M_id = id(2);
  getcontext(&contexts[1]);
  contexts[1].uc_stack.ss_sp = stack;
  contexts[1].uc_stack.ss_size = sizeof(stack);
  contexts[1].uc_link = &contexts[0];
  makecontext(&contexts[1], dispatcher, 0);
  point();
}
void thread::join()
{
  int turns = 0;
  while (not finished) {
    if (++turns > 20) {
      sx_assert(false, "the_queue_can_be_destroyed");
      break;
    }
    change();
  }
  _M_id = id();
}
}  // namespace std
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
  point();
  while (m->__data.__lock) blocked("no_deadlock");
  m->__data.__lock = 1;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) noexcept
{
  m->__data.__lock = 0;
  point();
  return 0;
}
extern "C" int nanosleep(const timespec *, timespec *)
{
  if (running == 1) change();
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const timespec * a, timespec * b) { return nanosleep(a, b); }
namespace rclcpp
{
bool ok()
{
  point();
  return true;
}
}  // namespace rclcpp

namespace
{
struct Failure
{
  int task;
};
struct Log
{
  std::vector<int> begun, ended, queued;
  bool inside = false;
  int failed = -1;
};
Log * history;
void task(concealer::TaskQueue & queue, int i, bool fails, bool queues)
{
  auto & l = *history;
  sx_assert(running == 1, "tasks_run_on_the_thread_of_the_queue");
  sx_assert(not l.inside, "one_task_at_a_time");
  const bool again = std::count(l.begun.begin(), l.begun.end(), i) > 0;
  sx_assert(not again, "a_task_runs_at_most_once");
  if (again) return;
  sx_assert(l.failed < 0, "no_task_runs_after_one_that_failed");
  l.inside = true;
  l.begun.push_back(i);
  if (queues) {
    sx_reach("queued by a task");
    queue.delay([&queue, i]() { task(queue, i + 10, false, false); });
    l.queued.push_back(i + 10);
  }
  point();
  l.inside = false;
  if (fails) {
    l.failed = i;
    throw Failure{i};
  }
  l.ended.push_back(i);
}
}  // namespace

void sx_harness()
{
  Log log;
  history = &log;
  const bool queues = sx::boolean("queues");
  const int failing = sx::pick("failing", 0, 3);
  bool stopped = false, seen_empty = false;
  {
    concealer::TaskQueue queue;
    for (int i = 0; i < 3 and not stopped; ++i) {
      point();
      const bool failed_before = log.failed >= 0 and finished;
      try {
        queue.delay([&queue, i, failing, queues]() { task(queue, i, i == failing, queues and i == 0); });
        log.queued.push_back(i);
        sx_assert(not failed_before, "a_failure_is_reported_by_the_next_use");
      } catch (const Failure & f) {
        sx_reach("failure reported");
        sx_assert(f.task == log.failed and log.failed == failing, "the_failure_of_the_task_is_reported");
        stopped = true;
      }
    }
    if (sx::boolean("waits")) {
      for (int i = 0; i < 40 and not finished and not seen_empty; ++i) {
        if (queue.empty()) seen_empty = true;
        else if (other_runs()) change();
      }
      if (seen_empty) {
        sx_reach("seen empty");
        sx_assert(log.ended.size() == log.queued.size() and not log.inside and log.failed < 0, "an_empty_queue_has_done_all_its_tasks");
      } else {
        sx_assert(log.failed >= 0, "the_queue_gets_empty_unless_a_task_fails");
        bool thrown = false;
        try {
          queue.rethrow();
        } catch (const Failure & f) {
          thrown = f.task == log.failed;
        }
        sx_assert(thrown, "the_failure_of_the_task_is_reported");
      }
    }
  }
  sx_assert(finished, "destruction_ends_the_thread");
  sx_assert(not log.inside, "destruction_waits_for_the_running_task");
  // in the order of being queued
  sx_assert(log.begun.size() <= log.queued.size(), "a_task_runs_at_most_once");
  sx_reach(log.begun.size() < log.queued.size() ? "dropped" : "all done");
  if (not queues)
    for (std::size_t i = 0; i < log.begun.size(); ++i) sx_assert(log.begun[i] == log.queued[i], "tasks_run_in_the_order_of_being_queued");
  for (std::size_t i = 0; i < log.begun.size(); ++i)
    for (std::size_t k = 0; k < i; ++k) sx_assert(log.begun[i] != log.begun[k], "a_task_runs_at_most_once");
  int last = -1;
  for (int i : log.begun)
    if (i < 10) {
      sx_assert(i == last + 1, "tasks_run_in_the_order_of_being_queued");
      last = i;
    }
}
