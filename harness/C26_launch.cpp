/*SPEC
{
 "property": "C26",
 "src": ["external/concealer/src/execute.cpp", "openscenario/openscenario_interpreter/src/posix/fork_exec.cpp"],
 "inc": ["external/concealer/include", "openscenario/openscenario_interpreter/include"],
 "stubs": ["os"],
 "force_include": ["vector", "string", "os_force.hpp"],
 "quick": {"time": 500},
 "bounds": {"quick": "commands of up to 3 arguments of up to 3 arbitrary characters, given as a list or as a text with arbitrary spaces; fork and exec failing or not; a process that is stopped or continued up to 3 times with arbitrary states before it ends in an arbitrary way; output of the lengths around 0, 127 and 254 with 3 arbitrary characters around the borders, newlines among them", "thorough": "same"},
 "outside": "waiting that is interrupted by a signal; output with NUL characters; the operating system itself, whose calls are replaced by stand-ins that record their arguments",
 "assumptions": ["fork, execvp, waitpid, exit, popen, fgets, pclose are replaced by stand-ins; a successful execvp and exit do not return"],
 "witness": ["list", "text", "program with text", "launched", "exec fails", "fork fails", "stopped", "killed", "exited", "output", "no pipe", "newline"]
}
SPEC*/
#include <stdio.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

#include <concealer/execute.hpp>
#include <concealer/launch.hpp>
#include <openscenario_interpreter/posix/fork_exec.hpp>

#include "sx.hpp"

namespace
{
struct Ended
{
};
struct World
{
  pid_t fork_result = 0;
  bool exec_fails = false;
  int forks = 0, execs = 0, waits = 0;
  std::string file;
  std::vector<std::string> argv;
  int statuses[4];
  int n_statuses = 0;
  bool pipe_fails = false;
  std::string command, output;
  std::size_t read = 0;
  int opened = 0, closed = 0;
  bool executed = false, failed = false;
  int exited = -1, code = 0, result = -2;
};
World * world = nullptr;
char pipe_object[1];
}  // namespace

pid_t fork()
{
  ++world->forks;
  if (world->fork_result < 0) errno = EAGAIN;
  return world->fork_result;
}
int execvp(const char * file, char * const argv[])
{
  ++world->execs;
  world->file = file;
  for (int i = 0; argv[i]; ++i) world->argv.push_back(argv[i]);
  if (world->exec_fails) {
    errno = ENOENT;
    return -1;
  }
  world->executed = true;
  throw Ended();
}
pid_t waitpid(pid_t pid, int * status, int options)
{
  sx_assert(pid == world->fork_result, "it_waits_for_the_process_it_started");
  sx_assert(not(options & WNOHANG), "it_waits");
  if (world->waits >= world->n_statuses) {
    sx_assert(false, "it_does_not_wait_for_a_process_that_ended");
    throw Ended();
  }
  *status = world->statuses[world->waits++];
  return pid;
}
void exit(int status)
{
  world->exited = status;
  throw Ended();
}
FILE * popen(const char * command, const char * mode)
{
  world->command = command;
  sx_assert(mode[0] == 'r', "output_is_read");
  if (world->pipe_fails) {
    errno = EMFILE;
    return nullptr;
  }
  ++world->opened;
  return reinterpret_cast<FILE *>(pipe_object);
}
int pclose(FILE * f)
{
  sx_assert(f == reinterpret_cast<FILE *>(pipe_object), "the_pipe_is_closed_once");
  ++world->closed;
  return 0;
}
char * fgets(char * buffer, int n, FILE * f)
{
  sx_assert(f == reinterpret_cast<FILE *>(pipe_object), "output_is_read");
  int i = 0;
  while (i + 1 < n and world->read < world->output.size()) {
    const char c = world->output[world->read++];
    buffer[i++] = c;
    if (c == '\n') break;
  }
  if (i == 0) return nullptr;
  buffer[i] = 0;
  return buffer;
}

namespace
{
std::string word(const char * name, bool spaces)
{
  std::string s(sx::pick(sx::nm(name, 100), 0, 2), 'x');
  if (not s.empty()) {
    s[0] = (char)sx_bits(sx::nm(name, 1).c_str(), 8);
    sx_assume(s[0] != 0);
    if (not spaces) sx_assume((s[0] != ' ') & not((s[0] >= '\t') & (s[0] <= '\r')));
  }
  return s;
}
// runs f as a process: until it returns, executes a program or exits
template <typename F>
void process(F f)
{
  try {
    world->result = f();
  } catch (const Ended &) {
  } catch (const std::system_error & e) {
    world->failed = true, world->code = e.code().value();
  }
}
bool same(const std::vector<std::string> & l, const std::vector<std::string> & r)
{
  if (l.size() != r.size()) return false;
  bool result = true;
  for (std::size_t i = 0; i < l.size(); ++i) result = result & (l[i] == r[i]);
  return result;
}
bool space(char c) { return c == ' ' or (c >= '\t' and c <= '\r'); }
}  // namespace

void sx_harness()
{
  World w;
  world = &w;
  struct Reset
  {
    ~Reset() { world = nullptr; }
  } reset;
  switch (sx::pick("what", 0, 3)) {
    case 0: {  // only the arguments
      std::vector<std::string> xs = {"program"};
      const int n = sx::pick("arguments", 0, 2);
      for (int i = 0; i < n; ++i) xs.push_back(word(i ? "b" : "a", true));
      w.exec_fails = sx::boolean("exec fails");
      const bool interpreter = sx::boolean("interpreter");
      process([&]() { return interpreter ? openscenario_interpreter::execvp(xs) : concealer::execute(xs); });
      sx_reach("list");
      sx_assert(w.execs == 1 and w.executed != w.exec_fails and (w.executed or w.result < 0), "failure_to_execute_is_reported");
      sx_assert(w.file == "program" and same(w.argv, xs), "a_program_gets_exactly_its_arguments");
      break;
    }
    case 1: {
      const int kind = sx::pick("fork", 0, 2);
      w.fork_result = kind == 0 ? -1 : kind == 1 ? 0 : 4711;
      w.exec_fails = sx::boolean("exec fails");
      std::vector<std::string> xs;
      // the states of the process the parent sees: it is stopped or continued, and ends
      if (kind == 2) {
        const int n = sx::pick("stops", 0, 3);
        for (int i = 0; i < n; ++i) w.statuses[i] = (int)(sx_bits(sx::nm("stop", i).c_str(), 8) << 8) | 0x7f;
        const int last = (int)sx_bits("status", 16);
        sx_assume((last & 0x7f) != 0x7f);
        w.statuses[n] = last;
        w.n_statuses = n + 1;
        if (n) sx_reach("stopped");
      }
      const int form = kind == 2 ? 0 : sx::pick("form", 0, 2);
      std::string text, all;
      if (form == 0) {
          xs = {"program", word("a", true)};
          sx_reach("list");
        } else {
          const int n = sx::pick("length", 0, 3);
          for (int i = 0; i < n; ++i) {
            const char c = (char)sx_bits(sx::nm("c", i).c_str(), 8);
            sx_assume(c != 0);
            text.push_back(c);
          }
          all = form == 1 ? "p " + text : n ? "p " + text : "p";
          // the oracle: cut at every space
          xs.emplace_back();
          for (char c : all)
            if (space(c)) xs.emplace_back();
            else xs.back().push_back(c);
          sx_reach(form == 1 ? "text" : "program with text");
        }
      process([&]() {
        return form == 0 ? openscenario_interpreter::fork_exec(xs) : form == 1 ? openscenario_interpreter::fork_exec(all) : openscenario_interpreter::fork_exec("p", text);
      });
      sx_assert(w.forks == 1, "one_process_is_started");
      switch (kind) {
        case 0:
          sx_reach("fork fails");
          sx_assert(w.failed and w.code == EAGAIN and w.execs == 0, "failure_to_start_a_process_is_reported");
          break;
        case 1:
          sx_assert(w.execs == 1 and not w.failed and same(w.argv, xs) and w.file == xs[0], "a_program_gets_exactly_its_arguments");
          if (w.exec_fails) sx_reach("exec fails");
          sx_assert(w.executed ? not w.exec_fails : w.exited > 0, "a_process_that_cannot_execute_its_program_ends_with_a_failure");
          break;
        default:
          sx_reach((w.statuses[w.n_statuses - 1] & 0x7f) ? "killed" : "exited");
          sx_assert(w.result == 4711 and w.execs == 0 and not w.failed, "the_process_is_returned");
          sx_assert(w.waits == w.n_statuses, "it_waits_until_the_process_has_ended");
      }
      break;
    }
    case 2: {
      const int kind = sx::pick("fork", 0, 2);
      w.fork_result = kind == 0 ? -1 : kind == 1 ? 0 : 4711;
      w.exec_fails = sx::boolean("exec fails");
      w.output = "/opt/ros/bin/ros2\n";
      const std::vector<std::string> parameters(sx::pick("parameters", 0, 2), "a:=" + word("a", true));
      const std::string package = word("b", true) + "p", file = word("c", true) + "f";
      process([&]() { return concealer::ros2_launch(package, file, parameters); });
      std::vector<std::string> expected = {"python3", "/opt/ros/bin/ros2", "launch", package, file};
      expected.insert(expected.end(), parameters.begin(), parameters.end());
      sx_assert(w.forks == 1 and w.command == "which ros2" and w.opened == 1 and w.closed == 1, "one_process_is_started");
      if (kind == 0) sx_assert(w.failed and w.code == EAGAIN and w.execs == 0, "failure_to_start_a_process_is_reported");
      else if (kind == 2) sx_assert(w.result == 4711 and w.execs == 0 and w.waits == 0, "the_process_is_returned");
      else {
        sx_reach("launched");
        sx_assert(w.execs == 1 and w.file == "python3" and same(w.argv, expected), "a_program_gets_exactly_its_arguments");
        sx_assert(w.executed ? not w.exec_fails : w.exited > 0, "a_process_that_cannot_execute_its_program_ends_with_a_failure");
      }
      break;
    }
    default: {
      static const int lengths[] = {0, 1, 2, 126, 127, 128, 129, 253, 254, 255};
      w.output = std::string(lengths[sx::pick("length", 0, 9)], 'x');
      int k = 0;
      for (std::size_t i : {0, 1, 125, 126, 127, 253})
        if (i < w.output.size() and i + 3 >= w.output.size() and k < 3) {
          const char c = (char)sx_bits(sx::nm("c", k++).c_str(), 8);
          sx_assume(c != 0);
          w.output[i] = c;
        }
      w.pipe_fails = sx::boolean("pipe fails");
      if (not w.output.empty() and w.output.back() == '\n') sx_reach("newline");
      bool failed = false;
      try {
        const auto result = concealer::dollar("command");
        sx_reach("output");
        sx_assert(result == w.output, "the_output_is_complete");
      } catch (const std::system_error & e) {
        sx_reach("no pipe");
        failed = e.code().value() == EMFILE;
      }
      sx_assert(failed == w.pipe_fails, "failure_to_start_a_process_is_reported");
      sx_assert(w.command == "command" and w.opened == w.closed, "the_pipe_is_closed_once");
    }
  }
}
