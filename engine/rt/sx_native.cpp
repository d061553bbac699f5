// Native replay runtime: the harness and the repository code compiled with plain g++, inputs from a file.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include "../include/sx.hpp"

static std::map<std::string, uint64_t> in;
static std::map<std::string, int> seen;
static bool verbose = false;
static uint64_t input(const char * name, unsigned bits)
{
  std::string f = name;
  int k = seen[f]++;
  if (k) f += "~" + std::to_string(k);
  if (f.size() > 47) f.resize(47);
  auto it = in.find(f);
  uint64_t v = it == in.end() ? 0 : it->second;
  if (bits < 64) v &= (1ull << bits) - 1;
  return v;
}
static void say(const std::string & s) { if (write(1, s.data(), s.size()) < 0) {} }
extern "C" {
uint64_t sx_bits(const char * n, unsigned b) { auto v = input(n, b); if (verbose) fprintf(stderr, "%s = %llu\n", n, (unsigned long long)v); return v; }
double sx_f64(const char * n) { uint64_t v = input(n, 64); double d; memcpy(&d, &v, 8); if (verbose) fprintf(stderr, "%s = %.17g\n", n, d); return d; }
float sx_f32(const char * n) { uint32_t v = (uint32_t)input(n, 32); float d; memcpy(&d, &v, 4); if (verbose) fprintf(stderr, "%s = %.9g\n", n, d); return d; }
void sx_assume(bool c) { if (!c) { if (verbose) fprintf(stderr, "assumption not met\n"); _exit(3); } }
void sx_assert(bool c, const char * l) { if (!c) { say(std::string("\nSX-FAIL ") + l + "\n"); _exit(10); } }
void sx_reach(const char * l) { if (verbose) fprintf(stderr, "reach %s\n", l); }
void sx_reach_if(bool c, const char * l) { if (c && verbose) fprintf(stderr, "reach %s\n", l); }
void sx_note(const char * l) { if (verbose) fprintf(stderr, "%s\n", l); }
uint64_t sx_pin(uint64_t v) { return v; }
int sx_symbolic(uint64_t) { return 0; }
int sx_symbolic_f64(double) { return 1; }
int sx_tier(void) { const char * t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
}
__attribute__((weak)) void sx_setup();
static void onTerm()
{
  std::string n = "terminate";
  if (auto * t = abi::__cxa_current_exception_type()) n = t->name();
  try { throw; } catch (std::exception & e) { if (verbose) fprintf(stderr, "what: %s\n", e.what()); } catch (...) {}
  say("\nSX-FAIL uncaught:" + n + "\n");
  _exit(11);
}
int main(int argc, char ** argv)
{
  verbose = getenv("SX_VERBOSE") != nullptr;
  if (argc > 1) {
    std::ifstream f(argv[1]);
    for (std::string l; std::getline(f, l);) {
      const auto i = l.rfind(' ');
      if (i != std::string::npos) in[l.substr(0, i)] = strtoull(l.c_str() + i + 1, nullptr, 10);
    }
  }
  std::set_terminate(onTerm);
  if (sx_setup) sx_setup();
  try { sx_harness(); } catch (...) { onTerm(); }
  if (verbose) fprintf(stderr, "ok\n");
  _exit(0);
}
