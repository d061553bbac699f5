// Harness API.  Compiled twice: with the instrumentation pass (symbolic exploration) and with plain
// g++ (native replay of a counterexample).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>

extern "C" {
uint64_t sx_bits(const char * name, unsigned bits);  // fresh bit-vector variable
double sx_f64(const char * name);                    // fresh double
float sx_f32(const char * name);
void sx_assume(bool);
void sx_assert(bool, const char * label);            // the property
void sx_reach(const char * label);                   // reachability witness
void sx_reach_if(bool, const char * label);          // witness: some path has the condition true
void sx_note(const char * label);                    // free-text marker (ignored by the solver)
uint64_t sx_pin(uint64_t);                           // enumerate the value (fork per value)
int sx_symbolic_f64(double);
int sx_symbolic(uint64_t);                            // is this value symbolic on this run (models only)
int sx_tier(void);                                   // 0 quick, 1 thorough
}
#ifndef SX_NATIVE
#define SX_IS_SYMBOLIC 1
#else
#define SX_IS_SYMBOLIC 0
#endif

void sx_harness();  // what a harness defines

namespace sx
{
inline std::string nm(const char * base, int i) { return std::string(base) + "#" + std::to_string(i); }
inline bool boolean(const char * n) { return (sx_bits(n, 1) & 1) != 0; }
inline bool boolean(const std::string & n) { return boolean(n.c_str()); }
inline uint8_t byte(const char * n) { return static_cast<uint8_t>(sx_bits(n, 8)); }
inline int64_t range(const char * n, int64_t lo, int64_t hi)
{
  const uint64_t span = static_cast<uint64_t>(hi - lo);
  unsigned bits = 1;
  while (bits < 64 && (span >> bits)) ++bits;
  const uint64_t v = sx_bits(n, bits);
  sx_assume(v <= span);
  return lo + static_cast<int64_t>(v);
}
inline int64_t range(const std::string & n, int64_t lo, int64_t hi) { return range(n.c_str(), lo, hi); }
// value enumerated by forking: afterwards it is concrete on each path
inline int64_t pick(const char * n, int64_t lo, int64_t hi)
{
  return lo + static_cast<int64_t>(sx_pin(static_cast<uint64_t>(range(n, lo, hi) - lo)));
}
inline int64_t pick(const std::string & n, int64_t lo, int64_t hi) { return pick(n.c_str(), lo, hi); }
inline double real(const char * n, double lo, double hi)
{
  const double v = sx_f64(n);
  sx_assume((v >= lo) & (v <= hi));
  return v;
}
inline double real(const std::string & n, double lo, double hi) { return real(n.c_str(), lo, hi); }
// exact multiple of `unit` (a power of two): decided over bit-vectors, without rounding
inline double grid(const std::string & n, int64_t lo, int64_t hi, double unit)
{
  return static_cast<double>(static_cast<int32_t>(range(n, lo, hi))) * unit;
}
}  // namespace sx
