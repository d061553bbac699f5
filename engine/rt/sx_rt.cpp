// Symbolic runtime: linked (uninstrumented) with the instrumented harness and repository code.
#include "../include/sx_ops.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern void sx_harness();

// allocations of the runtime itself must not go through the hooked operator new with clearing; they
// are harmless (clearing unshadowed memory is a no-op).
namespace
{
SxShared * S = nullptr;
bool g_verbose = false;
static bool g_fork_select = false;  // conditional moves explore both sides instead of building an if-then-else term
int g_tier = 0;
bool REAL = false;
constexpr uint32_t HB = 1u << 18;
uint32_t * g_hash = nullptr;
uint32_t NN = 1;  // next node (0 is reserved)

struct SB { uint32_t id; uint8_t off, conc; uint16_t pad; };
struct Page { SB b[4096]; };
std::unordered_map<uint64_t, Page *> * g_pages = nullptr;
uint64_t g_lastno = ~0ull; Page * g_last = nullptr;
std::unordered_map<uint32_t, int> * g_decided = nullptr;
std::unordered_map<const char *, uint32_t> * g_sites = nullptr;
std::unordered_map<std::string, int> * g_names = nullptr;
struct FnTab { const char ** tab; size_t n; };
std::vector<FnTab> * g_fns = nullptr;
std::unordered_set<std::string> * g_known = nullptr;
int g_input_hint = 0;
bool g_active = false;

[[noreturn]] void finish(uint32_t kind);

uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= mask(w); return (int64_t)((v ^ m) - m); }
double d_of(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
uint64_t u_of(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
float f_of(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
uint64_t u_of(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
double fv(uint64_t v, unsigned ty) { return ty == TY_F32 ? (double)f_of(v) : d_of(v); }
uint64_t fb(double d, unsigned ty) { return ty == TY_F32 ? u_of((float)d) : u_of(d); }

uint32_t addstr(const char * s)
{
  uint32_t n = strlen(s) + 1;
  if (S->n_str + n >= SX_MAX_STR) return 0;
  uint32_t o = S->n_str;
  memcpy(S->str + o, s, n);
  S->n_str += n;
  return o;
}
uint32_t site(const char * p)
{
  if (!p) return 0;
  auto it = g_sites->find(p);
  if (it != g_sites->end()) return it->second;
  return (*g_sites)[p] = addstr(p);
}
void opaque(const char * what)
{
  for (uint32_t i = 0; i < S->n_opaque; ++i) if (!strncmp(S->opaque[i], what, 95)) return;
  if (S->n_opaque >= 64) return;
  strncpy(S->opaque[S->n_opaque], what, 95);
  S->opaque[S->n_opaque][95] = 0;
  ++S->n_opaque;
}

uint32_t mk(uint8_t op, uint8_t ty, unsigned w, uint32_t aux, uint32_t a, uint32_t b, uint32_t c, uint64_t val)
{
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 31 + ty * 7 + aux * 0xC2B2AE3D27D4EB4Full;
  h ^= a * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51); h += b * 0x27D4EB2F165667C5ull;
  h ^= c * 0x85EBCA77C2B2AE63ull; if (op == OP_CONST) h ^= val * 0x9E3779B97F4A7C15ull;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  uint32_t & slot = g_hash[h & (HB - 1)];
  if (op != OP_VAR && op != OP_TABLE)
    for (uint32_t i = slot; i; i = S->nodes[i].hnext) {
      SxNode & n = S->nodes[i];
      if (n.op == op && n.ty == ty && n.w == w && n.aux == aux && n.a == a && n.b == b && n.c == c &&
          (op != OP_CONST || n.val == val)) return i;
    }
  if (NN >= SX_MAX_NODES - 1) finish(SXX_LIMIT);
  uint32_t id = NN++;
  SxNode & n = S->nodes[id];
  n.op = op; n.ty = ty; n.w = w; n.aux = aux; n.a = a; n.b = b; n.c = c; n.val = val; n.hnext = slot;
  slot = id;
  return id;
}
SxNode & N(uint32_t i) { return S->nodes[i]; }
bool isC(uint32_t i) { return N(i).op == OP_CONST; }
unsigned tw(unsigned ty, unsigned w) { return ty == TY_F64 ? 64 : ty == TY_F32 ? 32 : w; }
uint32_t cst(uint8_t ty, unsigned w, uint64_t v) { w = tw(ty, w); return mk(OP_CONST, ty, w, 0, 0, 0, 0, v & mask(w)); }
uint32_t arg(uint32_t s, uint8_t ty, unsigned w, uint64_t v) { return s ? s : cst(ty, w, v); }
uint32_t norm(uint32_t id) { return id && isC(id) ? 0 : id; }  // constants become concrete

uint64_t evalInt(int op, unsigned w, uint64_t a, uint64_t b)
{
  a &= mask(w); b &= mask(w);
  switch (op) {
    case OP_ADD: return (a + b) & mask(w);
    case OP_SUB: return (a - b) & mask(w);
    case OP_MUL: return (a * b) & mask(w);
    case OP_UDIV: return b ? a / b : mask(w);
    case OP_UREM: return b ? a % b : a;
    case OP_SDIV: { int64_t x = sext(a, w), y = sext(b, w); if (!y) return 0; if (y == -1) return (uint64_t)(-(uint64_t)x) & mask(w); return (uint64_t)(x / y) & mask(w); }
    case OP_SREM: { int64_t x = sext(a, w), y = sext(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & mask(w); }
    case OP_SHL: return b >= w ? 0 : (a << b) & mask(w);
    case OP_LSHR: return b >= w ? 0 : a >> b;
    case OP_ASHR: return (uint64_t)(sext(a, w) >> (b >= w ? w - 1 : b)) & mask(w);
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_EQ: return a == b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_SLT: return sext(a, w) < sext(b, w);
    case OP_SLE: return sext(a, w) <= sext(b, w);
    case OP_UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> w) != 0; }
    case OP_SMULO: { __int128 p = (__int128)sext(a, w) * sext(b, w); return p != (__int128)sext((uint64_t)p, w); }
  }
  return 0;
}
uint64_t evalF(int op, unsigned ty, uint64_t a, uint64_t b)
{
  if (ty == TY_F32) {
    float x = f_of(a), y = f_of(b);
    switch (op) {
      case OP_FADD: return u_of(x + y); case OP_FSUB: return u_of(x - y); case OP_FMUL: return u_of(x * y);
      case OP_FDIV: return u_of(x / y); case OP_FREM: return u_of(fmodf(x, y)); case OP_FCOPYSIGN: return u_of(copysignf(x, y));
      case OP_FMIN: return u_of(fminf(x, y)); case OP_FMAX: return u_of(fmaxf(x, y));
      case OP_ATAN2: return u_of(atan2f(x, y)); case OP_POW: return u_of(powf(x, y)); case OP_HYPOT: return u_of(hypotf(x, y));
    }
    return 0;
  }
  double x = d_of(a), y = d_of(b);
  switch (op) {
    case OP_FADD: return u_of(x + y); case OP_FSUB: return u_of(x - y); case OP_FMUL: return u_of(x * y);
    case OP_FDIV: return u_of(x / y); case OP_FREM: return u_of(fmod(x, y)); case OP_FCOPYSIGN: return u_of(copysign(x, y));
    case OP_FMIN: return u_of(fmin(x, y)); case OP_FMAX: return u_of(fmax(x, y));
    case OP_ATAN2: return u_of(atan2(x, y)); case OP_POW: return u_of(pow(x, y)); case OP_HYPOT: return u_of(hypot(x, y));
  }
  return 0;
}
uint64_t evalF1(int op, unsigned ty, uint64_t a)
{
  if (ty == TY_F32) {
    float x = f_of(a);
    switch (op) {
      case OP_FNEG: return u_of(-x); case OP_FABS: return u_of(fabsf(x)); case OP_FSQRT: return u_of(sqrtf(x));
      case OP_FFLOOR: return u_of(floorf(x)); case OP_FCEIL: return u_of(ceilf(x)); case OP_FTRUNC: return u_of(truncf(x));
      case OP_FRINT: return u_of(rintf(x)); case OP_FROUND: return u_of(roundf(x)); case OP_SIN: return u_of(sinf(x));
      case OP_COS: return u_of(cosf(x)); case OP_TAN: return u_of(tanf(x)); case OP_ASIN: return u_of(asinf(x));
      case OP_CBRT: return u_of(cbrtf(x)); case OP_ACOS: return u_of(acosf(x)); case OP_ATAN: return u_of(atanf(x)); case OP_EXP: return u_of(expf(x)); case OP_LOG: return u_of(logf(x));
    }
    return 0;
  }
  double x = d_of(a);
  switch (op) {
    case OP_FNEG: return u_of(-x); case OP_FABS: return u_of(fabs(x)); case OP_FSQRT: return u_of(sqrt(x));
    case OP_FFLOOR: return u_of(floor(x)); case OP_FCEIL: return u_of(ceil(x)); case OP_FTRUNC: return u_of(trunc(x));
    case OP_FRINT: return u_of(rint(x)); case OP_FROUND: return u_of(round(x)); case OP_SIN: return u_of(sin(x));
    case OP_COS: return u_of(cos(x)); case OP_TAN: return u_of(tan(x)); case OP_ASIN: return u_of(asin(x));
    case OP_CBRT: return u_of(cbrt(x)); case OP_ACOS: return u_of(acos(x)); case OP_ATAN: return u_of(atan(x)); case OP_EXP: return u_of(exp(x)); case OP_LOG: return u_of(log(x));
  }
  return 0;
}
bool evalCmp(unsigned p, double x, double y)
{
  bool uno = x != x || y != y;
  bool r = false;
  if (uno) return (p & 8) != 0;
  if (p & 1) r |= x == y;
  if (p & 2) r |= x > y;
  if (p & 4) r |= x < y;
  return r;
}
uint64_t evalCast(int op, unsigned sw, unsigned sty, unsigned dw, unsigned dty, uint64_t a)
{
  switch (op) {
    case OP_ZEXT: return a & mask(sw);
    case OP_SEXT: return (uint64_t)sext(a, sw) & mask(dw);
    case OP_EXTRACT: return a & mask(dw);
    case OP_FPTOSI: { double d = fv(a, sty); return (uint64_t)(int64_t)d & mask(dw); }
    case OP_FPTOUI: { double d = fv(a, sty); return (uint64_t)d & mask(dw); }
    case OP_SITOFP: return dty == TY_F32 ? u_of((float)sext(a, sw)) : u_of((double)sext(a, sw));
    case OP_UITOFP: return dty == TY_F32 ? u_of((float)(a & mask(sw))) : u_of((double)(a & mask(sw)));
    case OP_FPEXT: return u_of((double)f_of(a));
    case OP_FPTRUNC: return u_of((float)d_of(a));
    case OP_BITS2F: case OP_F2BITS: return a;
  }
  return 0;
}
bool nonfinite(uint32_t id) { auto & n = N(id); return n.op == OP_CONST && n.ty != TY_BV && !std::isfinite(fv(n.val, n.ty)); }

// ---- events
void ev(uint8_t kind, uint8_t taken, uint32_t node, uint64_t val, uint32_t st, uint32_t label)
{
  if (S->n_events >= SX_MAX_EVENTS - 2 || (S->max_events && S->n_events >= S->max_events && kind != EV_ASSERT)) finish(SXX_LIMIT);
  S->events[S->n_events++] = SxEvent{kind, taken, 0, node, val, st, label};
}
uint32_t extract(uint32_t x, unsigned lo, unsigned w);
uint32_t bin(int op, unsigned w, uint32_t a, uint32_t b);

uint32_t notb(uint32_t x) { return bin(OP_XOR, 1, x, cst(TY_BV, 1, 1)); }

uint32_t g_fc = 0;  // next dictated conc value
// returns the direction to follow
bool branch(uint32_t s, bool taken, uint32_t st)
{
  if (!s || isC(s)) return taken;
  if ((N(s).val & 1) != (uint64_t)taken) {
    if (!REAL) { ++S->n_mismatch; return taken; }
    N(s).val ^= 1;  // rounding
  }
  bool inv = false;
  while (N(s).op == OP_XOR && N(s).w == 1 && isC(N(s).b) && N(N(s).b).val == 1) { s = N(s).a; inv = !inv; }
  taken ^= inv;
  auto it = g_decided->find(s);
  if (it != g_decided->end()) return bool(it->second & 1) ^ inv;
  if (REAL && S->n_events < S->n_forced && S->forced[S->n_events] < 2) taken = S->forced[S->n_events];
  (*g_decided)[s] = taken;
  ev(EV_BRANCH, taken, s, taken, st, 0);
  return taken ^ inv;
}
uint64_t conc(uint32_t s, uint32_t st, bool lost, bool pin = false)
{
  if (!s) return 0;
  auto & n = N(s);
  if (isC(s)) return n.val;
  if (n.ty == TY_BV && n.w == 1) return branch(s, n.val & 1, st);
  auto it = g_decided->find(s);
  if (it != g_decided->end()) return n.val;
  (*g_decided)[s] = 2;
  if (n.ty != TY_BV && !(REAL && n.op == OP_FTRUNC)) { ++S->n_lost; ev(EV_FORCE, 1, s, n.val, st, 0); return n.val; }
  (void)lost;
  uint64_t v = n.val;
  if (REAL && S->n_events < S->n_forced && S->forced[S->n_events] == 2) {
    v = S->forced_val[g_fc++];
    if (v != n.val && !pin) { ++S->n_mismatch; opaque("real-mode drift of an integer value"); }
    n.val = v;
  }
  ev(EV_CONC, 1, s, v, st, 0);
  return v;
}

// ---- construction with simplification; operands are node ids (never 0)
uint32_t extract(uint32_t x, unsigned lo, unsigned w)
{
  auto & n = N(x);
  if (lo == 0 && w == n.w) return x;
  if (n.op == OP_CONST) return cst(TY_BV, w, n.val >> lo);
  if (n.op == OP_EXTRACT) return extract(n.a, n.aux + lo, w);
  if (n.op == OP_CONCAT) {
    unsigned lw = N(n.b).w;
    if (lo + w <= lw) return extract(n.b, lo, w);
    if (lo >= lw) return extract(n.a, lo - lw, w);
  }
  if (n.op == OP_ZEXT) {
    unsigned iw = N(n.a).w;
    if (lo + w <= iw) return extract(n.a, lo, w);
    if (lo >= iw) return cst(TY_BV, w, 0);
    if (lo == 0) return mk(OP_ZEXT, TY_BV, w, 0, n.a, 0, 0, N(n.a).val);
  }
  if (n.op == OP_SEXT && lo + w <= N(n.a).w) return extract(n.a, lo, w);
  if (lo == 0 && (n.op == OP_AND || n.op == OP_OR || n.op == OP_XOR || n.op == OP_ADD || n.op == OP_SUB || n.op == OP_MUL)) {
    int op = n.op; uint32_t a = n.a, b = n.b;
    return bin(op, w, extract(a, 0, w), extract(b, 0, w));
  }
  if ((n.op == OP_LSHR || n.op == OP_ASHR) && isC(n.b) && N(n.b).val < n.w && lo + w + N(n.b).val <= n.w) return extract(n.a, lo + N(n.b).val, w);
  if (n.op == OP_SHL && isC(n.b) && N(n.b).val <= lo) return extract(n.a, lo - N(n.b).val, w);
  if (n.op == OP_ITE && isC(n.b) && isC(n.c)) {
    uint32_t c = n.a, p = extract(n.b, lo, w), q = extract(N(x).c, lo, w);
    if (p == q) return p;
    return mk(OP_ITE, TY_BV, w, 0, c, p, q, (N(c).val & 1) ? N(p).val : N(q).val);
  }
  return mk(OP_EXTRACT, TY_BV, w, lo, x, 0, 0, (n.val >> lo) & mask(w));
}
uint32_t zext(uint32_t x, unsigned w)
{
  auto & n = N(x);
  if (n.w == w) return x;
  if (n.op == OP_CONST) return cst(TY_BV, w, n.val);
  if (n.op == OP_ZEXT) return zext(n.a, w);
  return mk(OP_ZEXT, TY_BV, w, 0, x, 0, 0, n.val);
}
uint32_t sextn(uint32_t x, unsigned w)
{
  auto & n = N(x);
  if (n.w == w) return x;
  if (n.op == OP_CONST) return cst(TY_BV, w, (uint64_t)sext(n.val, n.w));
  if (n.op == OP_ZEXT) return zext(n.a, w);  // strictly wider: top bit is 0
  if (n.op == OP_SEXT) return sextn(n.a, w);
  return mk(OP_SEXT, TY_BV, w, 0, x, 0, 0, (uint64_t)sext(n.val, n.w) & mask(w));
}
uint32_t ite(uint32_t c, uint32_t p, uint32_t q)
{
  if (isC(c)) return (N(c).val & 1) ? p : q;
  if (p == q) return p;
  if (N(c).op == OP_XOR && isC(N(c).b)) return ite(N(c).a, q, p);
  auto & a = N(p); auto & b = N(q);
  if (a.ty == TY_BV && a.w == 1) {
    if (isC(p) && isC(q)) return (a.val & 1) ? c : notb(c);
    if (isC(p)) return (a.val & 1) ? bin(OP_OR, 1, c, q) : bin(OP_AND, 1, notb(c), q);
    if (isC(q)) return (b.val & 1) ? bin(OP_OR, 1, notb(c), p) : bin(OP_AND, 1, c, p);
  }
  if (a.op == OP_ITE && a.a == c) return ite(c, a.b, q);
  if (b.op == OP_ITE && b.a == c) return ite(c, p, b.c);
  return mk(OP_ITE, a.ty, a.w, 0, c, p, q, (N(c).val & 1) ? a.val : b.val);
}
uint32_t concat(uint32_t hi, uint32_t lo)
{
  auto & h = N(hi); auto & l = N(lo);
  unsigned w = h.w + l.w;
  if (h.op == OP_CONST && l.op == OP_CONST) return cst(TY_BV, w, (h.val << l.w) | l.val);
  if (h.op == OP_CONST && h.val == 0) return zext(lo, w);
  if (h.op == OP_EXTRACT && l.op == OP_EXTRACT && h.a == l.a && h.aux == l.aux + l.w) return extract(h.a, l.aux, w);
  return mk(OP_CONCAT, TY_BV, w, 0, hi, lo, 0, (h.val << l.w) | l.val);
}
bool commut(int op) { return op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_EQ; }
bool isCmp(int op) { return op == OP_EQ || op == OP_ULT || op == OP_ULE || op == OP_SLT || op == OP_SLE || op == OP_UMULO || op == OP_SMULO; }

uint32_t bin(int op, unsigned w, uint32_t a, uint32_t b)
{
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return cst(TY_BV, rw, evalInt(op, w, N(a).val, N(b).val));
  if (commut(op) && (isC(a) || (!isC(b) && a > b))) std::swap(a, b);
  uint64_t bv = N(b).val & mask(w);
  if (isC(b)) {
    switch (op) {
      case OP_ADD: case OP_SUB: case OP_OR: case OP_XOR: case OP_SHL: case OP_LSHR: case OP_ASHR:
        if (bv == 0) return a;
        break;
      case OP_MUL: if (bv == 1) return a; if (bv == 0) return b; break;
      case OP_UDIV: case OP_SDIV: if (bv == 1) return a; break;
      case OP_AND: if (bv == mask(w)) return a; if (bv == 0) return b; break;
      default: break;
    }
    if (op == OP_OR && bv == mask(w)) return b;
    if (op == OP_XOR && N(a).op == OP_XOR && isC(N(a).b)) return bin(OP_XOR, w, N(a).a, cst(TY_BV, w, N(N(a).b).val ^ bv));
    if (op == OP_ADD && N(a).op == OP_ADD && isC(N(a).b)) return bin(OP_ADD, w, N(a).a, cst(TY_BV, w, N(N(a).b).val + bv));
    if (op == OP_AND && N(a).op == OP_ZEXT && (bv & mask(N(N(a).a).w)) == mask(N(N(a).a).w)) return a;
    if (op == OP_AND && bv == 0xFF && w > 8) return zext(extract(a, 0, 8), w);
    if (op == OP_AND && bv == 1 && w > 1) return zext(extract(a, 0, 1), w);
    if (op == OP_SUB) return bin(OP_ADD, w, a, cst(TY_BV, w, (uint64_t)(-(int64_t)bv)));
    if (op == OP_EQ) {
      auto & n = N(a);
      if (w == 1) return bv ? a : notb(a);
      if (n.op == OP_ZEXT) {
        unsigned iw = N(n.a).w;
        if (bv >> iw) return cst(TY_BV, 1, 0);
        return bin(OP_EQ, iw, n.a, cst(TY_BV, iw, bv));
      }
      if (n.op == OP_SEXT) {
        unsigned iw = N(n.a).w;
        if ((uint64_t)sext(bv, iw) != (uint64_t)sext(bv, w)) return cst(TY_BV, 1, 0);
        return bin(OP_EQ, iw, n.a, cst(TY_BV, iw, bv));
      }
      if (n.op == OP_ITE) {
        bool cb = isC(n.b), cc = isC(n.c);
        if (cb || cc) {
          uint32_t c0 = n.a, x = n.b, y = n.c;
          return ite(c0, bin(OP_EQ, w, x, b), bin(OP_EQ, w, y, b));
        }
      }
      if (n.op == OP_ADD && isC(n.b)) return bin(OP_EQ, w, n.a, cst(TY_BV, w, bv - N(n.b).val));
      if (n.op == OP_XOR && isC(n.b)) return bin(OP_EQ, w, n.a, cst(TY_BV, w, bv ^ N(n.b).val));
      if (n.op == OP_OR && bv == 0) return bin(OP_AND, 1, bin(OP_EQ, w, n.a, b), bin(OP_EQ, w, N(a).b, b));
    }
    if ((op == OP_ULT || op == OP_ULE) && N(a).op == OP_ZEXT) {
      unsigned iw = N(N(a).a).w;
      if (bv > mask(iw)) return cst(TY_BV, 1, 1);
      return bin(op, iw, N(a).a, cst(TY_BV, iw, bv));
    }
    if ((op == OP_SLT || op == OP_SLE) && N(a).op == OP_ZEXT && N(N(a).a).w < w) {
      if (sext(bv, w) < 0) return cst(TY_BV, 1, 0);
      unsigned iw = N(N(a).a).w;
      if (bv > mask(iw)) return cst(TY_BV, 1, 1);
      return bin(op == OP_SLT ? OP_ULT : OP_ULE, iw, N(a).a, cst(TY_BV, iw, bv));
    }
  }
  if (isC(a)) {
    uint64_t av = N(a).val & mask(w);
    if (av == 0 && (op == OP_SHL || op == OP_LSHR || op == OP_ASHR || op == OP_MUL || op == OP_UDIV || op == OP_UREM)) return cst(TY_BV, w, 0);
    if ((op == OP_ULT || op == OP_ULE) && N(b).op == OP_ZEXT) {
      unsigned iw = N(N(b).a).w;
      if (av > mask(iw)) return cst(TY_BV, 1, 0);
      return bin(op, iw, cst(TY_BV, iw, av), N(b).a);
    }
    if ((op == OP_SLT || op == OP_SLE) && N(b).op == OP_ZEXT && N(N(b).a).w < w) {
      if (sext(av, w) < 0) return cst(TY_BV, 1, 1);
      unsigned iw = N(N(b).a).w;
      if (av > mask(iw)) return cst(TY_BV, 1, 0);
      return bin(op == OP_SLT ? OP_ULT : OP_ULE, iw, cst(TY_BV, iw, av), N(b).a);
    }
  }
  if (a == b) {
    switch (op) {
      case OP_SUB: case OP_XOR: return cst(TY_BV, w, 0);
      case OP_AND: case OP_OR: return a;
      case OP_EQ: case OP_ULE: case OP_SLE: return cst(TY_BV, 1, 1);
      case OP_ULT: case OP_SLT: return cst(TY_BV, 1, 0);
      default: break;
    }
  }
  // zext(a) op zext(b) on comparisons
  if ((op == OP_EQ || op == OP_ULT || op == OP_ULE) && N(a).op == OP_ZEXT && N(b).op == OP_ZEXT && N(N(a).a).w == N(N(b).a).w)
    return bin(op, N(N(a).a).w, N(a).a, N(b).a);
  if ((op == OP_AND || op == OP_OR || op == OP_XOR) && N(a).op == OP_ZEXT && N(b).op == OP_ZEXT && N(N(a).a).w == N(N(b).a).w)
    return zext(bin(op, N(N(a).a).w, N(a).a, N(b).a), w);
  if (w == 1) {
    if (op == OP_EQ) return notb(bin(OP_XOR, 1, a, b));
    if (op == OP_AND && ((N(a).op == OP_XOR && N(a).a == b && isC(N(a).b)) || (N(b).op == OP_XOR && N(b).a == a && isC(N(b).b)))) return cst(TY_BV, 1, 0);
    if (op == OP_OR && ((N(a).op == OP_XOR && N(a).a == b && isC(N(a).b)) || (N(b).op == OP_XOR && N(b).a == a && isC(N(b).b)))) return cst(TY_BV, 1, 1);
  }
  return mk(op, TY_BV, rw, 0, a, b, 0, evalInt(op, w, N(a).val, N(b).val));
}

// an upper bound of the magnitude of a floating-point term, infinite unless the term is surely no NaN and finite
static double magnitude(uint32_t x, int depth = 0)
{
  const double none = std::numeric_limits<double>::infinity();
  auto & n = N(x);
  if (depth > 16) return none;
  double r = none;
  switch (n.op) {
    case OP_CONST: r = std::fabs(fv(n.val, n.ty)); break;
    case OP_SITOFP: case OP_UITOFP: r = std::ldexp(1.0, N(n.a).w); break;
    case OP_FNEG: case OP_FABS: case OP_FPEXT: r = magnitude(n.a, depth + 1); break;
    case OP_FADD: case OP_FSUB: r = magnitude(n.a, depth + 1) + magnitude(n.b, depth + 1); break;
    case OP_FMUL: r = magnitude(n.a, depth + 1) * magnitude(n.b, depth + 1); break;
    case OP_FDIV:
      if (N(n.b).op == OP_CONST && fv(N(n.b).val, n.ty) != 0) r = magnitude(n.a, depth + 1) / std::fabs(fv(N(n.b).val, n.ty));
      break;
    case OP_ITE: r = std::max(magnitude(n.b, depth + 1), magnitude(n.c, depth + 1)); break;
    default: break;
  }
  return r < (n.ty == TY_F32 ? 1e37 : 1e300) ? r : none;  // a NaN bound is not below either
}
uint32_t fcmp(unsigned pred, unsigned ty, uint32_t a, uint32_t b)
{
  bool v = evalCmp(pred, fv(N(a).val, ty), fv(N(b).val, ty));
  if (pred == 0 || pred == 15) return cst(TY_BV, 1, pred == 15);
  if (isC(a) && isC(b)) return cst(TY_BV, 1, v);
  if (REAL || (std::isfinite(magnitude(a)) && std::isfinite(magnitude(b)))) {
    if (REAL && (nonfinite(a) || nonfinite(b))) return cst(TY_BV, 1, v);  // the other side is finite
    if (pred == 7) return cst(TY_BV, 1, 1);  // ord
    if (pred == 8) return cst(TY_BV, 1, 0);  // uno
    pred = pred & 7;
    if (a == b) return cst(TY_BV, 1, pred & 1);
    if (pred == 6) return notb(fcmp(1, ty, a, b));
    if (pred == 5) return notb(fcmp(4, ty, b, a));
    if (pred == 3) return notb(fcmp(4, ty, a, b));
    if (pred == 2) return fcmp(4, ty, b, a);
    if (pred == 7) return cst(TY_BV, 1, 1);
    if (pred == 0) return cst(TY_BV, 1, 0);
  }
  // normalise unordered predicates to the negation of ordered ones
  if (pred & 8) return notb(fcmp(15 - pred, ty, a, b));
  if (pred == 2 || pred == 3) { std::swap(a, b); pred = pred == 2 ? 4 : 5; }
  if (N(a).op == OP_ITE && isC(b) && isC(N(a).b) && isC(N(a).c)) { auto n = N(a); return ite(n.a, fcmp(pred, ty, n.b, b), fcmp(pred, ty, n.c, b)); }
  if (N(b).op == OP_ITE && isC(a) && isC(N(b).b) && isC(N(b).c)) { auto n = N(b); return ite(n.a, fcmp(pred, ty, a, n.b), fcmp(pred, ty, a, n.c)); }
  return mk(OP_FCMP, TY_BV, 1, pred, a, b, 0, evalCmp(pred, fv(N(a).val, ty), fv(N(b).val, ty)));
}
uint32_t un(int op, uint32_t a);
// returns 0 when the result is a concrete (possibly non-finite) value on this path
uint32_t fbin(int op, unsigned ty, uint32_t a, uint32_t b)
{
  uint64_t v = evalF(op, ty, N(a).val, N(b).val);
  if (isC(a) && isC(b)) return 0;
  double av = fv(N(a).val, ty), bv = fv(N(b).val, ty);
  if (op == OP_POW && isC(b)) {
    if (bv == 2.0) return fbin(OP_FMUL, ty, a, a);
    if (bv == 1.0) return a;
    if (bv == 0.0) return 0;
    if (bv == 3.0) { uint32_t s = fbin(OP_FMUL, ty, a, a); return s ? fbin(OP_FMUL, ty, s, a) : 0; }
    if (bv == 4.0) { uint32_t s = fbin(OP_FMUL, ty, a, a); return s ? fbin(OP_FMUL, ty, s, s) : 0; }
    if (bv == 0.5) return un(OP_FSQRT, a);
  }
  if (REAL) {
    if (nonfinite(a) || nonfinite(b)) {
      bool an = nonfinite(a);
      uint32_t o = an ? b : a;
      double k = an ? av : bv;
      if (op == OP_FMIN || op == OP_FMAX) { if (k != k) return o; if ((k > 0) == (op == OP_FMIN)) return o; return 0; }
      if (k != k || op == OP_FADD || op == OP_FSUB) return 0;
      if (op == OP_FDIV && !an) return 0;  // finite / inf = 0
      uint32_t z = cst(ty, 64, fb(0.0, ty));
      uint32_t c = fcmp(4, ty, o, z);
      branch(c, N(c).val & 1, 0);
      c = fcmp(1, ty, o, z);
      branch(c, N(c).val & 1, 0);
      return 0;
    }
    if ((op == OP_FDIV || op == OP_FREM) && !isC(b)) {
      uint32_t z = cst(ty, 64, fb(0.0, ty));
      uint32_t c = fcmp(1, ty, b, z);
      if (branch(c, N(c).val & 1, 0)) {
        c = fcmp(4, ty, a, z); branch(c, N(c).val & 1, 0);
        c = fcmp(1, ty, a, z); branch(c, N(c).val & 1, 0);
        return 0;
      }
    }
    if (isC(b) && bv == 0.0 && (op == OP_FADD || op == OP_FSUB)) return a;
    if (isC(a) && av == 0.0 && op == OP_FADD) return b;
    if (op == OP_FMUL && ((isC(a) && av == 0.0) || (isC(b) && bv == 0.0))) return 0;
    if (op == OP_FDIV && isC(a) && av == 0.0) return 0;
    if (op == OP_FDIV && isC(b) && bv == 0.0) {
      uint32_t z = cst(ty, 64, fb(0.0, ty));
      uint32_t c = fcmp(4, ty, a, z); branch(c, N(c).val & 1, 0);
      c = fcmp(1, ty, a, z); branch(c, N(c).val & 1, 0);
      return 0;
    }
    if (op == OP_FSUB && a == b) return 0;
    if (op == OP_HYPOT) {
      uint32_t x = fbin(OP_FMUL, ty, a, a), y = fbin(OP_FMUL, ty, b, b);
      x = arg(x, ty, 64, evalF(OP_FMUL, ty, N(a).val, N(a).val));
      y = arg(y, ty, 64, evalF(OP_FMUL, ty, N(b).val, N(b).val));
      uint32_t s = fbin(OP_FADD, ty, x, y);
      return s ? un(OP_FSQRT, s) : 0;
    }
    if (op == OP_FMIN || op == OP_FMAX) {
      uint32_t c = fcmp(4, ty, a, b);
      return op == OP_FMIN ? ite(c, a, b) : ite(c, b, a);
    }
    if (op == OP_FCOPYSIGN) {
      uint32_t ab = un(OP_FABS, a);
      ab = arg(ab, ty, 64, evalF1(OP_FABS, ty, N(a).val));
      uint32_t ng = un(OP_FNEG, ab);
      ng = arg(ng, ty, 64, evalF1(OP_FNEG, ty, N(ab).val));
      uint32_t c = fcmp(4, ty, b, cst(ty, 64, fb(0.0, ty)));  // sign of -0.0 is outside the real model
      return norm(ite(c, ng, ab));
    }
  }
  if (isC(b) && bv == 1.0 && (op == OP_FMUL || op == OP_FDIV)) return a;
  if (op == OP_FDIV && isC(b) && ty == TY_F64 && !REAL) {  // exact for powers of two
    int e;
    double f = frexp(bv, &e);
    if ((f == 0.5 || f == -0.5) && e > -1000 && e < 1000) return fbin(OP_FMUL, ty, a, cst(ty, 64, u_of(1.0 / bv)));
  }
  if (isC(a) && av == 1.0 && op == OP_FMUL) return b;
  if ((op == OP_FADD || op == OP_FMUL) && a > b) std::swap(a, b);
  return mk(op, ty, ty == TY_F32 ? 32 : 64, 0, a, b, 0, v);
}
uint32_t un(int op, uint32_t a)
{
  auto n = N(a);
  unsigned ty = n.ty;
  if (isC(a)) return 0;
  if (op == OP_FNEG && n.op == OP_FNEG) return n.a;
  if (op == OP_FABS && (n.op == OP_FABS || n.op == OP_FSQRT)) return a;
  if (op == OP_FABS && n.op == OP_FNEG) return un(op, n.a);
  if (REAL) {
    uint32_t z = cst(ty, 64, fb(0.0, ty));
    if (op == OP_FSQRT || op == OP_LOG) {
      uint32_t c = fcmp(4, ty, a, z);
      if (branch(c, N(c).val & 1, 0)) return 0;
      if (op == OP_FSQRT && n.op == OP_FMUL && n.a == n.b) return un(OP_FABS, n.a);
    }
    if (op == OP_FABS && n.op == OP_FMUL && n.a == n.b) return a;
    if (op == OP_ACOS || op == OP_ASIN) {
      uint32_t c = fcmp(4, ty, a, cst(ty, 64, fb(-1.0, ty)));
      bool lo = branch(c, N(c).val & 1, 0);
      uint32_t c2 = fcmp(4, ty, cst(ty, 64, fb(1.0, ty)), a);
      bool hi = branch(c2, N(c2).val & 1, 0);
      if (lo || hi) return 0;
    }
  }
  if ((op == OP_FFLOOR || op == OP_FCEIL || op == OP_FTRUNC || op == OP_FRINT || op == OP_FROUND) &&
      (n.op == OP_SITOFP || n.op == OP_UITOFP || n.op == OP_FFLOOR || n.op == OP_FCEIL || n.op == OP_FTRUNC || n.op == OP_FRINT || n.op == OP_FROUND))
    return a;
  return mk(op, ty, n.w, 0, a, 0, 0, evalF1(op, ty, n.val));
}
uint32_t castn(int op, unsigned sw, unsigned sty, unsigned dw, unsigned dty, uint32_t a)
{
  auto n = N(a);
  if (op == OP_ZEXT) return zext(a, dw);
  if (op == OP_SEXT) return sextn(a, dw);
  if (op == OP_EXTRACT) return extract(a, 0, dw);
  if (op == OP_BITS2F && n.op == OP_F2BITS) return n.a;
  if (op == OP_F2BITS && n.op == OP_BITS2F) return n.a;
  if (op == OP_BITS2F && n.op == OP_CONST) return 0;
  if (op == OP_F2BITS && n.op == OP_ITE) {  // push through
    uint32_t p = castn(op, sw, sty, dw, dty, n.b), q = castn(op, sw, sty, dw, dty, n.c);
    p = arg(p, TY_BV, dw, N(n.b).val); q = arg(q, TY_BV, dw, N(n.c).val);
    return ite(n.a, p, q);
  }
  if (op == OP_BITS2F && n.op == OP_ITE) {
    auto side = [&](uint32_t x) -> uint32_t {
      if (isC(x)) return cst(dty, 0, N(x).val);
      return castn(op, sw, sty, dw, dty, x);
    };
    uint32_t p = side(n.b), q = side(N(a).c);
    return ite(n.a, p, q);
  }
  if (n.op == OP_CONST) return 0;
  if (REAL && (op == OP_FPTOSI || op == OP_FPTOUI)) {  // the integer is enumerated over the reals
    uint32_t t = un(OP_FTRUNC, a);
    if (t) conc(t, 0, false);
    return 0;
  }
  return mk(op, dty, tw(dty, dw), sw, a, 0, 0, evalCast(op, sw, sty, dw, dty, n.val));
}

// ---- shadow memory
Page * page(uint64_t no, bool create)
{
  if (no == g_lastno) return g_last;
  auto it = g_pages->find(no);
  if (it != g_pages->end()) { g_lastno = no; return g_last = it->second; }
  if (!create) return nullptr;
  Page * p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  (*g_pages)[no] = p;
  g_lastno = no;
  return g_last = p;
}
}  // namespace

extern "C" {
uint32_t _sx_args[64];
void * _sx_callee;
uint32_t _sx_ret[32];
void * _sx_ret_tag;
uint8_t _sx_bloom[65536];
uint8_t _sx_any;
void * _sx_byval[64];

void _sx_register(const char ** tab, void * n, void *)
{
  if (!g_fns) g_fns = new std::vector<FnTab>();
  g_fns->push_back({tab, (size_t)n});
}

uint32_t _sx_bin(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b)
{
  if (!sa && !sb) return 0;
  bool neg = op & 256;
  op &= 255;
  ++S->instr_ops;
  uint32_t x = arg(sa, TY_BV, w, a), y = arg(sb, TY_BV, w, b);
  if (N(x).w != w || N(y).w != w) { ++S->n_mismatch; opaque("width"); return 0; }
  if ((N(x).val & mask(w)) != (a & mask(w)) || (N(y).val & mask(w)) != (b & mask(w))) { ++S->n_mismatch; opaque("int operand"); return 0; }
  uint32_t r = bin(op, w, x, y);
  if (neg) r = notb(r);
  return norm(r);
}
uint32_t _sx_fbin(uint32_t op, uint32_t ty, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b)
{
  if (!sa && !sb) return 0;
  ++S->instr_ops;
  uint32_t x = arg(sa, ty, 64, a), y = arg(sb, ty, 64, b);
  if (N(x).ty != ty || N(y).ty != ty) { ++S->n_mismatch; opaque("fp type"); return 0; }
  if (N(x).val != a || N(y).val != b) {
    auto near = [&](double p, double q) { return p == q || (REAL && std::fabs(p - q) <= 1e-9 * std::max(1.0, std::fabs(p))); };
    if (!(fv(a, ty) != fv(a, ty) || fv(b, ty) != fv(b, ty) || (near(fv(N(x).val, ty), fv(a, ty)) && near(fv(N(y).val, ty), fv(b, ty))))) {
      ++S->n_mismatch; opaque("fp operand"); return 0;
    }
  }
  return norm(fbin(op, ty, x, y));
}
uint32_t _sx_fun(uint32_t op, uint32_t tc, uint32_t sa, uint64_t a)
{
  if (!sa) return 0;
  ++S->instr_ops;
  unsigned w = tc & 0xFFFF, ty = tc >> 16;
  if (op >= 1000) {  // is_fpclass
    unsigned m = op - 1000;
    uint32_t r = cst(TY_BV, 1, 0);
    uint32_t ab = arg(norm(un(OP_FABS, sa)), ty, 64, evalF1(OP_FABS, ty, a));
    uint32_t inf = cst(ty, 64, fb(INFINITY, ty)), z = cst(ty, 64, fb(0.0, ty));
    uint32_t neg = fcmp(4, ty, sa, z);
    if (m & 3) r = bin(OP_OR, 1, r, fcmp(8, ty, sa, sa));
    if (m & 0x204) {
      uint32_t isinf = fcmp(1, ty, ab, inf);
      if ((m & 0x204) == 0x4) isinf = bin(OP_AND, 1, isinf, neg);
      if ((m & 0x204) == 0x200) isinf = bin(OP_AND, 1, isinf, notb(neg));
      r = bin(OP_OR, 1, r, isinf);
    }
    unsigned fin = m & 0x1F8;
    if (fin == 0x1F8) r = bin(OP_OR, 1, r, fcmp(4, ty, ab, inf));
    else if (fin == 0x60) r = bin(OP_OR, 1, r, fcmp(1, ty, sa, z));
    else if (fin == 0x198 || fin == 0x108 ) { // non-zero finite / normal: approximated away
      opaque("fpclass"); conc(sa, 0, true); return 0;
    } else if (fin) { opaque("fpclass"); conc(sa, 0, true); return 0; }
    return norm(r);
  }
  if (op == OP_CTPOP || op == OP_CTLZ || op == OP_CTTZ || op == OP_BSWAP) {
    uint64_t v = 0; a &= mask(w);
    if (op == OP_CTPOP) v = __builtin_popcountll(a);
    if (op == OP_CTLZ) { v = a ? __builtin_clzll(a) - (64 - w) : w; }
    if (op == OP_CTTZ) v = a ? __builtin_ctzll(a) : w;
    if (op == OP_BSWAP) v = __builtin_bswap64(a) >> (64 - w);
    if (isC(sa)) return 0;
    return mk(op, TY_BV, w, 0, sa, 0, 0, v);
  }
  if (N(sa).ty != ty) { ++S->n_mismatch; opaque("fun type"); return 0; }
  return norm(un(op, sa));
}
uint32_t _sx_fcmp(uint32_t pred, uint32_t ty, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b)
{
  if (!sa && !sb) return 0;
  ++S->instr_ops;
  uint32_t x = arg(sa, ty, 64, a), y = arg(sb, ty, 64, b);
  if (N(x).ty != ty || N(y).ty != ty) { ++S->n_mismatch; opaque("fcmp type"); return 0; }
  return norm(fcmp(pred, ty, x, y));
}
uint32_t _sx_cast(uint32_t op, uint32_t stc, uint32_t dtc, uint32_t s, uint64_t a)
{
  if (!s) return 0;
  ++S->instr_ops;
  unsigned sw = stc & 0xFFFF, sty = stc >> 16, dw = dtc & 0xFFFF, dty = dtc >> 16;
  if (N(s).ty != sty || N(s).w != tw(sty, sw)) { ++S->n_mismatch; opaque("cast"); return 0; }
  (void)a;
  return norm(castn(op, sw, sty, dw, dty, s));
}
uint32_t _sx_ite(uint32_t sc, uint32_t c, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b, uint32_t tc)
{
  if (!sc || isC(sc)) return c ? sa : sb;
  ++S->instr_ops;
  unsigned w = tc & 0xFFFF, ty = tc >> 16;
  uint32_t x = arg(sa, ty, w, a), y = arg(sb, ty, w, b);
  if ((N(sc).val & 1) != (uint64_t)(c & 1)) { ++S->n_mismatch; opaque("ite cond"); return 0; }
  if (g_fork_select || (REAL && ty != TY_BV && (nonfinite(x) || nonfinite(y)))) {
    branch(sc, c & 1, 0);
    return c ? sa : sb;
  }
  return norm(ite(sc, x, y));
}
uint32_t _sx_ovf(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b)
{
  if (!sa && !sb) return 0;
  uint32_t x = arg(sa, TY_BV, w, a), y = arg(sb, TY_BV, w, b);
  uint32_t r = 0, z = cst(TY_BV, w, 0);
  switch (op) {
    case 0: r = bin(OP_ULT, w, bin(OP_ADD, w, x, y), x); break;
    case 1: { uint32_t s = bin(OP_ADD, w, x, y); r = bin(OP_SLT, w, bin(OP_AND, w, bin(OP_XOR, w, x, s), bin(OP_XOR, w, y, s)), z); break; }
    case 2: r = bin(OP_ULT, w, x, y); break;
    case 3: { uint32_t s = bin(OP_SUB, w, x, y); r = bin(OP_SLT, w, bin(OP_AND, w, bin(OP_XOR, w, x, y), bin(OP_XOR, w, x, s)), z); break; }
    case 4: r = bin(OP_UMULO, w, x, y); break;
    default: r = bin(OP_SMULO, w, x, y); break;
  }
  return norm(r);
}
// 1 = go the other way than the concrete condition
uint32_t _sx_branch(uint32_t s, uint32_t c, const char * st) { return branch(s, c & 1, site(st)) != (bool)(c & 1); }
void _sx_conc(uint32_t s, uint64_t v, const char * st)
{
  if (!s) return;
  if (N(s).ty == TY_BV && (N(s).val & mask(N(s).w)) != (v & mask(N(s).w))) { ++S->n_mismatch; opaque("conc"); return; }
  conc(s, site(st), false);
}
void _sx_lost(uint32_t s, uint64_t, const char * what)
{
  if (!s) return;
  opaque(what);
  conc(s, site(what), true);
}
void _sx_lost_args(uint32_t n, const char * name, void *)
{
  _sx_callee = nullptr;
  for (uint32_t i = 0; i < n && i < 64; ++i)
    if (_sx_args[i]) {
      std::string w = std::string("arg:") + name;
      opaque(w.c_str());
      conc(_sx_args[i], site(name), true);
    }
}
void _sx_opaque_ptr(void * p, const char * name)
{
  if (g_known && g_known->count(name)) return;  // executed symbolically as well
  uint64_t a = (uint64_t)p;
  Page * pg = page(a >> 12, false);
  if (!pg) return;
  uint64_t o = a & 4095;
  for (int i = 0; i < 16 && o + i < 4096; ++i)
    if (pg->b[o + i].id && pg->b[o + i].conc == ((uint8_t *)p)[i]) {
      std::string w = std::string("mem:") + name;
      opaque(w.c_str());
      return;
    }
}
void _sx_clear(void * p, uint64_t n)
{
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) {
    uint64_t no = a >> 12, pe = (no + 1) << 12;
    if (pe > e) pe = e;
    if (_sx_bloom[no & 0xFFFF])
      if (Page * pg = page(no, false)) memset(&pg->b[a & 4095], 0, sizeof(SB) * (pe - a));
    a = pe;
  }
}
void _sx_store(void * p, uint32_t n, uint32_t s, uint64_t v)
{
  if (!s) { _sx_clear(p, n); return; }
  auto & nd = N(s);
  if (nd.ty == TY_BV && nd.w != n * 8) s = zext(s, n * 8);
  uint64_t val = N(s).val;
  if (val != v && !(N(s).ty != TY_BV)) {
    if ((val & mask(n * 8)) != (v & mask(n * 8))) { ++S->n_mismatch; opaque("store"); _sx_clear(p, n); return; }
  }
  _sx_any = 1;
  uint64_t a = (uint64_t)p;
  for (uint32_t i = 0; i < n; ++i, ++a) {
    Page * pg = page(a >> 12, true);
    _sx_bloom[(a >> 12) & 0xFFFF] = 1;
    pg->b[a & 4095] = SB{s, (uint8_t)i, (uint8_t)(v >> (8 * i)), 0};
  }
}
static uint32_t retype(uint32_t r, unsigned w, unsigned ty)
{
  if (!r) return 0;
  auto & n = N(r);
  if (ty == n.ty) { if (ty == TY_BV && n.w > w) return norm(extract(r, 0, w)); return r; }
  if (ty == TY_BV) { r = castn(OP_F2BITS, tw(n.ty, 0), n.ty, tw(n.ty, 0), TY_BV, r); if (r && N(r).w > w) r = extract(r, 0, w); return norm(r); }
  if (n.ty == TY_BV) return norm(castn(OP_BITS2F, n.w, TY_BV, w, ty, r));
  opaque("retype");
  return 0;
}
uint32_t _sx_load(void * p, uint32_t n, uint32_t tc)
{
  uint64_t a = (uint64_t)p;
  unsigned w = tc & 0xFFFF, ty = tc >> 16;
  SB e[8];
  bool any = false;
  for (uint32_t i = 0; i < n && i < 8; ++i) {
    uint64_t x = a + i;
    Page * pg = page(x >> 12, false);
    if (!pg) { e[i] = SB{0, 0, 0, 0}; continue; }
    SB & b = pg->b[x & 4095];
    if (b.id && b.conc != ((uint8_t *)p)[i]) { b = SB{0, 0, 0, 0}; }
    e[i] = b;
    any |= b.id != 0;
  }
  if (!any) return 0;
  ++S->instr_ops;
  // whole value
  bool whole = e[0].id && e[0].off == 0;
  for (uint32_t i = 1; i < n && whole; ++i) whole = e[i].id == e[0].id && e[i].off == i;
  if (whole) {
    auto & nd = N(e[0].id);
    unsigned nw = tw(nd.ty, nd.w);
    if (nw == n * 8) return retype(e[0].id, w, ty);
  }
  uint32_t acc = 0;
  for (uint32_t i = 0; i < n;) {
    uint32_t part;
    uint32_t j = i + 1;
    if (e[i].id) {
      while (j < n && e[j].id == e[i].id && e[j].off == e[i].off + (j - i)) ++j;
      uint32_t src = e[i].id;
      if (N(src).ty != TY_BV) {
        uint32_t f = castn(OP_F2BITS, tw(N(src).ty, 0), N(src).ty, tw(N(src).ty, 0), TY_BV, src);
        src = arg(f, TY_BV, tw(N(src).ty, 0), N(src).val);
      }
      part = extract(src, e[i].off * 8, (j - i) * 8);
    } else
      part = cst(TY_BV, 8, ((uint8_t *)p)[i]);
    acc = acc ? concat(part, acc) : part;
    i = j;
  }
  return retype(norm(acc), w, ty);
}

static bool readable(uint64_t a, size_t n)
{
  // probe through a pipe-less syscall: write() from the address to /dev/null fails on EFAULT? use a pipe
  static int pp[2] = {-1, -1};
  if (pp[0] < 0) { if (pipe(pp)) return false; fcntl(pp[0], F_SETFL, O_NONBLOCK); }
  ssize_t r = write(pp[1], (void *)a, n);
  if (r != (ssize_t)n) return false;
  char buf[16];
  r = read(pp[0], buf, n);
  return true;
}
static bool evalWith(uint32_t id, uint32_t cut, uint64_t v, uint64_t & out, int depth = 0)
{
  if (id == cut) { out = v; return true; }
  auto & n = N(id);
  if (n.op == OP_CONST) { out = n.val; return true; }
  if (depth > 64) return false;
  uint64_t a, b, c;
  switch (n.op) {
    case OP_ADD: case OP_SUB: case OP_MUL: case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM: case OP_SHL: case OP_LSHR:
    case OP_ASHR: case OP_AND: case OP_OR: case OP_XOR: case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE:
      if (!evalWith(n.a, cut, v, a, depth + 1) || !evalWith(n.b, cut, v, b, depth + 1)) return false;
      out = evalInt(n.op, N(n.a).w, a, b);
      return true;
    case OP_ZEXT: if (!evalWith(n.a, cut, v, out, depth + 1)) return false; return true;
    case OP_SEXT: if (!evalWith(n.a, cut, v, a, depth + 1)) return false; out = (uint64_t)sext(a, N(n.a).w) & mask(n.w); return true;
    case OP_EXTRACT: if (!evalWith(n.a, cut, v, a, depth + 1)) return false; out = (a >> n.aux) & mask(n.w); return true;
    case OP_CONCAT: if (!evalWith(n.a, cut, v, a, depth + 1) || !evalWith(n.b, cut, v, b, depth + 1)) return false; out = (a << N(n.b).w) | b; return true;
    case OP_ITE: if (!evalWith(n.a, cut, v, c, depth + 1) || !evalWith((c & 1) ? n.b : n.c, cut, v, out, depth + 1)) return false; return true;
    default: return false;
  }
}
static bool findCut(uint32_t id, uint32_t & cut, int depth = 0)
{
  auto & n = N(id);
  if (n.op == OP_CONST) return true;
  if (n.ty != TY_BV || depth > 32) return false;
  if (n.w <= 8) { if (cut && cut != id) return false; cut = id; return true; }
  switch (n.op) {
    case OP_ADD: case OP_SUB: case OP_MUL: case OP_SHL: case OP_LSHR: case OP_ASHR: case OP_AND: case OP_OR: case OP_XOR:
      return findCut(n.a, cut, depth + 1) && findCut(n.b, cut, depth + 1);
    case OP_ZEXT: case OP_SEXT: return findCut(n.a, cut, depth + 1);
    case OP_EXTRACT: return findCut(n.a, cut, depth + 1);
    default: return false;
  }
}
static uint32_t loadIte(uint32_t sp, uint64_t addr, uint32_t n, uint32_t tc, int depth, bool & ok)
{
  // returns a node id (CONST allowed)
  unsigned w = tc & 0xFFFF, ty = tc >> 16;
  if (isC(sp)) {
    uint64_t a = N(sp).val;
    if (!readable(a, n)) { ok = false; return 0; }
    uint64_t v = 0;
    memcpy(&v, (void *)a, n);
    uint32_t s = _sx_load((void *)a, n, tc);
    return arg(s, ty, w, v);
  }
  if (N(sp).op == OP_ITE && depth < 8) {
    auto nd = N(sp);
    uint32_t x = loadIte(nd.b, 0, n, tc, depth + 1, ok);
    if (!ok) return 0;
    uint32_t y = loadIte(nd.c, 0, n, tc, depth + 1, ok);
    if (!ok) return 0;
    if (REAL && ty != TY_BV && (nonfinite(x) || nonfinite(y))) { ok = false; return 0; }
    return ite(nd.a, x, y);
  }
  if (N(sp).op == OP_ADD && isC(N(sp).b) && N(N(sp).a).op == OP_ITE && depth < 8) {
    auto nd = N(N(sp).a);
    uint32_t k = N(sp).b;
    uint32_t x = loadIte(bin(OP_ADD, 64, nd.b, k), 0, n, tc, depth + 1, ok);
    if (!ok) return 0;
    uint32_t y = loadIte(bin(OP_ADD, 64, nd.c, k), 0, n, tc, depth + 1, ok);
    if (!ok) return 0;
    if (REAL && ty != TY_BV && (nonfinite(x) || nonfinite(y))) { ok = false; return 0; }
    return ite(nd.a, x, y);
  }
  (void)addr;
  ok = false;
  return 0;
}
uint32_t _sx_load_sym(uint32_t sp, void * p, uint32_t n, uint32_t tc, const char * st)
{
  if (!sp || isC(sp)) return _sx_load(p, n, tc);
  if (g_decided->count(sp)) return _sx_load(p, n, tc);
  unsigned w = tc & 0xFFFF, ty = tc >> 16;
  {
    bool ok = true;
    uint32_t r = loadIte(sp, (uint64_t)p, n, tc, 0, ok);
    if (ok) return norm(r);
  }
  uint32_t cut = 0;
  if (ty == TY_BV && n <= 8 && findCut(sp, cut) && cut) {
    unsigned cw = N(cut).w;
    uint32_t cnt = 1u << cw;
    if (S->n_data + cnt < SX_MAX_DATA) {
      uint32_t off = S->n_data;
      bool ok = true, ident = cw == 8;
      for (uint32_t v = 0; v < cnt && ok; ++v) {
        uint64_t a = 0;
        if (!evalWith(sp, cut, v, a)) { ok = false; break; }
        uint64_t x = 0;
        if (readable(a, n)) memcpy(&x, (void *)a, n);
        else x = 0;
        // a symbolic byte there: fall back
        if (_sx_bloom[(a >> 12) & 0xFFFF]) {
          Page * pg = page(a >> 12, false);
          if (pg) for (uint32_t i = 0; i < n && (a & 4095) + i < 4096; ++i) if (pg->b[(a & 4095) + i].id) ok = false;
        }
        S->data[off + v] = x;
        if ((x & mask(w)) != v) ident = false;
      }
      if (ok) {
        if (ident) return norm(w == cw ? cut : w > cw ? zext(cut, w) : extract(cut, 0, w));
        uint64_t cv = 0; memcpy(&cv, p, n);
        // share identical tables
        for (uint32_t o = 0; o + cnt <= off; o += 1) {
          if (S->data[o] == S->data[off] && !memcmp(&S->data[o], &S->data[off], cnt * 8)) { off = o; break; }
        }
        if (off == S->n_data) S->n_data += cnt;
        return mk(OP_TABLE, TY_BV, w, n, cut, off, cnt, cv & mask(w));
      }
    }
  }
  conc(sp, site(st), false);
  return _sx_load(p, n, tc);
}
void _sx_lost_mem(void * p, uint64_t n, const char * st)
{
  for (uint64_t i = 0; i < n; i += 8) {
    if (!_sx_bloom[(((uint64_t)p + i) >> 12) & 0xFFFF]) continue;
    uint32_t k = n - i < 8 ? n - i : 8;
    uint32_t s = _sx_load((char *)p + i, k, k * 8);
    if (s) { opaque((std::string("wide-load:") + st).c_str()); conc(s, site(st), true); }
  }
}
void _sx_memcpy(void * d, void * s, uint64_t n)
{
  if (n == 0) return;
  if (d == s) return;
  std::vector<SB> tmp;
  bool any = false;
  for (uint64_t a = (uint64_t)s, e = a + n; a < e;) {
    uint64_t pe = ((a >> 12) + 1) << 12;
    if (pe > e) pe = e;
    if (_sx_bloom[(a >> 12) & 0xFFFF] && page(a >> 12, false)) any = true;
    a = pe;
  }
  if (!any) { _sx_clear(d, n); return; }
  tmp.resize(n);
  bool sym = false;
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t a = (uint64_t)s + i;
    Page * pg = page(a >> 12, false);
    if (pg) { tmp[i] = pg->b[a & 4095]; if (tmp[i].id && tmp[i].conc != *(uint8_t *)a) tmp[i] = SB{0, 0, 0, 0}; sym |= tmp[i].id != 0; }
    else tmp[i] = SB{0, 0, 0, 0};
  }
  if (!sym) { _sx_clear(d, n); return; }
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t a = (uint64_t)d + i;
    Page * pg = page(a >> 12, true);
    _sx_bloom[(a >> 12) & 0xFFFF] = 1;
    pg->b[a & 4095] = tmp[i];
  }
}
void _sx_memset(void * d, uint64_t n, uint32_t s, uint64_t v)
{
  if (!s) { _sx_clear(d, n); return; }
  if (N(s).w != 8) s = extract(s, 0, 8);
  for (uint64_t i = 0; i < n; ++i) _sx_store((char *)d + i, 1, norm(s), v & 255);
}

// memcmp as one expression (no forking)
static int rt_memcmp(const void * a, const void * b, size_t n, bool onlyEq)
{
  const uint8_t *p = (const uint8_t *)a, *q = (const uint8_t *)b;
  _sx_ret_tag = nullptr;
  bool any = false;
  if (g_active)
    for (size_t i = 0; i < n && !any; ++i) {
      any = (_sx_bloom[(((uint64_t)p + i) >> 12) & 0xFFFF] && _sx_load((void *)(p + i), 1, 8)) ||
            (_sx_bloom[(((uint64_t)q + i) >> 12) & 0xFFFF] && _sx_load((void *)(q + i), 1, 8));
    }
  int r = 0;
  for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) { r = (int)p[i] - (int)q[i]; break; }
  if (onlyEq) r = r != 0;
  if (any) {
    uint32_t acc = cst(TY_BV, 32, 0);
    for (size_t i = n; i-- > 0;) {
      uint32_t x = arg(_sx_load((void *)(p + i), 1, 8), TY_BV, 8, p[i]);
      uint32_t y = arg(_sx_load((void *)(q + i), 1, 8), TY_BV, 8, q[i]);
      uint32_t eq = bin(OP_EQ, 8, x, y);
      uint32_t diff = onlyEq ? cst(TY_BV, 32, 1) : bin(OP_SUB, 32, zext(x, 32), zext(y, 32));
      acc = ite(eq, acc, diff);
    }
    acc = norm(acc);
    if (acc) { _sx_ret[0] = acc; }
    else _sx_ret[0] = 0;
  } else
    _sx_ret[0] = 0;
  return r;
}
// the length is enumerated if symbolic
static void pinArg(int i, void * self)
{
  if (_sx_callee == self) { if (_sx_args[i]) conc(_sx_args[i], 0, false); }
}
int sxm_memcmp(const void * a, const void * b, size_t n)
{
  pinArg(2, (void *)sxm_memcmp); _sx_callee = nullptr;
  int r = rt_memcmp(a, b, n, false);
  _sx_ret_tag = (void *)sxm_memcmp;
  return r;
}
int sxm_bcmp(const void * a, const void * b, size_t n)
{
  pinArg(2, (void *)sxm_bcmp); _sx_callee = nullptr;
  int r = rt_memcmp(a, b, n, true);
  _sx_ret_tag = (void *)sxm_bcmp;
  return r;
}
// any function of the bytes is a correct hash; a constant keeps symbolic keys out of the buckets
size_t sxm_hash_bytes(const void *, size_t, size_t) { _sx_callee = nullptr; _sx_ret_tag = nullptr; return 42; }

// ---- harness API
static uint32_t argShadow(int i, void * self)
{
  return _sx_callee == self ? _sx_args[i] : 0;
}
static uint64_t input(const char * name, std::string & full)
{
  full = name;
  int k = (*g_names)[full]++;
  if (k) full += "~" + std::to_string(k);
  for (uint32_t j = 0; j < S->n_inputs; ++j) {
    uint32_t i = (g_input_hint + j) % S->n_inputs;
    if (!strncmp(S->inputs[i].name, full.c_str(), 47)) { g_input_hint = i + 1; return S->inputs[i].val; }
  }
  return 0;
}
uint64_t sx_bits(const char * name, unsigned bits)
{
  _sx_callee = nullptr;
  std::string full;
  uint64_t v = input(name, full) & mask(bits);
  uint32_t id = mk(OP_VAR, TY_BV, bits, addstr(full.c_str()), 0, 0, 0, v);
  if (bits < 64) id = zext(id, 64);
  _sx_ret[0] = id;
  _sx_ret_tag = (void *)sx_bits;
  return v;
}
double sx_f64(const char * name)
{
  _sx_callee = nullptr;
  std::string full;
  uint64_t v = input(name, full);
  _sx_ret[0] = mk(OP_VAR, TY_F64, 64, addstr(full.c_str()), 0, 0, 0, v);
  _sx_ret_tag = (void *)sx_f64;
  return d_of(v);
}
float sx_f32(const char * name)
{
  _sx_callee = nullptr;
  std::string full;
  uint64_t v = input(name, full);
  _sx_ret[0] = mk(OP_VAR, TY_F32, 32, addstr(full.c_str()), 0, 0, 0, v);
  _sx_ret_tag = (void *)sx_f32;
  return f_of(v);
}
void sx_assume(bool c)
{
  uint32_t s = argShadow(0, (void *)sx_assume);
  _sx_callee = nullptr;
  if (s && !isC(s)) {
    if ((N(s).val & 1) != (uint64_t)c) { ++S->n_mismatch; opaque("assume"); }
    else {
      bool inv = false;
      while (N(s).op == OP_XOR && N(s).w == 1 && isC(N(s).b) && N(N(s).b).val == 1) { s = N(s).a; inv = !inv; }
      auto it = g_decided->find(s);
      if (it != g_decided->end()) c = bool(it->second & 1) ^ inv;
      else {
        if (REAL && S->n_events < S->n_forced && S->forced[S->n_events] < 2) c = S->forced[S->n_events] ^ inv;
        (*g_decided)[s] = c ^ inv;
        ev(EV_ASSUME, c ^ inv, s, c ^ inv, 0, inv);
      }
    }
  }
  if (!c) finish(SXX_ASSUME);
}
void sx_assert(bool c, const char * label)
{
  uint32_t s = argShadow(0, (void *)sx_assert);
  _sx_callee = nullptr;
  uint32_t l = site(label);
  if (s && (N(s).val & 1) != (uint64_t)c) { ++S->n_mismatch; opaque("assert"); s = 0; }
  if (REAL && s && !isC(s)) c = true;  // the solver decides; the path continues where it holds
  ev(EV_ASSERT, c, s && !isC(s) ? s : 0, c, 0, l);
  if (!c) { S->exit_label = l; finish(SXX_ASSERT); }
}
void sx_reach(const char * label) { _sx_callee = nullptr; ev(EV_WITNESS, 1, 0, 1, 0, site(label)); }
void sx_reach_if(bool c, const char * label)
{
  uint32_t s = argShadow(0, (void *)sx_reach_if);
  _sx_callee = nullptr;
  ev(EV_WITNESS, c, s && !isC(s) ? s : 0, c, 0, site(label));
}
void sx_note(const char *) { _sx_callee = nullptr; }
uint64_t sx_pin(uint64_t v)
{
  uint32_t s = argShadow(0, (void *)sx_pin);
  _sx_callee = nullptr;
  if (s) v = conc(s, site("sx_pin"), false, true);
  _sx_ret_tag = nullptr;
  return v;
}
int sx_symbolic_f64(double)
{
  uint32_t s = argShadow(0, (void *)sx_symbolic_f64);
  _sx_callee = nullptr;
  _sx_ret_tag = nullptr;
  return s && !isC(s);
}
int sx_symbolic(uint64_t)
{
  uint32_t s = argShadow(0, (void *)sx_symbolic);
  _sx_callee = nullptr;
  _sx_ret_tag = nullptr;
  return s && !isC(s);
}
int sx_tier(void) { _sx_callee = nullptr; _sx_ret_tag = nullptr; return g_tier; }
int _sx_dropc(int c) { return c; }
// used by the instrumented libc models
void _sx_note_opaque(const char * what) { opaque(what); }
}  // extern "C"

void * operator new(size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (_sx_any) _sx_clear(p, n);
  return p;
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { if (p && _sx_any) _sx_clear(p, malloc_usable_size(p)); free(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }

namespace
{
void copyTouched()
{
  uint32_t k = 0;
  if (!g_fns) return;
  for (auto & t : *g_fns)
    for (size_t i = 0; i < t.n; ++i, ++k)
      if (k < SX_MAX_FN) S->fn_touched[k] = *(const uint8_t *)t.tab[2 * i + 1];
}
[[noreturn]] void finish(uint32_t kind)
{
  S->n_nodes = NN;
  copyTouched();
  S->exit_kind = kind;
  _exit(0);
}
void onTerm()
{
  // uncaught exception or terminate
  const char * l = "terminate";
  if (auto * t = abi::__cxa_current_exception_type()) l = t->name();
  if (g_verbose) {
    try { throw; } catch (std::exception & e) { dprintf(2, "uncaught: %s\n", e.what()); } catch (...) {}
  }
  S->exit_label = addstr(l);
  finish(SXX_EXCEPTION);
}
}  // namespace

extern "C" void sxm_init();
// weak: a harness may do expensive concrete set-up once, before the runs are forked
__attribute__((weak)) void sx_setup();

int main(int, char **)
{
  g_verbose = getenv("SX_VERBOSE") != nullptr;
  g_fork_select = getenv("SX_FORK_SELECT") != nullptr;
  const char * tier = getenv("VERIF_TIER");
  g_tier = tier && !strcmp(tier, "thorough");
  int shmfd = atoi(getenv("SX_SHM_FD"));
  S = (SxShared *)mmap(nullptr, sizeof(SxShared), PROT_READ | PROT_WRITE, MAP_SHARED, shmfd, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  g_hash = (uint32_t *)mmap(nullptr, HB * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_pages = new std::unordered_map<uint64_t, Page *>();
  g_decided = new std::unordered_map<uint32_t, int>();
  g_sites = new std::unordered_map<const char *, uint32_t>();
  g_names = new std::unordered_map<std::string, int>();
  if (const char * f = getenv("SX_FN_FILE")) {  // in a child: every server keeps the same heap
    pid_t w = fork();
    if (w == 0) {
      if (FILE * o = fopen(f, "w")) {
        if (g_fns) for (auto & t : *g_fns) for (size_t i = 0; i < t.n; ++i) fprintf(o, "%s\n", t.tab[2 * i]);
        fclose(o);
      }
      _exit(0);
    }
    waitpid(w, nullptr, 0);
  }
  g_known = new std::unordered_set<std::string>();
  if (g_fns) for (auto & t : *g_fns) for (size_t i = 0; i < t.n; ++i) g_known->insert(t.tab[2 * i]);
  std::set_terminate(onTerm);
  sxm_init();
  if (sx_setup) sx_setup();
  if (!g_verbose) { int z = open("/dev/null", O_RDWR); dup2(z, 1); dup2(z, 2); }
  int rfd = atoi(getenv("SX_RFD")), wfd = atoi(getenv("SX_WFD"));
  char c;
  while (read(rfd, &c, 1) == 1) {
    S->exit_kind = SXX_RUNNING; S->exit_sig = 0; S->n_nodes = 0; S->n_events = 0; S->n_str = 1; S->n_data = 0;
    S->n_opaque = 0; S->n_lost = 0; S->n_mismatch = 0; S->exit_label = 0; S->instr_ops = 0;
    pid_t pid = fork();
    if (pid == 0) {
      REAL = S->mode_real;
      alarm(S->timeout_s ? S->timeout_s : 20);
      rlimit rl{6ull << 30, 6ull << 30};
      setrlimit(RLIMIT_AS, &rl);
      rlimit cr{0, 0};
      setrlimit(RLIMIT_CORE, &cr);
      g_active = true;
      try { sx_harness(); }
      catch (...) { onTerm(); }
      finish(SXX_OK);
    }
    int stt = 0;
    while (waitpid(pid, &stt, 0) < 0) {}
    if (WIFSIGNALED(stt)) { S->exit_kind = WTERMSIG(stt) == SIGALRM ? SXX_TIMEOUT : SXX_SIGNAL; S->exit_sig = WTERMSIG(stt); S->n_nodes = SX_MAX_NODES; }
    else if (S->exit_kind == SXX_RUNNING) { S->exit_kind = SXX_SIGNAL; S->exit_sig = 1000 + WEXITSTATUS(stt); S->n_nodes = SX_MAX_NODES; }
    if (write(wfd, &c, 1) != 1) break;
  }
  _exit(0);
}
