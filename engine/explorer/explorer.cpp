#include <sys/personality.h>
// Exhaustive symbolic exploration: runs the instrumented harness, asks Z3 for every branch whether the
// other side is feasible, and for every assertion whether it can be false, until nothing is left.
#include "../include/sx_ops.h"
#include <z3++.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace std;
bool g_weak = false;
string pad(int v) { char b[16]; snprintf(b, sizeof b, "%06d", v); return b; }
using Clock = chrono::steady_clock;
typedef unsigned __int128 u128;

struct Opt {
  string bin, native, out, workdir;
  bool real = false;
  int jobs = 8;
  double maxTime = 300;
  uint64_t maxPaths = 1000000;
  unsigned qtimeout = 10000;
  unsigned runTimeout = 20;
  unsigned maxEvents = 0;
  unsigned concCap = 600;
  unsigned natTimeout = 20;
  string known;   // comma separated labels whose violation is expected (still confirmed)
  bool verbose = false;
  int seed = 1;
} O;

struct Model { map<string, uint64_t> v; uint64_t ev = 0; bool hasEv = false; };
struct Item {
  map<string, uint64_t> in;
  uint32_t bound = 0;
  vector<pair<uint64_t, string>> trail;  // verbose only
  uint64_t prefixHash = 0;
  vector<uint8_t> forced;
  vector<uint64_t> forcedVal;
};

mutex qm;
condition_variable qcv;
vector<Item> Q;
int active = 0;
bool stopAll = false;
uint64_t nPaths = 0, nOk = 0, nAssumeEnd = 0, nLimit = 0, nDiv = 0;
map<string, uint64_t> forkSites;
set<string> incomplete;
struct AssertStat { uint64_t unsat = 0, concrete = 0, sat = 0, unknown = 0; };
map<string, AssertStat> asserts;
map<string, uint64_t> witnesses;
map<string, uint64_t> opaqueSeen;
vector<uint8_t> touched(SX_MAX_FN, 0);
atomic<uint64_t> nSat{0}, nUnsat{0}, nUnknown{0}, nCache{0}, nInstr{0}, nCalls{0};
atomic<uint64_t> maxEv{0}, maxNodes{0};
double solverTime = 0, maxQuery = 0;
struct Viol { string label, kind, native; map<string, uint64_t> in; bool confirmed; };
vector<Viol> viols;
vector<map<string, uint64_t>> samples;
map<string, int> pointTries;
map<string, int> violTries;
set<string> violDone;
map<string, string> varTypes;
Clock::time_point t0;
double elapsed() { return chrono::duration<double>(Clock::now() - t0).count(); }

struct CacheEnt { int r; Model m; };
mutex cm;
map<pair<uint64_t, uint64_t>, CacheEnt> cache;

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31; return h; }
static double dOf(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float fOf(uint64_t v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static uint64_t uOf(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t uOfF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static void writeInputs(const string & path, const map<string, uint64_t> & in)
{
  ofstream f(path);
  for (auto & [k, v] : in) f << k << " " << v << "\n";
}

// returns description; confirmed if the native build shows the failure
static bool nativeReplay(const map<string, uint64_t> & in, int wid, string & desc, string & label)
{
  if (O.native.empty()) { desc = "no native build"; return false; }
  string f = O.workdir + "/cand." + to_string(wid);
  writeInputs(f, in);
  int p[2];
  if (pipe2(p, O_CLOEXEC)) return false;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    dup2(p[1], 1);
    int z = open("/dev/null", O_RDWR);
    dup2(z, 0); dup2(z, 2);
    execl(O.native.c_str(), O.native.c_str(), f.c_str(), (char *)nullptr);
    _exit(127);
  }
  close(p[1]);
  string out;
  auto start = Clock::now();
  bool timeout = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int st = 0;
  for (;;) {
    char b[512];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) if (out.size() < 4096) out.append(b, n);
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n); break; }
    if (chrono::duration<double>(Clock::now() - start).count() > O.natTimeout) { timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(2000);
  }
  close(p[0]);
  auto pos = out.find("SX-FAIL ");
  if (pos != string::npos) { label = out.substr(pos + 8, out.find('\n', pos) - pos - 8); }
  if (timeout) { desc = "native run does not terminate within " + to_string(O.natTimeout) + " s"; label = "hang"; return true; }
  if (WIFSIGNALED(st)) { desc = "native run killed by signal " + to_string(WTERMSIG(st)); label = "crash"; return true; }
  int e = WEXITSTATUS(st);
  if (e == 10) { desc = "native run fails assertion " + label; return true; }
  if (e == 11) { desc = "native run: uncaught exception " + label; label = "uncaught"; return true; }
  desc = "native exit " + to_string(e);
  return false;
}

struct Worker {
  int id;
  SxShared * S = nullptr;
  pid_t pid = -1;
  int req = -1, rep = -1;
  int memfd = -1;
  unique_ptr<z3::context> ctx;
  vector<z3::expr> memo;
  vector<uint8_t> has;
  vector<uint64_t> hsh;
  vector<uint8_t> hasH;
  uint64_t runs = 0;

  void spawn()
  {
    if (memfd < 0) {
      memfd = memfd_create("sx", 0);
      if (ftruncate(memfd, sizeof(SxShared))) { perror("ftruncate"); exit(2); }
      S = (SxShared *)mmap(nullptr, sizeof(SxShared), PROT_READ | PROT_WRITE, MAP_SHARED, memfd, 0);
      if (S == MAP_FAILED) { perror("mmap"); exit(2); }
    }
    int a[2], b[2];
    if (pipe2(a, 0) || pipe2(b, 0)) { perror("pipe"); exit(2); }
    fcntl(a[1], F_SETFD, FD_CLOEXEC);
    fcntl(b[0], F_SETFD, FD_CLOEXEC);
    vector<string> env;
    for (char ** e = environ; *e; ++e) env.push_back(*e);
    env.push_back("SX_SHM_FD=" + pad(memfd));
    env.push_back("SX_RFD=" + pad(a[0]));
    env.push_back("SX_WFD=" + pad(b[1]));
    env.push_back((id == 0 ? "SX_FN_FILE=" : "SX_NO_FILE=") + O.workdir + "/functions.txt");
    vector<char *> ev;
    for (auto & s : env) ev.push_back((char *)s.c_str());
    ev.push_back(nullptr);
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      execle(O.bin.c_str(), O.bin.c_str(), (char *)nullptr, ev.data());
      _exit(127);
    }
    close(a[0]); close(b[1]);
    req = a[1]; rep = b[0];
  }

  bool run(const Item & it)
  {
    S->n_inputs = 0;
    for (auto & [k, v] : it.in) {
      if (S->n_inputs >= SX_MAX_INPUTS) break;
      auto & i = S->inputs[S->n_inputs++];
      strncpy(i.name, k.c_str(), 47); i.name[47] = 0;
      i.val = v;
    }
    S->mode_real = O.real;
    S->max_events = O.maxEvents;
    S->timeout_s = O.runTimeout;
    S->n_forced = 0;
    if (O.real) {
      S->n_forced = min<size_t>(it.forced.size(), SX_MAX_EVENTS);
      memcpy(S->forced, it.forced.data(), S->n_forced);
      for (size_t i = 0; i < it.forcedVal.size() && i < 4096; ++i) S->forced_val[i] = it.forcedVal[i];
    }
    char c = 1;
    if (write(req, &c, 1) != 1) return false;
    for (;;) {
      ssize_t n = read(rep, &c, 1);
      if (n == 1) break;
      if (n < 0 && errno == EINTR) continue;
      return false;
    }
    ++runs;
    return true;
  }

  // ---- translation
  uint64_t nodeHash(uint32_t i)
  {
    if (hasH[i]) return hsh[i];
    vector<uint32_t> st{i};
    while (!st.empty()) {
      uint32_t x = st.back();
      if (hasH[x]) { st.pop_back(); continue; }
      auto & n = S->nodes[x];
      bool ready = true;
      for (uint32_t k : kids(n)) if (!hasH[k]) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      uint64_t h = mix(n.op * 1315423911u + n.ty, n.w);
      if (n.op == OP_VAR) { for (const char * p = S->str + n.aux; *p; ++p) h = mix(h, *p); }
      else {
        h = mix(h, n.aux);
        if (n.op == OP_CONST) h = mix(h, g_weak && n.ty == TY_BV && n.w == 64 && n.val - 0x400000 < (1ull << 47) ? 0 : O.real && n.ty == TY_F64 && n.val == 1ull << 63 ? 0 : n.val);
        if (n.op == OP_TABLE) { h = mix(h, n.c); for (uint32_t k = 0; k < n.c; ++k) h = mix(h, S->data[n.b + k]); h = mix(h, hsh[n.a]); }
        else for (uint32_t k : kids(n)) h = mix(h, hsh[k]);
      }
      hsh[x] = h; hasH[x] = 1;
    }
    return hsh[i];
  }
  struct Kids { uint32_t k[3]; int n = 0; const uint32_t * begin() const { return k; } const uint32_t * end() const { return k + n; } };
  static Kids kids(const SxNode & n)
  {
    Kids r;
    if (n.op == OP_VAR || n.op == OP_CONST) return r;
    if (n.op == OP_TABLE) { r.k[r.n++] = n.a; return r; }
    if (n.a) r.k[r.n++] = n.a;
    if (n.b) r.k[r.n++] = n.b;
    if (n.c) r.k[r.n++] = n.c;
    return r;
  }
  // variables below a node (sorted unique list of var node ids)
  unordered_map<uint32_t, vector<uint32_t>> varsMemo;
  const vector<uint32_t> & varsOf(uint32_t root)
  {
    auto it = varsMemo.find(root);
    if (it != varsMemo.end()) return it->second;
    set<uint32_t> r;
    unordered_set<uint32_t> seen{root};
    vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t x = st.back(); st.pop_back();
      auto f = varsMemo.find(x);
      if (f != varsMemo.end()) { r.insert(f->second.begin(), f->second.end()); continue; }
      auto & n = S->nodes[x];
      if (n.op == OP_VAR) r.insert(x);
      for (uint32_t k : kids(n)) if (seen.insert(k).second) st.push_back(k);
    }
    return varsMemo[root] = vector<uint32_t>(r.begin(), r.end());
  }

  z3::expr b2i(z3::expr c) { return z3::ite(c, ctx->bv_val(1, 1), ctx->bv_val(0, 1)); }
  z3::expr asBool(uint32_t i) { return boolOf(i); }
  vector<uint8_t> hasB;
  vector<z3::expr> memoB;
  vector<vector<z3::expr>> dummy;
  unordered_map<uint32_t, vector<z3::expr>> sides;  // node -> side constraints
  struct TrigUse { z3::expr angle, s, c; };
  unordered_map<const vector<z3::expr> *, vector<TrigUse>> trigUses;  // per vector of side constraints
  bool usesInt = false;

  z3::sort fsort(unsigned ty) { return ty == TY_F32 ? ctx->fpa_sort(8, 24) : ctx->fpa_sort(11, 53); }
  string realLit(double d)
  {
    char b[64];
    snprintf(b, sizeof b, "%.15g", d);
    if (strtod(b, nullptr) != d) snprintf(b, sizeof b, "%.17g", d);
    // to plain decimal or rational
    string s = b;
    auto e = s.find('e');
    if (e == string::npos) return s;
    int ex = atoi(s.c_str() + e + 1);
    string m = s.substr(0, e);
    bool neg = m[0] == '-';
    if (neg) m = m.substr(1);
    auto dot = m.find('.');
    string digits = m;
    int frac = 0;
    if (dot != string::npos) { frac = m.size() - dot - 1; digits = m.substr(0, dot) + m.substr(dot + 1); }
    int p = ex - frac;
    string num = digits, den = "1";
    if (p >= 0) num += string(p, '0'); else den += string(-p, '0');
    return string(neg ? "-" : "") + num + "/" + den;
  }
  z3::expr realOf(uint64_t v, unsigned ty)
  {
    double d = ty == TY_F32 ? (double)fOf(v) : dOf(v);
    if (!isfinite(d)) { noteIncomplete("non-finite constant in real mode"); return ctx->real_val(0); }
    return ctx->real_val(realLit(d).c_str());
  }
  void noteIncomplete(const string & s) { lock_guard<mutex> l(qm); incomplete.insert(s); }

  const z3::expr & ex(uint32_t root)
  {
    if (has[root]) return memo[root];
    vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t x = st.back();
      if (has[x]) { st.pop_back(); continue; }
      auto & n = S->nodes[x];
      bool ready = true;
      for (uint32_t k : kids(n)) if (!has[k]) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      memo[x] = build(x, n);
      has[x] = 1;
    }
    return memo[root];
  }
  z3::expr boolOf(uint32_t i)
  {
    // width-1 nodes are kept as Bool terms
    return ex(i);
  }
  bool isB(uint32_t i) { auto & n = S->nodes[i]; return n.ty == TY_BV && n.w == 1; }
  z3::expr bvOf(uint32_t i) { return isB(i) ? b2i(ex(i)) : ex(i); }
  z3::expr ubv2real(uint32_t i, bool sgn)
  {
    auto * n = &S->nodes[i];
    uint32_t j = i;
    unsigned w = n->w;
    bool s = sgn;
    while (n->op == OP_ZEXT) { j = n->a; n = &S->nodes[j]; w = n->w; s = false; }
    z3::expr r = ctx->real_val(0);
    if (w == 1) return z3::ite(ex(j), ctx->real_val(s ? -1 : 1), ctx->real_val(0));
    z3::expr b = ex(j);
    if (w <= 16) {
      for (unsigned k = 0; k < w; ++k) {
        int64_t c = 1ll << k;
        if (s && k == w - 1) c = -c;
        r = r + z3::ite(b.extract(k, k) == ctx->bv_val(1, 1), ctx->real_val((int64_t)c), ctx->real_val(0));
      }
      return r;
    }
    usesInt = true;
    return z3::to_real(z3::bv2int(b, s));
  }
  z3::expr fresh(const char * p, z3::sort s, uint32_t x) { return ctx->constant((string(p) + "!" + to_string(nodeHash(x))).c_str(), s); }
  // ---- doubles that are exact multiples of a power of two and small enough never to be rounded: such a value is
  // I * 2^-g with |I| <= bound <= 2^53, and comparisons and conversions of it are decided over bit-vectors.
  struct Fx { bool ok = false; int g = 0; unsigned w = 0; __int128 bound = 0; shared_ptr<z3::expr> e; };
  unordered_map<uint32_t, Fx> fxMemo;
  struct Rng { __int128 lo, hi; };
  Rng irange(uint32_t x, int d = 0)
  {
    auto & n = S->nodes[x];
    const __int128 full = (__int128)1 << n.w, half = full >> 1;
    Rng all{-half, half - 1};
    auto fits = [&](Rng r) { return r.lo >= all.lo && r.hi <= all.hi; };
    if (d > 40) return all;
    switch (n.op) {
      case OP_CONST: { __int128 v = n.val; if (v >= half) v -= full; return {v, v}; }
      case OP_ZEXT: {
        auto & a = S->nodes[n.a];
        Rng r = irange(n.a, d + 1);
        if (a.w == 1 || r.lo < 0) return {0, ((__int128)1 << a.w) - 1};
        return r;
      }
      case OP_SEXT: return S->nodes[n.a].w == 1 ? Rng{-1, 0} : irange(n.a, d + 1);
      case OP_ADD: { Rng a = irange(n.a, d + 1), b = irange(n.b, d + 1), r{a.lo + b.lo, a.hi + b.hi}; return fits(r) ? r : all; }
      case OP_SUB: { Rng a = irange(n.a, d + 1), b = irange(n.b, d + 1), r{a.lo - b.hi, a.hi - b.lo}; return fits(r) ? r : all; }
      case OP_MUL: {
        Rng a = irange(n.a, d + 1), b = irange(n.b, d + 1);
        const __int128 m = (__int128)1 << 40;
        if (a.lo < -m || a.hi > m || b.lo < -m || b.hi > m) return all;
        __int128 v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        Rng r{*min_element(v, v + 4), *max_element(v, v + 4)};
        return fits(r) ? r : all;
      }
      case OP_ITE: { Rng a = irange(n.b, d + 1), b = irange(n.c, d + 1); return {min(a.lo, b.lo), max(a.hi, b.hi)}; }
      default: return all;
    }
  }
  static unsigned bitsFor(__int128 b) { unsigned k = 0; while (b) { ++k; b >>= 1; } return k + 1; }
  z3::expr fxResize(const z3::expr & e, unsigned from, unsigned to) { return to > from ? z3::sext(e, to - from) : to < from ? e.extract(to - 1, 0) : e; }
  // scaled to granularity g and width w
  z3::expr fxAt(const Fx & f, int g, unsigned w)
  {
    z3::expr e = fxResize(*f.e, f.w, w);
    return g > f.g ? z3::shl(e, ctx->bv_val((unsigned)(g - f.g), w)) : e;
  }
  Fx fx(uint32_t x)
  {
    auto it = fxMemo.find(x);
    if (it != fxMemo.end()) return it->second;
    Fx r = fxCompute(x);
    fxMemo.emplace(x, r);
    return r;
  }
  Fx fxCompute(uint32_t x)
  {
    auto & n = S->nodes[x];
    auto & c = *ctx;
    const __int128 lim = (__int128)1 << 53;
    Fx r;
    if (n.ty != TY_F64) return r;
    auto set = [&](int g, __int128 bound, auto && make) {
      if (bound > lim || g > 200 || g < -200) return;
      r.ok = true; r.g = g; r.bound = bound; r.w = bitsFor(bound);
      r.e = make_shared<z3::expr>(make(r.w));
    };
    switch (n.op) {
      case OP_CONST: {
        double d; memcpy(&d, &n.val, 8);
        if (!isfinite(d)) return r;
        if (d == 0) { set(0, 0, [&](unsigned w) { return c.bv_val(0, w); }); return r; }
        int e; double m = frexp(d, &e);
        int64_t i = (int64_t)ldexp(m, 53); e -= 53;
        while (!(i & 1)) { i /= 2; ++e; }
        set(-e, i < 0 ? -i : i, [&](unsigned w) { return c.bv_val((int64_t)i, w); });
        return r;
      }
      case OP_SITOFP: {
        Rng q = irange(n.a);
        __int128 b = max(q.hi, -q.lo);
        if (b < 0) b = 0;
        set(0, b, [&](unsigned w) { z3::expr e = bvOf(n.a); return fxResize(e, S->nodes[n.a].w, w); });
        return r;
      }
      case OP_UITOFP: {
        Rng q = irange(n.a);
        unsigned aw = S->nodes[n.a].w;
        __int128 b = q.lo < 0 ? ((__int128)1 << aw) - 1 : q.hi;
        set(0, b, [&](unsigned w) { z3::expr e = bvOf(n.a); return w > aw ? z3::zext(e, w - aw) : w < aw ? e.extract(w - 1, 0) : e; });
        return r;
      }
      case OP_FADD: case OP_FSUB: {
        Fx a = fx(n.a), b = fx(n.b);
        if (!a.ok || !b.ok || abs(a.g - b.g) > 60) return r;
        int g = max(a.g, b.g);
        set(g, (a.bound << (g - a.g)) + (b.bound << (g - b.g)), [&](unsigned w) { z3::expr p = fxAt(a, g, w), q = fxAt(b, g, w); return n.op == OP_FADD ? p + q : p - q; });
        return r;
      }
      case OP_FMUL: {
        Fx a = fx(n.a), b = fx(n.b);
        if (!a.ok || !b.ok) return r;
        set(a.g + b.g, a.bound * b.bound, [&](unsigned w) { return fxResize(*a.e, a.w, w) * fxResize(*b.e, b.w, w); });
        return r;
      }
      case OP_FNEG: { Fx a = fx(n.a); if (a.ok) set(a.g, a.bound, [&](unsigned) { return -*a.e; }); return r; }
      case OP_FABS: { Fx a = fx(n.a); if (a.ok) set(a.g, a.bound, [&](unsigned w) { return z3::ite(*a.e < c.bv_val(0, w), -*a.e, *a.e); }); return r; }
      case OP_FMIN: case OP_FMAX: case OP_ITE: {
        uint32_t i = n.op == OP_ITE ? n.b : n.a, j = n.op == OP_ITE ? n.c : n.b;
        Fx a = fx(i), b = fx(j);
        if (!a.ok || !b.ok || abs(a.g - b.g) > 60) return r;
        int g = max(a.g, b.g);
        set(g, max(a.bound << (g - a.g), b.bound << (g - b.g)), [&](unsigned w) {
          z3::expr p = fxAt(a, g, w), q = fxAt(b, g, w);
          if (n.op == OP_ITE) return z3::ite(ex(n.a), p, q);
          return n.op == OP_FMIN ? z3::ite(p < q, p, q) : z3::ite(p < q, q, p);
        });
        return r;
      }
      case OP_FFLOOR: case OP_FCEIL: case OP_FTRUNC: {
        Fx a = fx(n.a);
        if (!a.ok) return r;
        if (a.g <= 0) return a;
        if (a.g > 52) return r;
        set(0, (a.bound >> a.g) + 1, [&](unsigned w) { return fxResize(fxToInt(a, n.op), a.w + 1, w); });
        return r;
      }
      default: return r;
    }
  }
  // integer part of a value with g > 0, in a.w + 1 bits
  z3::expr fxToInt(const Fx & a, int op)
  {
    auto & c = *ctx;
    unsigned w = a.w + 1;
    if ((unsigned)a.g >= a.w) {  // |value| < 1
      z3::expr z = c.bv_val(0, w), neg = *a.e < c.bv_val(0, a.w), pos = *a.e > c.bv_val(0, a.w);
      if (op == OP_FFLOOR) return z3::ite(neg, c.bv_val(-1, w), z);
      if (op == OP_FCEIL) return z3::ite(pos, c.bv_val(1, w), z);
      return z;
    }
    z3::expr e = z3::sext(*a.e, 1);
    z3::expr round = c.bv_val((uint64_t)(((__int128)1 << a.g) - 1), w), zero = c.bv_val(0, w);
    if (op == OP_FCEIL) e = e + round;
    if (op == OP_FTRUNC) e = e + z3::ite(e < zero, round, zero);
    return z3::ashr(e, c.bv_val((unsigned)a.g, w));
  }
  bool fxCompare(const SxNode & n, z3::expr & out)
  {
    if (O.real || n.aux > 7) return false;
    Fx a = fx(n.a), b = fx(n.b);
    if (!a.ok || !b.ok || abs(a.g - b.g) > 60) return false;
    int g = max(a.g, b.g);
    // against a constant of finer granularity: round the constant instead of scaling the term
    auto constant = [&](const Fx & coarse, uint32_t fineNode, const Fx & fine, unsigned cond) {
      auto & k = S->nodes[fineNode];
      if (k.op != OP_CONST || fine.g <= coarse.g) return false;
      double d; memcpy(&d, &k.val, 8);
      if (d == 0) return false;
      const long double v = ldexpl((long double)d, coarse.g);  // not an integer
      const unsigned w = coarse.w + 1;
      if (fabsl(v) >= ldexpl(1, coarse.w)) { out = ctx->bool_val(v > 0 ? cond == 4 || cond == 5 || cond == 6 : cond == 2 || cond == 3 || cond == 6); return true; }
      const z3::expr t = z3::sext(*coarse.e, 1), lo = ctx->bv_val((int64_t)floorl(v), w);
      switch (cond) {
        case 1: out = ctx->bool_val(false); return true;
        case 6: out = ctx->bool_val(true); return true;
        case 2: case 3: out = t > lo; return true;
        case 4: case 5: out = t <= lo; return true;
        default: return false;
      }
    };
    static const unsigned flip[] = {0, 1, 4, 5, 2, 3, 6, 7};
    if (constant(a, n.b, b, n.aux) || constant(b, n.a, a, flip[n.aux])) return true;
    unsigned w = max(a.w + (g - a.g), b.w + (g - b.g));
    z3::expr p = fxAt(a, g, w), q = fxAt(b, g, w);
    switch (n.aux) {
      case 1: out = p == q; return true; case 2: out = p > q; return true; case 3: out = p >= q; return true;
      case 4: out = p < q; return true; case 5: out = p <= q; return true; case 6: out = p != q; return true;
      default: return false;
    }
  }
  bool nonFinite(uint32_t x)
  {
    auto & n = S->nodes[x];
    return n.op == OP_CONST && n.ty != TY_BV && !isfinite(n.ty == TY_F32 ? (double)fOf(n.val) : dOf(n.val));
  }
  z3::expr build(uint32_t x, const SxNode & n)
  {
    auto & c = *ctx;
    auto A = [&] { return ex(n.a); };
    auto B = [&] { return ex(n.b); };
    switch (n.op) {
      case OP_CONST:
        if (n.ty == TY_BV) { if (n.w == 1) return c.bool_val(n.val & 1); return c.bv_val((uint64_t)n.val, n.w); }
        if (O.real) {
          if (!nonFinite(x)) return realOf(n.val, n.ty);
          double d = n.ty == TY_F32 ? (double)fOf(n.val) : dOf(n.val);
          if (std::isnan(d)) { noteIncomplete("not-a-number in real arithmetic"); return c.real_val(0); }
          string big = string(d < 0 ? "-1" : "1") + string(400, '0');  // an infinity: beyond every double
          return c.real_val(big.c_str());
        }
        { z3::expr bvv = c.bv_val((uint64_t)n.val, n.ty == TY_F32 ? 32 : 64);
          z3::expr r = z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, bvv, fsort(n.ty)));
          return r.simplify(); }
      case OP_VAR: {
        const char * nm = S->str + n.aux;
        if (n.ty == TY_BV) { if (n.w == 1) return c.bool_const(nm); return c.bv_const(nm, n.w); }
        if (O.real) return c.real_const(nm);
        z3::expr bvv = c.bv_const(nm, n.ty == TY_F32 ? 32 : 64);
        return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, bvv, fsort(n.ty)));
      }
      default: break;
    }
    bool b1 = n.a && isB(n.a);
    switch (n.op) {
      case OP_AND: return n.w == 1 ? (A() && B()) : (A() & B());
      case OP_OR: return n.w == 1 ? (A() || B()) : (A() | B());
      case OP_XOR:
        if (n.w == 1) { if (S->nodes[n.b].op == OP_CONST) return (S->nodes[n.b].val & 1) ? !A() : A(); return A() != B(); }
        return A() ^ B();
      case OP_EQ: return A() == B();
      case OP_ITE: return z3::ite(ex(n.a), ex(n.b), ex(n.c));
      case OP_ZEXT: if (b1) return z3::ite(A(), c.bv_val(1, n.w), c.bv_val(0, n.w)); return z3::zext(A(), n.w - S->nodes[n.a].w);
      case OP_SEXT: if (b1) return z3::ite(A(), c.bv_val(-1, n.w), c.bv_val(0, n.w)); return z3::sext(A(), n.w - S->nodes[n.a].w);
      case OP_EXTRACT: {
        if (b1) return A();
        z3::expr e = A().extract(n.aux + n.w - 1, n.aux);
        if (n.w == 1) return e == c.bv_val(1, 1);
        return e;
      }
      case OP_CONCAT: return z3::concat(bvOf(n.a), bvOf(n.b));
      case OP_FCMP: {
        unsigned p = n.aux;
        if (O.real && (nonFinite(n.a) || nonFinite(n.b))) {  // a finite number against an infinity or NaN
          auto v = [&](uint32_t k) { auto & m = S->nodes[k]; return !nonFinite(k) ? 0. : m.ty == TY_F32 ? (double)fOf(m.val) : dOf(m.val); };
          double a = v(n.a), b = v(n.b);
          bool r = false;
          if (!std::isnan(a) && !std::isnan(b)) switch (p & 7) { case 1: r = a == b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 6: r = a != b; break; case 7: r = true; }
          return c.bool_val(r);
        }
        z3::expr exact = c.bool_val(false);
        if (!O.real && fxCompare(n, exact)) return exact;
        z3::expr a = A(), b = B();
        if (O.real) {
          switch (p & 7) { case 1: return a == b; case 4: return a < b; case 5: return a <= b; case 2: return a > b; case 3: return a >= b; case 6: return a != b; case 7: return c.bool_val(true); default: return c.bool_val(false); }
        }
        z3::expr eq = z3::to_expr(c, Z3_mk_fpa_eq(c, a, b)), lt = z3::to_expr(c, Z3_mk_fpa_lt(c, a, b)), gt = z3::to_expr(c, Z3_mk_fpa_gt(c, a, b));
        switch (p) {
          case 1: return eq; case 2: return gt; case 3: return z3::to_expr(c, Z3_mk_fpa_geq(c, a, b)); case 4: return lt;
          case 5: return z3::to_expr(c, Z3_mk_fpa_leq(c, a, b));
          case 6: return lt || gt;
          case 7: return !(z3::to_expr(c, Z3_mk_fpa_is_nan(c, a)) || z3::to_expr(c, Z3_mk_fpa_is_nan(c, b)));
          default: return c.bool_val(false);
        }
      }
      default: break;
    }
    if (n.ty == TY_BV && n.op <= OP_XOR) {
      z3::expr a = bvOf(n.a), b = bvOf(n.b);
      z3::expr r = a;
      switch (n.op) {
        case OP_ADD: r = a + b; break; case OP_SUB: r = a - b; break; case OP_MUL: r = a * b; break;
        case OP_UDIV: r = z3::udiv(a, b); break; case OP_SDIV: r = a / b; break;
        case OP_UREM: r = z3::urem(a, b); break; case OP_SREM: r = z3::srem(a, b); break;
        case OP_SHL: r = z3::shl(a, b); break; case OP_LSHR: r = z3::lshr(a, b); break; case OP_ASHR: r = z3::ashr(a, b); break;
        default: break;
      }
      if (n.w == 1) return r == c.bv_val(1, 1);
      return r;
    }
    auto rm = [&] { return z3::to_expr(c, Z3_mk_fpa_rne(c)); };
    switch (n.op) {
      case OP_ULT: return z3::ult(bvOf(n.a), bvOf(n.b));
      case OP_ULE: return z3::ule(bvOf(n.a), bvOf(n.b));
      case OP_SLT: return bvOf(n.a) < bvOf(n.b);
      case OP_SLE: return bvOf(n.a) <= bvOf(n.b);
      case OP_UMULO: return !z3::to_expr(c, Z3_mk_bvmul_no_overflow(c, A(), B(), false));
      case OP_SMULO: return !(z3::to_expr(c, Z3_mk_bvmul_no_overflow(c, A(), B(), true)) && z3::to_expr(c, Z3_mk_bvmul_no_underflow(c, A(), B())));
      case OP_TABLE: {
        z3::expr idx = bvOf(n.a);
        // balanced by runs of equal entries
        z3::expr r = tabval(n, n.c - 1);
        unsigned iw = S->nodes[n.a].w;
        for (int64_t k = (int64_t)n.c - 1; k > 0;) {
          int64_t j = k;
          while (j > 0 && S->data[n.b + j - 1] == S->data[n.b + k]) --j;
          if (j == 0) break;
          // entries j..k equal; below j something else
          z3::expr lower = tabval(n, j - 1);
          (void)lower;
          k = j - 1;
          segs.push_back(j);
        }
        // segs: starts of segments, descending
        vector<int64_t> starts(segs.begin(), segs.end());
        segs.clear();
        sort(starts.begin(), starts.end());
        starts.insert(starts.begin(), 0);
        r = segTree(n, idx, iw, starts, 0, starts.size());
        return r;
      }
      case OP_CTPOP: case OP_CTLZ: case OP_CTTZ: case OP_BSWAP: {
        z3::expr a = A();
        unsigned w = n.w;
        if (n.op == OP_BSWAP) { z3::expr r = a.extract(7, 0); for (unsigned k = 8; k < w; k += 8) r = z3::concat(r, a.extract(k + 7, k)); return r; }
        if (n.op == OP_CTPOP) { z3::expr r = c.bv_val(0, w); for (unsigned k = 0; k < w; ++k) r = r + z3::zext(a.extract(k, k), w - 1); return r; }
        z3::expr r = c.bv_val(w, w);
        if (n.op == OP_CTTZ) { for (int k = w - 1; k >= 0; --k) r = z3::ite(a.extract(k, k) == c.bv_val(1, 1), c.bv_val(k, w), r); }
        else { for (unsigned k = 0; k < w; ++k) r = z3::ite(a.extract(k, k) == c.bv_val(1, 1), c.bv_val(w - 1 - k, w), r); }
        return r;
      }
      default: break;
    }
    if (!O.real) {
      switch (n.op) {
        case OP_FADD: return z3::to_expr(c, Z3_mk_fpa_add(c, rm(), A(), B()));
        case OP_FSUB: return z3::to_expr(c, Z3_mk_fpa_sub(c, rm(), A(), B()));
        case OP_FMUL: return z3::to_expr(c, Z3_mk_fpa_mul(c, rm(), A(), B()));
        case OP_FDIV: return z3::to_expr(c, Z3_mk_fpa_div(c, rm(), A(), B()));
        case OP_FNEG: return z3::to_expr(c, Z3_mk_fpa_neg(c, A()));
        case OP_FABS: return z3::to_expr(c, Z3_mk_fpa_abs(c, A()));
        case OP_FSQRT: return z3::to_expr(c, Z3_mk_fpa_sqrt(c, rm(), A()));
        case OP_FMIN: { z3::expr a = A(), b = B(); z3::expr an = z3::to_expr(c, Z3_mk_fpa_is_nan(c, a)), bn = z3::to_expr(c, Z3_mk_fpa_is_nan(c, b)); return z3::ite(an, b, z3::ite(bn, a, z3::ite(z3::to_expr(c, Z3_mk_fpa_lt(c, b, a)), b, a))); }
        case OP_FMAX: { z3::expr a = A(), b = B(); z3::expr an = z3::to_expr(c, Z3_mk_fpa_is_nan(c, a)), bn = z3::to_expr(c, Z3_mk_fpa_is_nan(c, b)); return z3::ite(an, b, z3::ite(bn, a, z3::ite(z3::to_expr(c, Z3_mk_fpa_gt(c, b, a)), b, a))); }
        case OP_FFLOOR: return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), A()));
        case OP_FCEIL: return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), A()));
        case OP_FTRUNC: return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), A()));
        case OP_FRINT: return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), A()));
        case OP_FROUND: return z3::to_expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), A()));
        case OP_FCOPYSIGN: { z3::expr ab = z3::to_expr(c, Z3_mk_fpa_abs(c, A())); z3::expr ng = z3::to_expr(c, Z3_mk_fpa_neg(c, ab)); return z3::ite(z3::to_expr(c, Z3_mk_fpa_is_negative(c, B())), ng, ab); }
        case OP_FPTOSI: {
          Fx f = fx(n.a);
          if (f.ok && f.g > 0 && f.bound >> f.g < (__int128)1 << (n.w - 1)) return fxResize(fxToInt(f, OP_FTRUNC), f.w + 1, n.w);
          if (f.ok && f.g == 0 && f.bound < (__int128)1 << (n.w - 1)) return fxResize(*f.e, f.w, n.w);
          return z3::to_expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), A(), n.w));
        }
        case OP_FPTOUI: return z3::to_expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), A(), n.w));
        case OP_SITOFP: return z3::to_expr(c, Z3_mk_fpa_to_fp_signed(c, rm(), bvOf(n.a), fsort(n.ty)));
        case OP_UITOFP: return z3::to_expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm(), bvOf(n.a), fsort(n.ty)));
        case OP_FPEXT: case OP_FPTRUNC: return z3::to_expr(c, Z3_mk_fpa_to_fp_float(c, rm(), A(), fsort(n.ty)));
        case OP_BITS2F: return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, A(), fsort(n.ty)));
        case OP_F2BITS: {
          auto & s = S->nodes[n.a];
          if (s.op == OP_VAR) return c.bv_const(S->str + s.aux, n.w);
          return z3::to_expr(c, Z3_mk_fpa_to_ieee_bv(c, A()));
        }
        default: break;
      }
      // transcendental functions: an unknown value (sound: more behaviours than the code has)
      z3::expr v = fresh("fn", c.bv_sort(n.ty == TY_F32 ? 32 : 64), x);
      noteOpaque(string("fp-op:") + to_string(n.op));
      return z3::to_expr(c, Z3_mk_fpa_to_fp_bv(c, v, fsort(n.ty)));
    }
    // real mode
    auto R = [&](int64_t k) { return c.real_val(k); };
    auto isConst = [&](uint32_t i) { return S->nodes[i].op == OP_CONST; };
    switch (n.op) {
      case OP_FADD: return A() + B();
      case OP_FSUB: return A() - B();
      case OP_FMUL: return A() * B();
      case OP_FDIV: {
        if (isConst(n.b)) return A() / B();
        z3::expr q = fresh("div", c.real_sort(), x);
        sides[x].push_back(q * B() == A());
        return q;
      }
      case OP_FNEG: return -A();
      case OP_FABS: return z3::ite(A() >= 0, A(), -A());
      case OP_FSQRT: { z3::expr q = fresh("sqrt", c.real_sort(), x); sides[x].push_back(q >= 0); sides[x].push_back(q * q == A()); return q; }
      case OP_FMIN: return z3::ite(A() < B(), A(), B());
      case OP_FMAX: return z3::ite(A() < B(), B(), A());
      case OP_FFLOOR: usesInt = true; return z3::to_real(z3::expr(c, Z3_mk_real2int(c, A())));
      case OP_FCEIL: usesInt = true; return -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A())));
      case OP_FTRUNC: { usesInt = true; z3::expr f = z3::to_real(z3::expr(c, Z3_mk_real2int(c, A()))), g = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A()))); return z3::ite(A() >= 0, f, g); }
      case OP_FROUND: { usesInt = true; z3::expr h = c.real_val(1, 2); z3::expr f = z3::to_real(z3::expr(c, Z3_mk_real2int(c, A() + h))), g = -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A() + h))); return z3::ite(A() >= 0, f, g); }
      case OP_SITOFP: return ubv2real(n.a, true);
      case OP_UITOFP: return ubv2real(n.a, false);
      case OP_FPEXT: case OP_FPTRUNC: return A();
      case OP_SIN: return trig(n.a, sides[x]).s;
      case OP_COS: return trig(n.a, sides[x]).c;
      case OP_TAN: { Trig t = trig(n.a, sides[x]); z3::expr q = fresh("tan", c.real_sort(), x); sides[x].push_back(q * t.c == t.s); return q; }
      case OP_F2BITS: case OP_BITS2F: break;
      case OP_ATAN2: {
        z3::expr v = fresh("atan2", c.real_sort(), x), y = A(), xx = B();
        z3::expr pi = c.real_val("3.1415926535898");
        sides[x].push_back(v <= pi && v >= -pi);
        sides[x].push_back(z3::implies(y > 0, v > 0) && z3::implies(y < 0, v < 0) && z3::implies(y == 0 && xx > 0, v == 0));
        z3::expr h = c.real_val("1.57079632679489"), h2 = c.real_val("1.5707963267949");
        sides[x].push_back(z3::implies(xx > 0, v < h2 && v > -h2) && z3::implies(xx < 0, v > h || v < -h));
        {
          // v is the angle of (xx, y)
          Trig t = trigPair(x, 1, v, sides[x]);
          z3::expr r = fresh("atan2r", c.real_sort(), x);
          sides[x].push_back(r >= 0 && r * t.s == y && r * t.c == xx);
          sides[x].push_back(r * r == y * y + xx * xx);
        }
        return v;
      }
      case OP_ATAN: case OP_ASIN: case OP_ACOS: case OP_CBRT: case OP_EXP: case OP_LOG: case OP_POW: case OP_FREM: {
        z3::expr v = fresh("fn", c.real_sort(), x), a = A();
        z3::expr h2 = c.real_val("1.5707963267949"), pi = c.real_val("3.1415926535898");
        if (n.op == OP_ATAN || n.op == OP_ASIN) { sides[x].push_back(v <= h2 && v >= -h2); sides[x].push_back(z3::implies(a > 0, v > 0) && z3::implies(a < 0, v < 0) && z3::implies(a == 0, v == 0)); }
        if (n.op == OP_ACOS) { sides[x].push_back(v >= 0 && v <= pi); sides[x].push_back(z3::implies(a == 1, v == 0)); }
        if (n.op == OP_ACOS) { Trig t = trigPair(x, 1, v, sides[x]); sides[x].push_back(t.c == a && t.s >= 0);
          // the same sine computed as sqrt(1 - a * a)
          for (uint32_t k = 1; k < memo.size(); ++k) {
            auto & m = S->nodes[k];
            if (m.op != OP_FSQRT || S->nodes[m.a].op != OP_FSUB) continue;
            auto & d = S->nodes[m.a];
            if (S->nodes[d.a].op != OP_CONST || dOf(S->nodes[d.a].val) != 1 || S->nodes[d.b].op != OP_FMUL || S->nodes[d.b].a != n.a || S->nodes[d.b].b != n.a) continue;
            sides[x].push_back(t.s == ex(k));
          }
          return v; }
        if (n.op == OP_ASIN) { Trig t = trigPair(x, 1, v, sides[x]); sides[x].push_back(t.s == a && t.c >= 0); return v; }
        if (n.op == OP_ATAN) { Trig t = trigPair(x, 1, v, sides[x]); sides[x].push_back(t.s == a * t.c && t.c > 0); return v; }
        if (n.op == OP_CBRT) { sides[x].push_back(v * v * v == a); return v; }
        if (n.op == OP_EXP) { sides[x].push_back(v > 0); sides[x].push_back(z3::implies(a == 0, v == 1)); sides[x].push_back(z3::implies(a > 0, v > 1)); sides[x].push_back(z3::implies(a < 0, v < 1)); }
        if (n.op == OP_FREM) { z3::expr b = B(); z3::expr ab = z3::ite(b >= 0, b, -b); sides[x].push_back(v < ab && v > -ab); sides[x].push_back(z3::implies(a >= 0, v >= 0) && z3::implies(a <= 0, v <= 0));
          z3::expr k = ctx->int_const(("frem!" + to_string(nodeHash(x))).c_str()); usesInt = true; sides[x].push_back(a == z3::to_real(k) * b + v); }
        noteOpaque(string("real-fn:") + to_string(n.op) + " (bounds only)");
        return v;
      }
      default: break;
    }
    noteOpaque(string("real-op:") + to_string(n.op));
    if (n.ty == TY_BV) return n.w == 1 ? fresh("u", c.bool_sort(), x) : fresh("u", c.bv_sort(n.w), x);
    return fresh("u", c.real_sort(), x);
  }
  // ---- sine and cosine over exact reals: (sin, cos) pairs of angles, related by the addition and multiple-angle formulas
  struct Trig { z3::expr s, c; };
  // the pair of (angle of node)/q, tied to the pair of the whole angle
  Trig trigPair(uint32_t node, int q, z3::expr angle, vector<z3::expr> & out)
  {
    auto & c = *ctx;
    string id = to_string(nodeHash(node)) + (q == 1 ? "" : "/" + to_string(q));
    Trig t{c.real_const(("sin!" + id).c_str()), c.real_const(("cos!" + id).c_str())};
    z3::expr a = q == 1 ? angle : angle / c.real_val(q);
    trigUses[&out].push_back({a, t.s, t.c});
    out.push_back(t.s * t.s + t.c * t.c == 1);
    out.push_back(t.s <= 1 && t.s >= -1 && t.c <= 1 && t.c >= -1);
    out.push_back(z3::implies(a == 0, t.s == 0 && t.c == 1));
    // sign facts on (-pi, pi)
    z3::expr pi = c.real_val("3.14159265358979"), pi2 = c.real_val("3.1415926535898");
    out.push_back(z3::implies(a > 0 && a < pi, t.s > 0 && t.s < a));
    out.push_back(z3::implies(a < 0 && a > -pi, t.s < 0 && t.s > a));
    out.push_back(z3::implies(a > -pi / 2 && a < pi / 2, t.c > 0));
    out.push_back(z3::implies((a > pi2 / 2 && a < pi) || (a < -pi2 / 2 && a > -pi), t.c < 0));
    // the sine lies above its chords
    z3::expr h = pi / 2, k = c.real_val("0.636619772");
    out.push_back(z3::implies(a >= 0 && a <= h, t.s >= k * a) && z3::implies(a >= h && a <= pi, t.s >= k * (pi - a)));
    out.push_back(z3::implies(a <= 0 && a >= -h, t.s <= k * a) && z3::implies(a <= -h && a >= -pi, t.s <= k * (-pi - a)));
    if (q > 1) {
      // the range of |angle|/q is known for angles in [-pi, pi]: |angle/q| <= pi/q
      static const char * cosq[] = {"", "", "0", "0.49999999999", "0.70710678118", "0.80901699437", "0.86602540378"};
      out.push_back(z3::implies(angle <= pi2 && angle >= -pi2, t.c >= c.real_val(cosq[q]) - c.real_val("0.00000000001")));
      Trig w = trigPair(node, 1, angle, out), m = multiple(t, q);
      out.push_back(w.s == m.s && w.c == m.c);
    }
    return t;
  }
  Trig plus(const Trig & a, const Trig & b) { return {a.s * b.c + a.c * b.s, a.c * b.c - a.s * b.s}; }
  Trig multiple(const Trig & t, int k)
  {
    Trig r = t;
    for (int i = 1; i < (k < 0 ? -k : k); ++i) r = plus(r, t);
    if (k < 0) r.s = -r.s;
    return r;
  }
  struct Linear { map<uint32_t, double> of; double k = 0; };
  bool linear(uint32_t i, double f, Linear & l, int depth)
  {
    auto & n = S->nodes[i];
    auto val = [&](uint32_t j) { auto & m = S->nodes[j]; return m.ty == TY_F32 ? (double)fOf(m.val) : dOf(m.val); };
    auto con = [&](uint32_t j) { return S->nodes[j].op == OP_CONST; };
    if (con(i)) { l.k += f * val(i); return true; }
    if (depth < 12) switch (n.op) {
        case OP_FADD: return linear(n.a, f, l, depth + 1) && linear(n.b, f, l, depth + 1);
        case OP_FSUB: return linear(n.a, f, l, depth + 1) && linear(n.b, -f, l, depth + 1);
        case OP_FNEG: return linear(n.a, -f, l, depth + 1);
        case OP_FPEXT: case OP_FPTRUNC: return linear(n.a, f, l, depth + 1);
        case OP_FMUL:
          if (con(n.a)) return linear(n.b, f * val(n.a), l, depth + 1);
          if (con(n.b)) return linear(n.a, f * val(n.b), l, depth + 1);
          break;
        case OP_FDIV:
          if (con(n.b) && val(n.b) != 0) return linear(n.a, f / val(n.b), l, depth + 1);
          break;
        default: break;
      }
    l.of[i] += f;
    return true;
  }
  // sine and cosine of f times the node
  Trig trig(uint32_t a, vector<z3::expr> & out, double f = 1)
  {
    auto & c = *ctx;
    Linear l;
    linear(a, f, l, 0);
    double ks = sin(l.k), kc = cos(l.k);
    for (double * v : {&ks, &kc})
      for (double e : {0.0, 1.0, -1.0, 0.5, -0.5})
        if (fabs(*v - e) < 1e-14) *v = e;
    Trig r{realOf(bitsOf(ks), TY_F64), realOf(bitsOf(kc), TY_F64)};
    bool first = l.k == 0;
    for (auto & [i, g] : l.of) {
      if (g == 0) continue;
      auto & n = S->nodes[i];
      Trig t{c.real_val(0), c.real_val(1)};
      if (n.op == OP_FABS) {
        t = trig(n.a, out, g);
        t.s = z3::ite(ex(n.a) >= 0, t.s, -t.s);
      } else if (n.op == OP_ITE) {
        Trig x = trig(n.b, out, g), y = trig(n.c, out, g);
        t = {z3::ite(ex(n.a), x.s, y.s), z3::ite(ex(n.a), x.c, y.c)};
      } else {
        bool found = false;
        for (int q = 1; q <= 6 && !found; ++q) {
          double p = g * q;
          if (fabs(p - nearbyint(p)) < 1e-12 && fabs(p) < 6.5) { t = multiple(trigPair(i, q, ex(i), out), (int)nearbyint(p)); found = true; }
        }
        if (!found) {  // no relation to the angle of the node itself
          z3::expr k = realOf(bitsOf(g), TY_F64);
          string id = to_string(nodeHash(i)) + "*" + to_string(bitsOf(g));
          t = {c.real_const(("sin!" + id).c_str()), c.real_const(("cos!" + id).c_str())};
          z3::expr e = ex(i) * k;
          trigUses[&out].push_back({e, t.s, t.c});
          out.push_back(t.s * t.s + t.c * t.c == 1);
          out.push_back(t.s <= 1 && t.s >= -1 && t.c <= 1 && t.c >= -1);
          out.push_back(z3::implies(e == 0, t.s == 0 && t.c == 1));
        }
      }
      r = first ? t : plus(r, t);
      first = false;
    }
    return r;
  }
  static uint64_t bitsOf(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
  vector<int64_t> segs;
  z3::expr tabval(const SxNode & n, uint32_t k) { uint64_t v = S->data[n.b + k]; return n.w == 1 ? ctx->bool_val(v & 1) : ctx->bv_val((uint64_t)(v & (n.w >= 64 ? ~0ull : ((1ull << n.w) - 1))), (unsigned)n.w); }
  z3::expr segTree(const SxNode & n, z3::expr idx, unsigned iw, const vector<int64_t> & st, size_t lo, size_t hi)
  {
    if (hi - lo == 1) return tabval(n, st[lo]);
    size_t mid = (lo + hi) / 2;
    return z3::ite(z3::ult(idx, ctx->bv_val((uint64_t)st[mid], iw)), segTree(n, idx, iw, st, lo, mid), segTree(n, idx, iw, st, mid, hi));
  }
  void noteOpaque(const string & s) { lock_guard<mutex> l(qm); ++opaqueSeen[s]; }

  // ---- constraints of a run
  struct Con { uint32_t node; int kind; uint64_t val; };  // kind 0: node false, 1: node true, 2: node == val, 3: node != val
  uint64_t conHash(const Con & k) { return mix(mix(nodeHash(k.node), k.kind + 77), k.kind >= 2 ? k.val : 0); }
  z3::expr conExpr(const Con & k)
  {
    z3::expr e = ex(k.node);
    auto & n = S->nodes[k.node];
    if (k.kind == 0) return !e;
    if (k.kind == 1) return e;
    z3::expr v = e;
    if (n.ty == TY_BV) v = n.w == 1 ? ctx->bool_val(k.val & 1) : ctx->bv_val((uint64_t)k.val, n.w);
    else if (O.real) {
      z3::expr r = realOf(k.val, n.ty);
      if (n.op == OP_FTRUNC) {  // avoid to_int: trunc(a) == k  <=>  interval
        double d = n.ty == TY_F32 ? fOf(k.val) : dOf(k.val);
        z3::expr a = ex(n.a);
        z3::expr in = d == 0 ? (a > -1 && a < 1) : d > 0 ? (a >= r && a < r + 1) : (a <= r && a > r - 1);
        return k.kind == 2 ? in : !in;
      }
      v = r;
    } else {
      z3::expr bv = ctx->bv_val((uint64_t)k.val, n.ty == TY_F32 ? 32 : 64);
      v = z3::to_expr(*ctx, Z3_mk_fpa_to_fp_bv(*ctx, bv, fsort(n.ty)));
    }
    return k.kind == 2 ? e == v : e != v;
  }
  void collectSides(uint32_t root, unordered_set<uint32_t> & seen, vector<z3::expr> & out)
  {
    vector<uint32_t> st{root};
    if (!seen.insert(root).second) return;
    while (!st.empty()) {
      uint32_t x = st.back(); st.pop_back();
      auto it = sides.find(x);
      if (it != sides.end()) for (auto & e : it->second) out.push_back(e);
      for (uint32_t k : kids(S->nodes[x])) if (seen.insert(k).second) st.push_back(k);
    }
  }

  // returns 1 sat, 0 unsat, -1 unknown; `extra` = additional nodes that must be part of the query
  int solve(const vector<Con> & pre, const vector<Con> & goal, Model & m, bool nice = false, uint32_t evalId = 0)
  {
    // slice
    set<uint32_t> vs;
    for (auto & g : goal) { auto & v = varsOf(g.node); vs.insert(v.begin(), v.end()); }
    vector<const Con *> use;
    vector<char> taken(pre.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pre.size(); ++i) {
        if (taken[i]) continue;
        auto & v = varsOf(pre[i].node);
        bool hit = false;
        for (auto x : v) if (vs.count(x)) { hit = true; break; }
        if (!hit) continue;
        taken[i] = 1; ch = true;
        vs.insert(v.begin(), v.end());
      }
    }
    vector<uint64_t> hs;
    for (size_t i = 0; i < pre.size(); ++i) if (taken[i]) { use.push_back(&pre[i]); hs.push_back(conHash(pre[i])); }
    for (auto & g : goal) { use.push_back(&g); hs.push_back(conHash(g)); }
    sort(hs.begin(), hs.end());
    hs.erase(unique(hs.begin(), hs.end()), hs.end());
    uint64_t h1 = 0x1234 + nice, h2 = 0x9876;
    for (auto h : hs) { h1 = mix(h1, h); h2 = mix(h2, h * 0x9E3779B97F4A7C15ull + 1); }
    {
      lock_guard<mutex> l(cm);
      auto it = cache.find({h1, h2});
      if (it != cache.end()) { ++nCache; m = it->second.m; return it->second.r; }
    }
    usesInt = false;
    vector<z3::expr> es;
    bool fp = false, bv = false, real = false;
    unordered_set<uint32_t> seen;
    for (auto * k : use) es.push_back(conExpr(*k));
    vector<z3::expr> sd;
    for (auto * k : use) collectSides(k->node, seen, sd);
    for (auto x : seen) { auto & n = S->nodes[x]; if (n.op == OP_FFLOOR || n.op == OP_FCEIL || n.op == OP_FTRUNC || n.op == OP_FROUND || n.op == OP_FREM) usesInt = true; if (n.ty != TY_BV) { (O.real ? real : fp) = true; } else if (n.w > 1) bv = true; }
    int r = -1;
    auto start = Clock::now();
    if (nice) {
      int k = 0;
      for (auto x : vs) {
        auto & n = S->nodes[x];
        if (n.ty == TY_BV) continue;
        z3::expr iv = ctx->int_const(("nice!" + to_string(k++)).c_str());
        es.push_back(ex(x) * 8 == z3::to_real(iv));
        es.push_back(iv >= -4096 && iv <= 4096);
        usesInt = true;
      }
    }
    vector<TrigUse> trigs;
    for (auto x : seen) {
      auto it = sides.find(x);
      if (it == sides.end()) continue;
      auto tu = trigUses.find(&it->second);
      if (tu != trigUses.end()) trigs.insert(trigs.end(), tu->second.begin(), tu->second.end());
    }
    auto attempt = [&](int strat, unsigned to) {
      z3::params p(*ctx);
      p.set("timeout", to);
      p.set("random_seed", (unsigned)O.seed);
      try {
        z3::solver s = [&] {
          if (strat == 0) {
            if (!O.real) {
              if (fp) return z3::tactic(*ctx, "qffpbv").mk_solver();
              return z3::tactic(*ctx, "qfbv").mk_solver();
            }
            if (real && !usesInt && !bv) return z3::tactic(*ctx, "qfnra").mk_solver();
            if (!real) return z3::tactic(*ctx, "qfbv").mk_solver();
            return z3::solver(*ctx);
          }
          if (strat == 2) return z3::tactic(*ctx, "qfnra-nlsat").mk_solver();
          return z3::solver(*ctx);
        }();
        s.set(p);
        for (auto & e : es) s.add(e);
        for (auto & e : sd) s.add(e);
        auto q = s.check();
        ++nCalls;
        if (q == z3::unsat) { r = 0; return; }
        if (q == z3::unknown) { r = -1; return; }
        r = 1;
        z3::model mod = s.get_model();
        // angles of the model whose sine or cosine is wrong: add |sin a - sin a0| <= |a - a0| (likewise cos) and ask again
        for (int round = 0; round < 5 && !trigs.empty(); ++round) {
          bool wrong = false;
          for (auto & t : trigs) {
            auto num = [&](const z3::expr & e) { z3::expr v = mod.eval(e, true); string d = v.is_algebraic() || v.is_numeral() ? v.get_decimal_string(20) : "0"; if (!d.empty() && d.back() == '?') d.pop_back(); return strtod(d.c_str(), nullptr); };
            double a0 = num(t.angle);
            if (fabs(num(t.s) - sin(a0)) < 1e-9 && fabs(num(t.c) - cos(a0)) < 1e-9) continue;
            wrong = true;
            z3::expr a = realOf(bitsOf(a0), TY_F64), d = z3::ite(t.angle >= a, t.angle - a, a - t.angle) + ctx->real_val("0.000000000001");
            for (auto & [v, x] : {pair<z3::expr, double>{t.s, sin(a0)}, {t.c, cos(a0)}}) {
              z3::expr k = realOf(bitsOf(x), TY_F64);
              s.add(v - k <= d && k - v <= d);
            }
          }
          if (!wrong) break;
          auto q2 = s.check();
          ++nCalls;
          if (q2 == z3::unsat) { r = 0; return; }
          if (q2 == z3::unknown) break;
          mod = s.get_model();
        }
        m.v.clear();
        for (auto x : vs) {
          auto & n = S->nodes[x];
          const char * nm = S->str + n.aux;
          uint64_t val = 0;
          if (n.ty == TY_BV) {
            z3::expr e = mod.eval(n.w == 1 ? ctx->bool_const(nm) : ctx->bv_const(nm, n.w), true);
            if (n.w == 1) val = e.is_true(); else { string t; e.is_numeral(t); val = strtoull(t.c_str(), nullptr, 10); }
          } else if (!O.real) {
            z3::expr e = mod.eval(ctx->bv_const(nm, n.ty == TY_F32 ? 32 : 64), true);
            string t; e.is_numeral(t); val = strtoull(t.c_str(), nullptr, 10);
          } else {
            z3::expr e = mod.eval(ctx->real_const(nm), true);
            string t;
            double d = 0;
            if (e.is_algebraic()) { t = e.get_decimal_string(25); if (!t.empty() && t.back() == '?') t.pop_back(); d = strtod(t.c_str(), nullptr); }
            else if (e.is_numeral()) {
              t = e.get_decimal_string(30);
              if (!t.empty() && t.back() == '?') t.pop_back();
              d = strtod(t.c_str(), nullptr);
            }
            val = n.ty == TY_F32 ? uOfF((float)d) : uOf(d);
          }
          m.v[nm] = val;
        }
        m.hasEv = false;
        if (evalId && O.real) {
          auto & n = S->nodes[evalId];
          z3::expr e = mod.eval(ex(evalId), true);
          string t;
          if (n.ty == TY_BV) {
            if (n.w == 1) { m.ev = e.is_true(); m.hasEv = true; }
            else if (e.is_numeral(t)) { m.ev = strtoull(t.c_str(), nullptr, 10); m.hasEv = true; }
          } else if (e.is_numeral()) {
            t = e.get_decimal_string(30);
            if (!t.empty() && t.back() == '?') t.pop_back();
            double d = strtod(t.c_str(), nullptr);
            m.ev = n.ty == TY_F32 ? uOfF((float)d) : uOf(d);
            m.hasEv = true;
          }
        }
      } catch (z3::exception & e) {
        r = -1;
        if (O.verbose) cerr << "z3: " << e.msg() << "\n";
      }
    };
    double left = O.maxTime - elapsed();
    unsigned to = O.qtimeout;
    if (nice) to = min(to, 3000u);
    if (left * 1000 < to) to = left > 0 ? max(200u, (unsigned)(left * 1000)) : 200u;
    attempt(0, O.real && !nice ? to / 2 : to);
    if (r < 0 && O.real && !nice) attempt(1, to / 2);
    if (r < 0 && O.real && !nice && !usesInt && !bv) attempt(2, to / 2);
    if (r < 0 && !O.real) attempt(1, to);
    double dt = chrono::duration<double>(Clock::now() - start).count();
    if (O.verbose && (dt > 3 || r < 0)) {
      fprintf(stderr, "[slow %.1fs r=%d] n=%zu\n", dt, r, es.size());
      if (getenv("SX_DUMP")) { ofstream f(string(getenv("SX_DUMP")) + "/slow." + to_string(h1) + ".smt2"); z3::solver s(*ctx); for (auto & e : es) s.add(e); for (auto & e : sd) s.add(e); f << s.to_smt2(); }
    }
    {
      lock_guard<mutex> l(cm);
      solverTime += dt;
      if (!nice) maxQuery = max(maxQuery, dt);
      if (!nice || r != -1) cache[{h1, h2}] = CacheEnt{r, m};
    }
    if (!nice) { if (r == 1) ++nSat; else if (r == 0) ++nUnsat; else ++nUnknown; }
    return r;
  }

  void candidate(const string & label, const string & kind, const map<string, uint64_t> & in)
  {
    {
      lock_guard<mutex> l(qm);
      if (violDone.count(label)) return;
      if (++violTries[label] > 12) return;
    }
    string desc, nl;
    bool ok = nativeReplay(in, id, desc, nl);
    lock_guard<mutex> l(qm);
    if (ok && nl != label && kind == "assert" && !nl.empty() && violDone.count(nl)) return;
    if (ok) { violDone.insert(label); if (!nl.empty()) violDone.insert(nl); }
    viols.push_back(Viol{ok && !nl.empty() ? nl : label, kind, desc, in, ok});
  }

  string show(uint32_t id, int d = 0)
  {
    if (!id) return "-";
    auto & n = S->nodes[id];
    char b[64];
    if (n.op == OP_CONST) { snprintf(b, 64, "#%llx", (unsigned long long)n.val); return b; }
    if (n.op == OP_VAR) { snprintf(b, 64, "v%u", n.aux); return b; }
    if (d > 12) return "..";
    snprintf(b, 64, "(%d/%d.%u", n.op, n.w, n.aux);
    string r = b;
    for (uint32_t c : {n.a, n.b, n.c}) if (c) r += " " + show(c, d + 1);
    return r + ")";
  }
  void process(Item & it)
  {
    if (!run(it)) { noteIncomplete("harness process died"); spawn(); return; }
    auto & s = *S;
    uint32_t ne = s.n_events;
    for (uint64_t o = maxEv; ne > o && !maxEv.compare_exchange_weak(o, ne);) {}
    if (s.n_nodes != SX_MAX_NODES) for (uint64_t o = maxNodes; s.n_nodes > o && !maxNodes.compare_exchange_weak(o, s.n_nodes);) {}
    nInstr += s.instr_ops;
    uint32_t cap = 1;
    for (uint32_t i = 0; i < ne; ++i) cap = max(cap, s.events[i].node + 1);
    // nodes referenced by events only have smaller ids
    has.assign(cap, 0); hsh.assign(cap, 0); hasH.assign(cap, 0);
    memo.clear(); memo.resize(cap, z3::expr(*ctx));
    varsMemo.clear(); sides.clear(); trigUses.clear(); fxMemo.clear();
    // prefix check
    uint64_t h = 0;
    bool diverged = false;
    vector<Con> pre;
    vector<uint8_t> forced;
    vector<uint64_t> fvals;
    struct F { uint32_t ev; };
    auto evHash = [&](const SxEvent & e, bool flipTaken) { return mix(mix(mix(e.kind, e.site), e.node ? nodeHash(e.node) : 0), e.kind == EV_WITNESS ? 0 : flipTaken ? !e.taken : e.taken); };
    if (it.bound > ne) diverged = true;
    if (!diverged) {
      for (uint32_t i = 0; i < it.bound; ++i) {
        auto & e = s.events[i];
        h = mix(h, mix(evHash(e, false), e.kind == EV_CONC ? e.val : 0));
        if (O.verbose && i < it.trail.size() && it.trail[i].first != h) {
          fprintf(stderr, "divergence at event %u of %u: kind %d taken %d node %d site %s; expected %s\n", i, it.bound, e.kind, e.taken, e.node, s.str + e.site, it.trail[i].second.c_str());
          fprintf(stderr, "  got %s\n", show(e.node).c_str());
          if (getenv("SX_TRAIL")) {
            for (uint32_t k = 0; k <= i; ++k) { auto & q = s.events[k]; fprintf(stderr, "   %u kind %d taken %d val %lu %s\n", k, q.kind, q.taken, (unsigned long)q.val, q.node ? show(q.node).substr(0, 100).c_str() : "-"); }
            for (uint32_t k = 0; k < s.n_inputs; ++k) fprintf(stderr, "   %s=%lu", s.inputs[k].name, (unsigned long)s.inputs[k].val);
            fprintf(stderr, "\n");
          }
          break;
        }
      }
      if (it.bound && h != it.prefixHash) diverged = true;
    }
    map<string, uint64_t> in;  // full inputs of this run
    for (uint32_t i = 0; i < s.n_inputs; ++i) in[s.inputs[i].name] = s.inputs[i].val;
    {
      lock_guard<mutex> l(qm);
      ++nPaths;
      if (diverged) { ++nDiv; incomplete.insert("a run did not follow its predicted prefix"); }
      if (s.n_opaque) for (uint32_t i = 0; i < s.n_opaque; ++i) ++opaqueSeen[s.opaque[i]];
      if (s.n_lost) incomplete.insert("a symbolic value was concretised (EV_FORCE)");
      if (s.n_mismatch) incomplete.insert("shadow/concrete mismatch");
      if (s.exit_kind == SXX_LIMIT) { ++nLimit; incomplete.insert("event or node limit"); }
      if (s.exit_kind == SXX_OK) { ++nOk; if (samples.size() < 40) samples.push_back(in); else if (nOk % 97 == 0) samples[nOk / 97 % 40] = in; }
      if (s.exit_kind == SXX_ASSUME) ++nAssumeEnd;
      for (uint32_t i = 0; i < SX_MAX_FN; ++i) if (s.fn_touched[i]) touched[i] |= s.fn_touched[i];
    }
    if (diverged && !O.real) {
      if (O.verbose) fprintf(stderr, "diverged bound=%u ne=%u exit=%u\n", it.bound, ne, s.exit_kind);
      // treat as a fresh run whose whole trace is explored (may duplicate work, never loses soundness of alarms)
      return;
    }
    if (diverged) return;
    if (s.exit_kind == SXX_ASSERT) {
      candidate(s.str + s.exit_label, "assert", in);
    } else if (s.exit_kind == SXX_EXCEPTION || s.exit_kind == SXX_SIGNAL || s.exit_kind == SXX_TIMEOUT) {
      string l = s.exit_kind == SXX_EXCEPTION ? string("uncaught:") + (s.str + s.exit_label) : s.exit_kind == SXX_SIGNAL ? "crash:" + to_string(s.exit_sig) : "hang";
      candidate(l, "abnormal", in);
      if (s.exit_kind == SXX_TIMEOUT) noteIncomplete("a run timed out");
    }
    uint64_t hp = 0;
    vector<pair<uint64_t, string>> trail;
    vector<Item> out;
    for (uint32_t i = 0; i < ne; ++i) {
      if (stopAll) break;
      auto & e = s.events[i];
      bool mine = i >= it.bound;
      uint64_t eh = mix(evHash(e, false), e.kind == EV_CONC ? e.val : 0);
      auto child = [&](const Model & m, uint64_t lastHash, uint8_t f, uint64_t fv, bool isConc) {
        Item c;
        c.in = in;
        for (auto & [k, v] : m.v) c.in[k] = v;
        c.bound = i + 1;
        c.prefixHash = mix(hp, lastHash);
        if (O.verbose) { c.trail = trail; c.trail.push_back({c.prefixHash, string("flipped ") + (s.str + e.site) + " " + show(e.node)}); }
        if (O.real) { c.forced = forced; c.forced.push_back(f); c.forcedVal = fvals; if (isConc) c.forcedVal.push_back(fv); }
        out.push_back(move(c));
        if (O.verbose) { lock_guard<mutex> l(qm); ++forkSites[s.str + e.site]; }
      };
      if (e.node && mine) {
        if (e.kind == EV_BRANCH || (e.kind == EV_ASSUME && (e.taken != 0) == (e.label != 0))) {
          Model m;
          int r = solve(pre, {Con{e.node, e.taken ? 0 : 1, 0}}, m);
          if (r == 1) child(m, mix(evHash(e, true), 0), !e.taken, 0, false);
          else if (r < 0) { noteIncomplete("solver gave no answer for a branch"); if (O.verbose) fprintf(stderr, "no answer: %s %s\n", (s.str + e.site), show(e.node).substr(0, 3000).c_str()); }
        } else if (e.kind == EV_CONC) {
          vector<Con> g{Con{e.node, 3, e.val}};
          for (unsigned k = 0;; ++k) {
            if (k >= O.concCap) { noteIncomplete(string("more than the enumeration cap of values at ") + (s.str + e.site)); break; }
            Model m;
            int r = solve(pre, g, m, false, e.node);
            if (r == 0) break;
            if (r < 0) { noteIncomplete("solver gave no answer for an enumeration"); break; }
            uint64_t v = m.hasEv ? m.ev : evalNode(e.node, m, in);
            bool dup = false;
            for (auto & x : g) dup |= x.val == v;
            if (dup) { noteIncomplete("enumeration did not progress"); break; }
            SxEvent e2 = e;
            child(m, mix(evHash(e2, false), v), 2, v, true);
            g.push_back(Con{e.node, 3, v});
          }
        } else if (e.kind == EV_ASSERT) {
          string label = s.str + e.label;
          bool skip;
          { lock_guard<mutex> l(qm); skip = violDone.count(label) > 0; }
          if (!skip || !e.taken) {
            Model m;
            if (!e.taken) {
              { lock_guard<mutex> l(qm); ++asserts[label].sat; }
              int r = solve(pre, {Con{e.node, 1, 0}}, m);
              if (r == 1) child(m, mix(evHash(e, true), 0), 1, 0, false);
              else if (r < 0) noteIncomplete("solver gave no answer for a branch");
            } else {
              int r = solve(pre, {Con{e.node, 0, 0}}, m);
              {
                lock_guard<mutex> l(qm);
                auto & a = asserts[label];
                if (r == 0) ++a.unsat; else if (r == 1) ++a.sat; else { ++a.unknown; incomplete.insert("solver gave no answer for an assertion: " + label); }
              }
              if (r < 0 && O.real) {
                // undecided: ask again about a few points
                static const double spread[] = {0.5, -0.5, 1, -1, 0.125, 2, -2, 3, -3, 0.375, -0.25, 1.25, -1.5, 4, -5, 7};
                for (int k = 0; k < 8 && r < 0; ++k) {
                  { lock_guard<mutex> l(qm); if (violDone.count(label) || ++pointTries[label] > 40) break; }
                  vector<Con> g{Con{e.node, 0, 0}};
                  unsigned q = 0;
                  for (auto x : varsOf(e.node)) {
                    auto & v = S->nodes[x];
                    if (v.ty != TY_F64) continue;
                    ++q;
                    if (k == 0) g.push_back(Con{x, 2, v.val});
                    else if (k == 1) g.push_back(Con{x, 2, uOf(dOf(v.val) + (q % 3) * 0.125)});
                    else g.push_back(Con{x, 2, uOf(spread[(k * 5 + q * 7 + q * q * k) % 16])});
                  }
                  r = solve(pre, g, m);
                  if (r == 0) r = -1;
                }
              }
              if (r == 1) {
                if (O.verbose) fprintf(stderr, "[candidate] %s: %s\n", label.c_str(), show(e.node).c_str());
                if (O.real) {
                  Model mn;
                  if (solve(pre, {Con{e.node, 0, 0}}, mn, true) == 1) { auto i3 = in; for (auto & [k, v] : mn.v) i3[k] = v; candidate(label, "assert", i3); }
                }
                auto i2 = in;
                for (auto & [k, v] : m.v) i2[k] = v;
                candidate(label, "assert", i2);
              }
            }
          }
        } else if (e.kind == EV_WITNESS) {
          string label = s.str + e.label;
          bool have;
          { lock_guard<mutex> l(qm); have = witnesses.count(label); }
          if (!have) {
            Model m;
            if (e.taken || solve(pre, {Con{e.node, 1, 0}}, m) == 1) { lock_guard<mutex> l(qm); ++witnesses[label]; }
          }
        }
      } else if (mine) {
        if (e.kind == EV_ASSERT && e.taken) { lock_guard<mutex> l(qm); ++asserts[s.str + e.label].concrete; }
        if (e.kind == EV_ASSERT && !e.taken) { lock_guard<mutex> l(qm); ++asserts[s.str + e.label].sat; }
        if (e.kind == EV_WITNESS && e.taken) { lock_guard<mutex> l(qm); ++witnesses[s.str + e.label]; }
      }
      if (e.node) {
        if (e.kind == EV_BRANCH || e.kind == EV_ASSUME) pre.push_back(Con{e.node, e.taken ? 1 : 0, 0});
        else if (e.kind == EV_CONC) pre.push_back(Con{e.node, 2, e.val});
        else if (e.kind == EV_ASSERT) pre.push_back(Con{e.node, e.taken ? 1 : 0, 0});
      }
      hp = mix(hp, eh);
      if (O.verbose) trail.push_back({hp, "kind " + to_string(e.kind) + " taken " + to_string(e.taken) + " node " + to_string(e.node) + " " + (s.str + e.site) + " " + show(e.node)});
      if (O.real) {
        if (e.kind == EV_CONC && e.node) { forced.push_back(2); fvals.push_back(e.val); }
        else if ((e.kind == EV_BRANCH || e.kind == EV_ASSUME) && e.node) forced.push_back(e.taken);
        else forced.push_back(9);
      }
    }
    if (!out.empty()) {
      lock_guard<mutex> l(qm);
      for (auto & c : out) Q.push_back(move(c));
      qcv.notify_all();
    }
  }

  // value of a node under a model (for enumerated values)
  uint64_t evalNode(uint32_t node, const Model & m, const map<string, uint64_t> & in)
  {
    z3::expr e = ex(node);
    z3::expr_vector from(*ctx), to(*ctx);
    for (auto x : varsOf(node)) {
      auto & n = S->nodes[x];
      const char * nm = S->str + n.aux;
      uint64_t v = 0;
      auto it = m.v.find(nm);
      if (it != m.v.end()) v = it->second; else { auto j = in.find(nm); if (j != in.end()) v = j->second; }
      if (n.ty == TY_BV) { from.push_back(n.w == 1 ? ctx->bool_const(nm) : ctx->bv_const(nm, n.w)); to.push_back(n.w == 1 ? ctx->bool_val(v & 1) : ctx->bv_val((uint64_t)v, n.w)); }
      else if (!O.real) { from.push_back(ctx->bv_const(nm, n.ty == TY_F32 ? 32 : 64)); to.push_back(ctx->bv_val((uint64_t)v, n.ty == TY_F32 ? 32 : 64)); }
    }
    auto & n = S->nodes[node];
    if (O.real && n.ty != TY_BV) return evalReal(node, m, in);
    z3::expr r = e.substitute(from, to).simplify();
    if (n.ty == TY_BV) { if (n.w == 1) return r.is_true(); string t; if (r.is_numeral(t)) return strtoull(t.c_str(), nullptr, 10); }
    return 0;
  }
  uint64_t evalReal(uint32_t node, const Model & m, const map<string, uint64_t> & in)
  {
    // OP_FTRUNC of something: evaluate in doubles
    function<double(uint32_t)> f = [&](uint32_t x) -> double {
      auto & n = S->nodes[x];
      switch (n.op) {
        case OP_CONST: return n.ty == TY_F32 ? fOf(n.val) : dOf(n.val);
        case OP_VAR: {
          const char * nm = S->str + n.aux; uint64_t v = 0;
          auto it = m.v.find(nm); if (it != m.v.end()) v = it->second; else { auto j = in.find(nm); if (j != in.end()) v = j->second; }
          if (n.ty == TY_BV) return (double)v;
          return n.ty == TY_F32 ? fOf(v) : dOf(v); }
        case OP_FADD: return f(n.a) + f(n.b); case OP_FSUB: return f(n.a) - f(n.b); case OP_FMUL: return f(n.a) * f(n.b); case OP_FDIV: return f(n.a) / f(n.b);
        case OP_FNEG: return -f(n.a); case OP_FABS: return fabs(f(n.a)); case OP_FSQRT: return sqrt(f(n.a));
        case OP_FTRUNC: return trunc(f(n.a)); case OP_FFLOOR: return floor(f(n.a)); case OP_FCEIL: return ceil(f(n.a)); case OP_FROUND: return round(f(n.a));
        case OP_FMIN: return min(f(n.a), f(n.b)); case OP_FMAX: return max(f(n.a), f(n.b)); case OP_FPEXT: case OP_FPTRUNC: return f(n.a);
        case OP_SITOFP: case OP_UITOFP: { uint64_t v = evalNode(n.a, m, in); return (double)(int64_t)v; }
        default: return n.ty == TY_F32 ? fOf(n.val) : dOf(n.val);
      }
    };
    auto & n = S->nodes[node];
    double d = f(node);
    return n.ty == TY_F32 ? uOfF((float)d) : uOf(d);
  }

  void loop()
  {
    ctx.reset(new z3::context());
    spawn();
    for (;;) {
      Item it;
      {
        unique_lock<mutex> l(qm);
        while (Q.empty() && active > 0 && !stopAll) qcv.wait_for(l, chrono::milliseconds(200));
        if (stopAll || (Q.empty() && active == 0)) { qcv.notify_all(); break; }
        it = move(Q.back());
        Q.pop_back();
        ++active;
      }
      try { process(it); } catch (z3::exception & e) { noteIncomplete(string("z3: ") + e.msg()); } catch (std::exception & e) { noteIncomplete(string("explorer: ") + e.what()); }
      if (runs % 400 == 399) { memo.clear(); sides.clear(); trigUses.clear(); varsMemo.clear(); fxMemo.clear(); ctx.reset(new z3::context()); }
      {
        lock_guard<mutex> l(qm);
        --active;
        if (elapsed() > O.maxTime && (!Q.empty() || active > 0)) { if (!Q.empty()) { incomplete.insert("time limit with " + string("work left")); } stopAll = true; }
        if (nPaths >= O.maxPaths && !Q.empty()) { incomplete.insert("path limit"); stopAll = true; }
        qcv.notify_all();
      }
    }
    close(req);
    if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); }
    memo.clear(); sides.clear(); trigUses.clear(); fxMemo.clear();
  }
};

static string jstr(const string & s)
{
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static void report(bool hard)
{
  if (O.verbose) {
    vector<pair<uint64_t, string>> v;
    for (auto & [k, n] : forkSites) v.push_back({n, k});
    sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 25; ++i) fprintf(stderr, "  forks %8lu  %s\n", (unsigned long)v[i].first, v[i].second.c_str());
  }
  ofstream f(O.out);
  f << "{\n";
  f << "\"paths\": " << nPaths << ", \"paths_ok\": " << nOk << ", \"paths_assume\": " << nAssumeEnd << ", \"diverged\": " << nDiv << ",\n";
  f << "\"queries_sat\": " << nSat << ", \"queries_unsat\": " << nUnsat << ", \"queries_unknown\": " << nUnknown << ", \"cache_hits\": " << nCache << ",\n";
  f << "\"solver_time\": " << solverTime << ", \"max_query\": " << maxQuery << ", \"wall\": " << elapsed() << ", \"max_events\": " << maxEv << ", \"max_nodes\": " << maxNodes << ", \"sym_ops\": " << nInstr << ",\n";
  f << "\"exhaustive\": " << (incomplete.empty() && !hard ? "true" : "false") << ",\n\"incomplete\": [";
  bool c = false;
  for (auto & s : incomplete) { f << (c ? ", " : "") << jstr(s); c = true; }
  if (hard) f << (c ? ", " : "") << "\"hard time limit\"";
  f << "],\n\"asserts\": {";
  c = false;
  for (auto & [k, a] : asserts) { f << (c ? ", " : "") << jstr(k) << ": {\"unsat\": " << a.unsat << ", \"concrete\": " << a.concrete << ", \"sat\": " << a.sat << ", \"unknown\": " << a.unknown << "}"; c = true; }
  f << "},\n\"witnesses\": [";
  c = false;
  for (auto & [k, v] : witnesses) { f << (c ? ", " : "") << jstr(k); c = true; }
  f << "],\n\"opaque\": [";
  c = false;
  for (auto & [k, v] : opaqueSeen) { f << (c ? ", " : "") << jstr(k); c = true; }
  f << "],\n\"violations\": [";
  c = false;
  for (auto & v : viols) {
    f << (c ? ",\n" : "\n") << " {\"label\": " << jstr(v.label) << ", \"kind\": " << jstr(v.kind) << ", \"confirmed\": " << (v.confirmed ? "true" : "false") << ", \"native\": " << jstr(v.native) << ", \"inputs\": {";
    bool d = false;
    for (auto & [k, x] : v.in) { f << (d ? ", " : "") << jstr(k) << ": " << x; d = true; }
    f << "}}";
    c = true;
  }
  f << "],\n\"samples\": [";
  c = false;
  for (auto & m : samples) {
    f << (c ? ",\n" : "\n") << "{";
    bool d = false;
    for (auto & [k, x] : m) { f << (d ? ", " : "") << jstr(k) << ": " << x; d = true; }
    f << "}";
    c = true;
  }
  f << "],\n\"functions\": [";
  ifstream fn(O.workdir + "/functions.txt");
  string line;
  c = false;
  for (uint32_t i = 0; getline(fn, line); ++i)
    if (i < touched.size() && (touched[i] & 1)) { f << (c ? ", " : "") << jstr(line); c = true; }
  f << "],\n\"executed\": [";
  fn.clear();
  fn.seekg(0);
  c = false;
  for (uint32_t i = 0; getline(fn, line); ++i)
    if (i < touched.size() && touched[i]) { f << (c ? ", " : "") << jstr(line); c = true; }
  f << "]\n}\n";
  f.close();
}

int main(int argc, char ** argv)
{
  g_weak = personality(ADDR_NO_RANDOMIZE) == -1;  // every server of a run should see the same addresses

  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--bin") O.bin = nx();
    else if (a == "--native") O.native = nx();
    else if (a == "--out") O.out = nx();
    else if (a == "--workdir") O.workdir = nx();
    else if (a == "--real") O.real = true;
    else if (a == "--jobs") O.jobs = stoi(nx());
    else if (a == "--time") O.maxTime = stod(nx());
    else if (a == "--paths") O.maxPaths = stoull(nx());
    else if (a == "--qtimeout") O.qtimeout = stoul(nx());
    else if (a == "--run-timeout") O.runTimeout = stoul(nx());
    else if (a == "--max-events") O.maxEvents = stoul(nx());
    else if (a == "--conc-cap") O.concCap = stoul(nx());
    else if (a == "--native-timeout") O.natTimeout = stoul(nx());
    else if (a == "--seed") O.seed = stoi(nx());
    else if (a == "--verbose") O.verbose = true;
    else { cerr << "unknown option " << a << "\n"; return 2; }
  }
  signal(SIGPIPE, SIG_IGN);
  t0 = Clock::now();
  Q.push_back(Item{});
  vector<thread> ts;
  vector<unique_ptr<Worker>> ws;
  for (int i = 0; i < O.jobs; ++i) { ws.emplace_back(new Worker()); ws.back()->id = i; }
  atomic<bool> done{false};
  thread watchdog([&] {
    while (!done) {
      usleep(200000);
      if (elapsed() > O.maxTime + 20) {
        lock_guard<mutex> l(qm);
        report(true);
        for (auto & w : ws) if (w->pid > 0) kill(w->pid, SIGKILL);
        _exit(0);
      }
    }
  });
  for (auto & w : ws) ts.emplace_back([&w] { w->loop(); });
  for (auto & t : ts) t.join();
  done = true;
  watchdog.join();
  report(false);
  _exit(0);
}
