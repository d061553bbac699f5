// Operation codes and the trace layout shared by the pass, the runtime and the explorer.
#pragma once
#include <stdint.h>

enum SxOp : uint8_t {
  OP_NONE = 0, OP_CONST, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_ZEXT, OP_SEXT, OP_EXTRACT /* aux = low bit */, OP_CONCAT /* a = high, b = low */,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_ITE, OP_UMULO, OP_SMULO,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FABS, OP_FSQRT,
  OP_FFLOOR, OP_FCEIL, OP_FTRUNC, OP_FRINT, OP_FROUND, OP_FCOPYSIGN, OP_FMIN, OP_FMAX,
  OP_FCMP /* aux = llvm predicate 0..15 */,
  OP_FPTOSI, OP_FPTOUI, OP_SITOFP, OP_UITOFP, OP_FPEXT, OP_FPTRUNC, OP_BITS2F, OP_F2BITS,
  OP_SIN, OP_COS, OP_TAN, OP_ASIN, OP_ACOS, OP_ATAN, OP_ATAN2, OP_EXP, OP_LOG, OP_POW, OP_HYPOT,
  OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_BSWAP,
  OP_CBRT,
  OP_TABLE /* a = index expression, b = offset in the data area, c = number of entries */,
  OP_MAX
};

enum SxType : uint8_t { TY_BV = 0, TY_F64 = 1, TY_F32 = 2 };

struct SxNode {
  uint8_t op, ty;
  uint16_t w;    // width in bits for TY_BV
  uint32_t aux;
  uint32_t a, b, c;
  uint32_t hnext;
  uint64_t val;  // concrete value in this run (bits)
};

enum SxEv : uint8_t { EV_BRANCH = 1, EV_CONC = 2, EV_ASSUME = 3, EV_ASSERT = 4, EV_WITNESS = 5, EV_FORCE = 6 };

struct SxEvent {
  uint8_t kind, taken;
  uint16_t pad;
  uint32_t node;   // 0 = concrete
  uint64_t val;    // EV_CONC: the concrete value
  uint32_t site;   // string offset
  uint32_t label;  // string offset
};

enum SxExit : uint32_t {
  SXX_RUNNING = 0, SXX_OK = 1, SXX_ASSUME = 2, SXX_ASSERT = 3, SXX_LIMIT = 4, SXX_EXCEPTION = 5,
  SXX_SIGNAL = 6, SXX_TIMEOUT = 7
};

struct SxInput { char name[48]; uint64_t val; };

#define SX_MAX_NODES (1u << 22)
#define SX_MAX_EVENTS (1u << 18)
#define SX_MAX_INPUTS 1024
#define SX_MAX_STR (1u << 22)
#define SX_MAX_DATA (1u << 20)
#define SX_MAX_FN (1u << 16)

struct SxShared {
  // request
  uint32_t n_inputs;
  uint32_t mode_real;
  uint32_t max_events;
  uint32_t timeout_s;
  SxInput inputs[SX_MAX_INPUTS];
  uint32_t n_forced;      // decisions dictated for the first events (real mode)
  uint8_t forced[SX_MAX_EVENTS];
  uint64_t forced_val[4096];  // values of dictated EV_CONC, in order
  // reply
  uint32_t exit_kind, exit_sig;
  uint32_t n_nodes, n_events, n_str, n_data, n_opaque, n_lost, n_mismatch;
  uint32_t exit_label;
  uint64_t instr_ops;
  SxEvent events[SX_MAX_EVENTS];
  char str[SX_MAX_STR];
  uint64_t data[SX_MAX_DATA];
  uint8_t fn_touched[SX_MAX_FN];
  char opaque[64][96];
  SxNode nodes[SX_MAX_NODES];
};
