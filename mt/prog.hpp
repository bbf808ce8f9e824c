// Programs of the multi-threaded simulation.
#pragma once
#include "rt.hpp"

#define MT_OPS(X)                                                                                                      \
  X(BUILD) X(DRAIN) X(R_IDX) X(R_AT) X(R_NTH) X(R_FWD) X(R_BWD) X(R_ARITH) X(R_SEG) X(R_COPY) X(R_CMP) X(R_SIZE)       \
  X(R_FIND) X(R_LAST) X(R_PLAIN) X(R_INTO) X(R_RANGE) X(R_ITER) X(W_INS) X(W_EMPL) X(W_INSN) X(W_PUSHB) X(W_PUSHF) X(W_ERASE) X(W_ERASER) X(W_POPB) X(W_POPF)   \
  X(W_CLEAR) X(W_COPY) X(W_MOVE) X(W_SWAP) X(W_SORT) X(W_RESIZE) X(W_SPLICE) X(W_REMOVE) X(W_INSR) X(W_MERGE) X(W_UNIQUE)                         \
  X(W_REVERSE) X(W_ASSIGN) X(W_SPLICE1) X(W_SPLICER) X(W_REMOVEV) X(W_CTOR) X(W_READ) X(H_SWAP)           \
  X(H_MOVE) X(H_RECON) X(M_IDX) X(M_AT) X(M_NTH) X(M_INS) X(M_EMPL) X(M_ERASE) X(M_PUSHB) X(M_PUSHF) X(M_POPB)         \
  X(M_POPF) X(M_SIZE) X(M_SWAP) X(M_MOVE) X(M_MOVECTOR) X(M_BEGIN) X(M_STEP) X(M_DIFF) X(M_JUMP) X(M_CLEAR)            \
  X(M_TRAVERSE) X(M_BULK) X(M_ERASER) X(M_SEGWALK) X(M_CURSOR) X(M_COPY)                                               \
  X(M_SORT) X(M_REVERSE) X(M_REMOVE) X(M_UNIQUE) X(M_RESIZE) X(M_ASSIGN) X(M_MERGE) X(M_SPLICE) X(M_CMP) X(M_DESTROY)     \
  X(M_SCALE)

namespace mt {
enum Code : std::uint8_t {
#define X(n) OP_##n,
  MT_OPS(X)
#undef X
  NCODES
};
static_assert(NCODES <= 128, "the statistics have room for 128");
extern const char* const kCode[NCODES];

struct Op {
  std::uint8_t thread = 0, code = 0, s = 0, o = 0;
  std::uint32_t a = 0, b = 0, c = 0, fail = 0;
  bool sticky = false;
};
struct Program {
  std::string prop, cfg;
  std::uint64_t seed = 0;
  int threads = 1;
  std::vector<Op> ops;
  Schedule sched;
  std::vector<Program> before;  // runs the same process makes first
};
struct CfgInfo {
  const char* name;
  unsigned segmax, basemax;
};
struct Config {
  CfgInfo info;
  void (*run)(Program const&);
};
std::vector<Config>& configs();
std::string to_text(Program const& p);
bool from_text(std::string const& t, Program& p);
Program generate(std::string const& prop, std::uint64_t seed, std::vector<std::string> const& only);
}  // namespace mt
