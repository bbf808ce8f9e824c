// A program is the complete schedule and fault trace of one simulated run.
#pragma once
#include "core.hpp"

namespace sim {
#define SIM_OPS(X)                                                                               \
  X(BUILD) X(DRAIN)                                                                              \
  X(INS_C) X(INS_R) X(EMPL) X(EMPL_C) X(INS_ALIAS) X(PB_C) X(PB_R) X(EB) X(PB_ALIAS) X(PF_C)     \
  X(PF_R) X(EF) X(EMPL_D)                                                                        \
  X(INS_N) X(INS_N_ALIAS) X(INS_RANGE) X(INS_IL)                                                 \
  X(ERASE) X(ERASE_R) X(POPB) X(POPF)                                                            \
  X(RESIZE) X(RESIZE_V) X(RESIZE_ALIAS)                                                          \
  X(ASSIGN_N) X(ASSIGN_RANGE) X(ASSIGN_IL) X(OPEQ_IL)                                            \
  X(COPY_ASSIGN) X(MOVE_ASSIGN) X(SWAP) X(CLEAR) X(RECON)                                        \
  X(SPLICE_ALL) X(SPLICE_ONE) X(SPLICE_RANGE) X(MERGE)                                           \
  X(REMOVE) X(REMOVE_ALIAS) X(REMOVE_IF) X(REVERSE) X(UNIQUE) X(SORT)                            \
  X(COMPARE) X(NAV) X(HOLD_SWAP) X(HOLD_MOVECTOR) X(HOLD_MOVEASSIGN) X(HOLD_SORT) X(HOLD_REVERSE) \
  X(CHECKALL)
enum OpCode : std::uint8_t {
#define X(n) OP_##n,
  SIM_OPS(X)
#undef X
  NOPS
};
extern const char* const kOpName[NOPS];

constexpr std::uint32_t kHuge = 0xffff0000u;  // as a count: far more than fits into memory

enum Mode : std::uint8_t { M_ONCE, M_RETRY, M_SWEEP };

struct Op {
  std::uint8_t code = 0, s = 0, o = 0, mode = M_ONCE;
  std::uint32_t a = 0, b = 0, c = 0, d = 0;
  std::vector<Fault> f;
};

enum Oracle : unsigned {
  O_BAL = 1,       // occupancy, height and block bounds
  O_NAV = 2,       // dense navigation checks in every state
  O_NOALLOC = 4,   // removals etc. request no memory
  O_TWIN = 8,      // compare with an undisturbed twin run
  O_ALLOC = 16,    // allocator identity
};

struct Program {
  std::string prop, cfg;
  std::uint64_t seed = 0;
  bool reuse = false;
  int arenas[3] = {0, 0, 0};
  std::vector<Op> ops;
  std::vector<Program> before;  // runs the same process makes first
};

struct CfgInfo {
  const char* name;
  bool tracked, throwing_move, copyable, stateful, cons, tcons, pocca, pocma, pocs, std_alloc;
  unsigned segmax, basemax, size_bytes;
};

struct Result {
  std::uint64_t hash = 0;
  std::vector<std::uint64_t> digests;  // one per op
  std::uint64_t shape_hash = 0;
};

using RunFn = void (*)(Program const&, bool faults, Result&);
struct Config {
  CfgInfo info;
  RunFn run;
};
std::vector<Config>& configs();
struct Register {
  explicit Register(Config c) { configs().push_back(c); }
};
void note_state(std::uint64_t h);   // distinct-state set
unsigned oracles_of(std::string const& prop);
std::uint64_t subject_ops(std::string const& prop);
bool faults_expected(std::string const& prop);
bool accepts(std::string const& prop, const char* cls, int opcode);  // is this a violation of that property?

std::string to_text(Program const&);
bool from_text(std::string const&, Program&);
Program generate(std::string const& prop, std::uint64_t seed, std::vector<std::string> const& only);
std::vector<std::string> configs_for(std::string const& prop);
}  // namespace sim
