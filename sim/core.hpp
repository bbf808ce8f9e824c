// Deterministic simulator core: PRNG, fault points, simulated memory, violation reporting.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {
using V = std::uint64_t;  // observable value of an element: (key << 40) | serial

constexpr V kMoved = 0xfeedfaceull;       // what a moved-from tracked element shows
constexpr V kDefault = 0x0ull;            // a default constructed element
inline V mkv(unsigned key, std::uint64_t serial) { return (V(key) << 40) | serial; }
inline unsigned tagof(V v) { return unsigned((v >> 20) & 0xfffff); }  // operation that made it, plus 1
inline unsigned keyof(V v) { return unsigned(v >> 40); }

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  std::uint32_t below(std::uint32_t n) { return n ? std::uint32_t((next() >> 16) % n) : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b);
  r.next();
  return r.next();
}

// ------------------------------------------------------------------ faults
enum FaultKind : std::uint8_t {
  F_ALLOC,  // allocator::allocate / operator new throws
  F_COPY,   // element copy construction throws
  F_DFLT,   // element default construction throws
  F_VAL,    // element construction from a foreign value throws
  F_CASG,   // element copy assignment throws
  F_MOVE,   // element move construction throws (throwing-move types only)
  F_MASG,   // element move assignment throws (throwing-move types only)
  F_CONS,   // allocator::construct throws
  F_CMP,    // comparator, predicate or element equality throws
  F_ITER,   // source iterator compare / read / advance throws
  F_EOF,    // source ends early (does not throw)
  F_TMP,    // scratch memory, new(nothrow), returns null (does not throw)
  NFK
};
extern const char* const kFaultName[NFK];
inline bool fault_throws(int k) { return k != F_EOF && k != F_TMP; }

struct Fault {
  std::uint8_t kind;
  bool sticky;  // every later point of the kind in this call fails too
  std::uint32_t nth;
};

struct Injected { std::uint32_t id; };
struct InjectedAlloc : std::bad_alloc { std::uint32_t id; };
struct InjectedStd : std::runtime_error {
  std::uint32_t id;
  explicit InjectedStd(std::uint32_t i) : std::runtime_error("injected"), id(i) {}
};

// ------------------------------------------------------------------ probes
enum Probe {
  P_HEIGHT_UP, P_HEIGHT_DOWN, P_ALLOC_FAIL_SEG, P_ALLOC_FAIL_NODE1, P_ALLOC_FAIL_NODE2PLUS,
  P_MULTI_LEVEL_SPLIT, P_MULTI_LEVEL_MERGE, P_FAIL_EMPTY, P_STEAL_OR_MERGE, P_UNEQUAL_TRANSFER,
  P_TMP_PARTIAL, P_RETRY_OK, P_SWEEP_POINTS, P_ALIAS_ARG, P_SRC_CUT, P_OOM_REMOVAL, P_HELD_USED,
  P_ADDR_REUSED, P_SWAP_UNEQUAL, P_SEG_NAV, P_H4PLUS, P_BIG_1000, P_STRONG_CHECKED, NPROBE
};
extern const char* const kProbeName[NPROBE];

constexpr int kMaxOps = 64;
struct Stats {
  std::uint64_t runs, ops_ok, ops_failed, steps, allocs, elem_ops, yields, switches;
  std::uint64_t fired[NFK], configured[NFK], probe[NPROBE], op_ok[kMaxOps], op_fail[kMaxOps];
  std::uint64_t cfg_runs[64];
  std::uint64_t max_size, max_height, checks, twin_steps, det_pairs, det_bad, nontrivial, digest, cpu_us;
  std::uint64_t op_steps[4];
};

// What a worker shares with its parent (MAP_SHARED).
struct Shared {
  volatile std::uint64_t run_index;
  volatile std::uint32_t op_index;
  volatile std::uint32_t done;
  volatile std::uint32_t violated;
  volatile std::int32_t op_code;
  char cls[96];
  char msg[512];
  std::uint64_t hash;
  Stats st;
};

struct Global {
  bool armed = false;       // fault points are live: inside a call of the code under test
  bool quiet = true;
  bool disturbed = false;   // the same program has just run to its end without failures
  bool verbose = false;     // print the event log
  std::uint32_t cnt[NFK] = {};
  const Fault* plan = nullptr;
  std::size_t nplan = 0;
  std::uint32_t fire_first = 0, fire_last = 0;  // ids fired in this call (throwing kinds)
  bool fired_throw = false;
  std::uint32_t fired_mask = 0;             // kinds fired in this call
  std::uint32_t cur_op = 0;
  std::int32_t cur_code = -1;
  std::uint32_t fire_id = 0;
  std::uint64_t hash = 0;   // rolling hash of the event log
  std::uint64_t call_steps = 0;
  std::int64_t live_elems = 0;
  std::uint64_t copies = 0, moves = 0;
  std::uint64_t run_height = 0, run_subject = 0, run_fired = 0;
  std::uint64_t destroys = 0;     // elements destroyed through the allocator
  bool destroy_only = false;      // the allocator supplies destroy, and no construct
  int in_destroy = 0;
  int in_construct = 0;
  int construct_mark = 1;         // 2 where the allocator supplies construct, and no destroy
  Shared* sh = nullptr;
  Stats* st = nullptr;
};
extern Global G;

extern void (*op_begins)();  // set by the driver: an operation gets its full allowance of processor time
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

inline void ev(std::uint64_t x) { G.hash = (G.hash ^ x) * 0x100000001b3ull + (G.hash >> 29); }
void logline(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

void begin_call(const std::vector<Fault>& plan);
void end_call();
bool fault_hit(FaultKind k);           // counts the point, true if it must fail
void fault_point(FaultKind k);         // throws if it must fail

// ------------------------------------------------------------------ simulated memory
struct Block {
  std::size_t bytes, n;
  int arena;
  bool live;
};
void mem_reset(bool reuse);
void* mem_alloc(std::size_t bytes, std::size_t n, int arena);
void mem_free(void* p, std::size_t n, bool check_n, int arena);
bool mem_owns(const void* p);
bool mem_is_live(const void* p);
int mem_arena_of(const void* p);  // of the block starting at p, -1 if there is none
std::uint64_t mem_live_blocks();
std::uint64_t mem_live_blocks(int arena);
std::uint64_t mem_total_allocs();
// Plain elements that went through allocator::construct (tracked elements know this themselves).
void via_add(const void* p);
void via_put(const void* p);
void via_drop(const void* p, std::size_t bytes);
bool via_del(const void* p);
bool via_has(const void* p);
std::size_t via_count();
constexpr int kGlobalArena = 1000;
}  // namespace sim
