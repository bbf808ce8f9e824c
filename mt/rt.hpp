// Simulation runtime for the multi-threaded and the work-measuring checks.
//
// The code under test is compiled with -fsanitize=thread, but linked against
// this runtime instead of ThreadSanitizer's: every memory access, allocation
// and lock operation calls into the simulator, which decides there - and
// nowhere else - whether another thread runs next. Only one thread ever runs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mt {
constexpr int kMaxThreads = 5;  // thread 0 is the set-up and wind-up phase

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  std::uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  x ^= x >> 32;
  x *= 0xd6e8feb86659fd93ull;
  x ^= x >> 29;
  x *= 0xd6e8feb86659fd93ull;
  return x ^ (x >> 32);
}
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x) {}
  std::uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull, 0x51ed27); }
  std::uint32_t below(std::uint32_t n) { return n ? std::uint32_t((next() >> 11) % n) : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
};

struct Switch {
  std::uint8_t from, to;
  std::uint32_t at;  // number of yield points `from` has passed
};
struct Schedule {
  bool replay = false;
  std::vector<Switch> list;   // replay: what to do
  std::uint64_t seed = 0;     // otherwise: where decisions come from
  unsigned period = 0;        // mean number of yield points between switches
  unsigned bursts = 0;        // or: this many switches at random points of the run
  unsigned horizon = 1000;
};
constexpr std::size_t kMaxSwitches = 1 << 14;

struct Stats {
  std::uint64_t runs, nontrivial, steps, switches, accesses, races_checked, allocs, frees, alloc_faults_set, alloc_faults, locks, lock_waits,
      sync_edges, ops_ok, ops_failed, handovers, checks, det_pairs, det_bad, digest, preempt_in_op, max_height, max_size, probe[32], op_ok[128],
      op_fail[128], cfg_runs[8], thread_hist[8];
};
struct Shared {
  volatile int violated, done;
  char cls[96], msg[600];
  int op_index, thread;
  std::uint64_t run_index, hash;
  std::uint32_t nsw;
  Switch sw[kMaxSwitches];
  Stats st;
};
struct Meter {
  std::uint64_t access, calls, elem, alloc, dealloc, blocks;
};

extern Shared* sh;
extern Stats* st;
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// Marks the code under test: outside of it nothing is observed.
extern thread_local bool tl_on;
struct Sut {
  Sut() { tl_on = true; }
  ~Sut() { tl_on = false; }
};
struct Pause {
  bool was;
  Pause() : was(tl_on) { tl_on = false; }
  ~Pause() { tl_on = was; }
};
extern thread_local int tl_id;       // simulated thread
extern thread_local int tl_op;       // its operation, for reports
Meter& meter();                      // of the running thread
void set_fault(std::uint32_t nth, bool sticky);  // of the running thread; 0: none
bool fault_fired();

// One run: prepare, run threads to completion under the schedule, finish.
void run_begin();
void run_threads(int n, std::function<void(int)> const& body, Schedule const& s);
std::uint64_t run_hash();
std::size_t live_blocks();
void run_end();  // everything must have been returned
void hash_in(std::uint64_t v);

// What the allocator of the containers uses.
void* block_alloc(std::size_t n, std::size_t size, std::size_t align);
void block_free(void* p, std::size_t n, std::size_t size);
void elem_op();  // an element was constructed, assigned or destroyed

struct Mutex {
  int owner = -1;
  std::uint32_t vc[kMaxThreads] = {};
  void lock();
  void unlock();
};
}  // namespace mt
