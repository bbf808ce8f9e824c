#include "core.hpp"
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef SIM_ASAN
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)0)
#endif

namespace sim {
Global G;
const char* const kFaultName[NFK] = {"alloc", "copy", "default", "value", "copyassign", "move",
                                     "moveassign", "construct", "compare", "source", "eof", "scratch"};
const char* const kProbeName[NPROBE] = {
    "height_grew", "height_shrank", "alloc_failed_segment", "alloc_failed_first_node",
    "alloc_failed_deeper_node", "split_of_two_or_more_levels", "merge_of_two_or_more_levels",
    "failure_on_empty_container", "removal_released_a_block", "transfer_between_unequal_allocators",
    "scratch_partially_available", "retry_succeeded", "points_swept", "argument_aliases_element",
    "source_cut_short", "removal_under_exhaustion", "held_iterator_used", "address_reused",
    "unequal_allocators_swapped", "segment_navigation", "height_4_or_more", "size_1000_or_more",
    "strong_state_compared"};

void logline(const char* fmt, ...) {
  if (!G.verbose) return;
  va_list ap;
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  putchar('\n');
}

void (*op_begins)() = nullptr;
void violate(const char* cls, const char* fmt, ...) {
  G.armed = false;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (G.sh) {
    snprintf(G.sh->cls, sizeof G.sh->cls, "%s%s", G.disturbed && strncmp(cls, "twin:", 5) ? "twin:" : "", cls);
    snprintf(G.sh->msg, sizeof G.sh->msg, "%s", buf);
    G.sh->hash = G.hash;
    G.sh->op_index = G.cur_op;
    G.sh->op_code = G.cur_code;
    G.sh->violated = 1;
  } else {
    fprintf(stderr, "violation %s: %s\n", cls, buf);
  }
  fflush(stdout);
  _exit(70);
}

void begin_call(const std::vector<Fault>& plan) {
  memset(G.cnt, 0, sizeof G.cnt);
  G.plan = plan.data();
  G.nplan = plan.size();
  for (auto& f : plan) G.st->configured[f.kind]++;
  G.fired_throw = false;
  G.fired_mask = 0;
  G.call_steps = 0;
  G.armed = true;
}
void end_call() {
  G.armed = false;
  G.plan = nullptr;
  G.nplan = 0;
}

bool fault_hit(FaultKind k) {
  if (!G.armed) return false;
  auto c = ++G.cnt[k];
  ++G.st->steps;
  ev(k * 31 + 7);
  if (++G.call_steps > 20000000ull) violate("runaway", "call did not finish in 20M simulated steps");
  for (std::size_t i = 0; i < G.nplan; ++i) {
    auto const& f = G.plan[i];
    if (f.kind != k) continue;
    if (c == f.nth || (f.sticky && c > f.nth)) {
      ++G.st->fired[k];
      G.fired_mask |= 1u << k;
      ++G.run_fired;
      ev(0xf00 + k);
      logline("    fault %s #%u", kFaultName[k], c);
      if (fault_throws(k)) {
        ++G.fire_id;
        if (!G.fired_throw) G.fire_first = G.fire_id;
        G.fire_last = G.fire_id;
        G.fired_throw = true;
      }
      return true;
    }
  }
  return false;
}
void fault_point(FaultKind k) {
  if (!fault_hit(k)) return;
  // What is thrown varies: allocators may throw anything, and so may elements.
  unsigned t = unsigned(mix(G.cnt[k] * 64 + k, G.cur_op) % 8);
  if (k == F_ALLOC ? t < 6 : t < 2) {
    InjectedAlloc e;
    e.id = G.fire_id;
    throw e;
  }
  if (k == F_ALLOC ? t == 6 : t < 4) throw InjectedStd(G.fire_id);
  throw Injected{G.fire_id};
}

// ------------------------------------------------------------------ memory
namespace {
constexpr std::uintptr_t kBase = 0x200000000000ull;
constexpr std::size_t kCap = std::size_t(1) << 31;
constexpr std::size_t kRed = 32;
struct Mem {
  char* base = nullptr;
  std::size_t top = 0;
  bool reuse = false;
  std::unordered_map<std::uintptr_t, Block> blocks;
  std::unordered_map<std::size_t, std::vector<char*>> freelist;
  std::uint64_t live = 0, total = 0;
  std::unordered_map<int, std::uint64_t> live_arena;
  std::unordered_set<std::uintptr_t> via;
};
Mem& mem() {
  static Mem* m = new Mem;
  return *m;
}
std::size_t round16(std::size_t b) { return (b + 15) & ~std::size_t(15); }
}  // namespace

void mem_reset(bool reuse) {
  bool a = G.armed;
  G.armed = false;
  Mem& m = mem();
  if (!m.base) {
    void* p = mmap(reinterpret_cast<void*>(kBase), kCap, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED)
      p = mmap(nullptr, kCap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no arena\n"); _exit(99); }
    m.base = static_cast<char*>(p);
    ASAN_POISON_MEMORY_REGION(m.base, std::size_t(64) << 20);
  }
  if (m.top) ASAN_POISON_MEMORY_REGION(m.base, m.top);
  m.top = 0;
  m.reuse = reuse;
  m.blocks.clear();
  m.freelist.clear();
  m.live = m.total = 0;
  m.live_arena.clear();
  m.via.clear();
  G.armed = a;
}

void via_add(const void* p) {
  bool a = G.armed;
  G.armed = false;
  if (!mem().via.insert(reinterpret_cast<std::uintptr_t>(p)).second)
    violate("lifetime:construct-over-live", "constructed through the allocator twice, not destroyed in between");
  G.armed = a;
}
void via_put(const void* p) {
  bool a = G.armed;
  G.armed = false;
  mem().via.insert(reinterpret_cast<std::uintptr_t>(p));
  G.armed = a;
}
void via_drop(const void* p, std::size_t bytes) {
  bool a = G.armed;
  G.armed = false;
  auto f = reinterpret_cast<std::uintptr_t>(p);
  for (std::size_t i = 0; i != bytes; ++i) mem().via.erase(f + i);
  G.armed = a;
}
bool via_del(const void* p) {
  bool a = G.armed;
  G.armed = false;
  bool r = mem().via.erase(reinterpret_cast<std::uintptr_t>(p)) != 0;
  G.armed = a;
  return r;
}
bool via_has(const void* p) { return mem().via.count(reinterpret_cast<std::uintptr_t>(p)) != 0; }
std::size_t via_count() { return mem().via.size(); }

void* mem_alloc(std::size_t bytes, std::size_t n, int arena) {
  bool a = G.armed;
  G.armed = false;
  Mem& m = mem();
  std::size_t r = round16(bytes ? bytes : 1);
  char* p = nullptr;
  bool reused = false;
  if (m.reuse) {
    auto it = m.freelist.find(r);
    if (it != m.freelist.end() && !it->second.empty()) {
      p = it->second.back();
      it->second.pop_back();
      reused = true;
      ++G.st->probe[P_ADDR_REUSED];
    }
  }
  if (!p) {
    if (m.top + r + 2 * kRed > kCap) violate("runaway-memory", "2 GB requested in one run");
    p = m.base + m.top + kRed;
    m.top += r + 2 * kRed;
    ASAN_POISON_MEMORY_REGION(p - kRed, r + 2 * kRed);
  }
  ASAN_UNPOISON_MEMORY_REGION(p, bytes);
  if (!reused) memset(p, 0xa5, bytes);
  m.blocks[reinterpret_cast<std::uintptr_t>(p)] = Block{bytes, n, arena, true};
  ++m.live;
  ++m.live_arena[arena];
  ++m.total;
  ++G.st->allocs;
  G.armed = a;
  return p;
}

void mem_free(void* p, std::size_t n, bool check_n, int arena) {
  bool a = G.armed;
  G.armed = false;
  Mem& m = mem();
  if (!p) violate("memory:free-null", "a null pointer was given to deallocate");
  auto it = m.blocks.find(reinterpret_cast<std::uintptr_t>(p));
  if (it == m.blocks.end()) violate("memory:free-unknown", "deallocate of an address never returned by allocate");
  Block& b = it->second;
  if (!b.live) violate("memory:double-free", "block returned twice");
  if (check_n && b.n != n) violate("memory:size-mismatch", "block of %zu returned as %zu", b.n, n);
  if (b.arena != arena) violate("memory:wrong-allocator", "block of arena %d returned to arena %d", b.arena, arena);
  b.live = false;
  --m.live;
  --m.live_arena[arena];
  ASAN_POISON_MEMORY_REGION(p, b.bytes);
  if (m.reuse) m.freelist[round16(b.bytes ? b.bytes : 1)].push_back(static_cast<char*>(p));
  G.armed = a;
}
bool mem_owns(const void* p) {
  Mem& m = mem();
  return m.base && p >= m.base && p < m.base + kCap;
}
bool mem_is_live(const void* p) {
  auto it = mem().blocks.find(reinterpret_cast<std::uintptr_t>(p));
  return it != mem().blocks.end() && it->second.live;
}
int mem_arena_of(const void* p) {
  auto it = mem().blocks.find(reinterpret_cast<std::uintptr_t>(p));
  return it != mem().blocks.end() && it->second.live ? it->second.arena : -1;
}
std::uint64_t mem_live_blocks() { return mem().live; }
std::uint64_t mem_live_blocks(int arena) {
  bool a = G.armed;
  G.armed = false;
  auto it = mem().live_arena.find(arena);
  auto r = it == mem().live_arena.end() ? 0 : it->second;
  G.armed = a;
  return r;
}
std::uint64_t mem_total_allocs() { return mem().total; }
}  // namespace sim

// ------------------------------------------------------------------ global new/delete
// Inside a call of the code under test these are the memory seam of std::allocator (throwing form)
// and of the standard algorithms' scratch buffers (nothrow form).
static void* plain_new(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  return p;
}
void* operator new(std::size_t n) {
  if (sim::G.armed) {
    sim::fault_point(sim::F_ALLOC);
    return sim::mem_alloc(n, 1, sim::kGlobalArena);
  }
  return plain_new(n);
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
  if (sim::G.armed && sim::fault_hit(sim::F_TMP)) return nullptr;
  return std::malloc(n ? n : 1);
}
void* operator new[](std::size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
static void sim_delete(void* p) noexcept {
  if (!p) return;
  if (sim::mem_owns(p)) {
    sim::mem_free(p, 1, false, sim::kGlobalArena);
    return;
  }
  std::free(p);
}
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim_delete(p); }
