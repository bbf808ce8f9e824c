#include "rt.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace mt {
Shared* sh;
Stats* st;
thread_local bool tl_on = false;
thread_local int tl_id = 0;
thread_local int tl_op = -1;

namespace {
enum : std::uint8_t { kNone, kLive, kFreed };
struct Byte {
  std::uint8_t state, wtid;
  std::uint32_t wclk;
  std::uint32_t rclk[kMaxThreads];
};
constexpr std::size_t kArena = 24u << 20;
char* arena;
Byte* shadow;        // of the arena
Byte* gshadow;       // of the global variables
std::size_t gsize, bump;
char* gbase;
struct Block {
  std::size_t n, size;
  bool live;
};
std::map<char*, Block>* blocks;   // container blocks
std::size_t nlive;
std::map<char*, std::size_t>* heap;  // operator new
std::uint32_t vc[kMaxThreads][kMaxThreads];
Meter meters[kMaxThreads];
struct FaultState {
  std::uint32_t nth, count;
  bool sticky, fired;
} faults[kMaxThreads];
std::uint64_t hash;

// Scheduler
bool running;         // threads exist
int nthreads, current;
bool finished[kMaxThreads];
const void* blocked[kMaxThreads];
sem_t baton[kMaxThreads], all_done;
std::uint32_t passed[kMaxThreads];
Schedule sched;
Rng srng(1);
std::size_t next_sw;
std::vector<std::uint32_t>* burst_at;
std::uint64_t gstep;
std::map<const void*, std::vector<std::uint32_t>>* sync_clocks;
std::map<const void*, Mutex>* foreign;  // locks of the code under test itself

void* reserve(std::size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return p;
}
void setup_once() {
  if (arena) return;
  arena = static_cast<char*>(reserve(kArena));
  shadow = static_cast<Byte*>(reserve(kArena * sizeof(Byte)));
  gbase = &__data_start;
  gsize = std::size_t(&_end - &__data_start);
  gshadow = static_cast<Byte*>(reserve(gsize * sizeof(Byte)));
  blocks = new std::map<char*, Block>;
  heap = new std::map<char*, std::size_t>;
  burst_at = new std::vector<std::uint32_t>;
  sync_clocks = new std::map<const void*, std::vector<std::uint32_t>>;
}

int pick_runnable(int avoid) {
  int c[kMaxThreads], n = 0;
  for (int t = 1; t <= nthreads; ++t)
    if (!finished[t] && !blocked[t] && t != avoid) c[n++] = t;
  if (!n) return -1;
  return sched.replay ? c[0] : c[srng.below(std::uint32_t(n))];
}
void switch_to(int t) {
  int me = tl_id;
  if (sh->nsw < kMaxSwitches) sh->sw[sh->nsw++] = Switch{std::uint8_t(me), std::uint8_t(t), passed[me]};
  ++st->switches;
  hash_in(mix(std::uint64_t(t) << 32 | std::uint64_t(me), passed[me]));
  current = t;
  sem_post(&baton[t]);
  while (sem_wait(&baton[me]) != 0) {}
}
void yield_point(bool in_op) {
  if (!running) return;
  int me = tl_id;
  ++passed[me];
  ++gstep;
  ++st->steps;
  if (passed[me] > 4000000) violate("runaway", "thread %d does not finish", me);
  int to = -1;
  if (sched.replay) {
    while (next_sw < sched.list.size() && sched.list[next_sw].from == me && sched.list[next_sw].at < passed[me]) ++next_sw;
    if (next_sw < sched.list.size() && sched.list[next_sw].from == me && sched.list[next_sw].at == passed[me]) {
      to = sched.list[next_sw++].to;
      if (to < 1 || to > nthreads || finished[to] || blocked[to]) to = -1;
    }
  } else if (sched.bursts) {
    if (!burst_at->empty() && gstep >= burst_at->back()) {
      burst_at->pop_back();
      to = pick_runnable(me);
    }
  } else if (srng.below(sched.period) == 0)
    to = pick_runnable(me);
  if (to > 0 && to != me) {
    if (in_op) ++st->preempt_in_op;
    switch_to(to);
  }
}
// The running thread cannot go on: someone else must.
void must_switch() {
  int me = tl_id, to = -1;
  if (sched.replay && next_sw < sched.list.size() && sched.list[next_sw].from == me && sched.list[next_sw].at == passed[me]) {
    to = sched.list[next_sw].to;
    if (to >= 1 && to <= nthreads && !finished[to] && !blocked[to] && to != me) ++next_sw;
    else to = -1;
  }
  if (to < 0) to = pick_runnable(me);
  if (to < 0) {
    bool left = false;
    for (int t = 1; t <= nthreads; ++t) left |= !finished[t];
    if (left) violate("deadlock", "no thread can run");
    current = 0;
    sem_post(&all_done);
    return;
  }
  if (finished[me]) {
    if (sh->nsw < kMaxSwitches) sh->sw[sh->nsw++] = Switch{std::uint8_t(me), std::uint8_t(to), passed[me]};
    current = to;
    sem_post(&baton[to]);
    return;
  }
  switch_to(to);
}

Byte* find(const void* p, std::size_t n, bool& in_arena) {
  auto c = static_cast<const char*>(p);
  if (c >= arena && c < arena + kArena) {
    in_arena = true;
    return shadow + (c - arena);
  }
  if (c >= gbase && c + n <= gbase + gsize) {
    in_arena = false;
    return gshadow + (c - gbase);
  }
  return nullptr;
}
void access(const void* p, std::size_t n, bool write) {
  if (!tl_on) return;
  bool in_arena;
  Byte* b = find(p, n, in_arena);
  if (!b) return;
  Pause pause;
  int me = tl_id;
  meters[me].access += 1 + (n > 8 ? (n - 1) / 8 : 0);
  ++st->accesses;
  yield_point(true);
  for (std::size_t i = 0; i != n; ++i) {
    Byte& x = b[i];
    if (in_arena && x.state != kLive)
      violate(x.state == kFreed ? "memory:use-after-free" : "memory:wild", "thread %d %s %zu bytes at arena offset %zu which %s", me,
              write ? "writes" : "reads", n, std::size_t(static_cast<const char*>(p) - arena), x.state == kFreed ? "was given back" : "no block holds");
    if (x.wclk && x.wtid != me && x.wclk > vc[me][x.wtid])
      violate("race", "thread %d %s what thread %d wrote, unordered (%s)", me, write ? "writes" : "reads", x.wtid,
              in_arena ? "heap" : "global variable");
    if (write) {
      for (int t = 0; t != kMaxThreads; ++t)
        if (t != me && x.rclk[t] > vc[me][t])
          violate("race", "thread %d writes what thread %d reads, unordered (%s)", me, t, in_arena ? "heap" : "global variable");
      x.wtid = std::uint8_t(me);
      x.wclk = vc[me][me];
    } else
      x.rclk[me] = vc[me][me];
  }
  st->races_checked += n;
}
void acquire(std::uint32_t* c) {
  int me = tl_id;
  for (int t = 0; t != kMaxThreads; ++t)
    if (c[t] > vc[me][t]) vc[me][t] = c[t];
}
void release(std::uint32_t* c) {
  int me = tl_id;
  for (int t = 0; t != kMaxThreads; ++t)
    if (vc[me][t] > c[t]) c[t] = vc[me][t];
  ++vc[me][me];
}
std::uint32_t* sync_clock(const void* p) {
  auto& v = (*sync_clocks)[p];
  if (v.empty()) v.resize(kMaxThreads);
  return v.data();
}
void atomic_point(const void* p) {
  if (!tl_on) return;
  Pause pause;
  ++meters[tl_id].access;
  yield_point(true);
  auto c = sync_clock(p);
  acquire(c);
  release(c);
  ++st->sync_edges;
}

char* take(std::size_t bytes, std::size_t align) {
  if (align < 16) align = 16;
  bump = (bump + align - 1) / align * align;
  char* p = arena + bump;
  bump += bytes + 16;
  if (bump > kArena) {
    fprintf(stderr, "arena exhausted\n");
    _exit(97);
  }
  int me = tl_id;
  for (std::size_t i = 0; i != bytes; ++i) {
    Byte& b = shadow[p - arena + std::ptrdiff_t(i)];
    b = Byte{};
    b.state = kLive;
    b.wtid = std::uint8_t(me);
    b.wclk = vc[me][me];
  }
  memset(p, 0xa5, bytes);
  return p;
}
void give(char* p, std::size_t bytes) {
  int me = tl_id;
  for (std::size_t i = 0; i != bytes; ++i) {
    Byte& b = shadow[p - arena + std::ptrdiff_t(i)];
    if (b.wtid != me && b.wclk > vc[me][b.wtid]) violate("race", "thread %d gives back what thread %d wrote, unordered", me, b.wtid);
    for (int t = 0; t != kMaxThreads; ++t)
      if (t != me && b.rclk[t] > vc[me][t]) violate("race", "thread %d gives back what thread %d reads, unordered", me, t);
    b.state = kFreed;
  }
}
bool fail_now() {
  auto& f = faults[tl_id];
  if (!f.nth) return false;
  ++f.count;
  if (f.count == f.nth || (f.sticky && f.count > f.nth)) {
    if (!f.fired) ++st->alloc_faults;
    f.fired = true;
    hash_in(0xfa);
    return true;
  }
  return false;
}
bool in_arena(void* p) { return arena && p >= arena && p < arena + kArena; }
}  // namespace

void hash_in(std::uint64_t v) { hash = mix(hash, v); }
Meter& meter() { return meters[tl_id]; }
void set_fault(std::uint32_t nth, bool sticky) {
  faults[tl_id] = FaultState{nth, 0, sticky, false};
  if (nth) ++st->alloc_faults_set;
}
bool fault_fired() { return faults[tl_id].fired; }
void elem_op() {
  if (tl_on) ++meters[tl_id].elem;
}

void violate(const char* cls, const char* fmt, ...) {
  tl_on = false;
  if (sh && !sh->violated) {
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list a;
    va_start(a, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, a);
    va_end(a);
    sh->op_index = tl_op;
    sh->thread = tl_id;
    sh->hash = hash;
    sh->violated = 1;
  }
  _exit(70);
}

void* block_alloc(std::size_t n, std::size_t size, std::size_t align) {
  Pause p;
  ++meters[tl_id].alloc;
  ++st->allocs;
  yield_point(p.was);
  if (fail_now()) throw std::bad_alloc();
  if (n == 0 || n > kArena / size) violate("memory:size", "a block of %zu elements of %zu bytes was requested", n, size);
  char* r = take(n * size, align);
  (*blocks)[r] = Block{n, size, true};
  ++nlive;
  hash_in(mix(std::uint64_t(r - arena), n * size));
  return r;
}
void block_free(void* q, std::size_t n, std::size_t size) {
  Pause p;
  ++meters[tl_id].dealloc;
  ++st->frees;
  yield_point(p.was);
  auto i = blocks->find(static_cast<char*>(q));
  if (i == blocks->end() || !i->second.live) violate("memory:bad-free", "a block was given back that is not held");
  if (i->second.n != n || i->second.size != size)
    violate("memory:count", "a block of %zu was given back as one of %zu", i->second.n, n);
  i->second.live = false;
  --nlive;
  hash_in(std::uint64_t(static_cast<char*>(q) - arena) + 1);
  give(static_cast<char*>(q), n * size);
}
std::size_t live_blocks() { return nlive; }

void run_begin() {
  setup_once();
  memset(static_cast<void*>(shadow), 0, bump * sizeof(Byte));
  memset(static_cast<void*>(gshadow), 0, gsize * sizeof(Byte));
  bump = 0;
  blocks->clear();
  heap->clear();
  sync_clocks->clear();
  if (foreign) foreign->clear();
  nlive = 0;
  hash = 1;
  memset(meters, 0, sizeof meters);
  memset(faults, 0, sizeof faults);
  memset(vc, 0, sizeof vc);
  for (int t = 0; t != kMaxThreads; ++t) vc[t][t] = 1;
  running = false;
  tl_id = 0;
  tl_op = -1;
  sh->nsw = 0;
}
namespace {
std::function<void(int)> const* body_fn;
void* thread_main(void* a) {
  tl_id = int(reinterpret_cast<std::intptr_t>(a));
  while (sem_wait(&baton[tl_id]) != 0) {}
  (*body_fn)(tl_id);
  finished[tl_id] = true;
  must_switch();
  return nullptr;
}
}  // namespace
void run_threads(int n, std::function<void(int)> const& body, Schedule const& s) {
  sched = s;
  srng = Rng(mix(s.seed, 0x5c4ed));
  nthreads = n;
  next_sw = 0;
  gstep = 0;
  burst_at->clear();
  if (!s.replay && s.bursts) {
    for (unsigned i = 0; i != s.bursts; ++i) burst_at->push_back(srng.below(s.horizon) + 1);
    for (std::size_t i = 0; i != burst_at->size(); ++i)
      for (std::size_t j = i + 1; j != burst_at->size(); ++j)
        if ((*burst_at)[i] < (*burst_at)[j]) std::swap((*burst_at)[i], (*burst_at)[j]);
  }
  body_fn = &body;
  pthread_t th[kMaxThreads];
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 << 10);
  sem_init(&all_done, 0, 0);
  for (int t = 1; t <= n; ++t) {
    sem_init(&baton[t], 0, 0);
    finished[t] = false;
    blocked[t] = nullptr;
    passed[t] = 0;
    for (int k = 0; k != kMaxThreads; ++k) vc[t][k] = vc[0][k];  // what the set-up did happened before
    vc[t][t] = 1;
  }
  ++vc[0][0];
  for (int t = 1; t <= n; ++t)
    if (pthread_create(&th[t], &at, thread_main, reinterpret_cast<void*>(std::intptr_t(t)))) abort();
  running = true;
  int first = pick_runnable(-1);
  if (s.replay && !s.list.empty() && s.list[0].from == 0) {
    if (s.list[0].to >= 1 && s.list[0].to <= n) first = s.list[0].to;
    ++next_sw;
  }
  sh->sw[sh->nsw++] = Switch{0, std::uint8_t(first), 0};
  current = first;
  sem_post(&baton[first]);
  while (sem_wait(&all_done) != 0) {}
  running = false;
  for (int t = 1; t <= n; ++t) pthread_join(th[t], nullptr);
  for (int t = 1; t <= n; ++t)
    for (int k = 0; k != kMaxThreads; ++k)
      if (vc[t][k] > vc[0][k]) vc[0][k] = vc[t][k];
  pthread_attr_destroy(&at);
}
std::uint64_t run_hash() { return hash; }
void run_end() {
  if (nlive) violate("leak:blocks", "%zu blocks were never given back", nlive);
  if (!heap->empty()) violate("leak:heap", "%zu objects on the heap were never deleted", heap->size());
}

void Mutex::lock() {
  Pause p;
  ++st->locks;
  yield_point(false);
  while (owner >= 0) {
    ++st->lock_waits;
    blocked[tl_id] = this;
    must_switch();
  }
  owner = tl_id;
  acquire(vc);
  ++st->sync_edges;
}
void Mutex::unlock() {
  Pause p;
  release(vc);
  owner = -1;
  for (int t = 0; t != kMaxThreads; ++t)
    if (blocked[t] == this) blocked[t] = nullptr;
  yield_point(false);
}
namespace {
Mutex& foreign_mutex(const void* m) {
  Pause p;
  if (!foreign) foreign = new std::map<const void*, Mutex>;
  return (*foreign)[m];
}
}  // namespace
}  // namespace mt

using namespace mt;

// Locks the code under test might use itself.
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!tl_on) return __real_pthread_mutex_lock(m);
  foreign_mutex(m).lock();
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!tl_on) return __real_pthread_mutex_unlock(m);
  foreign_mutex(m).unlock();
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!tl_on) return __real_pthread_mutex_trylock(m);
  auto& f = foreign_mutex(m);
  if (f.owner >= 0) return 16;
  f.lock();
  return 0;
}
// Initialisation of function-local statics.
int __cxa_guard_acquire(std::uint64_t* g) {
  auto b = reinterpret_cast<volatile unsigned char*>(g);
  if (b[0]) return 0;
  bool on = tl_on;
  if (on) foreign_mutex(g).lock();
  if (b[0]) {
    if (on) foreign_mutex(g).unlock();
    return 0;
  }
  return 1;
}
void __cxa_guard_release(std::uint64_t* g) {
  reinterpret_cast<volatile unsigned char*>(g)[0] = 1;
  if (foreign_mutex(g).owner == tl_id && tl_on) foreign_mutex(g).unlock();
}
void __cxa_guard_abort(std::uint64_t* g) {
  if (foreign_mutex(g).owner == tl_id && tl_on) foreign_mutex(g).unlock();
}

void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (tl_on) ++meters[tl_id].calls;
}
void __tsan_func_exit(void*) {}
#define RW(n)                                                       \
  void __tsan_read##n(void* p) { access(p, n, false); }             \
  void __tsan_write##n(void* p) { access(p, n, true); }             \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); }   \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); }   \
  void __tsan_read_write##n(void* p) {                              \
    access(p, n, false);                                            \
    access(p, n, true);                                             \
  }                                                                 \
  void __tsan_unaligned_read_write##n(void* p) {                    \
    access(p, n, false);                                            \
    access(p, n, true);                                             \
  }                                                                 \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }    \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// Entered once per basic block (edge) of the code under test.
void __sanitizer_cov_trace_pc() {
  if (tl_on) ++meters[tl_id].blocks;
}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, std::size_t n) {
  access(d, n, true);
  return memset(d, c, n);
}
#define ATOMIC(n, T)                                                                                                         \
  T __tsan_atomic##n##_load(const volatile T* a, int) {                                                                      \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                          \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) {                                                                   \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                \
  }                                                                                                                          \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) {                                                                   \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
  }                                                                                                                          \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) {                                                                  \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                          \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) {                                                                  \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                          \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) {                                                                  \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                          \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) {                                                                   \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                        \
  }                                                                                                                          \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) {                                                                  \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                          \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                                       \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
  }                                                                                                                          \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                                         \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
  }                                                                                                                          \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                             \
    atomic_point(const_cast<const T*>(a));                                                                                   \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                        \
    return c;                                                                                                                \
  }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// The heap the code under test sees.
static void* heap_new(std::size_t n, bool nothrow) {
  if (!tl_on) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  Pause p;
  ++meters[tl_id].alloc;
  yield_point(true);
  if (fail_now()) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  char* r = take(n ? n : 1, 16);
  (*heap)[r] = n;
  return r;
}
static void heap_delete(void* q) {
  if (!q) return;
  if (!in_arena(q)) {
    free(q);
    return;
  }
  Pause p;
  ++meters[tl_id].dealloc;
  if (p.was) yield_point(true);
  auto i = heap->find(static_cast<char*>(q));
  if (i == heap->end()) violate("memory:bad-delete", "an object was deleted that is not on the heap");
  std::size_t n = i->second;
  heap->erase(i);
  give(static_cast<char*>(q), n);
}
void* operator new(std::size_t n) { return heap_new(n, false); }
void* operator new[](std::size_t n) { return heap_new(n, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return heap_new(n, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return heap_new(n, true); }
void operator delete(void* p) noexcept { heap_delete(p); }
void operator delete[](void* p) noexcept { heap_delete(p); }
void operator delete(void* p, std::size_t) noexcept { heap_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { heap_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { heap_delete(p); }
