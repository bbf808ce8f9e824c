// Executes one program against the real container, compared step by step with plain vectors.
#pragma once
#include <boost/segmented_tree/seq.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include "alloc.hpp"
#include "program.hpp"

namespace sim {
template <class T>
T* adr(T& t) { return std::addressof(t); }

// ------------------------------------------------------------------ single-pass source
struct SrcState {
  const V* vals = nullptr;
  std::size_t pos = 0, n = 0;
  bool read_here = false;
  std::uint64_t reads = 0;
};

// An input iterator that knows the one position it may stand at. By value or by reference.
template <class T, bool Val>
struct SrcIter {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = typename std::conditional<Val, T, T const&>::type;
  SrcState* st = nullptr;
  const T* objs = nullptr;
  std::size_t i = 0;
  bool sentinel = false;

  void check(const char* what) const {
    if (sentinel) violate("source:end-used", "%s of the end of the source", what);
    if (i != st->pos) violate("source:stale", "%s of an iterator that was overtaken", what);
  }
  reference operator*() const {
    check("read");
    if (st->pos >= st->n) violate("source:past-end", "read at or past the end of the source");
    if (st->read_here) violate("source:read-twice", "source element %zu read twice", i);
    fault_point(F_ITER);
    st->read_here = true;
    ++st->reads;
    return get(std::integral_constant<bool, Val>{});
  }
  T get(std::true_type) const { return ET<T>::make(st->vals[i]); }
  T const& get(std::false_type) const { return objs[i]; }
  SrcIter& operator++() {
    check("advance");
    if (st->pos >= st->n) violate("source:past-end", "advanced past the end of the source");
    fault_point(F_ITER);
    if (!st->read_here) violate("source:skipped", "source element %zu skipped", i);
    ++st->pos;
    ++i;
    st->read_here = false;
    return *this;
  }
  struct Proxy {
    T t;
    T operator*() { return std::move(t); }
  };
  Proxy operator++(int) {
    Proxy p{ET<T>::make(ET<T>::obs(**this))};
    ++*this;
    return p;
  }
  bool at_end() const {
    if (sentinel) return true;
    if (i != st->pos) violate("source:stale", "comparison of an iterator that was overtaken");
    return st->pos >= st->n;
  }
  friend bool operator==(SrcIter const& a, SrcIter const& b) {
    fault_point(F_ITER);
    SrcState* s = a.st;
    if (s->pos < s->n && fault_hit(F_EOF)) {
      s->n = s->pos;
      ++G.st->probe[P_SRC_CUT];
    }
    bool ea = a.at_end(), eb = b.at_end();
    return ea && eb ? true : (ea != eb ? false : a.i == b.i);
  }
  friend bool operator!=(SrcIter const& a, SrcIter const& b) { return !(a == b); }
};

// A forward iterator whose operations may throw.
template <class T>
struct FwdIter {
  using iterator_category = std::forward_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const* p = nullptr;
  T const* end = nullptr;
  reference operator*() const {
    if (p == end) violate("source:past-end", "read at the end of the source");
    fault_point(F_ITER);
    return *p;
  }
  pointer operator->() const { return adr(**this); }
  FwdIter& operator++() {
    if (p == end) violate("source:past-end", "advanced past the end of the source");
    fault_point(F_ITER);
    ++p;
    return *this;
  }
  FwdIter operator++(int) {
    FwdIter r = *this;
    ++*this;
    return r;
  }
  friend bool operator==(FwdIter const& a, FwdIter const& b) {
    fault_point(F_ITER);
    return a.p == b.p;
  }
  friend bool operator!=(FwdIter const& a, FwdIter const& b) { return !(a == b); }
};

template <class T, class A, std::size_t ST, std::size_t BT>
struct Exec {
  using S = boost::segmented_tree::seq<T, A, ST, BT>;
  using It = typename S::iterator;
  using CIt = typename S::const_iterator;
  using E = ET<T>;
  using X = AT<A>;
  static constexpr std::size_t SM = ST / sizeof(T) > 1 ? ST / sizeof(T) : 1;
  static constexpr std::size_t BF = (BT > 16 ? BT - 16 : 0) / 16;
  static constexpr std::size_t BM = BF > 3 ? (BF < 65535 ? BF : 65535) : 3;
  static constexpr std::size_t SMIN = (SM + 1) / 2, BMIN = (BM + 1) / 2;
  static constexpr bool CP = E::copyable;
  static CfgInfo info(const char* name) {
    return CfgInfo{name, E::tracked, E::throwing_move, E::copyable, X::stateful, X::cons || X::conly, X::tcons,
                   X::pocca, X::pocma, X::pocs, !X::stateful, unsigned(SM), unsigned(BM), unsigned(sizeof(typename S::size_type))};
  }

  struct Slot {
    typename std::aligned_storage<sizeof(S), alignof(S)>::type raw;
    bool alive = false;
    std::vector<V> m;
    int arena = 0;
    CIt ret;                     // what the last operation on this container returned
    std::size_t ret_pos = 0;
    std::uint32_t ret_op = 0;    // that operation, plus 1
    S& c() { return *reinterpret_cast<S*>(&raw); }
  };
  Slot sl[3];
  Program const& P;
  bool faults;
  Result& R;
  unsigned orc;
  Op const* op = nullptr;
  std::uint32_t opi = 0;
  bool relaxed_once = false;  // a stored element's move has thrown in this run
  std::uint64_t call_allocs = 0, call_copies = 0, call_moves = 0;
  bool completed = false;     // last attempt
  bool any_failed = false;

  std::uint64_t subject_mask = subject_ops(P.prop);

  Exec(Program const& p, bool f, Result& r) : P(p), faults(f), R(r), orc(oracles_of(p.prop)) {}

  // ---------------------------------------------------------------- values
  V nv(std::size_t i) const {
    std::uint64_t kr = 1 + (op->c & 15), mode = (op->c >> 4) & 3, k;
    if (mode == 0) k = mix(op->c, i) % kr;
    else if (mode == 1) k = i % kr;                       // runs
    else if (mode == 2) k = (kr * 4 - 1) - (i % (kr * 4));  // descending
    else k = i / (1 + kr);                                // ascending
    return E::canon(mkv(unsigned(k & 0xffff), (std::uint64_t(opi + 1) << 20) | (i & 0xfffff)));
  }
  static bool vless(V a, V b) { return E::keyed ? keyof(a) < keyof(b) : a < b; }
  static bool veq(V a, V b) { return E::keyed ? keyof(a) == keyof(b) : a == b; }
  static V ob(T const& t) { return E::obs(t); }

  Slot& s() { return sl[op->s % 3]; }
  Slot& o() {
    unsigned a = op->s % 3, b = op->o % 3;
    return sl[a == b ? (a + 1) % 3 : b];
  }

  // position in [0, n]
  std::size_t pick(std::uint32_t a, Slot& x) {
    std::size_t n = x.m.size();
    std::uint32_t v = a >> 2;
    switch (a & 3) {
      case 0: return v % (n + 1);
      case 1: return std::min<std::size_t>(v % 4, n);
      case 2: return n - std::min<std::size_t>(v % 4, n);
      default: {
        if (!n) return 0;
        std::size_t p = v % n;
        CIt it = const_cast<S const&>(x.c()).nth(p);
        std::ptrdiff_t q = std::ptrdiff_t(p) - (it.current() - it.begin());
        if (v & 1) q += it.end() - it.begin();
        q += std::ptrdiff_t((v >> 8) % 3) - 1;
        if (q < 0) q = 0;
        if (std::size_t(q) > n) q = std::ptrdiff_t(n);
        return std::size_t(q);
      }
    }
  }
  std::size_t pick_elem(std::uint32_t a, Slot& x) {  // in [0, n), n > 0
    std::size_t p = pick(a, x);
    return p == x.m.size() ? p - 1 : p;
  }
  CIt cit(Slot& x, std::size_t p, std::uint32_t how) {  // several ways to the same position
    S const& c = x.c();
    if (opi && x.ret_op == opi && mix(how, opi) % 3 == 0) {  // carry on from what the last operation returned
      CIt it = x.ret;
      std::ptrdiff_t d = std::ptrdiff_t(p) - std::ptrdiff_t(x.ret_pos);
      if (d > 4 || d < -4) return it += d;
      for (; d > 0; --d) ++it;
      for (; d < 0; ++d) --it;
      return it;
    }
    switch (how & 3) {
      case 0: return c.nth(p);
      case 1: return c.begin() + std::ptrdiff_t(p);
      case 2: return c.end() - std::ptrdiff_t(x.m.size() - p);
      default: {
        It it = x.c().nth(p);
        return it;
      }
    }
  }

  // ---------------------------------------------------------------- calls
  template <class F>
  bool attempt(std::vector<Fault> const& plan, F&& f) {
    std::uint64_t c0 = G.copies, m0 = G.moves;
    bool threw = false, mine = false;
    std::uint32_t id = 0;
    begin_call(plan);
    try {
      f();
    } catch (InjectedAlloc const& e) {
      end_call();
      threw = mine = true;
      id = e.id;
    } catch (Injected const& e) {
      end_call();
      threw = mine = true;
      id = e.id;
    } catch (InjectedStd const& e) {
      end_call();
      threw = mine = true;
      id = e.id;
    } catch (std::length_error const& e) {
      end_call();
      threw = true;
      if (!huge_call) violate("exception:foreign", "unexpected exception: %s", e.what());
    } catch (std::bad_alloc const&) {
      end_call();
      threw = true;
      if (!(G.fired_mask & (1u << F_ALLOC))) violate("exception:foreign", "bad_alloc without a failed allocation");
    } catch (std::exception const& e) {
      end_call();
      violate("exception:foreign", "unexpected exception: %s", e.what());
    } catch (...) {
      end_call();
      violate("exception:foreign", "unexpected exception");
    }
    end_call();
    if (mine && !(G.fired_throw && id >= G.fire_first && id <= G.fire_last))
      violate("exception:stale", "an exception from an earlier call was thrown");
    call_allocs = G.cnt[F_ALLOC];
    call_copies = G.copies - c0;
    call_moves = G.moves - m0;
    completed = !threw;
    if (E::tracked && call_copies && never_copies()) violate("copycount:copied", "%s copied an element %llu times", kOpName[op->code], (unsigned long long)call_copies);
    if (completed) ++G.st->ops_ok; else { ++G.st->ops_failed; any_failed = true; }
    ev(completed ? 11 : 13);
    if (relaxed_fault()) relaxed_once = true;
    return completed;
  }
  // More elements than there can be: memory runs out on the way.
  bool huge_call = false;
  bool huge() {
    huge_call = op->b >= kHuge;
    return huge_call;
  }
  bool huge_ok() const {  // such a call ends only if memory is limited
    return faults && op->mode == M_ONCE && op->f.size() == 1 && op->f[0].kind == F_ALLOC && op->f[0].sticky && op->f[0].nth <= 16;
  }
  std::size_t huge_count() const { return ~std::size_t(0) >> (op->d & 3) >> (op->b & 1); }
  std::size_t huge_model(Slot& x) const { return SM * 40 + x.m.size() + 100; }  // what 16 requests can make room for
  bool relaxed_fault() const {
    return (G.fired_mask & ((1u << F_MOVE) | (1u << F_MASG))) || (X::tcons && (G.fired_mask & (1u << F_CONS)));
  }
  // call(): the operation; good(): checks after success; bad(): after failure.
  template <class C, class Gd, class Bd>
  void drive(C&& call, Gd&& good, Bd&& bad) {
    std::vector<Fault> const none;
    if (!faults || op->f.empty()) {
      attempt(none, call);
      good();
      return;
    }
    if (op->mode == M_SWEEP) {
      for (std::uint32_t n = 1; n <= 200; ++n) {
        std::vector<Fault> plan{Fault{op->f[0].kind, op->f[0].sticky, n}};
        if (attempt(plan, call)) {
          good();
          return;
        }
        ++G.st->probe[P_SWEEP_POINTS];
        bad();
        if (relaxed_fault()) return;  // positions are no longer valid: the operation is abandoned
      }
      attempt(none, call);
      good();
      return;
    }
    if (attempt(op->f, call)) {
      good();
      return;
    }
    bad();
    if (op->mode == M_RETRY && !relaxed_fault()) {
      if (!attempt(none, call)) violate("retry-failed", "an undisturbed retry failed");
      ++G.st->probe[P_RETRY_OK];
      good();
    }
  }

  // ---------------------------------------------------------------- observation
  struct Snap {
    std::vector<const T*> addr;
    std::vector<V> val;
    std::vector<std::uint32_t> segs;
    std::size_t h = 0;
  };
  void snap(Slot& x, Snap& q) {
    S const& c = x.c();
    q.addr.clear();
    q.val.clear();
    q.segs.clear();
    q.h = c.height();
    std::size_t n = c.size();
    q.addr.reserve(n);
    CIt it = c.begin(), e = c.end();
    while (it != e) {
      const T *b = raw(it.begin()), *f = raw(it.end());
      if (f <= b || std::size_t(f - b) > n) violate("content:segment", "segment of length %td among %zu elements", f - b, n);
      q.segs.push_back(std::uint32_t(f - b));
      for (const T* p = b; p != f; ++p) {
        q.addr.push_back(p);
        q.val.push_back(ob(*p));
      }
      if (q.addr.size() > n) violate("content:segment", "segments hold more than size() elements");
      it.move_after_segment();
    }
  }
  void same(Slot& x, Snap const& before, const char* cls) {
    Snap now;
    snap(x, now);
    if (now.val != before.val) {
      std::size_t i = 0;
      while (i < now.val.size() && i < before.val.size() && now.val[i] == before.val[i]) ++i;
      violate(cls, "elements changed: size %zu -> %zu, first difference at %zu", before.val.size(), now.val.size(), i);
    }
    if (now.addr != before.addr) violate(cls, "an element changed its address");
    if (now.h != before.h) violate(cls, "height changed from %zu to %zu", before.h, now.h);
    if (now.segs != before.segs) violate(cls, "segments changed");
  }

  [[noreturn]] void bad_content(const char* path, Slot& x, std::size_t i, V got) {
    violate("content:mismatch", "after %s slot %d: %s at %zu of %zu: got %llx want %llx", kOpName[op->code],
            int(&x - sl), path, i, x.m.size(), (unsigned long long)got,
            (unsigned long long)(i < x.m.size() ? x.m[i] : 0));
  }
  std::uint64_t shape_hash(Slot& x, bool full = true) {
    S const& c = x.c();
    std::uint64_t h = c.height() * 1000003 + c.size();
    if (!full) return h;
    CIt it = c.begin(), e = c.end();
    std::size_t guard = 0;
    while (it != e && guard++ < 100000) {
      h = (h ^ std::uint64_t(it.end() - it.begin())) * 0x100000001b3ull + (h >> 31);
      it.move_after_segment();
    }
    return h;
  }

  void balance(Slot& x, std::vector<std::uint32_t> const& segs) {
    S const& c = x.c();
    std::size_t n = c.size(), h = c.height();
    if (n == 0) {
      if (h != 0) violate("balance:empty-height", "empty container of height %zu", h);
      return;
    }
    if (h < 1) violate("balance:height", "height 0 with %zu elements", n);
    if (segs.size() > 1)
      for (auto l : segs)
        if (l < SMIN) violate("balance:segment-underfull", "segment of %u elements, minimum %zu, after %s", l, SMIN, kOpName[op->code]);
    for (auto l : segs)
      if (l > SM) violate("balance:segment-overfull", "segment of %u elements, capacity %zu", l, SM);
    // A tree of height h has a root with at least 2 children and other nodes at least half full.
    if (h == 1) {
      if (segs.size() != 1) violate("balance:height", "height 1 with %zu segments", segs.size());
      return;
    }
    double need = 2;
    for (std::size_t i = 2; i < h; ++i) need *= double(BMIN);
    if (double(segs.size()) < need)
      violate("balance:height", "height %zu with only %zu segments", h, segs.size());
    double cap = 1;
    for (std::size_t i = 1; i < h; ++i) cap *= double(BM);
    if (double(segs.size()) > cap)
      violate("balance:height", "height %zu with %zu segments, fan-out %zu", h, segs.size(), BM);
  }
  // Most nodes a tree over this many segments can have.
  static double max_nodes(double segs, std::size_t h) {
    double total = 0, w = segs;
    for (std::size_t i = 2; i <= h; ++i) {
      w = i == h ? 1 : std::max(1.0, std::floor(w / double(BMIN)));
      total += w;
    }
    return total;
  }
  static double min_nodes(double segs, std::size_t h) {
    double total = 0, w = segs;
    for (std::size_t i = 2; i <= h; ++i) {
      w = std::ceil(w / double(BM));
      total += w;
    }
    return total;
  }

  void verify(Slot& x, bool deep) {
    ++G.st->checks;
    S& nc = x.c();
    S const& c = nc;
    std::size_t n = x.m.size();
    if (c.size() != n)
      violate("content:size", "after %s slot %d: size() is %zu, expected %zu", kOpName[op->code], int(&x - sl), c.size(), n);
    if (c.empty() != (n == 0)) violate("content:size", "empty() is wrong");
    if (n > G.st->max_size) G.st->max_size = n;
    if (c.height() > G.st->max_height) G.st->max_height = c.height();
    if (c.height() > G.run_height) G.run_height = c.height();
    if (c.height() >= 4) ++G.st->probe[P_H4PLUS];
    if (n >= 1000) ++G.st->probe[P_BIG_1000];
    if (!(c.get_stored_allocator() == c.get_allocator())) violate("allocator:identity", "get_stored_allocator() is not what get_allocator() returns");
    if (X::stateful && X::arena(c.get_allocator()) != x.arena)
      violate("allocator:identity", "after %s slot %d reports allocator %d, expected %d", kOpName[op->code], int(&x - sl),
              X::arena(c.get_allocator()), x.arena);
    // segments
    std::vector<std::uint32_t> segs;
    {
      CIt it = c.begin(), e = c.end();
      std::size_t i = 0;
      std::uint64_t h = c.height() * 1000003 + n;
      while (it != e) {
        const T *b = raw(it.begin()), *f = raw(it.end());
        if (it.current() != b) violate("nav:segment", "segment walk is not at the start of a segment");
        if (f <= b || std::size_t(f - b) > n - i) violate("content:segment", "segment of length %td at %zu of %zu", f - b, i, n);
        if (c.index_of(it) != i) violate("nav:index", "segment walk: index %zu, expected %zu", std::size_t(c.index_of(it)), i);
        int ar = mem_arena_of(b);
        if (ar < 0) violate("memory:foreign-segment", "a segment is not a live block of the allocator");
        if (ar != (X::stateful ? x.arena : kGlobalArena))
          violate("allocator:block", "after %s slot %d holds a block of allocator %d, expected %d", kOpName[op->code],
                  int(&x - sl), ar, x.arena);
        segs.push_back(std::uint32_t(f - b));
        h = (h ^ std::uint64_t(f - b)) * 0x100000001b3ull + (h >> 31);
        for (const T* p = b; p != f; ++p, ++i) {
          if (ob(*p) != x.m[i]) bad_content("segment walk", x, i, ob(*p));
          if constexpr (X::conly && E::tracked) {
            if (!p->via) violate("lifetime:construct-bypasses-allocator", "element %zu was not constructed through the allocator", i);
          } else if constexpr ((AT<A>::cons || X::conly) && !E::tracked)
            if (!via_has(p)) violate("lifetime:construct-bypasses-allocator", "element %zu was not constructed through the allocator", i);
        }
        if (i == n) break;
        it.move_after_segment();
      }
      if (i != n) violate("content:size", "segments hold %zu elements, size() is %zu", i, n);
      R.shape_hash = h;
      note_state(h);
    }
    if (orc & O_BAL) balance(x, segs);
    // indexes
    std::size_t samples = deep && n <= 300 ? n : std::min<std::size_t>(n, 24);
    Rng r(opi * 77 + 5);
    for (std::size_t k = 0; k != samples; ++k) {
      std::size_t i = samples == n ? k : r.below(std::uint32_t(n));
      T const& t = c[i];
      if (ob(t) != x.m[i]) bad_content("[]", x, i, ob(t));
      if (adr(c.at(i)) != adr(t) || adr(nc[i]) != adr(t) || adr(nc.at(i)) != adr(t)) bad_content("at()", x, i, ob(c.at(i)));
      CIt it = c.nth(i);
      if (adr(*it) != adr(t) || it.operator->() != adr(t) || c.index_of(it) != i) bad_content("nth()", x, i, ob(*it));
      if (deep && adr(*nc.nth(i)) != adr(t)) bad_content("nth()", x, i, ob(*it));
    }
    if (n) {
      if (ob(c.front()) != x.m[0] || adr(nc.front()) != adr(c.front())) bad_content("front()", x, 0, ob(c.front()));
      if (ob(c.back()) != x.m[n - 1] || adr(nc.back()) != adr(c.back())) bad_content("back()", x, n - 1, ob(c.back()));
      if (c.index_of(c.penultimate()) != n - 1 || c.cpenultimate() != c.penultimate() || adr(*c.penultimate()) != adr(c.back())) bad_content("penultimate()", x, n - 1, ob(*c.penultimate()));
    }
    if (c.index_of(c.end()) != n || c.index_of(c.begin()) != 0) violate("nav:index", "begin() or end() has a wrong index");
    if ((c.begin() == c.end()) != (n == 0)) violate("nav:compare", "begin() == end() is wrong");
    if (c.nth(n) != c.end() || c.nth(n + 5) != c.end()) violate("nav:index", "nth() past the end is not end()");
    if (nc.nth(n) != nc.end() || nc.nth(n + 5) != nc.end() || c.cbegin() != nc.begin() || c.cend() != nc.end() ||
        nc.index_of(nc.begin()) != 0 || nc.index_of(nc.end()) != n || (nc.begin() == nc.end()) != (n == 0) || c.empty() != (n == 0))
      violate("nav:index", "begin(), end(), nth(size()) or empty() disagree");
    if (n && (adr(*nc.begin()) != adr(c.front()) || adr(*nc.penultimate()) != adr(c.back()) || adr(*nc.rbegin()) != adr(c.back()) || adr(*c.crbegin()) != adr(c.back()) ||
              adr(*std::prev(nc.rend())) != adr(c.front()) || adr(*std::prev(c.crend())) != adr(c.front())))
      violate("nav:index", "the ends differ between const and other access");
    // iteration
    if (deep || n <= 64) {
      std::size_t i = 0;
      CIt it = c.begin();
      for (; it != c.cend(); ++it, ++i) {
        if (i >= n) violate("content:iteration", "iteration yields more than size() elements");
        if (ob(*it) != x.m[i]) bad_content("++", x, i, ob(*it));
      }
      if (i != n) violate("content:iteration", "iteration yields %zu of %zu elements", i, n);
      for (i = n; i != 0;) {
        --i;
        --it;
        if (ob(*it) != x.m[i]) bad_content("--", x, i, ob(*it));
      }
      if (it != c.begin()) violate("content:iteration", "reverse iteration does not arrive at begin()");
      if (deep) {
        i = n;
        for (auto q = c.rbegin(); q != c.rend(); ++q) {
          if (i == 0) violate("content:iteration", "reverse iteration too long");
          --i;
          if (ob(*q) != x.m[i]) bad_content("reverse", x, i, ob(*q));
        }
        if (i) violate("content:iteration", "reverse iteration too short");
        for (auto& e : nc) {
          if (i >= n || adr(e) != adr(c[i])) violate("content:iteration", "iteration that is not const differs at %zu", i);
          ++i;
        }
        if (i != n) violate("content:iteration", "iteration that is not const too short");
      }
    }
    if (deep) {
      for (std::size_t k : {n, n + 1, n + 1000, ~std::size_t(0)}) {
        bool threw = false;
        try {
          (void)c.at(k);
        } catch (std::out_of_range const&) {
          threw = true;
        }
        if (!threw) violate("content:at", "at(%zu) of %zu elements did not throw", k, n);
        threw = false;
        try {
          (void)nc.at(k);
        } catch (std::out_of_range const&) {
          threw = true;
        }
        if (!threw) violate("content:at", "at(%zu) of %zu elements did not throw (not const)", k, n);
      }
    }
  }

  // Ledger checks over everything that is alive. Only outside calls.
  void ledger() {
    std::int64_t live = 0;
    for (auto& x : sl)
      if (x.alive) live += std::int64_t(x.c().size());
    if (E::tracked && G.live_elems != live)
      violate("lifetime:count", "after %s: %lld elements alive, %lld stored", kOpName[op->code], (long long)G.live_elems, (long long)live);
    if (AT<A>::cons && !E::tracked && std::int64_t(via_count()) != live)
      violate("lifetime:count", "after %s: %lld elements constructed through the allocator and not destroyed, %lld stored",
              kOpName[op->code], (long long)via_count(), (long long)live);
    // memory per arena
    std::map<int, std::pair<double, double>> bounds;
    bool exact = !relaxed_once && BF < 60000;
    for (auto& x : sl) {
      if (!x.alive) continue;
      double segs = 0;
      S const& c = x.c();
      CIt it = c.begin(), e = c.end();
      while (it != e) {
        ++segs;
        it.move_after_segment();
      }
      auto& b = bounds[X::stateful ? x.arena : kGlobalArena];
      b.first += segs + min_nodes(segs, c.height());
      b.second += segs + max_nodes(segs, c.height());
    }
    std::uint64_t all = 0;
    for (auto& b : bounds) {
      auto live_b = mem_live_blocks(b.first);
      all += live_b;
      if (b.second.second == 0 && live_b)
        violate("leak:blocks", "after %s: %llu blocks of allocator %d held by empty containers", kOpName[op->code],
                (unsigned long long)live_b, b.first);
      if (exact && (double(live_b) > b.second.second || double(live_b) < b.second.first))
        violate("leak:block-count", "after %s: %llu blocks of allocator %d held, between %g and %g are needed", kOpName[op->code],
                (unsigned long long)live_b, b.first, b.second.first, b.second.second);
    }
    if (all != mem_live_blocks())
      violate("leak:blocks", "after %s: blocks are held on behalf of no container", kOpName[op->code]);
  }

  void resync(Slot& x) {
    Snap q;
    if (x.c().size() > (1u << 22)) violate("content:size", "size() is %zu after a failed operation", x.c().size());
    snap(x, q);
    if (q.val.size() != x.c().size())
      violate("content:size", "after a failed %s segments hold %zu elements, size() is %zu", kOpName[op->code], q.val.size(), x.c().size());
    x.m = q.val;
  }

  // ---------------------------------------------------------------- failure rules
  // A failed bulk insertion: old elements plus a leading part of the new ones at pos.
  std::size_t fail_bulk(Slot& x, std::size_t pos, std::vector<V> const& add) {
    if (relaxed_fault()) {
      resync(x);
      return 0;
    }
    std::size_t old = x.m.size(), now = x.c().size();
    if (now < old || now - old > add.size())
      violate("prefix:size", "failed %s: size %zu -> %zu, %zu offered", kOpName[op->code], old, now, add.size());
    std::size_t k = now - old;
    x.m.insert(x.m.begin() + std::ptrdiff_t(pos), add.begin(), add.begin() + std::ptrdiff_t(k));
    Snap q;
    snap(x, q);
    if (q.val != x.m)
      violate("prefix:content", "failed %s at %zu: old elements or the inserted part (%zu) are wrong", kOpName[op->code], pos, k);
    return k;
  }
  void fail_assign(Slot& x, std::vector<V> const& add, bool moved_ok = false) {
    if (!relaxed_fault()) {
      std::vector<V> ok(x.m);
      ok.insert(ok.end(), add.begin(), add.end());
      if (moved_ok) ok.push_back(E::moved(0));
      std::sort(ok.begin(), ok.end());
      std::vector<V> old = x.m;
      resync(x);
      if (x.m.size() > std::max(old.size(), add.size()) && x.m.size() > old.size() + add.size())
        violate("assign:size", "failed %s: %zu elements", kOpName[op->code], x.m.size());
      for (auto v : x.m)
        if (!std::binary_search(ok.begin(), ok.end(), v))
          violate("assign:foreign-value", "failed %s: a value neither old nor new: %llx", kOpName[op->code], (unsigned long long)v);
    } else
      resync(x);
  }
  void fail_strong(Slot& x, Snap const& before) {
    if (relaxed_fault()) {
      resync(x);
      return;
    }
    if (before.val.empty()) ++G.st->probe[P_FAIL_EMPTY];
    ++G.st->probe[P_STRONG_CHECKED];
    same(x, before, "strong:changed");
  }
  void no_alloc_check() {
    if ((orc & O_NOALLOC) && call_allocs)
      violate("noalloc:requested", "%s requested memory %llu times", kOpName[op->code], (unsigned long long)call_allocs);
    if (!completed) violate("noalloc:failed", "%s failed although it needs no memory", kOpName[op->code]);
  }
  bool must_not_fail() const {  // nothing the operation may depend on has failed
    return (G.fired_mask & ~((1u << F_ALLOC) | (1u << F_COPY) | (1u << F_CASG) | (1u << F_DFLT) | (1u << F_VAL) |
                             (1u << F_TMP) | (1u << F_EOF))) == 0;
  }
  // failure of an operation that needs neither memory nor copies
  void fail_free(Slot& x) {
    if (must_not_fail()) violate("noalloc:failed", "%s failed although it needs neither memory nor copies", kOpName[op->code]);
    resync(x);
  }
  void check_result(Slot& x, CIt it, std::size_t want, const char* what) {
    S const& c = x.c();
    if (c.index_of(it) != want)
      violate("result:iterator", "%s returned index %zu, expected %zu", what, std::size_t(c.index_of(it)), want);
    std::size_t n = x.m.size();
    if (c.size() != n) return;  // verify() reports it
    if (want < n) {
      if (adr(*it) != adr(c[want])) violate("result:iterator", "iterator returned by %s refers to the wrong element", what);
    } else if (!(it == c.end()))
      violate("result:iterator", "iterator returned by %s is not end()", what);
    CIt fresh = c.nth(want);
    if (n && (raw(it.begin()) != raw(fresh.begin()) || raw(it.end()) != raw(fresh.end()) || raw(it.current()) != raw(fresh.current())))
      violate("nav:from-result", "the iterator returned by %s at %zu of %zu has another segment than a fresh one", what, want, n);
    if (!n && raw(it.begin()) != raw(it.end())) violate("nav:from-result", "the iterator returned by %s has a segment in an empty container", what);
    nav_from(x, it, want);
    x.ret = it;
    x.ret_pos = want;
    x.ret_op = opi + 1;
  }
  // Operations which have no reason to copy an element.
  bool never_copies() const {
    switch (op->code) {
      case OP_BUILD: case OP_DRAIN: case OP_INS_R: case OP_EMPL: case OP_PB_R: case OP_EB: case OP_PF_R: case OP_EF: case OP_EMPL_D:
      case OP_ERASE: case OP_ERASE_R: case OP_POPB: case OP_POPF: case OP_RESIZE: case OP_MOVE_ASSIGN: case OP_SWAP: case OP_CLEAR:
      case OP_SPLICE_ALL: case OP_SPLICE_ONE: case OP_SPLICE_RANGE: case OP_MERGE: case OP_REMOVE: case OP_REMOVE_ALIAS:
      case OP_REMOVE_IF: case OP_REVERSE: case OP_UNIQUE: case OP_SORT: case OP_COMPARE: case OP_NAV: case OP_HOLD_SWAP:
      case OP_HOLD_MOVECTOR: case OP_HOLD_MOVEASSIGN: case OP_HOLD_SORT: case OP_HOLD_REVERSE: return true;
      case OP_INS_RANGE: case OP_ASSIGN_RANGE: return op->d % 4 == 0 || op->d % 4 == 3;
      case OP_RECON: return op->d % 10 == 1 || op->d % 10 == 4 || op->d % 10 == 8 || op->d % 10 == 9;
      default: return false;
    }
  }
  // Movement from an iterator that came out of an operation.
  void nav_from(Slot& x, CIt it, std::size_t want) {
    S const& c = x.c();
    std::size_t n = x.m.size();
    Rng r(opi * 131 + 17);
    CIt a = it;
    std::size_t i = want;
    for (int k = 0; k != 6 && i < n; ++k) {
      if (adr(*a) != adr(c[i])) violate("nav:from-result", "++ from an iterator returned by %s arrives at the wrong element", kOpName[op->code]);
      ++a, ++i;
    }
    if (i < n && adr(*a) != adr(c[i])) violate("nav:from-result", "++ from an iterator returned by %s arrives at the wrong element", kOpName[op->code]);
    if (i == n && a != c.end()) violate("nav:from-result", "++ does not arrive at end()");
    a = it;
    i = want;
    for (int k = 0; k != 6 && i > 0; ++k) {
      --a, --i;
      if (adr(*a) != adr(c[i])) violate("nav:from-result", "-- from an iterator returned by %s arrives at the wrong element", kOpName[op->code]);
    }
    if (n)
      for (int k = 0; k != 3; ++k) {
        std::size_t t = r.below(std::uint32_t(n));
        std::ptrdiff_t d = std::ptrdiff_t(t) - std::ptrdiff_t(want);
        CIt b = it;
        b += d;
        if (adr(*b) != adr(c[t]) || c.index_of(b) != t) violate("nav:from-result", "+= from an iterator returned by %s arrives at the wrong element", kOpName[op->code]);
        if (adr(it[d]) != adr(c[t])) violate("nav:from-result", "[] from an iterator returned by %s is the wrong element", kOpName[op->code]);
        if (b - it != d) violate("nav:from-result", "difference of iterators is wrong");
      }
    CIt e = it;
    e += std::ptrdiff_t(n - want);
    if (e != c.end()) violate("nav:from-result", "+= does not arrive at end()");
    if (n) {
      --e;
      if (adr(*e) != adr(c[n - 1])) violate("nav:from-result", "-- from the end reached from a returned iterator is wrong");
    }
  }

  // iterators held across a failing call
  struct Held {
    std::vector<CIt> it;
    std::vector<std::size_t> idx;
    std::vector<const T*> addr;
  };
  void hold(Slot& x, Held& h, std::size_t max) {
    S const& c = x.c();
    std::size_t n = x.m.size();
    Rng r(opi * 19 + 3);
    for (std::size_t k = 0; k != max; ++k) {
      std::size_t i = n <= max ? k : r.below(std::uint32_t(n));
      if (k == 0) i = 0;
      if (i >= n) break;
      h.it.push_back(c.nth(i));
      h.idx.push_back(i);
      h.addr.push_back(adr(c[i]));
    }
    h.it.push_back(c.end());
    h.idx.push_back(n);
    h.addr.push_back(nullptr);
  }
  // end_too: the end iterator is promised to stay valid as well
  void check_held(Slot& x, Held const& h, bool addresses, bool end_too, const char* after) {
    S const& c = x.c();
    std::size_t n = x.m.size();
    if (c.size() != n) violate("content:size", "after %s: size() is %zu, expected %zu", after, c.size(), n);
    for (std::size_t k = 0; k != h.it.size(); ++k) {
      CIt it = h.it[k];
      std::size_t i = h.idx[k];
      if (i == n && !end_too) continue;
      ++G.st->probe[P_HELD_USED];
      if (c.index_of(it) != i) violate("held:index", "iterator held across %s has index %zu, expected %zu", after, std::size_t(c.index_of(it)), i);
      if (i < n) {
        if (addresses && adr(*it) != h.addr[k]) violate("held:address", "iterator held across %s refers to another element", after);
        if (addresses && adr(c[i]) != h.addr[k]) violate("held:address", "element moved in memory by %s", after);
        if (adr(*it) != adr(c[i])) violate("held:element", "iterator held across %s does not refer to element %zu", after, i);
        if (ob(*it) != x.m[i]) violate("held:value", "value behind an iterator held across %s is wrong", after);
      } else if (it != c.end())
        violate("held:end", "end iterator held across %s is not end()", after);
      nav_held(x, it, i, after);
    }
  }
  void nav_held(Slot& x, CIt it, std::size_t i, const char* after) {
    S const& c = x.c();
    std::size_t n = x.m.size();
    CIt a = it;
    a += std::ptrdiff_t(n - i);
    if (a != c.end() || c.index_of(a) != n) violate("held:navigation", "iterator held across %s does not reach end()", after);
    if (!n) return;
    a = it;
    a -= std::ptrdiff_t(i);
    if (a != c.begin() || adr(*a) != adr(c[0])) violate("held:navigation", "iterator held across %s does not reach begin()", after);
    if (i > 0) {
      a = it;
      --a;
      if (adr(*a) != adr(c[i - 1])) violate("held:navigation", "-- of an iterator held across %s is wrong", after);
    }
    if (i + 1 < n) {
      a = it;
      ++a;
      if (adr(*a) != adr(c[i + 1])) violate("held:navigation", "++ of an iterator held across %s is wrong", after);
    }
  }

  // ---------------------------------------------------------------- single insertion
  template <class C, class Rb, class Chk>
  void single(Slot& x, std::size_t pos, V v, C&& call, Rb&& rebuild, Chk&& arg_intact, bool has_result) {
    Snap before;
    Held h;
    bool strong = faults && !op->f.empty();
    std::size_t h0 = x.c().height();
    CIt ret;
    if (strong) {
      snap(x, before);
      hold(x, h, 4);
    }
    auto b0 = mem_live_blocks();
    auto e0 = G.live_elems;
    drive([&] { ret = call(); },
          [&] {
            x.m.insert(x.m.begin() + std::ptrdiff_t(pos), v);
            if (has_result) check_result(x, ret, pos, kOpName[op->code]);
            if (x.c().height() > h0) ++G.st->probe[P_HEIGHT_UP];
          },
          [&] {
            if (relaxed_fault()) {
              resync(x);
              return;
            }
            fail_strong(x, before);
            if (mem_live_blocks() != b0)
              violate("strong:memory", "failed %s: %llu blocks held before, %llu after", kOpName[op->code],
                      (unsigned long long)b0, (unsigned long long)mem_live_blocks());
            if (E::tracked && G.live_elems != e0)
              violate("strong:elements", "failed %s: an element was left behind", kOpName[op->code]);
            check_held(x, h, true, true, "a failed insertion");
            if (!(G.fired_mask & ~(1u << F_ALLOC))) arg_intact();
            if (G.fired_mask & (1u << F_ALLOC)) {
              auto c = G.cnt[F_ALLOC];
              ++G.st->probe[c <= 1 ? P_ALLOC_FAIL_SEG : c == 2 ? P_ALLOC_FAIL_NODE1 : P_ALLOC_FAIL_NODE2PLUS];
            }
            rebuild();
          });
  }
  bool gave_up = false;

  template <class F>
  void with_il(std::size_t n, F&& f) {
    if constexpr (CP) {
      auto mk = [&](std::size_t i) { return E::make(nv(i)); };
      switch (n) {
        case 0: f(std::initializer_list<T>{}); break;
        case 1: f(std::initializer_list<T>{mk(0)}); break;
        case 2: f(std::initializer_list<T>{mk(0), mk(1)}); break;
        case 3: f(std::initializer_list<T>{mk(0), mk(1), mk(2)}); break;
        case 4: f(std::initializer_list<T>{mk(0), mk(1), mk(2), mk(3)}); break;
        default:
          f(std::initializer_list<T>{mk(0), mk(1), mk(2), mk(3), mk(4), mk(5), mk(6), mk(7), mk(8)});
          break;
      }
    }
  }
  static std::size_t il_n(std::uint32_t b) { return b % 6 == 5 ? 9 : b % 6; }
  std::vector<V> values(std::size_t n) {
    std::vector<V> v(n);
    for (std::size_t i = 0; i != n; ++i) v[i] = nv(i);
    return v;
  }
  std::vector<T> objects(std::vector<V> const& v) {
    std::vector<T> t;
    t.reserve(v.size());
    for (auto x : v) t.push_back(E::make(x));
    return t;
  }

  // Calls f(first, last) with an iterator that can pass repeatedly; the values may be replaced by those of another container.
  template <class F>
  void multi_pass(std::vector<V>& vals, std::uint32_t kind, F&& f) {
    Slot& y = o();
    bool own = y.alive && !y.m.empty() && y.m.size() < 3000;
    for (std::size_t i = 0; E::tracked && own && i != y.m.size(); ++i)
      if (y.m[i] == kMoved) own = false;
    std::size_t k = own ? std::min(vals.size(), y.m.size()) : 0, at = own ? kind / 8 % (y.m.size() - k + 1) : 0;
    auto i = y.m.begin() + std::ptrdiff_t(at);
    switch (own ? kind % 8 : kind % 4) {
      case 1: {
        auto objs = objects(vals);
        FwdIter<T> a, b;
        a.p = objs.data();
        b.p = a.end = b.end = objs.data() + objs.size();
        f(a, b);
        break;
      }
      case 2: {
        V const* p = vals.data();
        f(p, p + vals.size());
        break;
      }
      case 4: case 5: {
        vals.assign(i, i + std::ptrdiff_t(k));
        S const& c = y.c();
        f(c.nth(at), c.nth(at + k));
        break;
      }
      case 6: {
        vals.assign(i, i + std::ptrdiff_t(k));
        S& c = y.c();
        f(c.nth(at), c.nth(at + k));
        break;
      }
      case 7: {
        vals.assign(std::make_reverse_iterator(i + std::ptrdiff_t(k)), std::make_reverse_iterator(i));
        S const& c = y.c();
        f(typename S::const_reverse_iterator(c.nth(at + k)), typename S::const_reverse_iterator(c.nth(at)));
        break;
      }
      default: {
        auto objs = objects(vals);
        T const* p = objs.data();
        f(p, p + objs.size());
      }
    }
  }

  // Calls f(first, last) with one of several kinds of sources; after() is told what was read.
  template <class F>
  void with_source(std::vector<V>& vals, F&& f) {
    SrcState st;
    st.vals = vals.data();
    st.n = vals.size();
    switch (op->d % 4) {
      case 0: {
        SrcIter<T, true> a, b;
        a.st = b.st = &st;
        b.sentinel = true;
        f(a, b, &st);
        break;
      }
      case 1: {
        if constexpr (CP) {
          auto objs = objects(vals);
          SrcIter<T, false> a, b;
          a.st = b.st = &st;
          a.objs = b.objs = objs.data();
          b.sentinel = true;
          f(a, b, &st);
          break;
        }
      }  // fall through
      case 2: {
        if constexpr (CP) {
          multi_pass(vals, op->d >> 4, [&](auto first, auto last) { f(first, last, static_cast<SrcState*>(nullptr)); });
          break;
        }
      }  // fall through
      default: {
        auto objs = objects(vals);
        f(std::make_move_iterator(objs.data()), std::make_move_iterator(objs.data() + objs.size()),
          static_cast<SrcState*>(nullptr));
      }
    }
  }

  // ---------------------------------------------------------------- the operations
  void run_op();
  void after_moved_from(Slot& y, std::vector<V> const& add);
  void fail_move_assign(Slot& x, Slot& y, std::vector<V> const& old, std::vector<V> const& add);
  void fail_reorder(Slot& x, std::vector<V> const& all);
  void op_single(Slot& x);
  void op_bulk(Slot& x);
  void op_erase(Slot& x);
  void op_resize(Slot& x);
  void op_assign(Slot& x);
  void op_two(Slot& x, Slot& y);
  void op_recon(Slot& x, Slot& y);
  void op_transfer(Slot& x, Slot& y);
  void op_algo(Slot& x);
  void op_hold(Slot& x, Slot& y);
  void op_nav(Slot& x);
  void op_compare(Slot& x, Slot& y);
  void build(Slot& x);
  void drain(Slot& x);

  void run() {
    G.hash = 1469598103934665603ull;
    G.live_elems = 0;
    G.copies = G.moves = 0;
    G.in_destroy = G.in_construct = 0;
    G.destroy_only = X::donly;
    G.construct_mark = X::conly ? 2 : 1;
    G.fire_id = 0;
    static const Op start;
    op = &start;
    opi = 0;
    G.cur_op = 0;
    G.cur_code = -1;
    mem_reset(P.reuse);
    for (int i = 0; i != 3; ++i) {
      sl[i].arena = P.arenas[i];
      new (&sl[i].raw) S(X::make(P.arenas[i]));
      sl[i].alive = true;
    }
    for (opi = 0; opi != P.ops.size(); ++opi) {
      op = &P.ops[opi];
      G.cur_op = opi;
      G.cur_code = op->code;
      if (G.sh) G.sh->op_index = opi;
      gave_up = huge_call = false;
      if (op_begins) op_begins();
      auto ok0 = G.st->ops_ok, f0 = G.st->ops_failed;
      logline("op %u %s slot %d sizes %zu %zu %zu", opi, kOpName[op->code], op->s % 3, sl[0].m.size(), sl[1].m.size(), sl[2].m.size());
      run_op();
      if (subject_mask >> op->code & 1) G.run_subject += (G.st->ops_ok != ok0 || G.st->ops_failed != f0);
      if (G.st->ops_failed != f0) ++G.st->op_fail[op->code];
      if (G.st->ops_ok != ok0) ++G.st->op_ok[op->code];
      after_op();
    }
    static const Op finish;
    op = &finish;
    G.cur_op = std::uint32_t(P.ops.size());
    G.cur_code = -2;
    for (auto& x : sl) verify(x, true);
    ledger();
    for (auto& x : sl) {
      static const std::vector<Fault> exhausted{Fault{F_ALLOC, true, 1}, Fault{F_COPY, true, 1}};
      static const std::vector<Fault> none;
      begin_call(faults ? exhausted : none);
      x.c().~S();
      end_call();
      x.alive = false;
    }
    if (E::tracked && G.live_elems) violate("leak:elements", "%lld elements alive after the containers are gone", (long long)G.live_elems);
    if (mem_live_blocks()) violate("leak:blocks", "%llu blocks outstanding after the containers are gone", (unsigned long long)mem_live_blocks());
    ev(G.st->allocs & 0);
    R.hash = G.hash;
  }
  void after_op() {
    Slot& a = s();
    Slot& b = o();
    for (auto& x : sl) {
      bool touched = &x == &a || &x == &b;
      if (!touched && (opi & 3)) continue;
      std::size_t n = x.m.size();
      bool deep = op->code == OP_CHECKALL || ((orc & O_NAV) && n <= 200) || (touched && n <= 48) || (n <= 300 && opi % 8 == 0);
      verify(x, deep);
      std::uint64_t h = 0;
      for (auto v : x.m) h = (h ^ v) * 0x100000001b3ull + (h >> 29);
      ev(h);
      if (&x == &a) ev(R.shape_hash);
    }
    ledger();
    if (orc & O_TWIN) {
      std::uint64_t d = 0;
      for (auto& x : sl) {
        d = mix(d, shape_hash(x));
        for (auto v : x.m) d = (d ^ v) * 0x100000001b3ull + (d >> 29);
        d = mix(d, std::uint64_t(x.arena));
      }
      d = mix(d, mem_live_blocks());
      R.digests.push_back(d);
    }
  }
};

// -------------------------------------------------------------------- single element insertion
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_single(Slot& x) {
  S& c = x.c();
  std::size_t n = x.m.size();
  V v = nv(0);
  auto nothing = [] {};
  auto kept = [&](T const& t) {
    return [&] {
      if (ob(t) != v) violate("strong:argument", "failed %s: the argument passed by rvalue lost its value", kOpName[op->code]);
    };
  };
  switch (op->code) {
    case OP_INS_C:
    case OP_EMPL_C: {
      if constexpr (CP) {
        std::size_t p = pick(op->a, x);
        T arg = E::make(v);
        CIt pos = cit(x, p, op->d);
        bool e = op->code == OP_EMPL_C;
        single(x, p, v, [&]() -> CIt { return e ? c.emplace(pos, const_cast<T const&>(arg)) : c.insert(pos, const_cast<T const&>(arg)); },
               nothing, kept(arg), true);
      }
      break;
    }
    case OP_INS_R: {
      std::size_t p = pick(op->a, x);
      T arg = E::make(v);
      CIt pos = cit(x, p, op->d);
      bool e = op->b & 1;
      single(x, p, v, [&]() -> CIt { return e ? c.emplace(pos, std::move(arg)) : c.insert(pos, std::move(arg)); },
             [&] { arg = E::make(v); }, kept(arg), true);
      break;
    }
    case OP_EMPL: {
      std::size_t p = pick(op->a, x);
      CIt pos = cit(x, p, op->d);
      single(x, p, v, [&]() -> CIt { return c.emplace(pos, v); }, nothing, nothing, true);
      break;
    }
    case OP_EMPL_D: {
      std::size_t p = pick(op->a, x);
      CIt pos = cit(x, p, op->d);
      single(x, p, 0, [&]() -> CIt { return c.emplace(pos); }, nothing, nothing, true);
      break;
    }
    case OP_INS_ALIAS: {
      if constexpr (CP) {
        if (!n) break;
        std::size_t p = pick(op->a, x), j = pick_elem(op->b, x);
        CIt pos = cit(x, p, op->d);
        ++G.st->probe[P_ALIAS_ARG];
        V w = x.m[j];
        bool e = op->d & 8;
        single(x, p, w, [&]() -> CIt {
          T const& r = const_cast<S const&>(c)[j];
          return e ? c.emplace(pos, r) : c.insert(pos, r);
        }, nothing, nothing, true);
      }
      break;
    }
    case OP_PB_C:
    case OP_PF_C: {
      if constexpr (CP) {
        T arg = E::make(v);
        bool back = op->code == OP_PB_C;
        single(x, back ? n : 0, v, [&]() -> CIt {
          if (back) c.push_back(const_cast<T const&>(arg)); else c.push_front(const_cast<T const&>(arg));
          return CIt();
        }, nothing, kept(arg), false);
      }
      break;
    }
    case OP_PB_R:
    case OP_PF_R: {
      T arg = E::make(v);
      bool back = op->code == OP_PB_R;
      single(x, back ? n : 0, v, [&]() -> CIt {
        if (back) c.push_back(std::move(arg)); else c.push_front(std::move(arg));
        return CIt();
      }, [&] { arg = E::make(v); }, kept(arg), false);
      break;
    }
    case OP_EB:
    case OP_EF: {
      bool back = op->code == OP_EB;
      single(x, back ? n : 0, v, [&]() -> CIt {
        if (back) c.emplace_back(v); else c.emplace_front(v);
        return CIt();
      }, nothing, nothing, false);
      break;
    }
    case OP_PB_ALIAS: {
      if constexpr (CP) {
        if (!n) break;
        std::size_t j = pick_elem(op->b, x);
        ++G.st->probe[P_ALIAS_ARG];
        V w = x.m[j];
        bool back = op->d & 1;
        single(x, back ? n : 0, w, [&]() -> CIt {
          T const& r = const_cast<S const&>(c)[j];
          if (back) c.push_back(r); else c.push_front(r);
          return CIt();
        }, nothing, nothing, false);
      }
      break;
    }
  }
}

// -------------------------------------------------------------------- bulk insertion
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_bulk(Slot& x) {
  S& c = x.c();
  std::size_t p = pick(op->a, x);
  std::size_t cnt = op->b, real = cnt;
  if (huge()) {
    if (!huge_ok() || op->code != OP_INS_N) return;
    cnt = huge_model(x);
    real = huge_count();
  }
  switch (op->code) {
    case OP_INS_N:
    case OP_INS_N_ALIAS: {
      if constexpr (CP) {
        bool alias = op->code == OP_INS_N_ALIAS && !x.m.empty();
        std::size_t j = alias ? pick_elem(op->d >> 2, x) : 0;
        V w = alias ? x.m[j] : nv(0);
        T arg = E::make(w);
        std::vector<V> add(cnt, w);
        if (alias) ++G.st->probe[P_ALIAS_ARG];
        It ret;
        CIt pos = cit(x, p, op->d);
        drive([&] {
          if (!gave_up) ret = c.insert(pos, real, alias ? const_cast<S const&>(c)[j] : const_cast<T const&>(arg));
          else ret = c.insert(c.nth(p), real, const_cast<T const&>(arg));
        },
              [&] {
                if (huge_call) violate("prefix:size", "inserting %zu elements succeeded", real);
                x.m.insert(x.m.begin() + std::ptrdiff_t(p), add.begin(), add.end());
                check_result(x, ret, p, kOpName[op->code]);
              },
              [&] {
                fail_bulk(x, p, add);
                gave_up = true;
                p = std::min(p, x.m.size());
              });
      }
      break;
    }
    case OP_INS_IL: {
      if constexpr (CP) {
        std::size_t k = il_n(op->b);
        std::vector<V> add = values(k);
        It ret;
        CIt pos = cit(x, p, op->d);
        with_il(k, [&](std::initializer_list<T> il) {
          drive([&] { ret = c.insert(gave_up ? CIt(c.nth(p)) : pos, il); },
                [&] {
                  x.m.insert(x.m.begin() + std::ptrdiff_t(p), add.begin(), add.end());
                  check_result(x, ret, p, kOpName[op->code]);
                },
                [&] {
                  fail_bulk(x, p, add);
                  gave_up = true;
                  p = std::min(p, x.m.size());
                });
        });
      }
      break;
    }
    case OP_INS_RANGE: {
      std::vector<V> add = values(cnt);
      It ret;
      CIt pos = cit(x, p, op->d >> 2);
      with_source(add, [&](auto first, auto last, SrcState* st) {
        auto call = [&] { ret = c.insert(pos, first, last); };
        bool ok = attempt(faults ? op->f : std::vector<Fault>{}, call);
        std::vector<V> got = add;
        if (st && st->n < got.size()) got.resize(st->n);
        if (ok) {
          x.m.insert(x.m.begin() + std::ptrdiff_t(p), got.begin(), got.end());
          check_result(x, ret, p, kOpName[op->code]);
          if (st && st->pos != st->n) violate("source:not-exhausted", "insertion stopped at %zu of %zu", st->pos, st->n);
        } else {
          if (st && got.size() > st->reads) got.resize(st->reads);
          fail_bulk(x, p, got);
        }
      });
      break;
    }
  }
}

// -------------------------------------------------------------------- removal
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_erase(Slot& x) {
  S& c = x.c();
  std::size_t n = x.m.size();
  std::size_t h0 = c.height();
  auto b0 = mem_live_blocks();
  auto destroyed0 = G.destroys;
  if (!n && op->code != OP_ERASE_R && op->code != OP_CLEAR) return;
  std::size_t p = n ? pick_elem(op->a, x) : 0, q = p + 1;
  if (op->code == OP_POPB) p = n - 1, q = n;
  if (op->code == OP_POPF) p = 0, q = 1;
  if (op->code == OP_ERASE_R) {
    p = pick(op->a, x);
    q = std::min<std::size_t>(n, p + op->b);
  }
  if (op->code == OP_CLEAR) p = 0, q = n;
  It ret;
  bool has = false;
  CIt i1 = cit(x, p, op->d), i2 = cit(x, q, op->d >> 2);
  auto call = [&] {
    switch (op->code) {
      case OP_ERASE: ret = c.erase(i1); has = true; break;
      case OP_ERASE_R: ret = c.erase(i1, i2); has = true; break;
      case OP_POPB: c.pop_back(); break;
      case OP_POPF: c.pop_front(); break;
      case OP_CLEAR: destroyed0 = G.destroys; c.clear(); break;
    }
  };
  if (attempt(faults ? op->f : std::vector<Fault>{}, call)) {
    x.m.erase(x.m.begin() + std::ptrdiff_t(p), x.m.begin() + std::ptrdiff_t(q));
    no_alloc_check();
    if (op->code == OP_CLEAR && (X::cons || X::donly) && G.destroys - destroyed0 != q - p)
      violate("lifetime:destroy-bypasses-allocator", "clear() of %zu elements destroyed %zu through the allocator", q - p, std::size_t(G.destroys - destroyed0));
    if (has) check_result(x, ret, p, kOpName[op->code]);
    if (c.height() < h0) ++G.st->probe[P_HEIGHT_DOWN];
    if (mem_live_blocks() < b0) ++G.st->probe[P_STEAL_OR_MERGE];
    for (auto& f : op->f)
      if (f.kind == F_ALLOC && f.sticky) ++G.st->probe[P_OOM_REMOVAL];
    if (E::tracked && call_copies) violate("noalloc:copied", "%s copied elements", kOpName[op->code]);
  } else
    fail_free(x);
}

// -------------------------------------------------------------------- resize
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_resize(Slot& x) {
  S& c = x.c();
  std::size_t n = x.m.size();
  // b: growth; a odd: shrink instead
  std::size_t target = (op->a & 1) ? n - std::min<std::size_t>(n, op->b) : n + op->b;
  std::size_t room = 0;
  if (huge()) {
    if (!huge_ok() || op->code == OP_RESIZE_ALIAS) return;
    target = huge_count();
    room = huge_model(x);
  } else
    room = target;
  bool grow = target > n;
  if (op->code == OP_RESIZE) {
    Snap before;
    snap(x, before);
    auto b0 = mem_live_blocks();
    drive([&] { c.resize(target); },
          [&] {
            if (!grow) no_alloc_check();
            if (huge_call) violate("resize:size", "resize(%zu) succeeded", target);
            x.m.resize(target, 0);
          },
          [&] {
            if (!grow && must_not_fail()) violate("noalloc:failed", "shrinking resize failed");
            if (relaxed_fault()) {
              resync(x);
              return;
            }
            Snap now;
            snap(x, now);
            if (now.val != before.val)
              violate("resize:changed", "failed resize(%zu) of %zu elements left %zu or changed them", target, before.val.size(), now.val.size());
            (void)b0;
          });
  } else {
    if constexpr (CP) {
      bool alias = op->code == OP_RESIZE_ALIAS && n;
      std::size_t j = alias ? pick_elem(op->d, x) : 0;
      V w = alias ? x.m[j] : nv(0);
      T arg = E::make(w);
      if (alias) ++G.st->probe[P_ALIAS_ARG];
      bool first = true;
      drive([&] { c.resize(target, alias && first ? const_cast<S const&>(c)[j] : const_cast<T const&>(arg)); },
            [&] {
              if (!grow) no_alloc_check();
              if (huge_call) violate("prefix:size", "resize(%zu) succeeded", target);
              x.m.resize(target, w);
            },
            [&] {
              first = false;
              if (!grow) {
                fail_free(x);
                return;
              }
              fail_bulk(x, x.m.size(), std::vector<V>(room - std::min(room, x.m.size()), w));
            });
    }
  }
}

// -------------------------------------------------------------------- assignment
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_assign(Slot& x) {
  S& c = x.c();
  std::size_t cnt = op->b, real = cnt;
  if (huge()) {
    if (!huge_ok() || op->code != OP_ASSIGN_N) return;
    cnt = huge_model(x);
    real = huge_count();
  }
  switch (op->code) {
    case OP_ASSIGN_N: {
      if constexpr (CP) {
        V w = nv(0);
        T arg = E::make(w);
        std::vector<V> add(cnt, w);
        drive([&] { c.assign(real, const_cast<T const&>(arg)); },
              [&] {
                if (huge_call) violate("assign:size", "assign(%zu) succeeded", real);
                x.m = add;
              }, [&] { fail_assign(x, add); });
      }
      break;
    }
    case OP_ASSIGN_IL:
    case OP_OPEQ_IL: {
      if constexpr (CP) {
        std::size_t k = il_n(op->b);
        std::vector<V> add = values(k);
        with_il(k, [&](std::initializer_list<T> il) {
          drive([&] { if (op->code == OP_ASSIGN_IL) c.assign(il); else c = il; }, [&] { x.m = add; },
                [&] { fail_assign(x, add); });
        });
      }
      break;
    }
    case OP_ASSIGN_RANGE: {
      std::vector<V> add = values(cnt);
      with_source(add, [&](auto first, auto last, SrcState* st) {
        bool ok = attempt(faults ? op->f : std::vector<Fault>{}, [&] { c.assign(first, last); });
        std::vector<V> got = add;
        if (st && st->n < got.size()) got.resize(st->n);
        if (ok) {
          x.m = got;
          if (st && st->pos != st->n) violate("source:not-exhausted", "assignment stopped at %zu of %zu", st->pos, st->n);
        } else {
          if (st && got.size() > st->reads) got.resize(st->reads);
          std::vector<V> old = x.m;
          fail_assign(x, got);
          // What was read overwrites, in its place, what was held; nothing else changes.
          if (st && !relaxed_fault()) {
            if (x.m.size() < old.size() || x.m.size() > std::max(old.size(), got.size()))
              violate("source:assign-size", "assignment of a source that failed after %zu reads left %zu elements of %zu", st->reads, x.m.size(), old.size());
            for (std::size_t i = 0; i < x.m.size(); ++i)
              if (!(i < old.size() && x.m[i] == old[i]) && !(i < got.size() && x.m[i] == got[i]))
                violate("source:assign-place", "failed assignment: element %zu is neither what was there nor what was read for it", i);
          }
        }
      });
      break;
    }
  }
}

// -------------------------------------------------------------------- two containers
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_two(Slot& x, Slot& y) {
  S &c = x.c(), &d = y.c();
  switch (op->code) {
    case OP_COPY_ASSIGN: {
      if constexpr (CP) {
        if ((op->d & 7) == 0) {  // self
          Snap before;
          snap(x, before);
          attempt(faults ? op->f : std::vector<Fault>{}, [&] { S& self = c; c = self; });
          if (completed) same(x, before, "content:self-assignment");
          else resync(x);
          return;
        }
        Snap src;
        snap(y, src);
        std::vector<V> add = y.m;
        bool failed = false;
        drive([&] { c = const_cast<S const&>(d); },
              [&] {
                x.m = add;
                if (X::pocca) x.arena = y.arena;
                same(y, src, "source:changed");
              },
              [&] {
                failed = true;
                if (X::stateful && X::arena(c.get_allocator()) != x.arena) {
                  if (!X::pocca || X::arena(c.get_allocator()) != y.arena)
                    violate("allocator:identity", "failed copy assignment left allocator %d", X::arena(c.get_allocator()));
                  x.arena = y.arena;
                }
                same(y, src, "source:changed");
                fail_assign(x, add);
              });
      }
      break;
    }
    case OP_MOVE_ASSIGN: {
      bool transfer = X::pocma || x.arena == y.arena;
      if ((op->d & 31) == 0) {  // self move: valid but unspecified
        attempt(std::vector<Fault>{}, [&] { S& self = c; c = std::move(self); });
        resync(x);
        for (auto v : x.m) (void)v;
        return;
      }
      Snap src;
      snap(y, src);
      std::vector<V> add = y.m, old = x.m;
      Held h;
      hold(y, h, 6);
      auto plan = faults ? op->f : std::vector<Fault>{};
      bool ok = attempt(plan, [&] { c = std::move(d); });
      if (transfer) {
        if (!ok) violate("noalloc:failed", "a move assignment that transfers ownership failed");
        no_alloc_check();
        if (E::tracked && (call_copies || call_moves)) violate("transfer:moved-elements", "a move assignment that transfers ownership touched elements");
        x.m = add;
        if (X::pocma) x.arena = y.arena;
        same(x, src, "transfer:changed");
        y.m.clear();
        if (d.size() != 0) {  // moved-from: valid, unspecified
          resync(y);
          for (auto v : y.m)
            if (std::find(old.begin(), old.end(), v) == old.end())
              violate("conserve:duplicate", "moved-from container holds a value it should not");
        }
        check_held(x, h, true, false, "move assignment");
      } else {
        ++G.st->probe[P_UNEQUAL_TRANSFER];
        if (E::tracked && call_copies) violate("copycount:copied", "%s copied elements instead of moving them", kOpName[op->code]);
        if (ok) {
          x.m = add;
          after_moved_from(y, add);
        } else
          fail_move_assign(x, y, old, add);
      }
      break;
    }
    case OP_SWAP: {
      if ((op->d & 31) == 6) {  // with itself
        Snap before;
        snap(x, before);
        attempt(faults ? op->f : std::vector<Fault>{}, [&] { S& self = c; if (op->d & 32) swap(c, self); else c.swap(self); });
        if (!completed) violate("noalloc:failed", "swap failed");
        no_alloc_check();
        same(x, before, "transfer:changed");
        return;
      }
      if (!X::pocs && x.arena != y.arena) return;
      if (x.arena != y.arena) ++G.st->probe[P_SWAP_UNEQUAL];
      Snap a, b;
      snap(x, a);
      snap(y, b);
      bool f = op->d & 1;
      bool ok = attempt(faults ? op->f : std::vector<Fault>{}, [&] { if (f) swap(c, d); else c.swap(d); });
      if (!ok) violate("noalloc:failed", "swap failed");
      no_alloc_check();
      if (E::tracked && (call_copies || call_moves)) violate("transfer:moved-elements", "swap touched elements");
      std::swap(x.m, y.m);
      if (X::pocs) std::swap(x.arena, y.arena);
      same(x, b, "transfer:changed");
      same(y, a, "transfer:changed");
      break;
    }
  }
}

// -------------------------------------------------------------------- transfers
template <class T, class A, std::size_t ST, std::size_t BT>
void Exec<T, A, ST, BT>::op_transfer(Slot& x, Slot& y) {
  S &c = x.c(), &d = y.c();
  std::size_t p = pick(op->a, x);
  std::size_t n2 = y.m.size(), f = 0, l = n2;
  if (op->code == OP_SPLICE_ONE) {
    if (!n2) return;
    f = pick_elem(op->b, y);
    l = f + 1;
  } else if (op->code == OP_SPLICE_RANGE) {
    f = pick(op->b, y);
    l = std::min<std::size_t>(n2, f + (op->d >> 8) % (2 * SM * BM + 2));
  }
  bool is_merge = op->code == OP_MERGE;
  unsigned kind = op->d & 3;
  auto cmp_key = [](T const& a, T const& b) {
    V u = ob(a), w = ob(b);
    fault_point(F_CMP);
    return E::key(u) < E::key(w);
  };
  auto mkey = [](V u, V w) { return E::key(u) < E::key(w); };
  if (is_merge) {  // both must be sorted: a harness step without faults
    auto prep = [&](Slot& z) {
      S& zc = z.c();
      if (kind & 1) {
        attempt({}, [&] { zc.sort(cmp_key); });
        std::stable_sort(z.m.begin(), z.m.end(), mkey);
      } else {
        attempt({}, [&] { zc.sort(); });
        std::stable_sort(z.m.begin(), z.m.end(), vless);
      }
      verify(z, false);
    };
    prep(x);
    prep(y);
    p = x.m.size();
  }
  CIt pos = cit(x, p, op->d >> 4), i1 = cit(y, f, op->d >> 6), i2 = cit(y, l, op->d >> 5);
  std::vector<V> old_x = x.m, old_y = y.m, part(y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
  bool rv = op->d & 2;
  auto call = [&] {
    switch (op->code) {
      case OP_SPLICE_ALL: if (rv) c.splice(pos, std::move(d)); else c.splice(pos, d); break;
      case OP_SPLICE_ONE:
        if constexpr (CP) { if (rv) c.splice(pos, std::move(d), i1); else c.splice(pos, d, i1); }
        break;
      case OP_SPLICE_RANGE: if (rv) c.splice(pos, std::move(d), i1, i2); else c.splice(pos, d, i1, i2); break;
      case OP_MERGE:
        if (kind & 1) { if (rv) c.merge(std::move(d), cmp_key); else c.merge(d, cmp_key); }
        else { if (rv) c.merge(std::move(d)); else c.merge(d); }
        break;
    }
  };
  if (!CP && op->code == OP_SPLICE_ONE) return;
  bool ok = attempt(faults ? op->f : std::vector<Fault>{}, call);
  if (E::tracked && call_copies) violate("copycount:copied", "%s copied elements instead of moving them", kOpName[op->code]);
  if (ok) {
    x.m.insert(x.m.begin() + std::ptrdiff_t(p), part.begin(), part.end());
    y.m.erase(y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
    if (is_merge) {
      auto mid = x.m.begin() + std::ptrdiff_t(p);
      if (kind & 1) std::inplace_merge(x.m.begin(), mid, x.m.end(), mkey);
      else std::inplace_merge(x.m.begin(), mid, x.m.end(), vless);
    }
    return;
  }
  if (relaxed_fault()) {
    resync(x);
    resync(y);
    return;
  }
  if (is_merge && (G.fired_mask & (1u << F_CMP)) && c.size() == old_x.size() + part.size()) {
    // the reordering step failed
    std::vector<V> all = old_x;
    all.insert(all.end(), part.begin(), part.end());
    x.m = all;
    fail_reorder(x, all);
    if (d.size()) violate("conserve:duplicate", "merge failed while reordering, source still holds %zu elements", d.size());
    y.m.clear();
    return;
  }
  // memory ran out: a leading part has been transferred
  std::size_t k = fail_bulk(x, p, part);
  if (k > part.size()) violate("conserve:count", "too many elements transferred");
  Snap q;
  snap(y, q);
  if (E::tracked) {
    // source: its elements in order, those transferred either gone or left as moved-from husks
    std::vector<V> want1 = old_y, want2 = old_y;
    for (std::size_t i = 0; i != k; ++i) want1[f + i] = kMoved;
    want2.erase(want2.begin() + std::ptrdiff_t(f), want2.begin() + std::ptrdiff_t(f + k));
    if (q.val != want1 && q.val != want2)
      violate("conserve:lost", "failed %s: %zu elements arrived, but the source lost or changed others", kOpName[op->code], k);
  } else {
    std::vector<V> want2 = old_y;
    want2.erase(want2.begin() + std::ptrdiff_t(f), want2.begin() + std::ptrdiff_t(f + k));
    if (q.val != old_y && q.val != want2) violate("conserve:lost", "failed %s changed the source", kOpName[op->code]);
  }
  if (k != 0 || op->mode == M_ONCE) ++G.st->probe[P_SWEEP_POINTS];
  y.m = q.val;
}
}  // namespace sim
#include "exec2.hpp"
