// Executes programs on the real container. The parts that count as code under
// test run inside a Sut scope; everything else is the simulator's own.
#pragma once
#include <algorithm>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <utility>
#include <vector>
#include <boost/segmented_tree/seq.hpp>
#include "prog.hpp"

namespace mt {
template <class T>
struct Alloc {
  using value_type = T;
  Alloc() noexcept {}
  template <class U>
  Alloc(Alloc<U> const&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(block_alloc(n, sizeof(T), alignof(T))); }
  void deallocate(T* p, std::size_t n) noexcept { block_free(p, n, sizeof(T)); }
  template <class U>
  friend bool operator==(Alloc const&, Alloc<U> const&) noexcept { return true; }
  template <class U>
  friend bool operator!=(Alloc const&, Alloc<U> const&) noexcept { return false; }
};

// An element which owns memory.
struct Str {
  std::uint32_t* p;
  Str() : p(new std::uint32_t(0)) { elem_op(); }
  explicit Str(std::uint32_t v) : p(new std::uint32_t(v)) { elem_op(); }
  Str(Str const& o) : p(o.p ? new std::uint32_t(*o.p) : nullptr) { elem_op(); }
  Str(Str&& o) noexcept : p(o.p) {
    o.p = nullptr;
    elem_op();
  }
  Str& operator=(Str const& o) {
    std::uint32_t* q = o.p ? new std::uint32_t(*o.p) : nullptr;
    delete p;
    p = q;
    elem_op();
    return *this;
  }
  Str& operator=(Str&& o) noexcept {
    std::uint32_t* q = o.p;
    o.p = nullptr;
    delete p;
    p = q;
    elem_op();
    return *this;
  }
  ~Str() {
    delete p;
    elem_op();
  }
  std::uint32_t tag() const { return p ? *p : 0xffffffffu; }
  friend bool operator==(Str const& a, Str const& b) { return a.tag() == b.tag(); }
  friend bool operator<(Str const& a, Str const& b) { return a.tag() < b.tag(); }
};
struct D32 {
  std::uint32_t v;
  char pad[28];
  D32(std::uint32_t x = 0) : v(x), pad() {}
  std::uint32_t tag() const { return v; }
  friend bool operator==(D32 const& a, D32 const& b) { return a.v == b.v; }
  friend bool operator<(D32 const& a, D32 const& b) { return a.v < b.v; }
};
// An iterator whose copies all stand at the same place, as input iterators may.
template <class I>
struct Input {
  using iterator_category = std::input_iterator_tag;
  using value_type = typename std::iterator_traits<I>::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type const*;
  using reference = value_type const&;
  I i;
  reference operator*() const { return *i; }
  Input& operator++() {
    ++i;
    return *this;
  }
  void operator++(int) { ++i; }
  friend bool operator==(Input const& a, Input const& b) { return a.i == b.i; }
  friend bool operator!=(Input const& a, Input const& b) { return a.i != b.i; }
};
inline std::uint32_t tag(std::uint32_t v) { return v; }
template <class T>
std::uint32_t tag(T const& t) { return t.tag(); }

template <class T, std::size_t ST, std::size_t BT>
struct World {
  using C = boost::segmented_tree::seq<T, Alloc<T>, ST, BT>;
  using It = typename C::iterator;
  using CIt = typename C::const_iterator;
  using Model = std::vector<std::uint32_t>;
  struct Slot {
    C* c = nullptr;
    Model m;
    static constexpr unsigned kIts = 4;
    CIt* its = nullptr;  // iterators everybody may read
    std::size_t at[kIts] = {};
    void make() {
      Sut s;
      c = new C;
    }
    void drop() {
      Sut s;
      delete c;
      c = nullptr;
      delete[] its;
      its = nullptr;
    }
  };
  struct Box {
    Slot s;
    Mutex mu;
  };
  static constexpr unsigned segmax = ST / sizeof(T) > 1 ? ST / sizeof(T) : 1;
  static constexpr unsigned basefit = BT > 16 ? (BT - 16) / 16 : 0;
  static constexpr unsigned basemax = basefit > 3 ? basefit : 3;
  static constexpr bool owning = std::is_same<T, Str>::value;

  Program const& p;
  Slot slots[kMaxThreads][2];
  Box boxes[2];
  explicit World(Program const& q) : p(q) {}

  static std::uint32_t value(Op const& o, std::size_t i, std::uint32_t j = 0) {
    std::uint32_t v = std::uint32_t(mix(std::uint64_t(i) << 20 | j, o.c));
    return o.c % 3 == 0 ? v % 8 : v % 100000;
  }
  static std::size_t pick(std::uint32_t a, std::size_t n) {  // 0 .. n
    switch (a & 7) {
      case 0: return 0;
      case 1: return n;
      case 2: return n ? n - 1 : 0;
      default: return (a >> 3) % (n + 1);
    }
  }
  static void check(Slot& s, const char* what) {
    ++st->checks;
    C const& c = *s.c;
    std::size_t n, i = 0, bad = ~std::size_t(0);
    {
      Sut on;
      n = c.size();
    }
    if (n != s.m.size()) violate("content", "%s: size is %zu, alone it would be %zu", what, n, s.m.size());
    std::uint32_t got = 0;
    {
      Sut on;
      auto e = c.end();
      for (auto it = c.begin(); it != e && i < s.m.size(); ++it, ++i)
        if (tag(*it) != s.m[i] && bad == ~std::size_t(0)) bad = i, got = tag(*it);
    }
    if (i != n) violate("content", "%s: iteration gives %zu of %zu elements", what, i, n);
    if (bad != ~std::size_t(0)) violate("content", "%s: element %zu is %u, alone it would be %u", what, bad, got, s.m[bad]);
    if (n > st->max_size) st->max_size = n;
  }
  static void resync(Slot& s) {
    C const& c = *s.c;
    s.m.clear();
    Model m;
    std::size_t n;
    {
      Sut on;
      n = c.size();
    }
    m.reserve(n);
    {
      Sut on;
      for (auto it = c.begin(); it != c.end() && m.size() < n; ++it) m.push_back(tag(*it));
    }
    s.m = m;
  }

  // ---------------------------------------------------------------- reading
  void read(Slot& x, Slot& y, Op const& o) {
    C const& c = *x.c;
    Model const& m = x.m;
    std::size_t n = m.size();
    std::uint64_t got = 0, want = 0;
    switch (o.code) {
      case OP_R_IDX:
        if (!n) return;
        for (unsigned k = 0; k != 1 + o.b % 6; ++k) {
          std::size_t i = std::size_t(mix(o.a, k)) % n;
          Sut on;
          got = mix(got, tag(c[i]));
          want = mix(want, m[i]);
        }
        break;
      case OP_R_AT:
        for (unsigned k = 0; k != 1 + o.b % 4; ++k) {
          std::size_t i = std::size_t(mix(o.a, k)) % (n + n / 8 + 1);
          want = mix(want, i < n ? m[i] : 0xdeadull);
          std::uint64_t r;
          try {
            Sut on;
            r = tag(c.at(i));
          } catch (std::out_of_range const&) {
            r = 0xdead;
          }
          got = mix(got, r);
        }
        break;
      case OP_R_NTH: {
        std::size_t i = pick(o.a, n);
        want = i < n ? mix(i, m[i]) : mix(i, 7);
        Sut on;
        CIt it = c.nth(i);
        got = c.index_of(it) < n ? mix(c.index_of(it), tag(*it)) : mix(c.index_of(it), 7);
        break;
      }
      case OP_R_FWD: {
        std::size_t i = pick(o.a, n), k = o.b % 200;
        for (std::size_t j = i; j < n && j < i + k; ++j) want = mix(want, m[j]);
        Sut on;
        CIt it = c.nth(i), e = c.end();
        for (; it != e && k; ++it, --k) got = mix(got, tag(*it));
        break;
      }
      case OP_R_BWD: {
        std::size_t i = pick(o.a, n), k = std::min<std::size_t>(o.b % 200, i);
        for (std::size_t j = 0; j != k; ++j) want = mix(want, m[i - 1 - j]);
        Sut on;
        CIt it = c.nth(i);
        for (; k; --k) got = mix(got, tag(*--it));
        break;
      }
      case OP_R_ARITH: {
        std::size_t i = pick(o.a, n), j = pick(o.b, n);
        if (!n) return;
        std::size_t d = std::size_t(mix(o.a, o.b)) % n;
        want = mix(mix(i, j), mix(m[d], i < j));
        Sut on;
        CIt it = c.begin() + std::ptrdiff_t(i);
        CIt f = it + (std::ptrdiff_t(j) - std::ptrdiff_t(i));
        std::size_t gi = std::size_t(it - c.begin()), gj = std::size_t(c.end() - f);
        got = mix(mix(gi, n - gj), mix(tag(it[std::ptrdiff_t(d) - std::ptrdiff_t(i)]), it < f));
        break;
      }
      case OP_R_SEG: {
        for (auto v : m) want = mix(want, v);
        Sut on;
        std::size_t guard = 0;
        for (CIt it = c.begin(); it != c.end() && guard <= n; it.move_after_segment())
          for (const T* q = it.begin(); q != it.end(); ++q, ++guard) got = mix(got, tag(*q));
        break;
      }
      case OP_R_COPY: {
        for (auto v : m) want = mix(want, v);
        try {
          Sut on;
          C copy(c);
          for (auto it = copy.begin(); it != copy.end(); ++it) got = mix(got, tag(*it));
        } catch (std::bad_alloc const&) {
          if (!fault_fired()) throw;
          got = want;
        }
        break;
      }
      case OP_R_CMP: {
        C const& d = *y.c;
        unsigned k = o.b % 64;  // which of the six
        if (!k) k = 63;
        want = std::uint64_t(x.m == y.m) | std::uint64_t(x.m < y.m) << 1 | std::uint64_t(x.m != y.m) << 2 | std::uint64_t(x.m > y.m) << 3 |
               std::uint64_t(x.m <= y.m) << 4 | std::uint64_t(x.m >= y.m) << 5;
        want &= k;
        Sut on;
        if (k & 1) got |= std::uint64_t(c == d);
        if (k & 2) got |= std::uint64_t(c < d) << 1;
        if (k & 4) got |= std::uint64_t(c != d) << 2;
        if (k & 8) got |= std::uint64_t(c > d) << 3;
        if (k & 16) got |= std::uint64_t(c <= d) << 4;
        if (k & 32) got |= std::uint64_t(c >= d) << 5;
        break;
      }
      case OP_R_SIZE: {
        want = mix(n, n == 0);
        if (n) want = mix(want, mix(m.front(), m.back()));
        Sut on;
        got = mix(c.size(), c.empty());
        if (!c.empty()) got = mix(got, mix(tag(c.front()), tag(c.back())));
        if (!(c.get_allocator() == Alloc<T>()) || c.max_size() == 0) got = 0;
        if (!(c.get_stored_allocator() == Alloc<T>()) || (c.height() == 0) != c.empty()) got = 0;
        break;
      }
      case OP_R_FIND: {
        if (!n) return;
        std::uint32_t v = m[std::size_t(o.a) % n];
        want = std::size_t(std::find(m.begin(), m.end(), v) - m.begin());
        Sut on;
        CIt it = std::find_if(c.begin(), c.end(), [&](T const& t) { return tag(t) == v; });
        got = c.index_of(it);
        break;
      }
      case OP_R_ITER: {  // through iterators which all threads share
        unsigned k = o.a % Slot::kIts, l = o.b % Slot::kIts;
        CIt const &f = x.its[k], &g = x.its[l];
        std::size_t i = x.at[k], j = x.at[l], d = n ? std::size_t(o.c) % n : 0;
        want = mix(mix(i, j - i), mix(i < j, i == j));
        if (n) want = mix(want, m[d]);
        if (i < n) want = mix(want, mix(m[i], m[i]));
        Sut on;
        got = mix(mix(c.index_of(f), std::size_t(g - f)), mix(f < g, f == g));
        if (n) got = mix(got, tag(o.c & 0x10000 ? f[std::ptrdiff_t(d) - std::ptrdiff_t(i)] : *(f + (std::ptrdiff_t(d) - std::ptrdiff_t(i)))));
        if (i < n) {
          CIt h = f;
          got = mix(got, mix(tag(*f.operator->()), tag(*h)));
          if (f.current() < f.begin() || f.current() >= f.end()) got = 0;
          // segment by segment: to the first element after and the one before this segment
          std::size_t first = i - std::size_t(f.current() - f.begin()), after = first + std::size_t(f.end() - f.begin());
          CIt s = f.after_segment();
          h.move_after_segment();
          if (c.index_of(s) != after || s != h) got = 0;
          if (first) {
            CIt b = f.before_segment();
            h = f;
            h.move_before_segment();
            if (b != h || c.index_of(b) >= first) got = 0;
          }
          if (c.index_of(f.after_segment(1 + o.c % 3)) <= i) got = 0;
        }
        break;
      }
      case OP_R_LAST: {
        want = n;
        for (std::size_t j = 0; j != n && j != 1 + o.b % 9; ++j) want = mix(want, m[n - 1 - j]);
        if (n) want = mix(want, mix(m[n - 1], m[0]));
        Sut on;
        CIt e = c.cend();
        got = std::size_t(e - c.cbegin());
        for (std::size_t j = 0; j != n && j != 1 + o.b % 9; ++j) got = mix(got, tag(*--e));
        if (n) {
          CIt l = c.cpenultimate();
          std::uint32_t back = tag(*l);
          if (c.index_of(l) != n - 1 || ++l != c.end()) back = ~back;
          got = mix(got, mix(back, tag(*(c.rend() - 1))));
        }
        break;
      }
      case OP_R_PLAIN: {  // the forms which do not say const, only reading
        C& q = *x.c;
        std::size_t i = pick(o.a, n), k = o.b % 40;
        want = i;
        for (std::size_t j = i; j < n && j < i + k; ++j) want = mix(want, m[j]);
        if (n) want = mix(mix(want, mix(m[0], m[n - 1])), mix(m[o.c % n], m[(o.c >> 8) % n]));
        Sut on;
        It it = q.nth(i), e = q.end();
        got = std::size_t(it - q.begin());
        for (; it != e && k; ++it, --k) got = mix(got, tag(*it));
        if (n) got = mix(mix(got, mix(tag(q.front()), tag(*q.rbegin()))), mix(tag(q[o.c % n]), tag(q.at((o.c >> 8) % n))));
        if (n && tag(q.back()) != tag(*q.penultimate())) got = 0;
        break;
      }
      case OP_R_INTO: {  // as the source of what fills another container
        std::size_t f = pick(o.b, n), l = std::min<std::size_t>(n, f + o.c % 60);
        if (o.a % 4 < 2) f = 0, l = n;
        want = mix(want, l - f);
        for (std::size_t j = f; j != l; ++j) want = mix(want, m[j]);
        try {
          Sut on;
          C other(std::size_t(o.b >> 8) % 5);
          std::size_t skip = 0;
          if (o.a % 4 == 0) other = c;
          else if (o.a % 4 == 1) {
            C copy(c, Alloc<T>());
            other.swap(copy);
          } else if (o.a % 4 == 2) {
            other.assign(c.nth(f), c.nth(l));
          } else {
            skip = other.size() / 2;
            It at = other.insert(other.nth(skip), c.nth(f), c.nth(l));
            if (other.index_of(at) != skip) skip = other.size();
          }
          got = mix(0, o.a % 4 == 3 ? other.size() - std::size_t(o.b >> 8) % 5 : other.size());
          for (auto it = other.nth(skip); it != other.end() && skip < l - f + (o.a % 4 == 3 ? std::size_t(o.b >> 8) % 5 / 2 : 0); ++it, ++skip) got = mix(got, tag(*it));
        } catch (std::bad_alloc const&) {
          if (!fault_fired()) throw;
          got = want;
        }
        break;
      }
      case OP_R_RANGE: {
        for (auto i = m.rbegin(); i != m.rend(); ++i) want = mix(want, *i);
        Sut on;
        for (auto i = c.crbegin(); i != c.crend(); ++i) got = mix(got, tag(*i));
        break;
      }
      default: return;
    }
    if (got != want)
      violate(("result:" + std::string(kCode[o.code])).c_str(), "%s on %zu elements gave a different answer than alone", kCode[o.code], n);
  }

  // ---------------------------------------------------------------- writing
  // Returns whether the operation completed.
  bool write(Slot* own, Op const& o, std::size_t idx) {
    Slot &x = own[o.s & 1], &y = own[o.s & 1 ^ 1];
    C& c = *x.c;
    Model& m = x.m;
    std::size_t n = m.size();
    bool strong = true;
    auto at = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
    try {
      switch (o.code) {
        case OP_W_INS:
        case OP_W_EMPL: {
          std::size_t i = pick(o.a, n), r;
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            It it;
            if (o.code == OP_W_EMPL) it = c.emplace(c.nth(i), v);
            else {
              T t(v);
              it = o.b & 1 ? c.insert(c.nth(i), t) : c.insert(c.nth(i), std::move(t));
            }
            r = c.index_of(it);
            if (tag(*it) != v) r = ~std::size_t(0);
          }
          m.insert(at(i), v);
          if (r != i) violate("result:insert", "insert at %zu returned %zu", i, r);
          break;
        }
        case OP_W_INSN: {
          strong = false;
          std::size_t i = pick(o.a, n), k = o.b % 24;
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            T t(v);
            c.insert(c.nth(i), k, t);
          }
          m.insert(at(i), k, v);
          break;
        }
        case OP_W_PUSHB: {
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            c.emplace_back(v);
          }
          m.push_back(v);
          break;
        }
        case OP_W_PUSHF: {
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            c.emplace_front(v);
          }
          m.insert(m.begin(), v);
          break;
        }
        case OP_W_ERASE: {
          if (!n) return true;
          std::size_t i = std::min(pick(o.a, n), n - 1), r;
          {
            Sut on;
            It it = c.erase(c.nth(i));
            r = c.index_of(it);
          }
          m.erase(at(i));
          if (r != i) violate("result:erase", "erase at %zu returned %zu", i, r);
          break;
        }
        case OP_W_ERASER: {
          std::size_t i = pick(o.a, n), j = std::min(n, i + o.b % 30);
          {
            Sut on;
            c.erase(c.nth(i), c.nth(j));
          }
          m.erase(at(i), at(j));
          break;
        }
        case OP_W_POPB:
        case OP_W_POPF: {
          for (std::uint32_t k = 0; k <= o.b % 8 && !m.empty(); ++k) {
            {
              Sut on;
              if (o.code == OP_W_POPB) c.pop_back();
              else c.pop_front();
            }
            m.erase(o.code == OP_W_POPB ? m.end() - 1 : m.begin());
          }
          break;
        }
        case OP_W_CLEAR: {
          {
            Sut on;
            c.clear();
          }
          m.clear();
          break;
        }
        case OP_W_COPY: {
          strong = false;
          {
            Sut on;
            c = *y.c;
          }
          m = y.m;
          break;
        }
        case OP_W_MOVE: {
          {
            Sut on;
            c = std::move(*y.c);
          }
          m = y.m;
          y.m.clear();
          break;
        }
        case OP_W_SWAP: {
          {
            Sut on;
            c.swap(*y.c);
          }
          m.swap(y.m);
          break;
        }
        case OP_W_SORT: {
          {
            Sut on;
            c.sort();
          }
          std::stable_sort(m.begin(), m.end());
          break;
        }
        case OP_W_RESIZE: {
          std::size_t k = o.b % 3 == 0 ? n / 2 : n + o.b % 20;
          {
            Sut on;
            c.resize(k);
          }
          m.resize(k, 0);
          break;
        }
        case OP_W_SPLICE: {
          strong = false;
          std::size_t i = pick(o.a, n);
          {
            Sut on;
            c.splice(c.nth(i), *y.c);
          }
          m.insert(at(i), y.m.begin(), y.m.end());
          y.m.clear();
          break;
        }
        case OP_W_REMOVE: {
          std::uint32_t d = 2 + o.b % 3;
          {
            Sut on;
            c.remove_if([d](T const& t) { return tag(t) % d == 0; });
          }
          m.erase(std::remove_if(m.begin(), m.end(), [d](std::uint32_t v) { return v % d == 0; }), m.end());
          break;
        }
        case OP_W_INSR: {  // from the other container, or from single-pass input
          strong = false;
          std::size_t i = pick(o.a, n), f = pick(o.b, y.m.size()), l = std::min(y.m.size(), f + o.b % 25);
          {
            Sut on;
            if (o.c & 1) c.insert(c.nth(i), y.c->nth(f), y.c->nth(l));
            else c.insert(c.nth(i), Input<CIt>{y.c->nth(f)}, Input<CIt>{y.c->nth(l)});
          }
          m.insert(at(i), y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
          break;
        }
        case OP_W_MERGE: {
          strong = false;
          {
            Sut on;
            c.sort();
            y.c->sort();
            c.merge(*y.c);
          }
          m.insert(m.end(), y.m.begin(), y.m.end());
          std::stable_sort(m.begin(), m.end());
          y.m.clear();
          break;
        }
        case OP_W_UNIQUE: {
          {
            Sut on;
            c.unique();
          }
          m.erase(std::unique(m.begin(), m.end()), m.end());
          break;
        }
        case OP_W_REVERSE: {
          {
            Sut on;
            c.reverse();
          }
          std::reverse(m.begin(), m.end());
          break;
        }
        case OP_W_ASSIGN: {
          strong = false;
          std::uint32_t v = value(o, idx);
          std::size_t k = o.b % 40;
          {
            Sut on;
            T t(v);
            if (o.c % 3 == 0) c.assign(k, t);
            else if (o.c % 3 == 1) c.assign(y.c->begin(), y.c->end());
            else c = {t, T(v + 1), t};
          }
          if (o.c % 3 == 0) m.assign(k, v);
          else if (o.c % 3 == 1) m = y.m;
          else m = {v, v + 1, v};
          break;
        }
        case OP_W_SPLICE1: {
          strong = false;
          if (y.m.empty()) return true;
          std::size_t i = pick(o.a, n), j = std::min(pick(o.b, y.m.size()), y.m.size() - 1);
          {
            Sut on;
            c.splice(c.nth(i), *y.c, y.c->nth(j));
          }
          m.insert(at(i), y.m[j]);
          y.m.erase(y.m.begin() + std::ptrdiff_t(j));
          break;
        }
        case OP_W_SPLICER: {
          strong = false;
          std::size_t i = pick(o.a, n), f = pick(o.b, y.m.size()), l = std::min(y.m.size(), f + o.b % 25);
          {
            Sut on;
            c.splice(c.nth(i), *y.c, y.c->nth(f), y.c->nth(l));
          }
          m.insert(at(i), y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
          y.m.erase(y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
          break;
        }
        case OP_W_REMOVEV: {
          strong = false;
          std::uint32_t v = n ? m[std::size_t(o.a) % n] : 0;
          {
            Sut on;
            T t(v);
            c.remove(t);
          }
          m.erase(std::remove(m.begin(), m.end(), v), m.end());
          break;
        }
        case OP_W_CTOR: {
          std::uint32_t v = value(o, idx);
          std::size_t k = o.b % 40;
          C* q;
          {
            Sut on;
            T t(v);
            q = o.c % 3 == 0 ? new C(k, t) : o.c % 3 == 1 ? new C(y.c->begin(), y.c->end()) : new C(*y.c, Alloc<T>());
            delete x.c;
          }
          x.c = q;
          if (o.c % 3 == 0) m.assign(k, v);
          else m = y.m;
          break;
        }
        case OP_W_READ: {
          Op r = o;
          r.code = std::uint8_t(OP_R_IDX + o.b % (OP_R_RANGE - OP_R_IDX + 1));
          read(x, y, r);
          break;
        }
        case OP_H_SWAP:
        case OP_H_MOVE:
        case OP_H_RECON: {
          Box& b = boxes[o.b & 1];
          b.mu.lock();
          ++st->handovers;
          if (o.code == OP_H_SWAP) {
            {
              Sut on;
              c.swap(*b.s.c);
            }
            m.swap(b.s.m);
          } else if (o.code == OP_H_MOVE) {
            Slot &from = o.b & 2 ? x : b.s, &to = o.b & 2 ? b.s : x;
            {
              Sut on;
              *to.c = std::move(*from.c);
            }
            to.m = from.m;
            from.m.clear();
          } else {  // take by move construction, leave the empty one behind
            C* q;
            {
              Sut on;
              x.c->clear();
            }
            x.m.clear();
            {
              Sut on;
              void* mem = ::operator new(sizeof(C));
              q = ::new (mem) C(std::move(*b.s.c));
              delete x.c;
            }
            x.c = q;
            x.m = b.s.m;
            b.s.m.clear();
          }
          b.mu.unlock();
          break;
        }
        default: break;
      }
    } catch (std::bad_alloc const&) {
      tl_on = false;
      if (!fault_fired()) violate("exception", "bad_alloc without a failing allocation");
      if (strong) {
        check(x, "after a failed operation");
      } else {
        resync(x);
        resync(y);
      }
      return false;
    }
    return true;
  }

  void do_build(Slot& x, Op const& o) {
    std::size_t k = o.b;
    for (std::size_t j = 0; j != k; ++j) {
      std::uint64_t h = mix(o.a, j);
      std::size_t n = x.m.size(), i = o.a % 4 == 0 ? n : o.a % 4 == 1 ? 0 : std::size_t(h >> 8) % (n + 1);
      std::uint32_t v = value(o, j, 77);
      bool er = o.a % 5 == 2 && h % 4 == 0 && n;
      if (er && i == n) --i;
      {
        Sut on;
        if (er) x.c->erase(x.c->nth(i));
        else x.c->emplace(x.c->nth(i), v);
      }
      if (er) x.m.erase(x.m.begin() + std::ptrdiff_t(i));
      else x.m.insert(x.m.begin() + std::ptrdiff_t(i), v);
    }
  }
  void do_drain(Slot& x, Op const& o) {
    for (std::uint32_t j = 0; j != o.b && !x.m.empty(); ++j) {
      std::size_t i = std::size_t(mix(o.a, j)) % x.m.size();
      {
        Sut on;
        x.c->erase(x.c->nth(i));
      }
      x.m.erase(x.m.begin() + std::ptrdiff_t(i));
    }
  }

  // ---------------------------------------------------------------- metering
  // Work is counted in memory accesses to the heap, calls, element operations
  // and requests to the allocator. The bounds are several times what the
  // current implementation needs; their growth is what matters.
  struct Bound {
    double access, calls, elem, mem, blocks;
  };
  static unsigned height_limit(std::size_t n) {
    // a tree whose segments and nodes are at least half full
    double s = double(n) / double((segmax + 1) / 2);
    unsigned h = 1;
    double half = double((basemax + 1) / 2);
    while (s > 1.0) {
      s /= half < 2 ? 2 : half;
      ++h;
    }
    return h + 1;
  }
  static void metered(Meter const& b, Bound const& lim, const char* what, std::size_t n) {
    Meter const& e = meter();
    double a = double(e.access - b.access), k = double(e.calls - b.calls), el = double(e.elem - b.elem),
           al = double(e.alloc - b.alloc + e.dealloc - b.dealloc), bl = double(e.blocks - b.blocks);
    ++st->checks;
    hash_in(mix(mix(std::uint64_t(a), std::uint64_t(k)), mix(std::uint64_t(el), std::uint64_t(al))));
    if (getenv("MT_CAL"))
      fprintf(stderr, "CAL %s access %.3f calls %.3f elem %.3f mem %.3f blocks %.3f n %zu S %zu\n", what, a / lim.access, k / lim.calls, owning ? el / lim.elem : 0, al / lim.mem, bl / lim.blocks, n, std::size_t(segmax));
    if (getenv("MT_CAL")) return;
    if (a > lim.access) violate((std::string("work:access:") + what).c_str(), "%s with %zu elements made %.0f memory accesses, more than %.0f", what, n, a, lim.access);
    if (bl > lim.blocks) violate((std::string("work:steps:") + what).c_str(), "%s with %zu elements took %.0f steps, more than %.0f", what, n, bl, lim.blocks);
    if (k > lim.calls) violate((std::string("work:calls:") + what).c_str(), "%s with %zu elements made %.0f calls, more than %.0f", what, n, k, lim.calls);
    if (el > lim.elem && owning) violate((std::string("work:elements:") + what).c_str(), "%s with %zu elements made %.0f element operations, more than %.0f", what, n, el, lim.elem);
    if (al > lim.mem) violate((std::string("work:allocations:") + what).c_str(), "%s with %zu elements made %.0f requests for memory, more than %.0f", what, n, al, lim.mem);
  }
  // Heap accesses of one step, on average, in a tree of few segments.
  static void keep(CIt const& it) { asm volatile("" : : "r"(&it) : "memory"); }
  static double low_tree_steps(bool forward) {
    std::size_t n = segmax * basemax + 1, k = 0;
    C* q;
    {
      Sut on;
      q = new C;
      for (std::size_t i = 0; i != n; ++i) q->emplace_back(std::uint32_t(i));
    }
    Meter b = meter();
    {
      Sut on;
      CIt f = q->cbegin(), l = q->cend();
      if (forward)
        for (; f != l; ++f) keep(f), ++k;
      else
        for (; l != f; --l) keep(l), ++k;
    }
    double r = double(meter().access - b.access) / double(k);
    {
      Sut on;
      delete q;
    }
    return r;
  }
  // The same work in a tall tree and in a low one of the same make.
  static C* make_tree(Op const& o, std::size_t n) {
    C* q = new C;
    const unsigned mode = o.a % 5;
    for (std::size_t i = 0; i != n + (mode == 4 ? n : 0); ++i) {
      std::size_t at = mode == 1 ? 0 : mode == 2 ? i / 2 : mode == 3 ? std::size_t(mix(o.a, i) % (i + 1)) : i;
      q->emplace(q->nth(at), std::uint32_t(i));
    }
    if (mode == 4)
      while (q->size() != n) q->erase(q->nth(std::size_t(mix(o.a, q->size()) % q->size())));
    return q;
  }
  static constexpr unsigned kScales = 15;
  struct Cost {
    double access, blocks;
  };
  // Cost per element, step or call; where the height may enter, per level.
  static Cost unit_cost(Op const& o, unsigned kind, std::size_t n) {
    C *q, *other = nullptr;
    {
      Sut on;
      q = make_tree(o, n);
      if (kind == 4 || kind == 5) other = new C(*q);
    }
    C& c = *q;
    C const& cc = c;
    const double levels = double(cc.height());
    double units = double(n);
    volatile std::uint32_t sink = 0;
    const std::size_t calls = 300;
    Meter b = meter();
    {
      Sut on;
      switch (kind) {
        case 0:
          for (CIt i = cc.begin(), e = cc.end(); i != e; ++i) keep(i);
          break;
        case 1:
          for (CIt i = cc.end(), e = cc.begin(); i != e; --i) keep(i);
          break;
        case 2:
          for (CIt i = cc.begin(), e = cc.end(); i != e; i.move_after_segment()) keep(i);
          break;
        case 3:
          for (CIt i = cc.penultimate(); cc.index_of(i) >= std::size_t(i.end() - i.begin()); i.move_before_segment()) keep(i);
          break;
        case 4: sink = cc == *other; break;
        case 5: sink = cc < *other; break;
        case 6: c.clear(); break;
        case 7:
          delete q;
          q = nullptr;
          break;
        case 8:
          for (auto i = cc.rbegin(), e = cc.rend(); i != e; ++i) sink = tag(*i);
          break;
        case 9:
          for (CIt i = cc.begin(), e = cc.end(); i != e; i += 1) keep(i);
          break;
        case 10:
          for (std::size_t i = 0; i != calls; ++i) sink = tag(c[std::size_t(mix(o.b, i) % n)]);
          break;
        case 11: {
          CIt it = cc.begin();
          for (std::size_t i = 0; i != calls; ++i) {
            it += std::ptrdiff_t(mix(o.b, i) % n) - std::ptrdiff_t(cc.index_of(it));
            keep(it);
          }
          break;
        }
        case 12:
          for (std::size_t i = 0; i != calls; ++i) {
            c.emplace(c.nth(std::size_t(mix(o.b, i) % n)), std::uint32_t(i));
            c.erase(c.nth(std::size_t(mix(o.c, i) % n)));
          }
          break;
        case 13:
          for (std::size_t i = 0; i != calls; ++i) {
            c.emplace_back(std::uint32_t(i));
            c.pop_front();
          }
          break;
        case 14: {
          C copy(cc);
          sink = std::uint32_t(copy.size());
          break;
        }
      }
    }
    Meter e = meter();
    if (kind >= 10) units = (kind == 14 ? double(n) : double(calls)) * levels;
    {
      Sut on;
      delete q;
      delete other;
    }
    return {double(e.access - b.access) / units, double(e.blocks - b.blocks) / units};
  }
  static void scale_op(Op const& o) {
    static const char* const names[kScales] = {"NEXT", "PREV", "NEXT_SEGMENT", "PREV_SEGMENT", "EQUAL", "LESS", "CLEAR", "DESTROY",
                                               "REVERSE_WALK", "PLUS_ONE", "INDEX", "JUMP", "CHANGE", "ENDS", "COPY"};
    const unsigned kind = o.b % kScales;
    const std::size_t n = std::size_t(segmax) * basemax * (basemax < 10 ? 27 : 2), big = n * (basemax < 10 ? 30 : 8);
    Cost low = unit_cost(o, kind, n), high = unit_cost(o, kind, big);
    ++st->checks;
    // Per step the two agree closely. Per level they differ as full and half-full nodes do.
    const double more = kind < 10 ? 1.15 : basemax < 10 ? 1.5 : 2.5, slack = kind < 10 ? 0.3 : 1;
    if (getenv("MT_CAL")) {
      fprintf(stderr, "CAL SCALE_%s_%u access %.3f calls 0 elem 0 mem 0 blocks %.3f n %zu S %zu\n", names[kind], unsigned(o.a % 5), high.access / (more * low.access + slack),
              high.blocks / (more * low.blocks + 2 * slack), big, std::size_t(segmax));
      return;
    }
    if (high.access > more * low.access + slack)
      violate((std::string("work:access:SCALE_") + names[kind]).c_str(), "%.1f memory accesses each with %zu elements, %.1f with %zu%s", high.access, big, low.access, n,
              kind >= 10 ? " (per level)" : "");
    if (high.blocks > more * low.blocks + 2 * slack)
      violate((std::string("work:steps:SCALE_") + names[kind]).c_str(), "%.1f steps each with %zu elements, %.1f with %zu%s", high.blocks, big, low.blocks, n,
              kind >= 10 ? " (per level)" : "");
  }
  bool meter_op(Slot& x, Slot& y, Op const& o, std::size_t idx) {
    C& c = *x.c;
    C const& cc = c;
    Model& m = x.m;
    std::size_t n = m.size();
    const double S = segmax, B = basemax;
    const double H = height_limit((o.code == OP_M_SPLICE || o.code == OP_M_MERGE ? std::max(n, y.m.size()) : n) + 1);
    if (std::uint64_t(H) > st->max_height) st->max_height = std::uint64_t(H);
    const double own_mem = owning ? 3 * S + 10 : 0;
    const double byte_words = double(sizeof(T)) / 8 + 1;
    const Bound lookup{24 + 1.5 * H * (B + 4), 200 + 24 * H, 8, 1, 60 + H * (4 * B + 18)};
    const Bound constant{48, 80, 8, 4, 120};
    // one insertion or removal
    const Bound change{40 + 7 * H * (B + 4) + 14 * S * byte_words, 150 + 40 * H + 8 * H * B + 30 * S, 8 * S + 24, 3 * H + 6 + own_mem * 2, 250 + H * (9 * B + 60) + 18 * S};
    const Bound step{20 + 6 * H, 40 + 8 * H, 8, 1, 50 + 25 * H};
    auto linear = [&](double k) { return Bound{100 + 30 * k * byte_words, 200 + 60 * k, 8 * k + 24, 50 + 8 * k, 400 + 75 * k}; };
    auto many = [&](double k) {
      Bound b = change;
      b.access *= k + 1;
      b.calls *= k + 1;
      b.elem *= k + 1;
      b.mem *= k + 1;
      b.blocks *= k + 1;
      return b;
    };
    auto plus = [](Bound p, Bound const& q) {
      p.access += q.access, p.calls += q.calls, p.elem += q.elem, p.mem += q.mem, p.blocks += q.blocks;
      return p;
    };
    // a few walks over all elements with a few element operations each
    auto passes = [&](double k, double times) {
      Bound l = linear(k);
      l.calls += k * 400;
      l.access *= times, l.calls *= times, l.blocks *= times, l.elem *= times, l.mem = times * (l.mem + own_mem * 0 + (owning ? 8 * k : 0));
      return plus(l, Bound{lookup.access * 6, lookup.calls * 6, 0, 0, lookup.blocks * 6});
    };
    auto sorting = [&](double k) {
      double lg = 1;
      for (double j = k; j > 1; j /= 2) ++lg;
      return Bound{(k + 4) * lg * (20 * byte_words + lookup.access), (k + 4) * lg * (400 + lookup.calls), 24 * (k + 4) * lg, 50 + (owning ? 24 * (k + 4) * lg : 0), (k + 4) * lg * (100 + lookup.blocks)};
    };
    Meter b = meter();
    const char* what = kCode[o.code] + 2;
    auto at = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
    try {
      switch (o.code) {
        case OP_M_IDX:
        case OP_M_AT: {
          if (!n) return true;
          std::size_t i = std::min(pick(o.a, n), n - 1);
          std::uint32_t v;
          {
            Sut on;
            v = o.code == OP_M_AT ? tag(cc.at(i)) : o.b & 1 ? tag(cc[i]) : tag(c[i]);
          }
          metered(b, lookup, what, n);
          if (v != m[i]) violate("result:index", "wrong element");
          break;
        }
        case OP_M_NTH: {
          std::size_t i = pick(o.a, n), r;
          {
            Sut on;
            r = cc.index_of(cc.nth(i));
          }
          metered(b, lookup, what, n);
          if (r != i) violate("result:index", "wrong element");
          break;
        }
        case OP_M_INS:
        case OP_M_EMPL: {
          std::size_t i = pick(o.a, n);
          std::uint32_t v = value(o, idx);
          CIt pos;
          {
            Sut on;
            pos = c.nth(i);
          }
          b = meter();
          {
            Sut on;
            if (o.code == OP_M_EMPL) c.emplace(pos, v);
            else {
              T t(v);
              if (o.b & 1) c.insert(pos, t);
              else c.insert(pos, std::move(t));
            }
          }
          m.insert(at(i), v);
          metered(b, change, what, n);
          break;
        }
        case OP_M_PUSHB:
        case OP_M_PUSHF: {
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            if (o.code == OP_M_PUSHB) c.push_back(T(v));
            else c.push_front(T(v));
          }
          m.insert(o.code == OP_M_PUSHB ? m.end() : m.begin(), v);
          metered(b, change, what, n);
          break;
        }
        case OP_M_POPB:
        case OP_M_POPF:
        case OP_M_ERASE: {
          if (!n) return true;
          std::size_t i = o.code == OP_M_POPB ? n - 1 : o.code == OP_M_POPF ? 0 : std::min(pick(o.a, n), n - 1);
          CIt pos;
          {
            Sut on;
            pos = c.nth(i);
          }
          b = meter();
          {
            Sut on;
            if (o.code == OP_M_POPB) c.pop_back();
            else if (o.code == OP_M_POPF) c.pop_front();
            else c.erase(pos);
          }
          m.erase(at(i));
          metered(b, change, what, n);
          break;
        }
        case OP_M_SIZE: {  // each alone: these must not even look at the root
          std::size_t k = n;
          bool e = n == 0;
          static const char* const kind[] = {"SIZE size()", "SIZE empty()", "SIZE max_size()", "SIZE get_allocator()"};
          {
            Sut on;
            if (o.a % 4 == 0) k = cc.size();
            else if (o.a % 4 == 1) e = cc.empty();
            else if (o.a % 4 == 2) {
              if (cc.max_size() < n) k = n + 1;
            } else
              (void)cc.get_allocator();
          }
          metered(b, Bound{10, 60, 0, 0, 40}, kind[o.a % 4], n);
          if (k != n || e != (n == 0)) violate("result:size", "wrong size");
          break;
        }
        case OP_M_SWAP: {
          {
            Sut on;
            if (o.a & 1) c.swap(*y.c);
            else swap(c, *y.c);
          }
          metered(b, constant, what, n);
          m.swap(y.m);
          break;
        }
        case OP_M_MOVE: {
          {
            Sut on;
            y.c->clear();
          }
          y.m.clear();
          b = meter();
          {
            Sut on;
            *y.c = std::move(c);
          }
          metered(b, constant, what, n);
          y.m.swap(m);
          break;
        }
        case OP_M_MOVECTOR: {
          void* mem;
          {
            Sut on;
            mem = ::operator new(sizeof(C));
          }
          b = meter();
          C* q;
          {
            Sut on;
            q = ::new (mem) C(std::move(c));
          }
          metered(b, constant, what, n);
          {
            Sut on;
            delete x.c;
          }
          x.c = q;
          break;
        }
        case OP_M_BEGIN: {
          {
            Sut on;
            CIt f = cc.begin(), l = cc.end();
            if ((f == l) != cc.empty()) tl_on = false, violate("result:begin", "begin and end disagree with empty");
            if (n) {
              volatile std::uint32_t v = tag(cc.front()) + tag(cc.back());
              (void)v;
            }
          }
          metered(b, Bound{lookup.access * 4, lookup.calls * 4, 8, 1, lookup.blocks * 4}, what, n);
          break;
        }
        case OP_M_STEP: {  // one step forward or back, from anywhere
          std::size_t i = pick(o.a, n);
          CIt it;
          {
            Sut on;
            it = cc.nth(i);
          }
          b = meter();
          {
            Sut on;
            if (o.b & 1) {
              if (i < n) ++it;
            } else if (i > 0)
              --it;
            keep(it);
          }
          metered(b, step, what, n);
          break;
        }
        case OP_M_DIFF: {
          CIt f, g;
          {
            Sut on;
            f = cc.nth(pick(o.a, n));
            g = cc.nth(pick(o.b, n));
          }
          std::ptrdiff_t want = std::ptrdiff_t(pick(o.b, n)) - std::ptrdiff_t(pick(o.a, n)), got;
          bool lt;
          b = meter();
          {
            Sut on;
            got = g - f;
            lt = f < g;
            lt = lt && !(f == g) && f != g && f <= g && g > f && g >= f;
          }
          metered(b, constant, what, n);
          if (got != want || lt != (want > 0)) violate("result:difference", "wrong difference");
          break;
        }
        case OP_M_JUMP: {
          CIt f;
          const std::size_t from = pick(o.a, n), to = pick(o.b, n);
          std::ptrdiff_t d = std::ptrdiff_t(to) - std::ptrdiff_t(from);
          {
            Sut on;
            f = cc.nth(from);
          }
          const std::size_t before = std::size_t(f.current() - f.begin()), after = std::size_t(f.end() - f.current());
          std::size_t want = to;
          T const* seen = nullptr;
          b = meter();
          {
            Sut on;
            switch (o.c % 8) {
              default: f += d; break;
              case 1: f -= -d; break;
              case 2: f = f + d; break;
              case 3: {
                typename C::const_reverse_iterator r(f);
                r += -d;
                f = r.base();
                break;
              }
              case 4:
                if (to != n) seen = &f[d];
                f += d;
                break;
              // Out of the segment, and further.
              case 5:
                if (from + after <= to) f.move_after_segment(to - (from + after));
                else if (from - before > to) f.move_before_segment(from - before - 1 - to);
                else want = from;
                break;
              case 6:
                if (from + after <= to) f = f.after_segment(to - (from + after));
                else if (from - before > to) f = f.before_segment(from - before - 1 - to);
                else want = from;
                break;
            }
            keep(f);
          }
          metered(b, Bound{lookup.access * 3, lookup.calls * 3, 8, 1, lookup.blocks * 3}, what, n);
          if (seen && seen != &*f) violate("result:jump", "[] from %zu does not give element %zu", from, want);
          if (cc.index_of(f) != want) violate("result:jump", "arrived at %zu, not %zu", std::size_t(cc.index_of(f)), want);
          break;
        }
        case OP_M_CURSOR: {  // many steps: constant each, on the whole
          std::size_t i = pick(o.a, n);
          std::size_t k = o.b & 1 ? n - i : i;
          CIt it;
          {
            Sut on;
            it = cc.nth(i);
          }
          b = meter();
          {
            Sut on;
            if (o.b & 1)
              for (std::size_t j = 0; j != k; ++j) keep(++it);
            else
              for (std::size_t j = 0; j != k; ++j) keep(--it);
          }
          Bound l = linear(double(k));
          l.access += step.access;
          l.calls += step.calls;
          l.blocks += step.blocks;
          metered(b, l, what, n);
          // On the whole a step costs no more in a high tree than in a low one.
          double here = double(meter().access - b.access), low = low_tree_steps(o.b & 1), lim = 3 * low * double(k) + 3 * double(k) + 60;
          if (getenv("MT_CAL")) fprintf(stderr, "CAL CURSORLOW access %.3f calls 0 elem 0 mem 0 n %zu\n", here / lim, n);
          if (here > lim)
            violate("work:access:CURSOR", "%zu steps with %zu elements made %.0f memory accesses, in a low tree %.1f each", k, n, here, low);
          break;
        }
        case OP_M_TRAVERSE: {
          std::uint64_t got = 0, want = 0;
          for (auto v : m) want = mix(want, v);
          b = meter();
          {
            Sut on;
            if (o.a & 1)
              for (auto i = cc.rbegin(); i != cc.rend(); ++i) got += tag(*i);
            else
              for (auto i = cc.begin(), e = cc.end(); i != e; ++i) got += tag(*i);
          }
          Bound l = linear(double(n));
          l.calls += double(n) * 400 + lookup.calls * 4;
          l.access += lookup.access * 4;
          l.blocks += double(n) * 200 + lookup.blocks * 4;
          metered(b, l, what, n);
          break;
        }
        case OP_M_SEGWALK: {
          std::size_t got = 0;
          {
            Sut on;
            if (o.a & 1)
              for (CIt it = cc.begin(); it != cc.end(); it.move_after_segment()) got += std::size_t(it.end() - it.begin());
            else if (n) {
              CIt it = cc.end() - 1;
              while (true) {
                std::size_t k = std::size_t(it.end() - it.begin());
                got += k;
                if (got >= n) break;
                it.move_before_segment();
              }
            }
          }
          Bound l = linear(double(n));
          l.calls += lookup.calls * 4 + double(n) * 200;
          l.access += lookup.access * 4;
          l.blocks += double(n) * 80 + lookup.blocks * 4;
          metered(b, l, what, n);
          if (got != n) violate("result:segments", "segments do not add up");
          break;
        }
        case OP_M_CLEAR: {
          {
            Sut on;
            c.clear();
          }
          m.clear();
          metered(b, linear(double(n)), what, n);
          break;
        }
        case OP_M_BULK: {
          std::size_t i = pick(o.a, n), k = o.b % 40;
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            T t(v);
            c.insert(c.nth(i), k, t);
          }
          m.insert(at(i), k, v);
          metered(b, many(double(k) + 2), what, n);
          break;
        }
        case OP_M_COPY: {
          C* q;
          {
            Sut on;
            q = new C(cc);
          }
          metered(b, many(double(n) + 2), what, n);
          b = meter();
          {
            Sut on;
            delete q;
          }
          metered(b, linear(double(n)), "DESTROY", n);
          break;
        }
        case OP_M_DESTROY: {
          {
            Sut on;
            delete x.c;
            x.c = nullptr;
          }
          metered(b, linear(double(n)), what, n);
          m.clear();
          x.make();
          break;
        }
        case OP_M_CMP: {
          bool e, l;
          {
            Sut on;
            e = cc == *y.c;
            l = cc < *y.c;
          }
          metered(b, passes(double(n), 2), what, n);
          if (e != (m == y.m) || l != (m < y.m)) violate("result:comparison", "wrong comparison");
          break;
        }
        case OP_M_REVERSE: {
          {
            Sut on;
            c.reverse();
          }
          std::reverse(m.begin(), m.end());
          metered(b, passes(double(n), 3), what, n);
          break;
        }
        case OP_M_UNIQUE: {
          {
            Sut on;
            c.unique();
          }
          m.erase(std::unique(m.begin(), m.end()), m.end());
          metered(b, plus(passes(double(n), 3), many(double(n - m.size()) + 2)), what, n);
          break;
        }
        case OP_M_REMOVE: {
          std::uint32_t v = n ? m[std::size_t(o.a) % n] : 0;
          {
            Sut on;
            if (o.b & 1) {
              T t(v);
              c.remove(t);
            } else
              c.remove_if([v](T const& t) { return tag(t) == v; });
          }
          m.erase(std::remove(m.begin(), m.end(), v), m.end());
          metered(b, plus(passes(double(n), 3), many(double(n - m.size()) + 2)), what, n);
          break;
        }
        case OP_M_SORT: {
          {
            Sut on;
            c.sort();
          }
          std::stable_sort(m.begin(), m.end());
          metered(b, sorting(double(n)), what, n);
          break;
        }
        case OP_M_MERGE: {
          {
            Sut on;
            c.sort();
            y.c->sort();
          }
          b = meter();
          double k = double(y.m.size());
          {
            Sut on;
            c.merge(*y.c);
          }
          m.insert(m.end(), y.m.begin(), y.m.end());
          std::stable_sort(m.begin(), m.end());
          y.m.clear();
          metered(b, plus(many(2 * k + 2), sorting(double(n) + k)), what, n);
          break;
        }
        case OP_M_SPLICE: {
          std::size_t i = pick(o.a, n), f = pick(o.b, y.m.size()), l = std::min(y.m.size(), f + o.b % 25);
          if (o.c % 3 == 0) f = 0, l = y.m.size();
          bool one = o.c % 3 == 1 && f != l;
          if (one) l = f + 1;
          double k = double(l - f);
          {
            Sut on;
            if (o.c % 3 == 0) c.splice(c.nth(i), *y.c);
            else if (one) c.splice(c.nth(i), *y.c, y.c->nth(f));
            else c.splice(c.nth(i), *y.c, y.c->nth(f), y.c->nth(l));
          }
          m.insert(at(i), y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
          y.m.erase(y.m.begin() + std::ptrdiff_t(f), y.m.begin() + std::ptrdiff_t(l));
          metered(b, many(one ? 2 : 2 * k + 4), what, n);
          break;
        }
        case OP_M_RESIZE: {
          std::size_t k = o.b & 1 ? pick(o.a, n) : n + o.a % 60;
          {
            Sut on;
            c.resize(k);
          }
          m.resize(k, 0);
          metered(b, many(double(k > n ? k - n : n - k) + 2), what, n);
          break;
        }
        case OP_M_ASSIGN: {
          std::size_t k = o.b & 1 ? pick(o.a, n) : n + o.a % 60;
          std::uint32_t v = value(o, idx);
          {
            Sut on;
            T t(v);
            c.assign(k, t);
          }
          m.assign(k, v);
          metered(b, plus(passes(double(n), 2), many(double(k > n ? k - n : n - k) + 2)), what, n);
          break;
        }
        case OP_M_ERASER: {
          std::size_t i = pick(o.a, n), j = std::min(n, i + o.b % 60);
          {
            Sut on;
            c.erase(c.nth(i), c.nth(j));
          }
          m.erase(at(i), at(j));
          metered(b, many(double(j - i) + 2), what, n);
          break;
        }
        case OP_M_SCALE: scale_op(o); break;
        default: break;
      }
    } catch (std::bad_alloc const&) {
      tl_on = false;
      if (!fault_fired()) violate("exception", "bad_alloc without a failing allocation");
      set_fault(0, false);
      metered(b, many(o.code == OP_M_BULK ? 42 : 2), what, n);
      if (o.code == OP_M_BULK) resync(x);
      else check(x, "after a failed operation");
      ++st->probe[0];
      // failures have stopped: the next attempt succeeds within the same bounds
      Op again = o;
      again.fail = 0;
      if (!meter_op(x, y, again, idx)) violate("work:no-progress", "an operation fails again although nothing fails any more");
      return false;
    }
    return true;
  }

  // What a thread sees of its containers, beyond their elements.
  std::uint64_t shape(int t) const {
    std::uint64_t h = 7;
    for (auto& s : slots[t]) {
      C const& c = *s.c;
      h = mix(h, mix(c.size(), c.height()));
      for (CIt i = c.begin(), e = c.end(); i != e; i.move_after_segment()) h = mix(h, std::uint64_t(i.end() - i.begin()));
    }
    return h;
  }
  using Shapes = std::vector<std::uint64_t>;
  int only = 0;              // just this thread's operations
  Shapes* shapes = nullptr;  // per operation
  void run() {
    for (int t = 0; t <= p.threads; ++t)
      for (auto& s : slots[t]) s.make();
    for (auto& b : boxes) b.s.make();
    bool metering = p.prop == "C19";
    for (std::size_t i = 0; i != p.ops.size(); ++i) {
      Op const& o = p.ops[i];
      if (o.thread != 0 && !metering) continue;
      tl_op = int(i);
      if (metering && o.code >= OP_M_IDX) {
        set_fault(o.fail, o.sticky);
        bool ok = meter_op(slots[0][o.s & 1], slots[0][o.s & 1 ^ 1], o, i);
        set_fault(0, false);
        ++(ok ? st->ops_ok : st->ops_failed);
        ++(ok ? st->op_ok : st->op_fail)[o.code];
      } else {
        Slot& x = metering || p.prop == "C11" ? slots[0][o.s & 1] : slots[o.o % unsigned(p.threads + 1)][o.s & 1];
        if (o.code == OP_DRAIN) do_drain(x, o);
        else do_build(x, o);
      }
    }
    tl_op = -1;
    if (!metering && p.prop == "C11")
      for (auto& s : slots[0])
        for (unsigned k = 0; k != Slot::kIts; ++k) {
          std::size_t n = s.m.size();
          s.at[k] = k == 0 ? 0 : k == 1 ? n : std::size_t(mix(p.seed, k)) % (n + 1);
          Sut on;
          if (!s.its) s.its = new CIt[Slot::kIts];
          s.its[k] = static_cast<C const&>(*s.c).nth(s.at[k]);
        }
    if (!metering) {
      auto body = [&](int t) {
        for (std::size_t i = 0; i != p.ops.size(); ++i) {
          Op const& o = p.ops[i];
          if (o.thread != t || (only && t != only)) continue;
          tl_op = int(i);
          bool ok = true;
          set_fault(o.fail, o.sticky);
          if (p.prop == "C11") read(slots[0][o.s & 1], slots[0][o.s & 1 ^ 1], o);
          else ok = write(slots[t], o, i);
          set_fault(0, false);
          ++(ok ? st->ops_ok : st->ops_failed);
          ++(ok ? st->op_ok : st->op_fail)[o.code];
          hash_in(mix(i, ok));
          if (shapes) (*shapes)[i] = mix(shape(t), ok);
        }
        tl_op = -1;
      };
      run_threads(p.threads, body, p.sched);
    }
    for (int t = 0; t <= p.threads; ++t)
      for (auto& s : slots[t]) {
        check(s, "at the end");
        hash_in(mix(s.m.size(), std::uint64_t(t)));
        for (auto v : s.m) hash_in(v);
      }
    for (auto& b : boxes) check(b.s, "at the end, in the mailbox");
    for (int t = 0; t <= p.threads; ++t)
      for (auto& s : slots[t]) s.drop();
    for (auto& b : boxes) b.s.drop();
    run_end();
  }
  static void entry(Program const& p) {
    bool apart = p.prop == "C12";
    for (auto& o : p.ops)
      if (o.code == OP_H_SWAP || o.code == OP_H_MOVE || o.code == OP_H_RECON) apart = false;
    Shapes alone(p.ops.size()), together(p.ops.size());
    for (int t = 1; apart && t <= p.threads; ++t) {
      run_begin();
      auto w = new World(p);
      w->only = t;
      w->shapes = &alone;
      w->run();
      delete w;
    }
    run_begin();
    auto w = new World(p);  // not observed, and gone with the run
    if (apart) w->shapes = &together;
    w->run();
    delete w;
    if (apart)
      for (std::size_t i = 0; i != p.ops.size(); ++i) {
        if (alone[i] == together[i]) continue;
        tl_op = int(i);
        violate("influence", "after operation %zu thread %d finds its containers made differently than when it runs alone", i, int(p.ops[i].thread));
      }
    if (apart) ++st->probe[1];
  }
};

#define MT_CONFIG(NAME, T, ST, BT)                                                                     \
  namespace mt {                                                                                       \
  static const bool reg_##NAME = (configs().push_back(Config{{#NAME, World<T, ST, BT>::segmax, World<T, ST, BT>::basemax}, \
                                                             &World<T, ST, BT>::entry}),               \
                                  true);                                                               \
  }
}  // namespace mt
