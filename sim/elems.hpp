// Simulated element types. Tracked ones know whether they are alive and where they live.
#pragma once
#include "core.hpp"

namespace sim {
constexpr std::uint32_t kAlive = 0x600dc0de, kDead = 0xdeadbeef;

// TM: moves may throw. Pad: extra bytes. CP: copyable.
template <bool TM, int Pad, bool CP = true>
struct Elem {
  const volatile void* volatile self;
  volatile std::uint32_t magic;
  volatile std::uint32_t via;  // constructed through the allocator
  volatile V v;
  char pad[Pad ? Pad : 1];

  // With Pad == 5 the type has an address-of operator of its own, which does not give the address.
  template <int P = Pad, class = typename std::enable_if<P == 5>::type>
  Elem* operator&() const {
    alignas(64) static unsigned char elsewhere[sizeof(Elem)];
    return reinterpret_cast<Elem*>(elsewhere);
  }

  void birth(V x) {
    if (magic == kAlive && self == this)
      violate("lifetime:construct-over-live", "an element is constructed where one is alive");
    self = this;
    magic = kAlive;
    via = std::uint32_t(G.in_construct ? G.construct_mark : 0);
    v = x;
    ++G.live_elems;
    ++G.st->elem_ops;
  }
  void alive(const char* what) const {
    if (magic != kAlive) violate("lifetime:use-dead", "%s of an element that is not alive", what);
    if (self != this) violate("lifetime:bitwise-relocated", "%s of an element that was moved bitwise", what);
  }
  Elem() {
    fault_point(F_DFLT);
    birth(kDefault);
  }
  Elem(V x) {
    fault_point(F_VAL);
    birth(x);
  }
  Elem(Elem const& o) {
    static_assert(CP, "");
    o.alive("copy");
    fault_point(F_COPY);
    ++G.copies;
    birth(o.v);
  }
  Elem(Elem&& o) noexcept(!TM) {
    o.alive("move");
    if (TM) fault_point(F_MOVE);
    V x = o.v;
    o.v = kMoved;
    ++G.moves;
    birth(x);
  }
  Elem& operator=(Elem const& o) {
    alive("assignment to");
    o.alive("copy assignment");
    fault_point(F_CASG);
    ++G.copies;
    ++G.st->elem_ops;
    v = o.v;
    return *this;
  }
  Elem& operator=(Elem&& o) noexcept(!TM) {
    alive("assignment to");
    o.alive("move assignment");
    if (TM) fault_point(F_MASG);
    V x = o.v;
    o.v = kMoved;
    v = x;
    ++G.moves;
    ++G.st->elem_ops;
    return *this;
  }
  ~Elem() {
    if (magic != kAlive) violate("lifetime:destroy-dead", "an element that is not alive is destroyed");
    if (self != this) violate("lifetime:bitwise-relocated", "a bitwise relocated element is destroyed");
    if (G.destroy_only && !G.in_destroy && mem_owns(this))
      violate("lifetime:destroy-bypasses-allocator", "destroyed without the allocator, which supplies destroy");
    if (via == 1 && !G.in_destroy)
      violate("lifetime:destroy-bypasses-allocator", "constructed by the allocator, destroyed without it");
    magic = kDead;
    --G.live_elems;
  }
  friend bool operator==(Elem const& a, Elem const& b) {
    a.alive("comparison");
    b.alive("comparison");
    fault_point(F_CMP);
    return keyof(a.v) == keyof(b.v);
  }
  friend bool operator<(Elem const& a, Elem const& b) {
    a.alive("comparison");
    b.alive("comparison");
    fault_point(F_CMP);
    return keyof(a.v) < keyof(b.v);
  }
};
template <bool TM, int Pad>
struct Elem<TM, Pad, false> : Elem<TM, Pad, true> {  // move only
  using B = Elem<TM, Pad, true>;
  Elem() = default;
  Elem(V x) : B(x) {}
  Elem(Elem&&) = default;
  Elem& operator=(Elem&&) = default;
  Elem(Elem const&) = delete;
  Elem& operator=(Elem const&) = delete;
};

struct Pod24 {
  V v, x, y;
  Pod24() = default;
  Pod24(V a) : v(a), x(~a), y(a * 3) {}
  friend bool operator==(Pod24 const& a, Pod24 const& b) { return keyof(a.v) == keyof(b.v); }
  friend bool operator<(Pod24 const& a, Pod24 const& b) { return keyof(a.v) < keyof(b.v); }
};

// Nothing to destroy, but it knows where it was constructed: its own moves may not be bypassed.
struct TdElem {
  const volatile void* volatile self;
  volatile V v;
  void here(const char* what) const {
    if (self != this) violate("lifetime:bitwise-relocated", "%s of an element that was moved bitwise or never constructed", what);
  }
  TdElem() : self(this), v(kDefault) { fault_point(F_DFLT); }
  TdElem(V x) : self(this), v(x) { fault_point(F_VAL); }
  TdElem(TdElem const& o) : self(this), v(o.v) {
    o.here("copy");
    fault_point(F_COPY);
    ++G.copies;
  }
  TdElem(TdElem&& o) noexcept : self(this), v(o.v) {
    o.here("move");
    ++G.moves;
  }
  TdElem& operator=(TdElem const& o) {
    here("assignment to");
    o.here("copy assignment");
    fault_point(F_CASG);
    ++G.copies;
    v = o.v;
    return *this;
  }
  TdElem& operator=(TdElem&& o) noexcept {
    here("assignment to");
    o.here("move assignment");
    v = o.v;
    ++G.moves;
    return *this;
  }
  friend bool operator==(TdElem const& a, TdElem const& b) {
    a.here("comparison");
    b.here("comparison");
    fault_point(F_CMP);
    return keyof(a.v) == keyof(b.v);
  }
  friend bool operator<(TdElem const& a, TdElem const& b) {
    a.here("comparison");
    b.here("comparison");
    fault_point(F_CMP);
    return keyof(a.v) < keyof(b.v);
  }
};

template <class T>
struct ET {  // plain integers
  static constexpr bool tracked = false, throwing_move = false, copyable = true, keyed = false;
  static T make(V v) { return T(v); }
  static V obs(T const& t) { return V(t); }
  static V canon(V v) { return sizeof(T) < 8 ? V(T(v ^ (v >> 20) * 37 ^ (v >> 40) * 11)) : v; }
  static V moved(V v) { return v; }
  static unsigned key(V v) { return sizeof(T) < 8 ? unsigned((v >> 1) & 7) : keyof(v); }  // for caller-supplied comparators
};
template <>
struct ET<Pod24> {
  static constexpr bool tracked = false, throwing_move = false, copyable = true, keyed = true;
  static Pod24 make(V v) { return Pod24(v); }
  static V obs(Pod24 const& t) {
    if (t.x == ~t.v && t.y == t.v * 3) return t.v;
    if (t.v == 0 && t.x == 0 && t.y == 0) return 0;
    return ~V(0);
  }
  static V canon(V v) { return v; }
  static V moved(V v) { return v; }
  static unsigned key(V v) { return keyof(v); }
};
template <>
struct ET<TdElem> {
  static constexpr bool tracked = false, throwing_move = false, copyable = true, keyed = true;
  static TdElem make(V v) { return TdElem(v); }
  static V obs(TdElem const& t) {
    t.here("read");
    return t.v;
  }
  static V canon(V v) { return v; }
  static V moved(V v) { return v; }
  static unsigned key(V v) { return keyof(v); }
};
template <bool TM, int Pad, bool CP>
struct ET<Elem<TM, Pad, CP>> {
  using T = Elem<TM, Pad, CP>;
  static constexpr bool tracked = true, throwing_move = TM, copyable = CP, keyed = true;
  static T make(V v) { return T(v); }
  static V obs(T const& t) {
    t.alive("read");
    return t.v;
  }
  static V canon(V v) { return v; }
  static V moved(V) { return kMoved; }
  static unsigned key(V v) { return keyof(v); }
};
}  // namespace sim
