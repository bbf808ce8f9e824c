// Simulated stateful allocator: identity is an arena number, every request is a fault point.
#pragma once
#include "elems.hpp"

namespace sim {
enum AllocFlags { POCCA = 1, POCMA = 2, POCS = 4, CONS = 8, SOCCC = 16, TCONS = 32, FANCY = 64, SIZE32 = 128, SIZE16 = 256,
                  CONLY = 512, DONLY = 1024 };  // only construct, only destroy

template <class T, int F> struct SimAlloc;

template <class T, int F, int How>
struct ConstructMixin {};

template <class U>
struct is_elem : std::false_type {};
template <bool TM, int Pad, bool CP>
struct is_elem<Elem<TM, Pad, CP>> : std::true_type {};

template <class T, int F>
struct ConstructPart {
  template <class U, class B>
  static bool is_new(B&& b) {
    if constexpr (!std::is_same<typename std::decay<B>::type, U>::value) return true;
    else if constexpr (is_elem<U>::value) return !mem_owns(std::addressof(b)) && tagof(b.v) == G.cur_op + 1;
    else return !mem_owns(std::addressof(b));
  }
  template <class U>
  static bool is_new() { return true; }
  template <class U, class B, class C, class... D>
  static bool is_new(B&&, C&&, D&&...) { return true; }
  template <class U, class... A>
  void construct(U* p, A&&... a) {
    // Relocating a stored element may fail only where the configuration says so; placing a new
    // element may always fail.
    if ((F & TCONS) || is_new<U>(a...)) fault_point(F_CONS);
    ++G.in_construct;
    struct Undo { ~Undo() { --G.in_construct; } } undo;
    ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    if constexpr (F & CONLY) via_put(p);
    else if constexpr (!is_elem<U>::value) via_add(p);
  }
};
template <class T, int F>
struct DestroyPart {
  template <class U>
  void destroy(U* p) {
    ++G.destroys;
    if constexpr ((F & DONLY) != 0) {
      if constexpr (is_elem<U>::value) p->alive("destroy");
    } else if constexpr (is_elem<U>::value) {
      p->alive("destroy");
      if (!p->via)
        violate("lifetime:construct-bypasses-allocator", "destroyed by the allocator, constructed without it");
    } else if (!via_del(p))
      violate("lifetime:construct-bypasses-allocator", "destroyed by the allocator, constructed without it");
    ++G.in_destroy;
    p->~U();
    --G.in_destroy;
  }
};
template <class T, int F>
struct ConstructMixin<T, F, 1> : ConstructPart<T, F>, DestroyPart<T, F> {};
template <class T, int F>
struct ConstructMixin<T, F, 2> : ConstructPart<T, F> {};
template <class T, int F>
struct ConstructMixin<T, F, 3> : DestroyPart<T, F> {};

template <class T, bool Fancy>
struct pick_pointer { using type = T*; };
template <class T>
inline T* raw(T* p) { return p; }
template <class P>
inline auto raw(P const& p) -> decltype(p.get()) { return p.get(); }

template <class T, int F>
struct SimAlloc : ConstructMixin<T, F, (F & CONS) ? 1 : (F & CONLY) ? 2 : (F & DONLY) ? 3 : 0> {
  using value_type = T;
  using pointer = typename pick_pointer<T, (F & FANCY) != 0>::type;
  using size_type = typename std::conditional<(F & SIZE16) != 0, std::uint16_t, typename std::conditional<(F & SIZE32) != 0, std::uint32_t, std::size_t>::type>::type;
  using difference_type = typename std::conditional<(F & (SIZE16 | SIZE32)) != 0, std::int32_t, std::ptrdiff_t>::type;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & POCCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & POCMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & POCS) != 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = SimAlloc<U, F>;
  };
  int arena;
  SimAlloc() noexcept : arena(0) {}
  explicit SimAlloc(int a) noexcept : arena(a) {}
  SimAlloc(SimAlloc const&) noexcept = default;
  SimAlloc& operator=(SimAlloc const&) noexcept = default;
  template <class U>
  SimAlloc(SimAlloc<U, F> const& o) noexcept : arena(o.arena) {}

  pointer allocate(std::size_t n) {
    fault_point(F_ALLOC);
    return pointer(static_cast<T*>(mem_alloc(n * sizeof(T), n, arena)));
  }
  void deallocate(pointer q, std::size_t n) noexcept {
    T* p = raw(q);
    if constexpr (is_elem<T>::value) {
      if (mem_is_live(p))
        for (std::size_t i = 0; i != n; ++i)
          if (p[i].magic == kAlive && p[i].self == p + i)
            violate("lifetime:block-freed-with-live-element", "element %zu of the block is still alive", i);
    } else if constexpr ((F & CONS) != 0) {
      if (mem_is_live(p))
        for (std::size_t i = 0; i != n; ++i)
          if (via_has(p + i))
            violate("lifetime:block-freed-with-live-element", "element %zu of the block was not destroyed through the allocator", i);
    }
    if constexpr ((F & CONLY) != 0) via_drop(p, n * sizeof(T));
    mem_free(p, n, true, arena);
  }
  SimAlloc select_on_container_copy_construction() const {
    return (F & SOCCC) ? SimAlloc(0) : *this;
  }
  template <class U>
  friend bool operator==(SimAlloc const& a, SimAlloc<U, F> const& b) { return a.arena == b.arena; }
  template <class U>
  friend bool operator!=(SimAlloc const& a, SimAlloc<U, F> const& b) { return a.arena != b.arena; }
};

template <class A>
struct AT {  // std::allocator
  static constexpr bool stateful = false, cons = false, tcons = false, conly = false, donly = false;
  static constexpr bool pocca = true, pocma = true, pocs = true, soccc = false;
  static A make(int) { return A{}; }
  static int arena(A const&) { return kGlobalArena; }
  static int home(int) { return kGlobalArena; }
};
template <class T, int F>
struct AT<SimAlloc<T, F>> {
  using A = SimAlloc<T, F>;
  static constexpr bool stateful = true, cons = F & CONS, tcons = F & TCONS, conly = F & CONLY, donly = F & DONLY;
  static constexpr bool pocca = F & POCCA, pocma = F & POCMA, pocs = F & POCS, soccc = F & SOCCC;
  static A make(int a) { return A(a); }
  static int arena(A const& a) { return a.arena; }
  static int home(int a) { return a; }
};
}  // namespace sim
