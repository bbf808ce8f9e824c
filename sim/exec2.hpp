// Second half of the executor: construction, reordering, held iterators, navigation, comparison.
#pragma once
namespace sim {
#define SIM_T template <class T, class A, std::size_t ST, std::size_t BT>
#define SIM_X Exec<T, A, ST, BT>

SIM_T void SIM_X::after_moved_from(Slot& y, std::vector<V> const& add) {
  resync(y);
  if (y.m.size() > add.size()) violate("conserve:duplicate", "moved-from container grew");
  if (E::tracked)
    for (auto v : y.m)
      if (v != kMoved) violate("conserve:duplicate", "an element is in the source as well as in the destination");
}

SIM_T void SIM_X::fail_move_assign(Slot& x, Slot& y, std::vector<V> const& old, std::vector<V> const& add) {
  resync(x);
  resync(y);
  if (relaxed_fault() || !E::tracked) return;
  std::map<V, long> have, must, may;
  for (auto v : x.m) ++have[v];
  for (auto v : y.m) ++have[v];
  for (auto v : add) ++must[v], ++may[v];
  for (auto v : old) ++may[v];
  for (auto& k : must)
    if (k.first != kMoved && have[k.first] < k.second)
      violate("conserve:lost", "failed move assignment lost element %llx", (unsigned long long)k.first);
  for (auto& k : have)
    if (k.first != kMoved && k.second > may[k.first])
      violate("conserve:duplicate", "failed move assignment duplicated element %llx", (unsigned long long)k.first);
}

SIM_T void SIM_X::fail_reorder(Slot& x, std::vector<V> const& all) {
  if (must_not_fail()) violate("noalloc:failed", "%s failed although it needs neither memory nor copies", kOpName[op->code]);
  resync(x);
  if (relaxed_fault()) return;
  if (x.m.size() != all.size())
    violate("reorder:size", "failed %s: %zu elements before, %zu after", kOpName[op->code], all.size(), x.m.size());
  std::map<V, long> was;
  for (auto v : all) ++was[v];
  for (auto v : x.m) {
    if (E::tracked && v == kMoved) continue;
    auto it = was.find(v);
    if (it == was.end()) violate("reorder:foreign-value", "failed %s: a value that was never stored", kOpName[op->code]);
    if (E::tracked && --it->second < 0) violate("reorder:duplicate", "failed %s: an element was duplicated", kOpName[op->code]);
  }
}

// -------------------------------------------------------------------- construction
SIM_T void SIM_X::op_recon(Slot& x, Slot& y) {
  S& d = y.c();
  unsigned variant = op->d % 10;
  std::size_t cnt = op->b;
  int na = X::stateful ? int(op->a % 3) : x.arena;
  auto destroyed0 = G.destroys;
  attempt({}, [&] { x.c().~S(); });
  if ((X::cons || X::donly) && G.destroys - destroyed0 != x.m.size())
    violate("lifetime:destroy-bypasses-allocator", "destruction of %zu elements destroyed %zu through the allocator", x.m.size(), std::size_t(G.destroys - destroyed0));
  x.alive = false;
  x.m.clear();
  auto b0 = mem_live_blocks();
  auto e0 = G.live_elems;
  std::vector<V> want;
  int want_arena = na;
  bool transfer = false, moved = false, copied = false;
  std::vector<V> vals;
  SrcState st;
  if (!CP && (variant == 2 || variant == 3 || (variant >= 5 && variant <= 7))) variant = 4;
  T arg = E::make(nv(0));
  Snap src;
  snap(y, src);
  std::vector<V> old_y = y.m;
  Held h;
  switch (variant) {
    case 0: break;
    case 1: want.assign(cnt, 0); break;
    case 2: want.assign(cnt, nv(0)); break;
    case 3:
      vals = values(cnt);
      break;
    case 4:
      vals = values(cnt);
      want = vals;
      break;
    case 5: want = values(il_n(op->b)); break;
    case 6: want = y.m; copied = true; want_arena = X::soccc ? 0 : y.arena; break;
    case 7: want = y.m; copied = true; break;
    case 8: want = y.m; moved = transfer = true; want_arena = y.arena; break;
    case 9:
      want = y.m;
      moved = true;
      transfer = !X::stateful || na == y.arena;
      if (!transfer) ++G.st->probe[P_UNEQUAL_TRANSFER];
      break;
  }
  if (moved && transfer) hold(y, h, 6);
  auto base_live = G.live_elems;
  auto construct = [&](auto&& call) {
    auto good = [&] {
      x.alive = true;
      x.m = want;
      if (variant == 4) x.m.resize(st.n);
      x.arena = want_arena;
      if (copied) same(y, src, "source:changed");
      if (moved) {
        if (E::tracked && call_copies) violate("copycount:copied", "construction by moving copied elements");
        if (transfer) {
          no_alloc_check();
          if (E::tracked && call_moves) violate("transfer:moved-elements", "construction by taking over touched elements");
          same(x, src, "transfer:changed");
          if (d.size()) violate("conserve:duplicate", "moved-from container is not empty");
          y.m.clear();
          check_held(x, h, true, false, "move construction");
        } else
          after_moved_from(y, old_y);
      }
    };
    auto bad = [&] {
      if (G.live_elems != base_live) violate("leak:elements", "failed construction: %lld elements left behind", (long long)(G.live_elems - base_live));
      if (mem_live_blocks() != b0) violate("leak:blocks", "failed construction: %lld blocks left behind", (long long)mem_live_blocks() - (long long)b0);
      if (copied) same(y, src, "source:changed");
      if (moved) {
        if (transfer) violate("noalloc:failed", "construction by taking over failed");
        resync(y);
        if (y.m.size() != old_y.size()) violate("conserve:count", "failed construction changed the size of its source");
        if (!relaxed_fault() && E::tracked)
          for (std::size_t i = 0; i != y.m.size(); ++i)
            if (y.m[i] != kMoved && y.m[i] != old_y[i]) violate("conserve:lost", "failed construction damaged its source");
      }
    };
    if (moved) {
      if (attempt(faults ? op->f : std::vector<Fault>{}, call)) good(); else bad();
    } else
      drive(call, good, bad);
  };
  A al = X::make(na);
  switch (variant) {
    case 0: {
      bool dflt = op->d & 64;
      if (dflt) want_arena = X::stateful ? 0 : want_arena;
      construct([&] { if (dflt) new (&x.raw) S(); else new (&x.raw) S(al); });
      break;
    }
    case 1: construct([&] { new (&x.raw) S(typename S::size_type(cnt), al); }); break;
    case 2:
      if constexpr (CP) construct([&] { new (&x.raw) S(typename S::size_type(cnt), const_cast<T const&>(arg), al); });
      break;
    case 3:
      if constexpr (CP)
        multi_pass(vals, op->d >> 7, [&](auto first, auto last) {
          want = vals;
          base_live = G.live_elems;
          construct([&] { new (&x.raw) S(first, last, al); });
        });
      break;
    case 4:
      construct([&] {
        st = SrcState();
        st.vals = vals.data();
        st.n = vals.size();
        SrcIter<T, true> a, b;
        a.st = b.st = &st;
        b.sentinel = true;
        new (&x.raw) S(a, b, al);
      });
      break;
    case 5:
      if constexpr (CP)
        with_il(il_n(op->b), [&](std::initializer_list<T> il) {
          base_live = G.live_elems;
          construct([&] { new (&x.raw) S(il, al); });
        });
      break;
    case 6:
      if constexpr (CP) construct([&] { new (&x.raw) S(const_cast<S const&>(d)); });
      break;
    case 7:
      if constexpr (CP) construct([&] { new (&x.raw) S(const_cast<S const&>(d), al); });
      break;
    case 8: construct([&] { new (&x.raw) S(std::move(d)); }); break;
    case 9: construct([&] { new (&x.raw) S(std::move(d), al); }); break;
  }
  (void)e0;
  if (!x.alive) {
    new (&x.raw) S(al);
    x.alive = true;
    x.arena = na;
    x.m.clear();
  }
}

// -------------------------------------------------------------------- algorithms
SIM_T void SIM_X::op_algo(Slot& x) {
  S& c = x.c();
  std::size_t n = x.m.size();
  unsigned kind = op->d & 3;
  std::vector<V> want = x.m, old = x.m;
  auto plan = faults ? op->f : std::vector<Fault>{};
  bool partial = false;
  for (auto& f : plan)
    if (f.kind == F_TMP) partial = true;
  std::size_t h0 = c.height();
  switch (op->code) {
    case OP_REMOVE:
    case OP_REMOVE_ALIAS: {
      bool alias = op->code == OP_REMOVE_ALIAS;
      if (!n && alias) return;
      V w = n && (alias || (op->b & 3)) ? x.m[pick_elem(op->a, x)] : nv(0);
      std::size_t j = n ? pick_elem(op->a, x) : 0;
      want.erase(std::remove_if(want.begin(), want.end(), [&](V v) { return veq(v, w); }), want.end());
      T arg = E::make(w);
      if (alias) ++G.st->probe[P_ALIAS_ARG];
      attempt(plan, [&] { c.remove(alias ? const_cast<S const&>(c)[j] : const_cast<T const&>(arg)); });
      break;
    }
    case OP_REMOVE_IF: {
      unsigned mod = 1 + (op->a & 7), rest = op->b % mod;
      want.erase(std::remove_if(want.begin(), want.end(), [&](V v) { return E::key(v) % mod == rest; }), want.end());
      attempt(plan, [&] {
        c.remove_if([mod, rest](T const& t) {
          V v = ob(t);
          fault_point(F_CMP);
          return E::key(v) % mod == rest;
        });
      });
      break;
    }
    case OP_REVERSE:
      std::reverse(want.begin(), want.end());
      attempt(plan, [&] { c.reverse(); });
      break;
    case OP_UNIQUE:
      if (kind & 1) {
        want.erase(std::unique(want.begin(), want.end(), [](V a, V b) { return E::key(a) / 2 == E::key(b) / 2; }), want.end());
        attempt(plan, [&] {
          c.unique([](T const& a, T const& b) {
            V u = ob(a), v = ob(b);
            fault_point(F_CMP);
            return E::key(u) / 2 == E::key(v) / 2;
          });
        });
      } else {
        want.erase(std::unique(want.begin(), want.end(), veq), want.end());
        attempt(plan, [&] { c.unique(); });
      }
      break;
    case OP_SORT:
      if (kind == 1) {
        std::stable_sort(want.begin(), want.end(), [](V a, V b) { return E::key(a) < E::key(b); });
        attempt(plan, [&] {
          c.sort([](T const& a, T const& b) {
            V u = ob(a), v = ob(b);
            fault_point(F_CMP);
            return E::key(u) < E::key(v);
          });
        });
      } else if (kind == 2) {
        std::stable_sort(want.begin(), want.end(), [](V a, V b) { return E::key(a) > E::key(b); });
        attempt(plan, [&] {
          c.sort([](T const& a, T const& b) {
            V u = ob(a), v = ob(b);
            fault_point(F_CMP);
            return E::key(u) > E::key(v);
          });
        });
      } else {
        std::stable_sort(want.begin(), want.end(), vless);
        attempt(plan, [&] { c.sort(); });
      }
      break;
  }
  if (partial && G.cnt[F_TMP]) ++G.st->probe[P_TMP_PARTIAL];
  if (completed) {
    if ((orc & O_NOALLOC) && call_allocs)
      violate("noalloc:requested", "%s requested memory %llu times", kOpName[op->code], (unsigned long long)call_allocs);
    x.m = want;
    if (c.height() < h0) ++G.st->probe[P_HEIGHT_DOWN];
  } else {
    fail_reorder(x, old);
  }
}

// -------------------------------------------------------------------- held iterators
SIM_T void SIM_X::op_hold(Slot& x, Slot& y) {
  S &c = x.c(), &d = y.c();
  auto plan = faults ? op->f : std::vector<Fault>{};
  Held hx, hy;
  hold(x, hx, 12);
  auto use = [&](Slot& z, Held const& h) {  // modify through a held iterator
    if (h.it.size() < 2 || z.m.empty()) return;
    std::size_t k = op->b % (h.it.size() - 1);
    CIt it = h.it[k];
    std::size_t p = h.idx[k];
    It ret;
    if (op->c & 64) {
      if (!attempt({}, [&] { ret = z.c().erase(it); })) return;
      z.m.erase(z.m.begin() + std::ptrdiff_t(p));
    } else {
      V v = nv(1);
      T arg = E::make(v);
      if (!attempt({}, [&] { ret = z.c().insert(it, std::move(arg)); })) return;
      z.m.insert(z.m.begin() + std::ptrdiff_t(p), v);
    }
    check_result(z, ret, p, "an operation at a held iterator");
  };
  switch (op->code) {
    case OP_HOLD_SWAP: {
      if (!X::pocs && x.arena != y.arena) return;
      hold(y, hy, 12);
      if (!attempt(plan, [&] { c.swap(d); })) violate("noalloc:failed", "swap failed");
      no_alloc_check();
      std::swap(x.m, y.m);
      if (X::pocs) std::swap(x.arena, y.arena);
      check_held(y, hx, true, false, "swap");
      check_held(x, hy, true, false, "swap");
      use(y, hx);
      use(x, hy);
      break;
    }
    case OP_HOLD_MOVECTOR: {
      typename std::aligned_storage<sizeof(S), alignof(S)>::type raw;
      Slot tmp;
      if (!attempt(plan, [&] { new (&tmp.raw) S(std::move(c)); })) violate("noalloc:failed", "move construction failed");
      no_alloc_check();
      (void)raw;
      tmp.m.swap(x.m);
      tmp.arena = x.arena;
      if (c.size()) violate("conserve:duplicate", "moved-from container is not empty");
      check_held(tmp, hx, true, false, "move construction");
      use(tmp, hx);
      Held h2;
      hold(tmp, h2, 12);
      if (!attempt(plan, [&] { c = std::move(tmp.c()); })) violate("noalloc:failed", "move assignment failed");
      no_alloc_check();
      x.m.swap(tmp.m);
      check_held(x, h2, true, false, "move assignment");
      attempt({}, [&] { tmp.c().~S(); });
      break;
    }
    case OP_HOLD_MOVEASSIGN: {
      if (!X::pocma && x.arena != y.arena) return;
      if (!attempt(plan, [&] { d = std::move(c); })) violate("noalloc:failed", "move assignment failed");
      no_alloc_check();
      y.m = x.m;
      if (X::pocma) y.arena = x.arena;
      x.m.clear();
      if (c.size()) resync(x);
      check_held(y, hx, true, false, "move assignment");
      use(y, hx);
      break;
    }
    case OP_HOLD_SORT:
    case OP_HOLD_REVERSE: {
      std::vector<V> old = x.m;
      if (op->code == OP_HOLD_SORT) attempt(plan, [&] { c.sort(); });
      else attempt(plan, [&] { c.reverse(); });
      if (completed) {
        if (op->code == OP_HOLD_SORT) std::stable_sort(x.m.begin(), x.m.end(), vless);
        else std::reverse(x.m.begin(), x.m.end());
      } else
        fail_reorder(x, old);
      check_held(x, hx, false, true, "reordering");
      if (!relaxed_once) use(x, hx);
      break;
    }
  }
}

// -------------------------------------------------------------------- navigation
SIM_T void SIM_X::op_nav(Slot& x) {
  S& nc = x.c();
  S const& c = nc;
  std::size_t n = x.m.size();
  Rng r(mix(op->c, op->a));
  std::vector<std::size_t> start;  // segment starts
  std::vector<const T*> addr;
  for (CIt it = c.begin(); it != c.end(); it.move_after_segment()) {
    start.push_back(addr.size());
    for (const T* p = raw(it.begin()); p != raw(it.end()); ++p) addr.push_back(p);
    if (addr.size() > n) violate("nav:segments", "segments hold more elements than there are");
  }
  if (addr.size() != n) violate("nav:segments", "segments do not tile the sequence");
  auto seg_of = [&](std::size_t i) {  // the end position belongs to the last segment
    return std::size_t(std::upper_bound(start.begin(), start.end(), i) - start.begin()) - 1;
  };
  std::size_t i = pick(op->a, x);
  bool konst = op->b & 1;
  It it = nc.nth(i);
  CIt ct = cit(x, i, op->d);
  std::size_t steps = 6 + op->b % 20;
  auto where = [&](std::size_t k, const char* what) {
    std::size_t got = konst ? c.index_of(ct) : nc.index_of(it);
    if (got != k) violate("nav:index", "%s arrives at index %zu, expected %zu of %zu", what, got, k, n);
    if (k < n) {
      const T* p = konst ? adr(*ct) : adr(*it);
      const T* q = konst ? raw(ct.operator->()) : raw(it.operator->());
      const T* u = konst ? raw(ct.current()) : raw(it.current());
      if (p != addr[k] || q != addr[k] || u != addr[k]) violate("nav:element", "%s arrives at the wrong element, index %zu of %zu", what, k, n);
      std::size_t sg = seg_of(k);
      std::size_t e = sg + 1 < start.size() ? start[sg + 1] : n;
      const T* b = konst ? raw(ct.begin()) : raw(it.begin());
      const T* f = konst ? raw(ct.end()) : raw(it.end());
      if (b != addr[start[sg]] || f != addr[e - 1] + 1) violate("nav:segment-extent", "%s: wrong segment bounds at index %zu of %zu", what, k, n);
    } else {
      if (konst ? ct != c.end() : it != nc.end()) violate("nav:end", "%s does not arrive at end()", what);
    }
  };
  where(i, "nth");
  for (std::size_t k = 0; k != steps; ++k) {
    std::size_t t = r.below(std::uint32_t(n + 1));
    if (r.chance(40) && n) {  // prefer short distances and boundaries
      std::ptrdiff_t q = std::ptrdiff_t(i) + std::ptrdiff_t(r.below(2 * unsigned(SM) + 1)) - std::ptrdiff_t(SM);
      if (q >= 0 && std::size_t(q) <= n) t = std::size_t(q);
    } else if (r.chance(25) && !start.empty()) {
      t = start[r.below(std::uint32_t(start.size()))];
      if (t && r.chance(50)) --t;
    } else if (r.chance(10))
      t = n;
    std::ptrdiff_t d = std::ptrdiff_t(t) - std::ptrdiff_t(i);
    switch (r.below(16)) {
      case 0:
        if (i == n) break;
        if (konst) { CIt& q = ++ct; (void)q; } else ++it;
        where(++i, "++");
        break;
      case 1:
        if (i == 0) break;
        if (konst) --ct; else --it;
        where(--i, "--");
        break;
      case 2: {
        if (i == n) break;
        if (konst) { CIt old = ct++; if (c.index_of(old) != i || adr(*old) != addr[i]) violate("nav:postfix", "postfix ++ returned the wrong iterator"); }
        else { It old = it++; if (nc.index_of(old) != i || adr(*old) != addr[i]) violate("nav:postfix", "postfix ++ returned the wrong iterator"); }
        where(++i, "postfix ++");
        break;
      }
      case 3: {
        if (i == 0) break;
        if (konst) { CIt old = ct--; if (c.index_of(old) != i) violate("nav:postfix", "postfix -- returned the wrong iterator"); }
        else { It old = it--; if (nc.index_of(old) != i) violate("nav:postfix", "postfix -- returned the wrong iterator"); }
        where(--i, "postfix --");
        break;
      }
      case 4:
        if (konst) ct += d; else it += d;
        where(i = t, "+=");
        break;
      case 5:
        if (konst) ct -= -d; else it -= -d;
        where(i = t, "-=");
        break;
      case 6:
        if (konst) ct = ct + d; else it = it + d;
        where(i = t, "+");
        break;
      case 7:
        if (konst) ct = ct - -d; else it = it - -d;
        where(i = t, "-");
        break;
      case 8:
        if (konst) ct = d + ct; else it = d + it;
        where(i = t, "n +");
        break;
      case 9:
        if (t == n) break;
        if ((konst ? adr(ct[d]) : adr(it[d])) != addr[t]) violate("nav:subscript", "[%td] from index %zu of %zu is the wrong element", d, i, n);
        where(i, "[]");
        break;
      case 10: {  // to the previous segment
        if (n == 0) break;
        ++G.st->probe[P_SEG_NAV];
        std::size_t sg = seg_of(i);
        if (sg == 0) break;
        bool cp = r.chance(50);
        if (konst) { if (cp) ct = ct.before_segment(); else ct.move_before_segment(); }
        else { if (cp) it = it.before_segment(); else it.move_before_segment(); }
        where(i = start[sg] - 1, "before_segment()");
        break;
      }
      case 11: {
        if (n == 0) break;
        ++G.st->probe[P_SEG_NAV];
        std::size_t sg = seg_of(i);
        if (i == n) break;
        std::size_t to = sg + 1 < start.size() ? start[sg + 1] : n;
        bool cp = r.chance(50);
        if (konst) { if (cp) ct = ct.after_segment(); else ct.move_after_segment(); }
        else { if (cp) it = it.after_segment(); else it.move_after_segment(); }
        where(i = to, "after_segment()");
        break;
      }
      case 12: {
        if (n == 0) break;
        std::size_t sg = seg_of(i);
        if (sg == 0) break;
        ++G.st->probe[P_SEG_NAV];
        std::size_t last = start[sg] - 1, cnt = r.chance(50) ? r.below(unsigned(std::min<std::size_t>(last, 2 * SM)) + 1) : r.below(unsigned(last) + 1);
        bool cp = r.chance(50);
        if (konst) { if (cp) ct = ct.before_segment(cnt); else ct.move_before_segment(cnt); }
        else { if (cp) it = it.before_segment(cnt); else it.move_before_segment(cnt); }
        where(i = last - cnt, "before_segment(n)");
        break;
      }
      case 13: {
        if (n == 0 || i == n) break;
        ++G.st->probe[P_SEG_NAV];
        std::size_t sg = seg_of(i);
        std::size_t to = sg + 1 < start.size() ? start[sg + 1] : n;
        std::size_t cnt = r.chance(50) ? r.below(unsigned(std::min<std::size_t>(n - to, 2 * SM)) + 1) : r.below(unsigned(n - to) + 1);
        bool cp = r.chance(50);
        if (konst) { if (cp) ct = ct.after_segment(cnt); else ct.move_after_segment(cnt); }
        else { if (cp) it = it.after_segment(cnt); else it.move_after_segment(cnt); }
        where(i = to + cnt, "after_segment(n)");
        break;
      }
      case 14: {  // comparison and difference against a fresh iterator
        CIt q = c.nth(t);
        CIt p = konst ? ct : CIt(it);
        if (p - q != -d || q - p != d) violate("nav:difference", "difference of iterators %zu and %zu is wrong", i, t);
        if ((p == q) != (i == t) || (p != q) != (i != t) || (p < q) != (i < t) || (p > q) != (i > t) || (p <= q) != (i <= t) || (p >= q) != (i >= t))
          violate("nav:compare", "comparison of iterators %zu and %zu is wrong", i, t);
        if (!konst) {  // neither is const
          It u = nc.nth(t);
          if (it - u != -d || u - it != d) violate("nav:difference", "difference of iterators %zu and %zu is wrong", i, t);
          if ((it == u) != (i == t) || (it != u) != (i != t) || (it < u) != (i < t) || (it > u) != (i > t) || (it <= u) != (i <= t) || (it >= u) != (i >= t))
            violate("nav:compare", "comparison of iterators %zu and %zu is wrong", i, t);
          if (t & 1) {  // take the other one's place
            it = u;
            where(i = t, "assignment of an iterator");
          }
        }
        break;
      }
      default: {  // reverse iterators
        if (konst) {
          typename S::const_reverse_iterator q(ct);
          q += std::ptrdiff_t(i) - std::ptrdiff_t(t);
          if (t > 0 && adr(*q) != addr[t - 1]) violate("nav:reverse", "reverse iterator at %zu is wrong", t);
          ct = q.base();
        } else {
          typename S::reverse_iterator q(it);
          q += std::ptrdiff_t(i) - std::ptrdiff_t(t);
          if (t > 0 && adr(*q) != addr[t - 1]) violate("nav:reverse", "reverse iterator at %zu is wrong", t);
          it = q.base();
        }
        where(i = t, "reverse +=");
        break;
      }
    }
    ev(i);
  }
  // The iterator that wandered around is as good as a fresh one.
  if (op->d & 16) {
    V v = nv(0);
    T arg = E::make(v);
    CIt p = konst ? ct : CIt(it);
    It ret;
    attempt({}, [&] { ret = nc.insert(p, std::move(arg)); });
    x.m.insert(x.m.begin() + std::ptrdiff_t(i), v);
    check_result(x, ret, i, "insert at a navigated iterator");
  } else if ((op->d & 32) && i < n) {
    CIt p = konst ? ct : CIt(it);
    It ret;
    attempt({}, [&] { ret = nc.erase(p); });
    x.m.erase(x.m.begin() + std::ptrdiff_t(i));
    check_result(x, ret, i, "erase at a navigated iterator");
  }
}

// -------------------------------------------------------------------- comparison
SIM_T void SIM_X::op_compare(Slot& x, Slot& y) {
  S const &c = x.c(), &d = y.c();
  bool eq = x.m.size() == y.m.size() && std::equal(x.m.begin(), x.m.end(), y.m.begin(), veq);
  bool lt = std::lexicographical_compare(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), vless);
  bool gt = std::lexicographical_compare(y.m.begin(), y.m.end(), x.m.begin(), x.m.end(), vless);
  Snap a, b;
  snap(x, a);
  snap(y, b);
  unsigned k = op->d % 6;
  bool got = false, want = false;
  bool ok = attempt(faults ? op->f : std::vector<Fault>{}, [&] {
    switch (k) {
      case 0: got = c == d; break;
      case 1: got = c != d; break;
      case 2: got = c < d; break;
      case 3: got = c <= d; break;
      case 4: got = c > d; break;
      default: got = c >= d; break;
    }
  });
  want = k == 0 ? eq : k == 1 ? !eq : k == 2 ? lt : k == 3 ? !gt : k == 4 ? gt : !lt;
  if (ok && got != want) violate("result:comparison", "comparison %u gave %d", k, int(got));
  if (!ok && must_not_fail()) violate("noalloc:failed", "comparison failed");
  same(x, a, "strong:changed");
  same(y, b, "strong:changed");
}

// -------------------------------------------------------------------- setup
SIM_T void SIM_X::build(Slot& x) {
  S& c = x.c();
  Rng r(mix(op->c, op->a));
  It at;
  std::size_t at_pos = 0;
  bool chain = false;
  for (std::size_t i = 0; i != op->b; ++i) {
    std::size_t n = x.m.size(), p;
    switch (op->a % 6) {
      case 0: p = n; break;
      case 1: p = 0; break;
      case 2: p = r.below(std::uint32_t(n + 1)); break;
      case 3: p = n / 2; break;
      case 4: p = i & 1 ? n : 0; break;
      default: p = n - std::min<std::size_t>(n, r.below(unsigned(SM) + 2)); break;
    }
    V v = nv(i);
    T arg = E::make(v);
    if (p == n && (i & 1)) attempt({}, [&] { c.push_back(std::move(arg)); }), chain = false;
    else if (chain) {  // from the iterator the last insertion returned
      CIt q = at;
      if (p >= at_pos && p - at_pos < 3) for (std::size_t k = at_pos; k != p; ++k) ++q;
      else q += std::ptrdiff_t(p) - std::ptrdiff_t(at_pos);
      attempt({}, [&] { at = c.insert(q, std::move(arg)); });
    } else {
      attempt({}, [&] { at = c.insert(c.nth(p), std::move(arg)); });
      chain = op->d & 1;
    }
    at_pos = p;
    x.m.insert(x.m.begin() + std::ptrdiff_t(p), v);
    --G.st->ops_ok;
  }
  ++G.st->ops_ok;
}
SIM_T void SIM_X::drain(Slot& x) {
  S& c = x.c();
  Rng r(mix(op->c, op->a));
  It ret;
  std::size_t ret_pos = 0;
  std::size_t hole = x.m.empty() ? 0 : r.below(std::uint32_t(x.m.size()));
  for (std::size_t i = 0; i != op->b && !x.m.empty(); ++i) {
    std::size_t n = x.m.size(), p;
    switch (op->a % 6) {
      case 0: p = n - 1; break;
      case 1: p = 0; break;
      case 2: p = r.below(std::uint32_t(n)); break;
      case 3: p = n / 2; break;
      case 4: p = i & 1 ? n - 1 : 0; break;
      default: p = std::min(hole, n - 1); break;
    }
    CIt at = ret;
    if (i && (op->d & 1)) at += std::ptrdiff_t(p) - std::ptrdiff_t(ret_pos);
    else at = c.nth(p);
    if (!attempt({}, [&] { ret = c.erase(at); })) violate("noalloc:failed", "erase failed");
    ret_pos = p;
    x.m.erase(x.m.begin() + std::ptrdiff_t(p));
    if (c.index_of(ret) != p) violate("result:iterator", "erase returned index %zu, expected %zu", std::size_t(c.index_of(ret)), p);
    if (p < x.m.size() && c.size() == x.m.size() && adr(*ret) != adr(c[p])) violate("result:iterator", "iterator returned by erase refers to the wrong element");
    --G.st->ops_ok;
  }
  ++G.st->ops_ok;
}

SIM_T void SIM_X::run_op() {
  Slot& x = s();
  Slot& y = o();
  switch (op->code) {
    case OP_BUILD: build(x); break;
    case OP_DRAIN: drain(x); break;
    case OP_INS_C: case OP_INS_R: case OP_EMPL: case OP_EMPL_C: case OP_INS_ALIAS: case OP_PB_C: case OP_PB_R:
    case OP_EB: case OP_PB_ALIAS: case OP_PF_C: case OP_PF_R: case OP_EF: case OP_EMPL_D: op_single(x); break;
    case OP_INS_N: case OP_INS_N_ALIAS: case OP_INS_RANGE: case OP_INS_IL: op_bulk(x); break;
    case OP_ERASE: case OP_ERASE_R: case OP_POPB: case OP_POPF: case OP_CLEAR: op_erase(x); break;
    case OP_RESIZE: case OP_RESIZE_V: case OP_RESIZE_ALIAS: op_resize(x); break;
    case OP_ASSIGN_N: case OP_ASSIGN_RANGE: case OP_ASSIGN_IL: case OP_OPEQ_IL: op_assign(x); break;
    case OP_COPY_ASSIGN: case OP_MOVE_ASSIGN: case OP_SWAP: op_two(x, y); break;
    case OP_RECON: op_recon(x, y); break;
    case OP_SPLICE_ALL: case OP_SPLICE_ONE: case OP_SPLICE_RANGE: case OP_MERGE: op_transfer(x, y); break;
    case OP_REMOVE: case OP_REMOVE_ALIAS: case OP_REMOVE_IF: case OP_REVERSE: case OP_UNIQUE: case OP_SORT: op_algo(x); break;
    case OP_COMPARE: op_compare(x, y); break;
    case OP_NAV: op_nav(x); break;
    case OP_HOLD_SWAP: case OP_HOLD_MOVECTOR: case OP_HOLD_MOVEASSIGN: case OP_HOLD_SORT: case OP_HOLD_REVERSE: op_hold(x, y); break;
    default: break;
  }
}

template <class T, class A, std::size_t ST, std::size_t BT>
void run_config(Program const& p, bool faults, Result& r) {
  Exec<T, A, ST, BT> e(p, faults, r);
  e.run();
}
#define SIM_CONFIG(NAME, T, A, ST, BT)                                                     \
  namespace {                                                                              \
  ::sim::Register reg_##NAME(::sim::Config{::sim::Exec<T, A, ST, BT>::info(#NAME),         \
                                           &::sim::run_config<T, A, ST, BT>});             \
  }
}  // namespace sim
