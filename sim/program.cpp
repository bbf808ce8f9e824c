// Text form of programs and the seeded generator.
#include "program.hpp"
#include <algorithm>
#include <cinttypes>
#include <cstdlib>
#include <sstream>

namespace sim {
const char* const kOpName[NOPS] = {
#define X(n) #n,
    SIM_OPS(X)
#undef X
};
std::vector<Config>& configs() {
  static auto* v = new std::vector<Config>;
  return *v;
}

static const char* const kMode[] = {"ONCE", "RETRY", "SWEEP"};

static const char kNext[] = "=== then, in the same process\n";

std::string to_text(Program const& p) {
  std::ostringstream o;
  for (auto& b : p.before) o << to_text(b) << kNext;
  o << "segtree-sim 1\nprop " << p.prop << "\ncfg " << p.cfg << "\nseed " << p.seed << "\nreuse " << p.reuse << "\narenas "
    << p.arenas[0] << ' ' << p.arenas[1] << ' ' << p.arenas[2] << '\n';
  for (auto& q : p.ops) {
    o << "op " << kOpName[q.code] << ' ' << int(q.s) << ' ' << int(q.o) << ' ' << q.a << ' ' << q.b << ' ' << q.c << ' ' << q.d
      << ' ' << kMode[q.mode];
    for (auto& f : q.f) o << ' ' << kFaultName[f.kind] << (f.sticky ? "!" : "") << ':' << f.nth;
    o << '\n';
  }
  return o.str();
}

bool from_text(std::string const& all, Program& p) {
  std::string t = all;
  for (std::size_t i; (i = t.find(kNext)) != std::string::npos; t.erase(0, i + sizeof kNext - 1)) {
    p.before.emplace_back();
    if (!from_text(t.substr(0, i), p.before.back())) return false;
  }
  std::istringstream in(t);
  std::string line;
  if (!std::getline(in, line) || line != "segtree-sim 1") return false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "prop") l >> p.prop;
    else if (w == "cfg") l >> p.cfg;
    else if (w == "seed") l >> p.seed;
    else if (w == "reuse") l >> p.reuse;
    else if (w == "arenas") l >> p.arenas[0] >> p.arenas[1] >> p.arenas[2];
    else if (w == "op") {
      Op q;
      std::string name, mode, f;
      int s, o;
      if (!(l >> name >> s >> o >> q.a >> q.b >> q.c >> q.d >> mode)) return false;
      q.s = std::uint8_t(s);
      q.o = std::uint8_t(o);
      int k = 0;
      while (k != NOPS && name != kOpName[k]) ++k;
      if (k == NOPS) return false;
      q.code = std::uint8_t(k);
      for (int m = 0; m != 3; ++m)
        if (mode == kMode[m]) q.mode = std::uint8_t(m);
      while (l >> f) {
        Fault x{};
        auto c = f.find(':');
        if (c == std::string::npos) return false;
        std::string n = f.substr(0, c);
        x.nth = std::uint32_t(std::strtoul(f.c_str() + c + 1, nullptr, 10));
        if (!n.empty() && n.back() == '!') {
          x.sticky = true;
          n.pop_back();
        }
        int j = 0;
        while (j != NFK && n != kFaultName[j]) ++j;
        if (j == NFK) return false;
        x.kind = std::uint8_t(j);
        q.f.push_back(x);
      }
      p.ops.push_back(q);
    }
  }
  return true;
}

namespace {
using Ops = std::vector<std::pair<OpCode, int>>;
constexpr unsigned K(FaultKind k) { return 1u << k; }

// Which kinds of failure can hit an operation.
unsigned relevant(OpCode c, std::uint32_t d) {
  unsigned mv = K(F_MOVE) | K(F_MASG) | K(F_CONS);
  switch (c) {
    case OP_INS_C: case OP_EMPL_C: case OP_PB_C: case OP_PF_C: case OP_INS_ALIAS: case OP_PB_ALIAS:
      return K(F_ALLOC) | K(F_COPY) | mv;
    case OP_INS_R: case OP_PB_R: case OP_PF_R: return K(F_ALLOC) | mv;
    case OP_EMPL: case OP_EB: case OP_EF: return K(F_ALLOC) | K(F_VAL) | mv;
    case OP_EMPL_D: return K(F_ALLOC) | K(F_DFLT) | mv;
    case OP_INS_N: case OP_INS_N_ALIAS: case OP_INS_IL: case OP_RESIZE_V: case OP_RESIZE_ALIAS:
      return K(F_ALLOC) | K(F_COPY) | mv;
    case OP_INS_RANGE: case OP_ASSIGN_RANGE:
      return K(F_ALLOC) | mv | (d % 4 < 2 ? K(F_ITER) | K(F_EOF) : 0) | (d % 4 == 0 ? K(F_VAL) : 0) |
             (d % 4 == 1 || d % 4 == 2 ? K(F_COPY) | K(F_CASG) : 0) | (d % 4 == 2 ? K(F_ITER) | K(F_VAL) : 0);
    case OP_ERASE: case OP_ERASE_R: case OP_POPB: case OP_POPF: case OP_REVERSE: case OP_HOLD_REVERSE: return mv;
    case OP_RESIZE: return K(F_ALLOC) | K(F_DFLT) | mv;
    case OP_ASSIGN_N: case OP_ASSIGN_IL: case OP_OPEQ_IL: case OP_COPY_ASSIGN:
      return K(F_ALLOC) | K(F_COPY) | K(F_CASG) | mv;
    case OP_MOVE_ASSIGN: case OP_SPLICE_ALL: case OP_SPLICE_ONE: case OP_SPLICE_RANGE: return K(F_ALLOC) | mv;
    case OP_MERGE: return K(F_ALLOC) | K(F_CMP) | K(F_TMP) | mv;
    case OP_RECON:
      switch (d % 10) {
        case 1: return K(F_ALLOC) | K(F_DFLT) | mv;
        case 3: return K(F_ALLOC) | K(F_VAL) | K(F_COPY) | K(F_ITER) | mv;
        case 4: return K(F_ALLOC) | K(F_VAL) | K(F_ITER) | K(F_EOF) | mv;
        case 9: return K(F_ALLOC) | mv;
        case 0: case 8: return 0;
        default: return K(F_ALLOC) | K(F_COPY) | mv;
      }
    case OP_REMOVE: case OP_REMOVE_ALIAS: case OP_REMOVE_IF: case OP_UNIQUE: return K(F_CMP) | mv;
    case OP_SORT: case OP_HOLD_SORT: return K(F_CMP) | K(F_TMP) | mv;
    case OP_COMPARE: return K(F_CMP);
    default: return 0;
  }
}
// Needs neither memory nor copies.
bool frugal(OpCode c) {
  switch (c) {
    case OP_ERASE: case OP_ERASE_R: case OP_POPB: case OP_POPF: case OP_CLEAR: case OP_SWAP: case OP_REMOVE:
    case OP_REMOVE_ALIAS: case OP_REMOVE_IF: case OP_REVERSE: case OP_UNIQUE: case OP_SORT: case OP_COMPARE:
    case OP_HOLD_SWAP: case OP_HOLD_MOVECTOR: case OP_HOLD_MOVEASSIGN: case OP_HOLD_SORT: case OP_HOLD_REVERSE:
      return true;
    default: return false;
  }
}

const Ops kSingles = {{OP_INS_C, 5}, {OP_INS_R, 6}, {OP_EMPL, 4}, {OP_EMPL_C, 2}, {OP_INS_ALIAS, 3}, {OP_PB_C, 2},
                      {OP_PB_R, 2}, {OP_EB, 2}, {OP_PB_ALIAS, 2}, {OP_PF_C, 2}, {OP_PF_R, 2}, {OP_EF, 2}, {OP_EMPL_D, 2}};
const Ops kBulk = {{OP_INS_N, 5}, {OP_INS_N_ALIAS, 2}, {OP_INS_RANGE, 6}, {OP_INS_IL, 2}};
const Ops kErase = {{OP_ERASE, 10}, {OP_ERASE_R, 5}, {OP_POPB, 3}, {OP_POPF, 3}, {OP_DRAIN, 3}};
const Ops kAssign = {{OP_ASSIGN_N, 2}, {OP_ASSIGN_RANGE, 4}, {OP_ASSIGN_IL, 1}, {OP_OPEQ_IL, 1}, {OP_COPY_ASSIGN, 4}};
const Ops kOwn = {{OP_MOVE_ASSIGN, 3}, {OP_SWAP, 3}, {OP_RECON, 4}, {OP_CLEAR, 1}};
const Ops kTrans = {{OP_SPLICE_ALL, 3}, {OP_SPLICE_ONE, 3}, {OP_SPLICE_RANGE, 3}, {OP_MERGE, 2}};
const Ops kAlgo = {{OP_REMOVE, 2}, {OP_REMOVE_ALIAS, 2}, {OP_REMOVE_IF, 2}, {OP_REVERSE, 1}, {OP_UNIQUE, 2}, {OP_SORT, 3}};
const Ops kResize = {{OP_RESIZE, 3}, {OP_RESIZE_V, 2}, {OP_RESIZE_ALIAS, 1}};
const Ops kHold = {{OP_HOLD_SWAP, 4}, {OP_HOLD_MOVECTOR, 4}, {OP_HOLD_MOVEASSIGN, 4}, {OP_HOLD_SORT, 2}, {OP_HOLD_REVERSE, 2}};

Ops scale(std::vector<std::pair<Ops, int>> const& parts) {
  Ops r;
  for (auto& p : parts)
    for (auto& q : p.first) r.push_back({q.first, q.second * p.second});
  return r;
}

struct Profile {
  std::vector<std::pair<const char*, int>> cfgs;
  Ops subject, support;
  int subject_pct;
  unsigned kinds;           // fault kinds on subject operations
  unsigned support_kinds;   // on the others
  std::vector<int> rates;   // fault probability per run, one is drawn
  int unequal_pct;          // runs in which the containers start with unequal allocators
  int sweep_pct, retry_pct;
  bool exhaust;             // sticky exhaustion on frugal operations
  unsigned oracles;
};

constexpr unsigned kAllKinds = (1u << NFK) - 1;
constexpr unsigned kNoMove = kAllKinds & ~((1u << F_MOVE) | (1u << F_MASG));

Profile const& profile(std::string const& prop) {
  static std::vector<std::pair<std::string, Profile>>* tab = nullptr;
  if (!tab) {
    tab = new std::vector<std::pair<std::string, Profile>>;
    std::vector<std::pair<const char*, int>> nt = {{"nt4", 6}, {"nt3c", 4}, {"p8", 3}, {"big", 3}, {"pod24", 2}, {"ntd", 1}, {"u8c", 2}, {"p8s", 2}};
    std::vector<std::pair<const char*, int>> tm = {{"tm4", 5}, {"tms", 2}, {"tm7", 4}};
    std::vector<std::pair<const char*, int>> trk = {{"nt4", 6}, {"nt3c", 5}, {"big", 3}, {"ntd", 1}, {"mo", 2}};
    Ops all = scale({{kSingles, 3}, {kBulk, 3}, {kErase, 5}, {kAssign, 3}, {kOwn, 4}, {kTrans, 4}, {kAlgo, 4}, {kResize, 3}, {{{OP_COMPARE, 4}}, 1}});
    Ops grow = scale({{kSingles, 2}, {kBulk, 2}, {kErase, 3}, {kAssign, 1}, {kOwn, 1}, {kTrans, 1}, {kAlgo, 1}});
    auto put = [&](const char* id, Profile p) { tab->push_back({id, p}); };
    unsigned mem = K(F_ALLOC), cons = K(F_ALLOC) | K(F_COPY) | K(F_VAL) | K(F_DFLT) | K(F_CONS);
    put("C01", {{{"nt4", 5}, {"nt3c", 5}, {"p8", 2}, {"big", 4}, {"pod24", 1}, {"ntd", 1}, {"mo", 2}, {"tm4", 2}, {"p8s", 1}}, kSingles, grow, 70, cons, 0, {40, 70, 90}, 30, 30, 45, false, 0});
    auto wide = nt;
    for (auto& w : wide) w.second *= 20;
    wide.push_back({"wide", 1});
    wide.push_back({"fp", 40});
    put("C02", {wide, all, {{OP_BUILD, 1}}, 95, kNoMove, kNoMove, {0, 0, 15, 35}, 40, 0, 25, false, 0});
    put("C03", {{{"nt4", 6}, {"nt3c", 4}, {"p8", 2}, {"big", 3}, {"ntd", 1}, {"pod24", 1}}, scale({{kBulk, 4}, {kAssign, 4}, {{{OP_RESIZE_V, 6}, {OP_RESIZE_ALIAS, 2}}, 1}}), grow, 70, cons | K(F_CASG) | K(F_ITER) | K(F_EOF), 0, {40, 70, 90}, 40, 0, 30, false, 0});
    auto memcfg = nt;
    memcfg.push_back({"tm4", 3});
    memcfg.push_back({"tms", 1});
    memcfg.push_back({"tm7", 1});
    memcfg.push_back({"mo", 2});
    memcfg.push_back({"fp", 2});
    put("C04", {memcfg, all, {{OP_BUILD, 1}}, 95, kAllKinds, kAllKinds, {10, 30, 60}, 50, 0, 25, false, 0});
    auto lifecfg = trk;
    lifecfg.push_back({"tm4", 4});
    lifecfg.push_back({"tms", 2});
    lifecfg.push_back({"tm7", 2});
    lifecfg.push_back({"fp", 2});
    lifecfg.push_back({"u8c", 2});
    lifecfg.push_back({"pod24c", 2});
    lifecfg.push_back({"td", 3});
    for (auto n : {"ntk", "podk", "ntx", "podx"}) lifecfg.push_back({n, 1});
    put("C05", {lifecfg, all, {{OP_BUILD, 1}}, 95, kAllKinds, kAllKinds, {10, 30, 60}, 40, 0, 25, false, 0});
    put("C06", {tm, scale({{kSingles, 3}, {kBulk, 3}, {kErase, 5}, {kAssign, 2}, {kOwn, 2}, {kTrans, 3}, {kAlgo, 2}, {kResize, 2}}), {{OP_BUILD, 1}, {OP_ERASE, 1}}, 85, K(F_MOVE) | K(F_MASG) | K(F_COPY) | K(F_CASG) | K(F_CONS) | K(F_VAL), 0, {40, 70, 90}, 40, 20, 10, false, 0});
    put("C07", {{{"nt4", 5}, {"nt3c", 5}, {"big", 4}, {"mo", 2}, {"ntd", 1}, {"pod24", 1}, {"p8", 1}, {"fp", 2}}, scale({{kTrans, 5}, {{{OP_MOVE_ASSIGN, 10}, {OP_RECON, 4}}, 1}}), grow, 65, mem, 0, {30, 60, 80}, 60, 0, 0, false, 0});
    put("C08", {nt, scale({{kAlgo, 5}, {{{OP_MERGE, 14}}, 1}}), grow, 60, K(F_CMP) | K(F_TMP), 0, {30, 60, 80}, 20, 0, 0, false, 0});
    put("C09", {memcfg, {{OP_RECON, 12}, {OP_COPY_ASSIGN, 4}}, grow, 60, cons | K(F_CASG) | K(F_ITER) | K(F_EOF), 0, {30, 60, 90}, 50, 30, 15, false, 0});
    put("C10", {{{"nt4", 4}, {"nt3c", 4}, {"big", 4}, {"pod24", 3}, {"u8c", 2}, {"p8", 2}}, {{OP_COPY_ASSIGN, 6}, {OP_MOVE_ASSIGN, 6}, {OP_SWAP, 6}, {OP_RECON, 8}, {OP_HOLD_SWAP, 2}, {OP_HOLD_MOVEASSIGN, 2}}, grow, 60, mem | K(F_COPY) | K(F_CASG), 0, {0, 30, 60}, 85, 0, 10, false, O_ALLOC});
    put("C13", {wide, all, {{OP_BUILD, 3}, {OP_DRAIN, 4}, {OP_ERASE, 6}, {OP_ERASE_R, 3}}, 55, kNoMove, kNoMove, {0, 20, 50}, 20, 0, 30, false, O_BAL});
    put("C14", {nt, {{OP_NAV, 1}}, scale({{grow, 3}, {{{OP_BUILD, 10}, {OP_DRAIN, 14}}, 1}}), 50, 0, kNoMove, {0, 20, 50}, 10, 0, 30, false, O_NAV});
    put("C15", {{{"nt4", 5}, {"nt3c", 5}, {"p8", 3}, {"big", 4}, {"pod24", 2}, {"ntd", 1}, {"mo", 2}}, scale({{kHold, 3}, {kSingles, 1}, {{{OP_RECON, 4}, {OP_SWAP, 2}, {OP_MOVE_ASSIGN, 2}}, 1}}), grow, 60, cons | K(F_CMP) | K(F_TMP), 0, {30, 60}, 50, 20, 40, false, 0});
    put("C16", {memcfg, scale({{kErase, 4}, {kAlgo, 4}, {kHold, 2}, {{{OP_SWAP, 5}, {OP_MOVE_ASSIGN, 5}, {OP_CLEAR, 3}, {OP_RESIZE, 6}, {OP_RESIZE_V, 3}, {OP_RECON, 4}, {OP_COMPARE, 2}, {OP_NAV, 3}}, 1}}), grow, 65, 0, mem, {80, 100}, 30, 0, 0, true, O_NOALLOC});
    put("C17", {{{"nt4", 5}, {"nt3c", 5}, {"p8", 2}, {"big", 3}, {"u8c", 2}, {"mo", 2}, {"ntd", 1}, {"pod24", 2}, {"td", 1}}, {{OP_RESIZE, 1}}, grow, 50, mem | K(F_DFLT) | K(F_CONS), 0, {50, 80}, 20, 40, 40, false, 0});
    put("C18", {{{"nt4", 5}, {"nt3c", 4}, {"p8", 2}, {"big", 3}, {"mo", 2}, {"tm4", 2}, {"u8c", 1}}, {{OP_INS_RANGE, 8}, {OP_ASSIGN_RANGE, 8}, {OP_RECON, 4}}, grow, 65, cons | K(F_CASG) | K(F_ITER) | K(F_EOF) | K(F_MOVE) | K(F_MASG), 0, {40, 70}, 20, 0, 15, false, 0});
    put("C20", {{{"nt4", 5}, {"nt3c", 5}, {"p8", 3}, {"big", 4}, {"pod24", 1}, {"ntd", 1}, {"u8c", 1}, {"mo", 2}}, scale({{kSingles, 4}, {{{OP_RECON, 4}}, 1}}), scale({{grow, 1}, {{{OP_ERASE, 10}, {OP_ERASE_R, 5}}, 1}}), 65, cons | K(F_ITER), 0, {50, 80}, 30, 40, 60, false, O_TWIN});
    // Default and wide shapes: few runs, they are long.
    for (auto& e : *tab) {
      static const char* const withBig[] = {"C01", "C02", "C03", "C04", "C07", "C08", "C13", "C14", "C15", "C16", "C17", "C20"};
      for (auto id : withBig)
        if (e.first == id) {
          int sum = 0;
          for (auto& c : e.second.cfgs) sum += c.second;
          for (auto n : {"def8", "u8d", "mid"}) e.second.cfgs.push_back({n, (sum + 49) / 50});
          // Allocators which count in fewer bits.
          for (auto n : {"s32", "s16"}) e.second.cfgs.push_back({n, (sum + 24) / 25});
        }
    }
    put("DEMO", {nt, all, {{OP_BUILD, 1}}, 95, kNoMove, kNoMove, {0, 0, 15, 35}, 40, 0, 25, false, 0});
  }
  for (auto& e : *tab)
    if (e.first == prop) return e.second;
  return tab->back().second;
}

OpCode draw(Rng& r, Ops const& o) {
  int sum = 0;
  for (auto& x : o) sum += x.second;
  int k = int(r.below(std::uint32_t(sum)));
  for (auto& x : o) {
    if (k < x.second) return x.first;
    k -= x.second;
  }
  return o.back().first;
}
Ops subset(Rng& r, Ops const& o, unsigned keep) {
  Ops s;
  for (auto& x : o)
    if (r.chance(keep)) s.push_back(x);
  if (s.empty()) s.push_back(o[r.below(std::uint32_t(o.size()))]);
  return s;
}
}  // namespace

std::uint64_t subject_ops(std::string const& prop) {
  std::uint64_t m = 0;
  for (auto& o : profile(prop).subject) m |= std::uint64_t(1) << o.first;
  return m;
}
bool faults_expected(std::string const& prop) {
  auto& p = profile(prop);
  return p.exhaust || (p.kinds && *std::min_element(p.rates.begin(), p.rates.end()) > 0);
}

// A run checks everything; a property reports only what contradicts its own statement.
bool accepts(std::string const& prop, const char* cls, int opcode) {
  auto is = [&](std::initializer_list<const char*> l) {
    for (auto p : l)
      if (!std::strncmp(cls, p, std::strlen(p))) return true;
    return false;
  };
  bool subj = opcode >= 0 && (subject_ops(prop) >> opcode & 1);
  // Undefined behaviour and endless loops: nothing is guaranteed any more.
  if (is({"asan:", "crash:", "terminate", "hang", "runaway"})) return true;
  if (prop == "C02" || prop == "DEMO") return is({"copycount:", "conserve:", "content:", "result:", "nav:", "held:", "exception:", "noalloc:failed", "retry-failed", "source:changed", "transfer:changed"});
  if (prop == "C04") return is({"memory:", "leak:block", "allocator:block"});
  if (prop == "C05") return is({"lifetime:", "leak:elements"});
  if (prop == "C06") return is({"lifetime:", "leak:", "memory:", "content:", "exception:", "nav:", "result:"});
  if (prop == "C13") return is({"balance:", "leak:block"});
  if (prop == "C14") return is({"nav:", "result:iterator", "content:iteration", "content:segment", "content:mismatch"});
  if (prop == "C20") return is({"twin:"});
  // The rest speak about certain operations only.
  if (!subj) {
    if (prop == "C10") return is({"allocator:", "memory:wrong-allocator"});
    if (prop == "C09") return is({"source:changed"});
    if (prop == "C15") return is({"transfer:"});
    return false;
  }
  if (is({"exception:"})) return true;
  if (prop == "C01") return is({"strong:", "nav:from-result", "held:", "retry-failed", "content:", "result:", "leak:", "lifetime:", "memory:"});
  if (prop == "C03") return is({"prefix:", "assign:", "content:", "result:", "leak:", "lifetime:", "memory:", "retry-failed"});
  if (prop == "C07") return is({"conserve:", "copycount:", "prefix:", "content:", "transfer:", "leak:", "lifetime:", "memory:"});
  if (prop == "C08") return is({"reorder:", "content:", "noalloc:failed", "conserve:", "leak:", "lifetime:", "memory:"});
  if (prop == "C09") return is({"leak:", "source:changed", "conserve:", "lifetime:", "memory:", "content:"});
  if (prop == "C10") return is({"allocator:", "memory:wrong-allocator", "transfer:", "copycount:", "conserve:", "leak:block"});
  if (prop == "C15") return is({"held:", "transfer:", "conserve:", "content:", "result:", "strong:", "nav:from-result"});
  if (prop == "C16") return is({"copycount:", "conserve:", "noalloc:", "content:", "result:", "transfer:"});
  if (prop == "C17") return is({"resize:", "content:", "leak:", "lifetime:", "memory:", "noalloc:", "retry-failed"});
  if (prop == "C18") return is({"source:", "prefix:", "assign:", "content:", "leak:", "lifetime:", "memory:"});
  return false;
}

unsigned oracles_of(std::string const& prop) { return profile(prop).oracles; }

std::vector<std::string> configs_for(std::string const& prop) {
  std::vector<std::string> v;
  for (auto& c : profile(prop).cfgs) v.push_back(c.first);
  return v;
}

Program generate(std::string const& prop, std::uint64_t seed, std::vector<std::string> const& only) {
  Profile const& pf = profile(prop);
  Rng r(mix(seed, 0x5eed));
  Program p;
  p.prop = prop;
  p.seed = seed;
  // configuration: those compiled in
  std::vector<std::pair<Config*, int>> avail;
  int sum = 0;
  for (auto& c : pf.cfgs)
    for (auto& k : configs())
      if (!std::strcmp(k.info.name, c.first)) {
        if (!only.empty() && std::find(only.begin(), only.end(), c.first) == only.end()) continue;
        avail.push_back({&k, c.second});
        sum += c.second;
      }
  if (avail.empty()) return p;
  int pickc = int(r.below(std::uint32_t(sum)));
  CfgInfo ci = avail.back().first->info;
  for (auto& a : avail) {
    if (pickc < a.second) {
      ci = a.first->info;
      break;
    }
    pickc -= a.second;
  }
  p.cfg = ci.name;
  p.reuse = r.chance(50);
  if (ci.basemax > 1000) {  // fill a node to the limit of its counters, then work at its ends
    auto add = [&](OpCode c, std::uint32_t a, std::uint32_t b) {
      Op q;
      q.code = c;
      q.a = a;
      q.b = b;
      q.c = std::uint32_t(r.next());
      p.ops.push_back(q);
    };
    add(OP_INS_N, 2, 65300 + r.below(900));
    for (unsigned i = 0, n = 3 + r.below(5); i != n; ++i) {
      unsigned end = 1 + r.below(2);
      switch (r.below(5)) {
        case 0: add(OP_ERASE, end, 0); break;
        case 1: add(OP_INS_R, end, 0); break;
        case 2: add(OP_DRAIN, 0, r.below(700)); break;
        case 3: add(OP_INS_N, 2, r.below(900)); break;
        default: add(OP_PB_R, 2, 0); break;
      }
    }
    return p;
  }
  if (r.chance(unsigned(pf.unequal_pct)))
    for (int& a : p.arenas) a = int(r.below(3));
  bool def = ci.segmax > 64 || ci.basemax > 100;  // big containers are needed to see any structure
  bool def0 = !std::strcmp(ci.name, "ntd");
  unsigned sizeclass = r.below(10);
  std::uint32_t unit = ci.segmax, target;
  if (sizeclass < 2) target = 2 + r.below(unit * 2 + 3);
  else if (sizeclass < 5) target = 4 + r.below(unit * ci.basemax * 2 + 4);
  else if (sizeclass < 9) target = 10 + r.below(unit * ci.basemax * ci.basemax + 10);
  else target = 50 + r.below(unit * ci.basemax * ci.basemax * ci.basemax + 50);
  target = std::min<std::uint32_t>(target, sizeclass == 9 && r.chance(25) ? 2500 : 420);
  if (def0) target = 200 + r.below(2200);
  else if (def) {
    std::uint32_t two = unit * ci.basemax;  // what a tree of height two holds
    std::uint32_t cls = r.below(20);
    target = cls < 3 ? 1 + r.below(unit * 3) : cls < 11 ? unit + r.below(2500) : cls < 16 ? two / 2 + r.below(two) : two + r.below(two * 3);
    target = std::min<std::uint32_t>(target, cls == 19 ? 24000 : 7000);
  }
  bool giant = r.below(2000) < 3;  // beyond what 16 bits can count
  giant = giant && ci.size_bytes > 2;
  if (giant) target = 66000 + r.below(r.chance(30) ? 70000 : 4000);
  unsigned nops = giant ? 2 + r.below(5) : 4 + r.below(target > 3000 ? 8 : target > 600 ? 16 : r.chance(20) ? 90 : 36);
  unsigned keep = r.chance(30) ? 100 : 40 + r.below(50);
  Ops subj = subset(r, pf.subject, keep), supp = subset(r, pf.support, keep);
  int rate = pf.rates[r.below(std::uint32_t(pf.rates.size()))];
  unsigned applicable = kAllKinds;
  if (!ci.throwing_move) applicable &= ~(K(F_MOVE) | K(F_MASG));
  if (!ci.cons) applicable &= ~K(F_CONS);
  if (!ci.tracked) applicable &= ~(K(F_COPY) | K(F_DFLT) | K(F_VAL) | K(F_CASG));
  unsigned kindmask = 0;
  for (int k = 0; k != NFK; ++k)
    if (r.chance(75)) kindmask |= 1u << k;
  if (r.chance(40)) kindmask = kAllKinds;
  unsigned shrink_bias = r.below(3);
  unsigned nslots = r.chance(35) ? 1 : 3;
  // Start with content in some containers.
  for (unsigned i = 0; i != nslots; ++i) {
    if (i && r.chance(35)) continue;
    if (r.chance(8)) continue;
    Op q;
    q.code = OP_BUILD;
    q.s = std::uint8_t(i);
    q.a = std::uint32_t(r.next());
    q.b = r.chance(70) ? target : r.below(target + 1);
    if (i) q.b = std::min<std::uint32_t>(q.b, 1 + r.below(target + 1));
    q.c = std::uint32_t(r.next());
    q.d = r.below(2);
    if (giant && i) q.b = std::min<std::uint32_t>(q.b, 2000);
    if (giant && (i == 0 || r.chance(30))) {
      q.code = OP_INS_RANGE;
      q.b = target;
      q.d = 3;
    }
    p.ops.push_back(q);
    if (giant) {  // the values differ where the type can tell
      q.code = OP_BUILD;
      q.a = std::uint32_t(r.next());
      q.b = r.below(200);
      p.ops.push_back(q);
    }
  }
  std::uint32_t bulk = std::max<std::uint32_t>(3, std::min<std::uint32_t>(target / 2 + 2, 60));
  if (def && r.chance(50)) bulk = std::min<std::uint32_t>(target / 2 + 2, unit * 3 + r.below(600));
  for (unsigned i = 0; i != nops; ++i) {
    Op q;
    bool is_subj = r.chance(unsigned(pf.subject_pct));
    OpCode c = draw(r, is_subj ? subj : supp);
    q.code = c;
    q.s = std::uint8_t(nslots == 1 ? (r.chance(85) ? 0 : r.below(3)) : r.below(3));
    q.o = std::uint8_t(r.below(3));
    q.a = std::uint32_t(r.next());
    q.b = std::uint32_t(r.next());
    q.c = std::uint32_t(r.next());
    q.d = std::uint32_t(r.next());
    switch (c) {
      case OP_BUILD:
      case OP_DRAIN:
        q.b = r.below((c == OP_DRAIN && shrink_bias == 0 ? target * 2 : target) + 1);
        break;
      case OP_INS_N: case OP_INS_N_ALIAS: case OP_INS_RANGE: case OP_RESIZE: case OP_RESIZE_V: case OP_RESIZE_ALIAS:
        q.b = r.chance(15) ? 0 : r.below(r.chance(50) ? 5 : r.chance(75) ? bulk : bulk * 3) + (r.chance(90) ? 1 : 0);
        if (c == OP_RESIZE || c == OP_RESIZE_V) q.a = (q.a & ~1u) | (is_subj && pf.exhaust ? 1u : r.chance(30) ? 1u : 0u);
        if (c == OP_INS_RANGE && prop == "C18") q.d = (q.d & ~3u) | (q.d & 1u);
        break;
      case OP_ASSIGN_N: case OP_ASSIGN_RANGE:
        q.b = r.chance(10) ? 0 : r.below(r.chance(40) ? 6 : std::min<std::uint32_t>(target + bulk, 300));
        if (c == OP_ASSIGN_RANGE && prop == "C18") q.d = (q.d & ~3u) | (q.d & 1u);
        break;
      case OP_ERASE_R: q.b = r.below(r.chance(50) ? 4 : r.chance(70) ? bulk : target + 2); break;
      case OP_RECON:
        q.b = r.chance(10) ? 0 : r.below(r.chance(50) ? 8 : std::min<std::uint32_t>(target + 2, 200));
        if (prop == "C18") q.d = q.d / 10 * 10 + 4;
        if (prop == "C07") q.d = q.d / 10 * 10 + 9;
        if (prop == "C16" && is_subj) q.d = q.d / 10 * 10 + 8;
        break;
      default: break;
    }
    // faults
    unsigned kinds = is_subj ? pf.kinds : pf.support_kinds;
    if (pf.exhaust && is_subj && (frugal(c) || c == OP_MOVE_ASSIGN || c == OP_RESIZE || c == OP_RESIZE_V || c == OP_RECON)) {
      if (r.chance(unsigned(rate))) {
        q.f.push_back(Fault{F_ALLOC, true, 1 + (r.chance(20) ? r.below(3) : 0)});
        for (int k : {F_COPY, F_CASG, F_DFLT, F_VAL, F_TMP})
          if (r.chance(70)) q.f.push_back(Fault{std::uint8_t(k), true, 1});
        if (c == OP_MOVE_ASSIGN) {}  // unequal allocators: may fail, which the executor knows
      }
    } else {
      kinds &= relevant(c, q.d) & applicable & kindmask;
      if (kinds && r.chance(unsigned(rate))) {
        unsigned nf = r.chance(85) ? 1 : 2;
        for (unsigned j = 0; j != nf; ++j) {
          std::vector<int> ks;
          for (int k = 0; k != NFK; ++k)
            if (kinds & (1u << k)) ks.push_back(k);
          int k = ks[r.below(std::uint32_t(ks.size()))];
          std::uint32_t nth = r.chance(60) ? 1 + r.below(3) : r.chance(75) ? 1 + r.below(12) : 1 + r.below(80);
          if ((k == F_CMP || k == F_ITER || k == F_EOF) && r.chance(50)) nth = 1 + r.below(3 * target + 5);
          if (k == F_TMP) nth = 1 + r.below(3);
          q.f.push_back(Fault{std::uint8_t(k), r.chance(k == F_TMP ? 50 : 15), nth});
        }
        bool single = false;
        for (auto& s : kSingles) single |= s.first == c;
        bool strong = single || c == OP_RESIZE || (c == OP_RECON && q.d % 10 < 8);
        unsigned m = r.below(100);
        if (m < unsigned(pf.sweep_pct) && strong) q.mode = M_SWEEP;
        else if (m < unsigned(pf.sweep_pct + pf.retry_pct)) q.mode = M_RETRY;
        if (prop == "C20") {
          if (!strong || c == OP_RESIZE) q.f.clear();
          else if (q.mode == M_ONCE) q.mode = M_RETRY;
          // a source that ends early is not a failure
          q.f.erase(std::remove_if(q.f.begin(), q.f.end(), [](Fault const& f) { return f.kind == F_EOF; }), q.f.end());
        }
      }
    }
    if ((c == OP_INS_N || c == OP_RESIZE || c == OP_RESIZE_V || c == OP_ASSIGN_N) && is_subj && (pf.kinds & K(F_ALLOC)) && prop != "C20" && r.chance(3) && ci.size_bytes > 2) {
      q.b = kHuge + r.below(1000);
      q.mode = M_ONCE;
      q.f = {Fault{F_ALLOC, true, 1 + r.below(r.chance(50) ? 4 : 16)}};
    }
    if (giant && q.mode == M_SWEEP) q.mode = M_RETRY;
    p.ops.push_back(q);
    if (shrink_bias == 2 && r.chance(15)) {  // keep the size in check
      Op e;
      e.code = OP_ERASE_R;
      e.s = q.s;
      e.a = std::uint32_t(r.next());
      e.b = r.below(bulk);
      p.ops.push_back(e);
    }
  }
  return p;
}
}  // namespace sim
