// Seeded search, replay and minimisation for the multi-threaded and the metering runs.
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "prog.hpp"

namespace mt {
const char* const kCode[NCODES] = {
#define X(n) #n,
    MT_OPS(X)
#undef X
};
std::vector<Config>& configs() {
  static auto* v = new std::vector<Config>;
  return *v;
}
static const char kNext[] = "=== then, in the same process\n";

std::string to_text(Program const& p) {
  std::ostringstream o;
  for (auto& b : p.before) o << to_text(b) << kNext;
  o << "segtree-mt 1\nprop " << p.prop << "\ncfg " << p.cfg << "\nseed " << p.seed << "\nthreads " << p.threads << '\n';
  if (!p.sched.replay) o << "sched " << p.sched.seed << ' ' << p.sched.period << ' ' << p.sched.bursts << ' ' << p.sched.horizon << '\n';
  for (auto& q : p.ops) {
    o << "op " << int(q.thread) << ' ' << kCode[q.code] << ' ' << int(q.s) << ' ' << int(q.o) << ' ' << q.a << ' ' << q.b << ' ' << q.c;
    if (q.fail) o << " fail" << (q.sticky ? "!" : "") << ':' << q.fail;
    o << '\n';
  }
  if (p.sched.replay)
    for (auto& s : p.sched.list) o << "switch " << int(s.from) << ' ' << s.at << ' ' << int(s.to) << '\n';
  return o.str();
}
bool from_text(std::string const& all, Program& p) {
  std::string t = all;
  for (std::size_t i; (i = t.find(kNext)) != std::string::npos; t.erase(0, i + sizeof kNext - 1)) {
    p.before.emplace_back();
    if (!from_text(t.substr(0, i), p.before.back())) return false;
  }
  std::istringstream in(t);
  std::string line;
  if (!std::getline(in, line) || line != "segtree-mt 1") return false;
  p.sched.replay = true;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "prop") l >> p.prop;
    else if (w == "cfg") l >> p.cfg;
    else if (w == "seed") l >> p.seed;
    else if (w == "threads") l >> p.threads;
    else if (w == "sched") {
      p.sched.replay = false;
      l >> p.sched.seed >> p.sched.period >> p.sched.bursts >> p.sched.horizon;
    } else if (w == "op") {
      Op q;
      int th, s, o;
      std::string name, f;
      if (!(l >> th >> name >> s >> o >> q.a >> q.b >> q.c)) return false;
      q.thread = std::uint8_t(th);
      q.s = std::uint8_t(s);
      q.o = std::uint8_t(o);
      int k = 0;
      while (k != NCODES && name != kCode[k]) ++k;
      if (k == NCODES) return false;
      q.code = std::uint8_t(k);
      if (l >> f) {
        q.sticky = f.compare(0, 5, "fail!") == 0;
        q.fail = std::uint32_t(strtoul(f.c_str() + f.find(':') + 1, nullptr, 10));
      }
      p.ops.push_back(q);
    } else if (w == "switch") {
      int f, to;
      Switch s;
      if (!(l >> f >> s.at >> to)) return false;
      s.from = std::uint8_t(f);
      s.to = std::uint8_t(to);
      p.sched.list.push_back(s);
    }
  }
  return p.threads >= 1 && p.threads < kMaxThreads;
}

Program generate(std::string const& prop, std::uint64_t seed, std::vector<std::string> const& only) {
  Rng r(mix(seed, 0x317));
  Program p;
  p.prop = prop;
  p.seed = seed;
  std::vector<Config*> av;
  for (auto& c : configs())
    if (only.empty() || std::find(only.begin(), only.end(), c.info.name) != only.end()) av.push_back(&c);
  // the order in which they were linked must not matter
  std::sort(av.begin(), av.end(), [](Config* a, Config* b) { return strcmp(a->info.name, b->info.name) < 0; });
  CfgInfo ci = av[r.below(std::uint32_t(av.size()))]->info;
  p.cfg = ci.name;
  bool big = ci.segmax > 16;
  auto op = [&](int th, Code c) {
    Op q;
    q.thread = std::uint8_t(th);
    q.code = c;
    q.s = std::uint8_t(r.below(2));
    q.o = std::uint8_t(r.below(8));
    q.a = std::uint32_t(r.next());
    q.b = std::uint32_t(r.next());
    q.c = std::uint32_t(r.next());
    return q;
  };
  std::uint32_t unit = ci.segmax * (big ? 4 : ci.basemax);
  std::uint32_t sizes[] = {0, 1, ci.segmax, unit, unit * 3, unit * (big ? 8 : ci.basemax) + 3, unit * (big ? 16 : 9)};
  auto pick_size = [&] {
    std::uint32_t m = sizes[r.below(7)];
    return m / 2 + r.below(m + 2);
  };
  if (prop == "C19") {
    p.threads = 1;
    p.sched.replay = true;
    unsigned n = 10 + r.below(50);
    std::uint32_t most = r.chance(3) ? 12000 : big || r.chance(15) ? 3000 : 700;
    Op b = op(0, OP_BUILD);
    b.s = 0;
    b.b = r.chance(40) ? r.below(most) : pick_size();
    p.ops.push_back(b);
    if (r.chance(60)) {
      Op d = op(0, OP_DRAIN);
      d.s = 0;
      d.b = r.below(b.b + 2);
      p.ops.push_back(d);
    }
    static const Code ms[] = {OP_M_IDX, OP_M_IDX, OP_M_AT, OP_M_NTH, OP_M_INS, OP_M_INS, OP_M_INS, OP_M_EMPL, OP_M_EMPL, OP_M_ERASE, OP_M_ERASE, OP_M_ERASE, OP_M_PUSHB,
                              OP_M_PUSHF, OP_M_POPB, OP_M_POPF, OP_M_SIZE, OP_M_SWAP, OP_M_MOVE, OP_M_MOVECTOR, OP_M_BEGIN, OP_M_STEP, OP_M_STEP, OP_M_DIFF,
                              OP_M_JUMP, OP_M_JUMP, OP_M_CLEAR, OP_M_TRAVERSE, OP_M_BULK, OP_M_ERASER, OP_M_SEGWALK, OP_M_CURSOR, OP_M_COPY, OP_M_SORT, OP_M_REVERSE,
                              OP_M_REMOVE, OP_M_UNIQUE, OP_M_RESIZE, OP_M_ASSIGN, OP_M_MERGE, OP_M_SPLICE, OP_M_CMP, OP_M_DESTROY};
    for (unsigned i = 0; i != n; ++i) {
      Code c = ms[r.below(sizeof ms / sizeof *ms)];
      if ((c == OP_M_CLEAR || c == OP_M_DESTROY) && !r.chance(15)) c = OP_M_JUMP;
      if (c == OP_M_UNIQUE && r.chance(60)) c = OP_M_CURSOR;
      Op q = op(0, c);
      q.s = std::uint8_t(r.chance(c == OP_M_SPLICE || c == OP_M_MERGE ? 40 : 12));
      bool may_fail = c == OP_M_INS || c == OP_M_EMPL || c == OP_M_PUSHB || c == OP_M_PUSHF || c == OP_M_BULK;
      if (may_fail && r.chance(30)) {
        q.fail = 1 + r.below(r.chance(70) ? 3 : 8);
        q.sticky = r.chance(40);
      }
      p.ops.push_back(q);
      if (r.chance(1) && r.chance(20)) p.ops.push_back(op(0, OP_M_SCALE));
      if (r.chance(6)) {
        Op d = op(0, r.chance(50) ? OP_DRAIN : OP_BUILD);
        d.s = 0;
        d.b = r.below(200);
        p.ops.push_back(d);
      }
    }
    return p;
  }
  p.threads = 2 + int(r.below(3));
  p.sched.seed = r.next();
  static const unsigned periods[] = {2, 3, 7, 20, 60, 200, 800};
  p.sched.period = periods[r.below(7)];
  if (r.chance(35)) {
    p.sched.bursts = 1 + r.below(6);
    p.sched.horizon = r.chance(50) ? 300 : 3000;
  }
  static const Code rd[] = {OP_R_IDX, OP_R_AT, OP_R_NTH, OP_R_FWD, OP_R_BWD, OP_R_ARITH, OP_R_SEG, OP_R_COPY, OP_R_CMP, OP_R_SIZE, OP_R_FIND, OP_R_RANGE,
                            OP_R_ITER, OP_R_LAST, OP_R_PLAIN, OP_R_INTO};
  const unsigned nrd = sizeof rd / sizeof *rd;
  static const Code wr[] = {OP_W_INS, OP_W_INS, OP_W_INS, OP_W_EMPL, OP_W_EMPL, OP_W_INSN, OP_W_INSN, OP_W_PUSHB, OP_W_PUSHF, OP_W_ERASE, OP_W_ERASE, OP_W_ERASER,
                            OP_W_POPB, OP_W_POPF, OP_W_CLEAR, OP_W_COPY, OP_W_MOVE, OP_W_SWAP, OP_W_SORT, OP_W_RESIZE, OP_W_SPLICE, OP_W_REMOVE, OP_W_INSR,
                            OP_W_MERGE, OP_W_UNIQUE, OP_W_REVERSE, OP_W_ASSIGN, OP_W_SPLICE1, OP_W_SPLICER, OP_W_REMOVEV, OP_W_CTOR, OP_W_READ,
                            OP_W_READ, OP_H_SWAP, OP_H_SWAP, OP_H_MOVE, OP_H_MOVE, OP_H_RECON};
  std::uint32_t cap = big ? 900 : 260;
  if (prop == "C11") {
    for (int s = 0; s != 2; ++s) {
      Op b = op(0, OP_BUILD);
      b.s = std::uint8_t(s);
      b.b = std::min(pick_size(), cap);
      if (s == 1 && r.chance(50)) {  // the same elements, or all but the last few, so that comparisons go far
        b.a = p.ops[0].a;
        b.b = p.ops[0].b - std::min(p.ops[0].b, r.chance(60) ? 0 : r.below(3));
        b.c = p.ops[0].c;
      }
      p.ops.push_back(b);
      if (s == 0 && r.chance(40)) {
        Op d = op(0, OP_DRAIN);
        d.s = std::uint8_t(s);
        d.b = r.below(b.b + 1);
        p.ops.push_back(d);
      }
    }
    unsigned sub = r.chance(30) ? 1 + r.below((1u << nrd) - 1) : (1u << nrd) - 1;
    for (int t = 1; t <= p.threads; ++t) {
      unsigned n = 2 + r.below(8);
      for (unsigned i = 0; i != n; ++i) {
        unsigned k = r.below(nrd);
        for (unsigned j = 0; j != nrd && !(sub >> k & 1); ++j) k = (k + 1) % nrd;
        Op q = op(t, rd[k]);
        if (q.s == 1 && r.chance(60)) q.s = 0;
        if ((q.code == OP_R_COPY || q.code == OP_R_INTO) && r.chance(40)) {
          q.fail = 1 + r.below(30);
          q.sticky = r.chance(50);
        }
        p.ops.push_back(q);
      }
    }
  } else {
    for (int i = 0; i != 5; ++i) {
      Op b = op(0, OP_BUILD);
      b.b = std::min(pick_size(), cap / 2);
      b.o = std::uint8_t(1 + r.below(std::uint32_t(p.threads)));
      p.ops.push_back(b);
    }
    unsigned rate = r.below(60);
    bool apart = r.chance(30);  // nothing handed over: each thread is compared with itself alone
    for (int t = 1; t <= p.threads; ++t) {
      unsigned n = 3 + r.below(14);
      for (unsigned i = 0; i != n; ++i) {
        Op q = op(t, wr[r.below(sizeof wr / sizeof *wr - (apart ? 5 : 0))]);
        bool no = q.code == OP_W_READ || q.code == OP_H_SWAP || q.code == OP_H_MOVE || q.code == OP_H_RECON;
        if (!no && r.chance(rate)) {
          q.fail = 1 + r.below(r.chance(70) ? 3 : 20);
          q.sticky = r.chance(25);
        }
        p.ops.push_back(q);
      }
    }
  }
  return p;
}

namespace {
constexpr std::size_t kSlots = 1u << 21;
std::uint64_t* g_hashes;
bool insert(std::uint64_t* t, std::uint64_t h) {
  if (!h) h = 1;
  for (std::size_t i = h & (kSlots - 1), k = 0; k != 64; i = (i + 1) & (kSlots - 1), ++k) {
    std::uint64_t z = 0;
    if (__atomic_load_n(&t[i], __ATOMIC_RELAXED) == h) return false;
    if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
    if (z == h) return false;
  }
  return false;
}
void* shared(std::size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return p;
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
void on_terminate() { violate("terminate", "std::terminate was called"); }
void on_vtalrm(int) { violate("hang", "no progress"); }
void on_signal(int s) {
  char c[32];
  snprintf(c, sizeof c, "crash:signal-%d", s);
  violate(c, "killed by signal %d", s);
}
void arm_timer(long secs) {
  itimerval t{};
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
void install() {
  std::set_terminate(on_terminate);
  signal(SIGVTALRM, on_vtalrm);
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_signal);
}
std::uint64_t execute(Program const& p) {
  for (auto& c : configs())
    if (p.cfg == c.info.name) {
      c.run(p);
      return run_hash();
    }
  _exit(98);
}
struct Outcome {
  bool violated = false;
  std::string cls, msg;
  int op = -1, thread = 0;
  std::uint64_t hash = 0;
  std::vector<Switch> sw;
};
Outcome read_outcome(Shared* s, int st) {
  Outcome o;
  o.violated = s->violated;
  o.hash = s->hash;
  o.op = s->op_index;
  o.thread = s->thread;
  o.sw.assign(s->sw, s->sw + s->nsw);
  if (o.violated) {
    o.cls = s->cls;
    o.msg = s->msg;
  } else if (!s->done) {
    o.violated = true;
    o.cls = WIFSIGNALED(st) ? "crash:signal-" + std::to_string(WTERMSIG(st)) : "harness:exit-" + std::to_string(WEXITSTATUS(st));
    o.msg = "process ended";
  }
  return o;
}
Outcome run_child(Program const& p, bool quiet) {
  static Shared* s = static_cast<Shared*>(shared(sizeof(Shared)));
  memset(static_cast<void*>(s), 0, sizeof *s);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    sh = s;
    st = &s->st;
    install();
    arm_timer(20);
    for (auto& b : p.before) execute(b), arm_timer(20);
    s->hash = execute(p);
    s->done = 1;
    _exit(0);
  }
  int w = 0;
  waitpid(pid, &w, 0);
  return read_outcome(s, w);
}
bool accepts(std::string const& prop, std::string const& cls) {
  if (cls.compare(0, 8, "harness:") == 0) return false;
  if (prop == "C19") return cls.compare(0, 5, "work:") == 0 || cls == "hang" || cls == "runaway";
  return true;
}
std::string json(std::string const& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += c;
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
std::string slurp(const char* f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
std::uint64_t seed_of(std::uint64_t seed, std::string const& prop, std::uint64_t i) {
  std::uint64_t h = 1469598103934665603ull;
  for (char c : prop) h = (h ^ std::uint64_t((unsigned char)c)) * 0x100000001b3ull;
  return mix(mix(seed, h), i);
}
struct Args {
  std::string prop, out;
  std::uint64_t seed = 1, runs = 1000, first = 0;
  double secs = 600;
  int workers = 8, det = 16, isolate = 0;
  std::vector<std::string> cfgs;
};
void one(Args const& a, Shared* s, std::uint64_t i) {
  s->run_index = i;
  s->violated = 0;
  Program p = generate(a.prop, seed_of(a.seed, a.prop, i), a.cfgs);
  arm_timer(30);
  std::uint64_t sw0 = s->st.preempt_in_op, f0 = s->st.alloc_faults, c0 = s->st.checks;
  std::uint64_t h = execute(p);
  bool interesting = a.prop == "C19" ? s->st.checks > c0 + 8 : s->st.preempt_in_op > sw0 + 1;
  (void)f0;
  if (a.det && i % std::uint64_t(a.det) == 0) {
    std::uint64_t h2 = execute(p);
    ++s->st.det_pairs;
    if (h != h2) ++s->st.det_bad;
  }
  ++s->st.runs;
  s->st.digest += mix(i, h);
  ++s->st.thread_hist[p.threads];
  for (std::size_t k = 0; k != configs().size(); ++k)
    if (p.cfg == configs()[k].info.name) ++s->st.cfg_runs[k];
  if (insert(g_hashes, h) && interesting) ++s->st.nontrivial;
}
[[noreturn]] void worker(Args const& a, Shared* s, std::uint64_t from, double deadline) {
  if (!getenv("MT_CAL")) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
  }
  sh = s;
  st = &s->st;
  install();
  for (std::uint64_t i = from; i < a.first + a.runs; i += std::uint64_t(a.workers)) {
    if (now() > deadline) break;
    if (a.isolate) {
      pid_t p = fork();
      if (p == 0) {
        one(a, s, i);
        _exit(0);
      }
      int w = 0;
      waitpid(p, &w, 0);
      if (s->violated || !WIFEXITED(w) || WEXITSTATUS(w)) _exit(70);
    } else
      one(a, s, i);
  }
  s->done = 1;
  _exit(0);
}
int cmd_run(Args const& a) {
  double t0 = now(), deadline = t0 + a.secs;
  g_hashes = static_cast<std::uint64_t*>(shared(kSlots * 8));
  std::vector<Shared*> shs;
  std::vector<pid_t> pid(std::size_t(a.workers), -1);
  std::vector<std::uint64_t> start(std::size_t(a.workers));
  auto spawn = [&](int w, std::uint64_t from) {
    fflush(stdout);
    start[std::size_t(w)] = from;
    pid_t p = fork();
    if (p == 0) worker(a, shs[std::size_t(w)], from, deadline);
    pid[std::size_t(w)] = p;
  };
  for (int w = 0; w != a.workers; ++w) {
    shs.push_back(static_cast<Shared*>(shared(sizeof(Shared))));
    spawn(w, a.first + std::uint64_t(w));
  }
  struct Found { std::uint64_t index, start; Outcome o; bool mine; };
  std::vector<Found> found;
  std::uint64_t own = 0, foreign = 0;
  int alive = a.workers;
  while (alive) {
    int w = 0;
    pid_t p = waitpid(-1, &w, 0);
    int k = -1;
    for (int j = 0; j != a.workers; ++j)
      if (pid[std::size_t(j)] == p) k = j;
    if (k < 0) continue;
    Shared* s = shs[std::size_t(k)];
    pid[std::size_t(k)] = -1;
    if (s->done || (own >= 6 && !s->violated)) {
      --alive;
      continue;
    }
    Found f{s->run_index, start[std::size_t(k)], read_outcome(s, w), false};
    f.mine = accepts(a.prop, f.o.cls);
    ++(f.mine ? own : foreign);
    if (found.size() < 300) found.push_back(f);
    if (own >= 6 || foreign > 5000 || now() > deadline) {
      --alive;
      if (own >= 6)
        for (auto q : pid)
          if (q > 0) kill(q, SIGKILL);
    } else {
      s->violated = 0;
      spawn(k, f.index + std::uint64_t(a.workers));
    }
  }
  Stats t{};
  for (auto s : shs) {
    auto src = reinterpret_cast<const std::uint64_t*>(&s->st);
    auto dst = reinterpret_cast<std::uint64_t*>(&t);
    std::uint64_t mh = std::max(t.max_height, s->st.max_height), ms = std::max(t.max_size, s->st.max_size);
    for (std::size_t i = 0; i != sizeof(Stats) / 8; ++i) dst[i] += src[i];
    t.max_height = mh;
    t.max_size = ms;
  }
  std::sort(found.begin(), found.end(), [](Found const& x, Found const& y) { return x.index < y.index; });
  std::ostringstream o;
  o << "{\n\"prop\": " << json(a.prop) << ", \"seed\": " << a.seed << ", \"wall_s\": " << now() - t0 << ", \"runs\": " << t.runs + own + foreign
    << ", \"completed\": " << t.runs << ", \"nontrivial\": " << t.nontrivial << ", \"steps\": " << t.steps << ", \"switches\": " << t.switches
    << ", \"preempt_in_op\": " << t.preempt_in_op << ", \"accesses\": " << t.accesses << ", \"bytes_checked\": " << t.races_checked
    << ", \"allocs\": " << t.allocs << ", \"locks\": " << t.locks << ", \"lock_waits\": " << t.lock_waits << ", \"handovers\": " << t.handovers << ", \"compared_alone\": " << t.probe[1]
    << ", \"ops_ok\": " << t.ops_ok << ", \"ops_failed\": " << t.ops_failed << ", \"alloc_faults_set\": " << t.alloc_faults_set
    << ", \"alloc_faults\": " << t.alloc_faults << ", \"checks\": " << t.checks << ", \"retried\": " << t.probe[0] << ", \"det_pairs\": " << t.det_pairs
    << ", \"det_bad\": " << t.det_bad << ", \"digest\": \"" << t.digest << "\", \"max_size\": " << t.max_size << ", \"max_height\": " << t.max_height
    << ", \"own\": " << own << ", \"foreign\": " << foreign << ",\n\"ops\": {";
  bool first = true;
  for (int k = 0; k != NCODES; ++k)
    if (t.op_ok[k] || t.op_fail[k]) {
      o << (first ? "" : ", ") << json(kCode[k]) << ": [" << t.op_ok[k] << ", " << t.op_fail[k] << "]";
      first = false;
    }
  o << "},\n\"threads\": [" << t.thread_hist[1] << ", " << t.thread_hist[2] << ", " << t.thread_hist[3] << ", " << t.thread_hist[4] << "],\n\"configs\": {";
  first = true;
  for (std::size_t k = 0; k != configs().size(); ++k)
    if (t.cfg_runs[k]) {
      o << (first ? "" : ", ") << json(configs()[k].info.name) << ": " << t.cfg_runs[k];
      first = false;
    }
  o << "},\n\"samples\": [";
  for (int k = 0; k != 2; ++k)
    o << (k ? ", " : "") << json(to_text(generate(a.prop, seed_of(a.seed, a.prop, a.first + std::uint64_t(k) * 7 + 3), a.cfgs)));
  o << "],\n\"found\": [";
  for (std::size_t k = 0; k != found.size(); ++k) {
    auto& f = found[k];
    o << (k ? ",\n " : "\n ") << "{\"index\": " << f.index << ", \"start\": " << f.start << ", \"mine\": " << (f.mine ? "true" : "false") << ", \"cls\": " << json(f.o.cls)
      << ", \"msg\": " << json(f.o.msg) << ", \"op\": " << f.o.op << ", \"thread\": " << f.o.thread << "}";
  }
  o << "]\n}\n";
  std::ofstream(a.out) << o.str();
  return 0;
}
int cmd_replay(const char* file, bool verbose) {
  Program p;
  if (!from_text(slurp(file), p)) {
    fprintf(stderr, "not a replay file: %s\n", file);
    return 2;
  }
  Outcome o = run_child(p, !verbose);
  if (o.violated) {
    printf("%s class=%s op=%d code=%s thread=%d hash=%llx\n%s\n", accepts(p.prop, o.cls) ? "violated" : "foreign", o.cls.c_str(), o.op,
           o.op >= 0 && std::size_t(o.op) < p.ops.size() ? kCode[p.ops[std::size_t(o.op)].code] : "end", o.thread, (unsigned long long)o.hash, o.msg.c_str());
    return o.cls.compare(0, 8, "harness:") == 0 ? 2 : 1;
  }
  printf("ok hash=%llx\n", (unsigned long long)o.hash);
  return 0;
}
// A failure which needs what earlier runs left behind in the process (static storage): the runs its worker made before it,
// reduced to those that matter.
int cmd_chain(Args const& a, std::uint64_t start, double secs) {
  Program p = generate(a.prop, seed_of(a.seed, a.prop, a.first), a.cfgs);
  for (std::uint64_t i = start; i < a.first; i += std::uint64_t(a.workers)) {
    p.before.push_back(generate(a.prop, seed_of(a.seed, a.prop, i), a.cfgs));
    if (a.det && i % std::uint64_t(a.det) == 0) p.before.push_back(p.before.back());
  }
  if (a.det && a.first % std::uint64_t(a.det) == 0) p.before.push_back(generate(a.prop, p.seed, a.cfgs));
  const double end = now() + secs;
  auto fails = [&](Program const& q) {
    Outcome o = run_child(q, true);
    return o.violated && accepts(a.prop, o.cls);
  };
  bool some = false;
  for (std::size_t k = 1; !some && now() < end; k *= 4) {  // the last few are usually enough
    Program q = p;
    if (q.before.size() > k) q.before.erase(q.before.begin(), q.before.end() - std::ptrdiff_t(k));
    if (fails(q)) some = true, p = q;
    else if (q.before.size() == p.before.size()) break;
  }
  if (!some) return 3;
  for (std::size_t chunk = std::max<std::size_t>(1, p.before.size() / 2); now() < end; chunk /= 2) {
    for (std::size_t i = p.before.size(); i-- > 0 && now() < end;) {
      if (i + chunk > p.before.size()) continue;
      Program q = p;
      q.before.erase(q.before.begin() + std::ptrdiff_t(i), q.before.begin() + std::ptrdiff_t(i + chunk));
      if (fails(q)) p = q;
    }
    if (chunk <= 1) break;
  }
  std::ofstream(a.out) << to_text(p);
  return 0;
}

int cmd_min(const char* in, const char* out, double secs) {
  Program p;
  if (!from_text(slurp(in), p)) return 2;
  Outcome first = run_child(p, true);
  if (!first.violated) {
    printf("does not fail\n");
    return 3;
  }
  double end = now() + secs;
  int tries = 0;
  auto test = [&](Program const& q) {
    if (now() > end || tries > 6000) return false;
    ++tries;
    Outcome o = run_child(q, true);
    return o.violated && o.cls == first.cls;
  };
  if (!p.sched.replay) {  // fix the schedule which was drawn
    Program q = p;
    q.sched = Schedule{};
    q.sched.replay = true;
    q.sched.list = first.sw;
    if (!test(q)) {
      printf("the recorded schedule does not reproduce the failure\n");
      return 3;
    }
    p = q;
  }
  {
    Program q = p;
    q.sched.list.clear();
    if (test(q)) p = q;
  }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    auto drop = [&](auto get) {
      for (std::size_t chunk = std::max<std::size_t>(1, get(p).size() / 2);; chunk /= 2) {
        for (std::size_t i = get(p).size(); i-- > 0;) {
          if (i + chunk > get(p).size()) continue;
          Program q = p;
          auto& v = get(q);
          v.erase(v.begin() + std::ptrdiff_t(i), v.begin() + std::ptrdiff_t(i + chunk));
          if (test(q)) p = q, progress = true;
        }
        if (chunk <= 1) break;
      }
    };
    drop([](Program& q) -> std::vector<Op>& { return q.ops; });
    drop([](Program& q) -> std::vector<Switch>& { return q.sched.list; });
    for (std::size_t i = 0; i != p.ops.size(); ++i) {
      for (auto m : {&Op::b, &Op::fail, &Op::a, &Op::c}) {
        if (p.ops[i].*m == 0) continue;
        Program q = p;
        q.ops[i].*m = 0;
        if (test(q)) { p = q, progress = true; continue; }
        while (p.ops[i].*m > 1) {
          q = p;
          q.ops[i].*m /= 2;
          if (test(q)) { p = q, progress = true; continue; }
          if (p.ops[i].*m > 4096) break;
          q = p;
          q.ops[i].*m -= 1;
          if (test(q)) { p = q, progress = true; continue; }
          break;
        }
      }
    }
  }
  Outcome best = run_child(p, true);
  std::ofstream f(out);
  f << to_text(p) << "# class " << best.cls << "\n# op " << best.op << " of thread " << best.thread << "\n# message " << best.msg << "\n# hash " << std::hex
    << best.hash << "\n";
  printf("minimised to %zu operations and %zu switches after %d tries: %s: %s\n", p.ops.size(), p.sched.list.size(), tries, best.cls.c_str(), best.msg.c_str());
  return 0;
}
}  // namespace
}  // namespace mt

int main(int argc, char** argv) {
  using namespace mt;
  sh = static_cast<Shared*>(shared(sizeof(Shared)));  // not a variable: those are shadowed
  st = &sh->st;
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2], argc > 3);
  if (cmd == "min" && argc > 3) return cmd_min(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
  Args a;
  std::uint64_t start = 0;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") a.prop = v;
    else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--runs") a.runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--first") a.first = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--start") start = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--secs") a.secs = atof(v.c_str());
    else if (k == "--workers") a.workers = atoi(v.c_str());
    else if (k == "--det") a.det = atoi(v.c_str());
    else if (k == "--isolate") a.isolate = atoi(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--cfgs") {
      std::stringstream s(v);
      std::string c;
      while (std::getline(s, c, ',')) a.cfgs.push_back(c);
    }
  }
  if (cmd == "run") return cmd_run(a);
  if (cmd == "chain") return cmd_chain(a, start, a.secs);
  if (cmd == "gen") {
    fputs(to_text(generate(a.prop, seed_of(a.seed, a.prop, a.first), a.cfgs)).c_str(), stdout);
    return 0;
  }
  fprintf(stderr, "usage: mt run|replay|min|gen ...\n");
  return 2;
}
