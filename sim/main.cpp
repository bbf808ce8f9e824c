// Runner: seeded search over many runs, replay of one run, minimisation.
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include "program.hpp"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=71:abort_on_error=0:symbolize=0:print_legend=0:print_full_thread_history=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=0";
}
extern "C" const char* __asan_get_report_description();

namespace sim {
namespace {
constexpr std::size_t kStateSlots = 1u << 22;
std::uint64_t* g_states = nullptr;  // shared open addressing set
std::uint64_t* g_hashes = nullptr;
constexpr std::size_t kHashSlots = 1u << 21;

bool insert(std::uint64_t* t, std::size_t slots, std::uint64_t h) {
  if (!t) return false;
  if (!h) h = 1;
  for (std::size_t i = h & (slots - 1), k = 0; k != 64; i = (i + 1) & (slots - 1), ++k) {
    std::uint64_t cur = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
    if (cur == h) return false;
    if (cur == 0) {
      std::uint64_t z = 0;
      if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
      if (z == h) return false;
    }
  }
  return false;
}
void* shared(std::size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return p;
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
Config* find(std::string const& name) {
  for (auto& c : configs())
    if (name == c.info.name) return &c;
  return nullptr;
}
void on_terminate() { violate("terminate", "std::terminate was called"); }
void on_vtalrm(int) { violate("hang", "no progress"); }
void on_signal(int s) {
  char c[32];
  snprintf(c, sizeof c, "crash:signal-%d", s);
  violate(c, "killed by signal %d", s);
}
void arm_timer(long secs) {
  itimerval t{};
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
long g_allowance = 20;
void rearm() {
  itimerval t;
  if (G.st && !getitimer(ITIMER_VIRTUAL, &t)) {
    std::uint64_t us = std::uint64_t(g_allowance) * 1000000 - std::uint64_t(t.it_value.tv_sec) * 1000000 - std::uint64_t(t.it_value.tv_usec);
    if (t.it_value.tv_sec && us < 100000000 && us > G.st->cpu_us) G.st->cpu_us = us;
  }
  arm_timer(g_allowance);
}
void install() {
  op_begins = rearm;
  std::set_terminate(on_terminate);
  signal(SIGVTALRM, on_vtalrm);
  signal(SIGABRT, on_signal);
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
  signal(SIGSEGV, on_signal);
  signal(SIGBUS, on_signal);
#endif
  signal(SIGFPE, on_signal);
  signal(SIGILL, on_signal);
}

// Runs one program in this process; ends the process on a violation.
std::uint64_t execute(Program const& p) {
  Config* c = find(p.cfg);
  if (!c) {
    fprintf(stderr, "configuration %s is not compiled in\n", p.cfg.c_str());
    _exit(98);
  }
  Result r;
  G.disturbed = false;
  if (oracles_of(p.prop) & O_TWIN) {
    // The undisturbed history first: whatever goes wrong afterwards is what the failures left behind.
    Result t;
    c->run(p, false, t);
    G.disturbed = true;
    c->run(p, true, r);
    G.disturbed = false;
    for (std::size_t i = 0; i < r.digests.size() && i < t.digests.size(); ++i) {
      ++G.st->twin_steps;
      if (r.digests[i] != t.digests[i]) {
        G.cur_op = std::uint32_t(i);
        G.cur_code = p.ops[i].code;
        violate("twin:residue", "after operation %zu (%s) the run with retried failures differs from the undisturbed one", i, kOpName[p.ops[i].code]);
      }
    }
  }
  else
    c->run(p, true, r);
  return r.hash;
}

struct Outcome {
  bool violated = false;
  std::string cls, msg;
  std::uint32_t op = 0;
  int code = -1;
  std::uint64_t hash = 0;
};
// Runs one program in a child.
Outcome run_child(Program const& p, bool quiet) {
  static Shared* sh = static_cast<Shared*>(shared(sizeof(Shared)));
  memset(static_cast<void*>(sh), 0, sizeof *sh);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    G.sh = sh;
    G.st = &sh->st;
    install();
    g_allowance = 12;
    arm_timer(12);
    for (auto& b : p.before) execute(b), arm_timer(12);
    sh->hash = execute(p);
    sh->done = 1;
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.violated = sh->violated;
  o.hash = sh->hash;
  o.op = sh->op_index;
  o.code = sh->op_code;
  if (o.violated) {
    o.cls = sh->cls;
    o.msg = sh->msg;
  } else if (!sh->done) {
    o.violated = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) o.cls = "harness:config";
    else o.cls = WIFSIGNALED(st) ? "crash:signal-" + std::to_string(WTERMSIG(st)) : "crash:exit-" + std::to_string(WEXITSTATUS(st));
    o.msg = "process ended";
  }
  return o;
}

std::string json(std::string const& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += c;
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
std::string slurp(const char* f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
std::uint64_t seed_of(std::uint64_t seed, std::string const& prop, std::uint64_t i) {
  std::uint64_t h = 1469598103934665603ull;
  for (char c : prop) h = (h ^ std::uint64_t((unsigned char)c)) * 0x100000001b3ull;
  return mix(mix(seed, h), i);
}

struct Args {
  std::string prop, out;
  std::uint64_t seed = 1, runs = 1000, first = 0;
  double secs = 600;
  int workers = 8;
  int det = 16, isolate = 0;
  std::vector<std::string> cfgs;
};

void one(Args const& a, Shared* sh, std::uint64_t i, bool expect) {
  sh->run_index = i;
  sh->violated = 0;
  Program p = generate(a.prop, seed_of(a.seed, a.prop, i), a.cfgs);
  arm_timer(20);
  G.run_height = G.run_subject = G.run_fired = 0;
  std::uint64_t h = execute(p);
  bool interesting = G.run_height >= 2 && G.run_subject && (!expect || G.run_fired);
  if (a.det && i % std::uint64_t(a.det) == 0) {
    std::uint64_t h2 = execute(p);
    ++G.st->det_pairs;
    if (h != h2) ++G.st->det_bad;
  }
  ++G.st->runs;
  G.st->digest += mix(i, h);
  for (std::size_t k = 0; k != configs().size(); ++k)
    if (p.cfg == configs()[k].info.name) ++G.st->cfg_runs[k];
  if (insert(g_hashes, kHashSlots, h) && interesting) ++G.st->nontrivial;
}
[[noreturn]] void worker(Args const& a, Shared* sh, std::uint64_t from, double deadline) {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
  G.sh = sh;
  G.st = &sh->st;
  install();
  bool expect = faults_expected(a.prop);
  for (std::uint64_t i = from; i < a.first + a.runs; i += std::uint64_t(a.workers)) {
    if (now() > deadline) break;
    if (a.isolate) {  // nothing the code keeps in static storage survives from run to run
      pid_t p = fork();
      if (p == 0) {
        one(a, sh, i, expect);
        _exit(0);
      }
      int w = 0;
      waitpid(p, &w, 0);
      if (sh->violated || !WIFEXITED(w) || WEXITSTATUS(w)) _exit(70);
    } else
      one(a, sh, i, expect);
  }
  sh->done = 1;
  _exit(0);
}

int cmd_run(Args const& a) {
  double t0 = now(), deadline = t0 + a.secs;
  g_states = static_cast<std::uint64_t*>(shared(kStateSlots * 8));
  g_hashes = static_cast<std::uint64_t*>(shared(kHashSlots * 8));
  std::vector<Shared*> sh;
  std::vector<pid_t> pid(std::size_t(a.workers), -1);
  std::vector<std::uint64_t> start(std::size_t(a.workers));
  auto spawn = [&](int w, std::uint64_t from) {
    fflush(stdout);
    start[std::size_t(w)] = from;
    pid_t p = fork();
    if (p == 0) worker(a, sh[std::size_t(w)], from, deadline);
    pid[std::size_t(w)] = p;
  };
  for (int w = 0; w != a.workers; ++w) {
    sh.push_back(static_cast<Shared*>(shared(sizeof(Shared))));
    spawn(w, a.first + std::uint64_t(w));
  }
  struct Found { std::uint64_t index, start; Outcome o; bool mine; };
  std::vector<Found> found;
  std::uint64_t foreign = 0, own = 0;
  int alive = a.workers;
  bool stop = false;
  while (alive) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    int w = -1;
    for (int k = 0; k != a.workers; ++k)
      if (pid[std::size_t(k)] == p) w = k;
    if (w < 0) continue;
    Shared* s = sh[std::size_t(w)];
    pid[std::size_t(w)] = -1;
    if (s->done) {
      --alive;
      continue;
    }
    if (stop && !s->violated && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      --alive;
      continue;
    }
    Found f;
    f.index = s->run_index;
    f.start = start[std::size_t(w)];
    f.o.violated = true;
    if (s->violated) {
      f.o.cls = s->cls;
      f.o.msg = s->msg;
      f.o.op = s->op_index;
      f.o.code = s->op_code;
    } else {
      f.o.cls = WIFSIGNALED(st) ? "crash:signal-" + std::to_string(WTERMSIG(st)) : "crash:exit-" + std::to_string(WEXITSTATUS(st));
      f.o.msg = "process ended";
      f.o.code = -1;
    }
    f.mine = accepts(a.prop, f.o.cls.c_str(), f.o.code);
    (f.mine ? own : foreign)++;
    if (found.size() < 400 || f.mine) found.push_back(f);
    if (own >= 6 || foreign >= 20000) stop = true;
    if (stop || now() > deadline) {
      --alive;
      for (auto q : pid)
        if (q > 0 && own >= 6) kill(q, SIGKILL);
    } else
      spawn(w, f.index + std::uint64_t(a.workers));
  }
  Stats t{};
  for (auto s : sh) {
    const std::uint64_t* src = reinterpret_cast<const std::uint64_t*>(&s->st);
    std::uint64_t* dst = reinterpret_cast<std::uint64_t*>(&t);
    std::uint64_t ms = std::max(t.max_size, s->st.max_size), mh = std::max(t.max_height, s->st.max_height), mc = std::max(t.cpu_us, s->st.cpu_us);
    for (std::size_t i = 0; i != sizeof(Stats) / 8; ++i) dst[i] += src[i];
    t.max_size = ms;
    t.max_height = mh;
    t.cpu_us = mc;
  }
  std::uint64_t states = 0;
  for (std::size_t i = 0; i != kStateSlots; ++i) states += g_states[i] != 0;
  std::sort(found.begin(), found.end(), [](Found const& x, Found const& y) { return x.index < y.index; });
  std::ostringstream o;
  o << "{\n\"prop\": " << json(a.prop) << ", \"seed\": " << a.seed << ", \"wall_s\": " << now() - t0 << ", \"runs\": " << t.runs + own + foreign
    << ", \"completed\": " << t.runs << ", \"nontrivial\": " << t.nontrivial << ", \"states\": " << states << ", \"steps\": " << t.steps
    << ", \"ops_ok\": " << t.ops_ok << ", \"ops_failed\": " << t.ops_failed << ", \"allocs\": " << t.allocs << ", \"elem_ops\": " << t.elem_ops
    << ", \"checks\": " << t.checks << ", \"twin_steps\": " << t.twin_steps << ", \"det_pairs\": " << t.det_pairs << ", \"det_bad\": " << t.det_bad
    << ", \"digest\": \"" << t.digest << "\", \"max_size\": " << t.max_size << ", \"max_height\": " << t.max_height << ", \"slowest_op_ms\": " << t.cpu_us / 1000 << ", \"own\": " << own
    << ", \"foreign\": " << foreign << ",\n\"fired\": {";
  for (int k = 0; k != NFK; ++k) o << (k ? ", " : "") << json(kFaultName[k]) << ": [" << t.configured[k] << ", " << t.fired[k] << "]";
  o << "},\n\"probes\": {";
  for (int k = 0; k != NPROBE; ++k) o << (k ? ", " : "") << json(kProbeName[k]) << ": " << t.probe[k];
  o << "},\n\"ops\": {";
  bool first = true;
  for (int k = 0; k != NOPS; ++k)
    if (t.op_ok[k] || t.op_fail[k]) {
      o << (first ? "" : ", ") << json(kOpName[k]) << ": [" << t.op_ok[k] << ", " << t.op_fail[k] << "]";
      first = false;
    }
  o << "},\n\"configs\": {";
  first = true;
  for (std::size_t k = 0; k != configs().size(); ++k)
    if (t.cfg_runs[k]) {
      o << (first ? "" : ", ") << json(configs()[k].info.name) << ": " << t.cfg_runs[k];
      first = false;
    }
  o << "},\n\"samples\": [";
  for (int k = 0; k != 2; ++k)
    o << (k ? ", " : "") << json(to_text(generate(a.prop, seed_of(a.seed, a.prop, a.first + std::uint64_t(k) * 7 + 3), a.cfgs)));
  o << "],\n\"found\": [";
  for (std::size_t k = 0; k != found.size(); ++k) {
    auto& f = found[k];
    o << (k ? ",\n " : "\n ") << "{\"index\": " << f.index << ", \"start\": " << f.start << ", \"mine\": " << (f.mine ? "true" : "false") << ", \"cls\": " << json(f.o.cls)
      << ", \"msg\": " << json(f.o.msg) << ", \"op\": " << f.o.op << ", \"code\": "
      << json(f.o.code >= 0 ? kOpName[f.o.code] : f.o.code == -2 ? "end" : "?") << "}";
    if (k > 60 && !f.mine) break;
  }
  o << "]\n}\n";
  std::ofstream(a.out) << o.str();
  return 0;
}

int cmd_replay(const char* file, bool verbose) {
  Program p;
  if (!from_text(slurp(file), p)) {
    fprintf(stderr, "not a replay file: %s\n", file);
    return 2;
  }
  G.verbose = verbose;
  Outcome o = run_child(p, !verbose);
  if (o.violated) {
    printf("%s class=%s op=%u code=%s hash=%llx\n%s\n", accepts(p.prop, o.cls.c_str(), o.code) ? "violated" : "foreign", o.cls.c_str(), o.op,
           o.code >= 0 ? kOpName[o.code] : o.code == -2 ? "end" : "?", (unsigned long long)o.hash, o.msg.c_str());
    return o.cls.compare(0, 8, "harness:") == 0 ? 2 : 1;
  }
  printf("ok hash=%llx\n", (unsigned long long)o.hash);
  return 0;
}

// A failure which needs what earlier runs left behind in the process (static storage): the runs its worker made before it,
// reduced to those that matter.
int cmd_chain(Args const& a, std::uint64_t start, double secs) {
  Program p = generate(a.prop, seed_of(a.seed, a.prop, a.first), a.cfgs);
  for (std::uint64_t i = start; i < a.first; i += std::uint64_t(a.workers)) {
    p.before.push_back(generate(a.prop, seed_of(a.seed, a.prop, i), a.cfgs));
    if (a.det && i % std::uint64_t(a.det) == 0) p.before.push_back(p.before.back());
  }
  if (a.det && a.first % std::uint64_t(a.det) == 0) p.before.push_back(generate(a.prop, p.seed, a.cfgs));
  const double end = now() + secs;
  auto fails = [&](Program const& q) {
    Outcome o = run_child(q, true);
    return o.violated && accepts(a.prop, o.cls.c_str(), o.code);
  };
  bool some = false;
  for (std::size_t k = 1; !some && now() < end; k *= 4) {  // the last few are usually enough
    Program q = p;
    if (q.before.size() > k) q.before.erase(q.before.begin(), q.before.end() - std::ptrdiff_t(k));
    if (fails(q)) some = true, p = q;
    else if (q.before.size() == p.before.size()) break;
  }
  if (!some) return 3;
  for (std::size_t chunk = std::max<std::size_t>(1, p.before.size() / 2); now() < end; chunk /= 2) {
    for (std::size_t i = p.before.size(); i-- > 0 && now() < end;) {
      if (i + chunk > p.before.size()) continue;
      Program q = p;
      q.before.erase(q.before.begin() + std::ptrdiff_t(i), q.before.begin() + std::ptrdiff_t(i + chunk));
      if (fails(q)) p = q;
    }
    if (chunk <= 1) break;
  }
  std::ofstream(a.out) << to_text(p);
  return 0;
}

int cmd_min(const char* in, const char* out, double secs) {
  Program p;
  if (!from_text(slurp(in), p)) return 2;
  Outcome first = run_child(p, true);
  if (!first.violated) {
    printf("does not fail\n");
    return 3;
  }
  double end = now() + secs;
  int tries = 0;
  Outcome best = first;
  auto test = [&](Program const& q) {
    if (now() > end || tries > 6000) return false;
    ++tries;
    Outcome o = run_child(q, true);
    if (!o.violated || o.cls != first.cls || !accepts(q.prop, o.cls.c_str(), o.code)) return false;
    best = o;
    return true;
  };
  if (p.ops.size() > first.op + 1u && first.code >= 0) {
    Program q = p;
    q.ops.resize(first.op + 1u);
    if (test(q)) p = q;
  }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (std::size_t chunk = std::max<std::size_t>(1, p.ops.size() / 2);; chunk /= 2) {
      for (std::size_t i = p.ops.size(); i-- > 0;) {
        if (i + chunk > p.ops.size()) continue;
        Program q = p;
        q.ops.erase(q.ops.begin() + std::ptrdiff_t(i), q.ops.begin() + std::ptrdiff_t(i + chunk));
        if (test(q)) p = q, progress = true;
      }
      if (chunk <= 1) break;
    }
    for (std::size_t i = 0; i != p.ops.size(); ++i) {
      for (std::size_t j = p.ops[i].f.size(); j-- > 0;) {
        Program q = p;
        q.ops[i].f.erase(q.ops[i].f.begin() + std::ptrdiff_t(j));
        if (test(q)) p = q, progress = true;
      }
      if (p.ops[i].mode != M_ONCE) {
        Program q = p;
        q.ops[i].mode = M_ONCE;
        if (test(q)) p = q, progress = true;
      }
      for (std::size_t j = 0; j != p.ops[i].f.size(); ++j) {
        if (p.ops[i].f[j].sticky) {
          Program q = p;
          q.ops[i].f[j].sticky = false;
          if (test(q)) p = q, progress = true;
        }
        while (p.ops[i].f[j].nth > 1) {
          Program q = p;
          q.ops[i].f[j].nth /= 2;
          if (test(q)) { p = q, progress = true; continue; }
          q = p;
          q.ops[i].f[j].nth -= 1;
          if (test(q)) { p = q, progress = true; continue; }
          break;
        }
      }
      auto shrink = [&](std::uint32_t Op::*m, bool dec) {
        if (p.ops[i].*m == 0) return;
        Program q = p;
        q.ops[i].*m = 0;
        if (test(q)) { p = q, progress = true; return; }
        for (std::uint32_t v : {1u, 2u, 3u, 5u, 8u}) {
          if (v >= p.ops[i].*m) break;
          q = p;
          q.ops[i].*m = v;
          if (test(q)) { p = q, progress = true; return; }
        }
        while (p.ops[i].*m > 1) {
          q = p;
          q.ops[i].*m /= 2;
          if (test(q)) { p = q, progress = true; continue; }
          if (!dec || p.ops[i].*m > 4096) break;
          q = p;
          q.ops[i].*m -= 1;
          if (test(q)) { p = q, progress = true; continue; }
          break;
        }
      };
      shrink(&Op::b, true);
      shrink(&Op::a, false);
      shrink(&Op::c, false);
      shrink(&Op::d, true);
    }
    {
      Program q = p;
      q.reuse = false;
      if (p.reuse && test(q)) p = q, progress = true;
      for (int k = 0; k != 3; ++k)
        if (p.arenas[k]) {
          q = p;
          q.arenas[k] = 0;
          if (test(q)) p = q, progress = true;
        }
    }
  }
  best = run_child(p, true);
  std::ofstream f(out);
  f << to_text(p) << "# class " << best.cls << "\n# op " << best.op << "\n# message " << best.msg << "\n# hash " << std::hex << best.hash << "\n";
  printf("minimised to %zu operations after %d tries: %s: %s\n", p.ops.size(), tries, best.cls.c_str(), best.msg.c_str());
  return 0;
}
}  // namespace
void note_state(std::uint64_t h) {
  if (g_states) insert(g_states, kStateSlots, h);
}
}  // namespace sim

extern "C" void __asan_on_error() {
  using namespace sim;
  G.armed = false;
  const char* d = __asan_get_report_description();
  if (!G.sh || G.sh->violated) return;
  snprintf(G.sh->cls, sizeof G.sh->cls, "asan:%s", d ? d : "?");
  snprintf(G.sh->msg, sizeof G.sh->msg, "AddressSanitizer: %s", d ? d : "?");
  G.sh->hash = G.hash;
  G.sh->op_index = G.cur_op;
  G.sh->op_code = G.cur_code;
  G.sh->violated = 1;
}

int main(int argc, char** argv) {
  using namespace sim;
  static Stats dummy;
  G.st = &dummy;
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2], argc > 3);
  if (cmd == "min" && argc > 3) return cmd_min(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
  if (cmd == "configs" && argc > 2) {
    for (auto& c : configs_for(argv[2])) puts(c.c_str());
    return 0;
  }
  Args a;
  std::uint64_t start = 0;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") a.prop = v;
    else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--runs") a.runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--first") a.first = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--start") start = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--secs") a.secs = atof(v.c_str());
    else if (k == "--workers") a.workers = atoi(v.c_str());
    else if (k == "--det") a.det = atoi(v.c_str());
    else if (k == "--isolate") a.isolate = atoi(v.c_str());
    else if (k == "--out") a.out = v;
    else if (k == "--cfgs") {
      std::stringstream s(v);
      std::string c;
      while (std::getline(s, c, ',')) a.cfgs.push_back(c);
    }
  }
  if (cmd == "run") return cmd_run(a);
  if (cmd == "chain") return cmd_chain(a, start, a.secs);
  if (cmd == "gen") {
    fputs(to_text(generate(a.prop, seed_of(a.seed, a.prop, a.first), a.cfgs)).c_str(), stdout);
    return 0;
  }
  fprintf(stderr, "usage: sim run|replay|min|gen ...\n");
  return 2;
}
