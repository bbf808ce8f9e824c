#!/usr/bin/env python3
"""Decide one property of /repo by deterministic simulation with fault injection.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N]
       check.py --replay FILE [-v]        rebuild from /repo and replay one trace
       check.py --setup                   check that the tools are there and warm the build cache

Exit 0: the property held in every simulated run. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken and the trace reproduces it.
Anything else is an error of the check.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
CXX = "clang++"
T0 = time.time()

SIM_CFGS = {}  # filled below
LEFT_OUT = []
BASE = "nt4 nt3c p8 big pod24 ntd u8c p8s".split()
for _p, _c in {
    "C01": "nt4 nt3c p8 big pod24 ntd mo tm4 p8s",
    "C02": " ".join(BASE) + " wide fp",
    "C03": "nt4 nt3c p8 big ntd pod24",
    "C04": " ".join(BASE) + " tm4 tms tm7 mo fp",
    "C05": "nt4 nt3c big ntd mo tm4 tms tm7 fp u8c pod24c td ntk podk ntx podx",
    "C06": "tm4 tms tm7",
    "C07": "nt4 nt3c big mo ntd pod24 p8 fp",
    "C08": " ".join(BASE),
    "C09": " ".join(BASE) + " tm4 tms tm7 mo fp",
    "C10": "nt4 nt3c big pod24 u8c p8",
    "C13": " ".join(BASE) + " wide fp",
    "C14": " ".join(BASE),
    "C15": "nt4 nt3c p8 big pod24 ntd mo",
    "C16": " ".join(BASE) + " tm4 tms tm7 mo fp",
    "C17": "nt4 nt3c p8 big u8c mo ntd pod24 td",
    "C18": "nt4 nt3c p8 big mo tm4 u8c",
    "C20": "nt4 nt3c p8 big pod24 ntd u8c mo",
}.items():
    SIM_CFGS[_p] = _c.split()
for _p in "C01 C02 C03 C04 C07 C08 C13 C14 C15 C16 C17 C20".split():
    SIM_CFGS[_p] += ["def8", "u8d", "mid", "s32", "s16"]
MT_CFGS = {"C11": ["u32s", "strs", "d32"], "C12": ["u32s", "strs", "d32"], "C19": ["u32s", "strs", "d32"]}

# runs: (quick, thorough); the time limits only matter on a machine that is much slower
RUNS = {p: (40000, 1000000) for p in SIM_CFGS}
RUNS.update({"C02": (25000, 1000000), "C13": (30000, 1000000), "C20": (25000, 1000000)})
RUNS.update({"C11": (16000, 600000), "C12": (12000, 600000), "C19": (12000, 600000)})
CAP = {"quick": 240.0, "thorough": 660.0}

RULE_SIM = (
    "One case is one simulated run: a program of public operations on three containers, element values, allocator "
    "identities, address-reuse policy and a fault plan, all drawn from the run's seed; it is counted when it is distinct "
    "(rolling hash of its complete event log) and non-trivial (a container reached height 2, at least one operation the "
    "property speaks about was executed and, for properties about failures, at least one injected fault fired)."
)
RULE_MT = (
    "One case is one simulated execution: a program for 2-4 threads plus a schedule (random, or few preemptions at drawn "
    "points) drawn from the run's seed; it is counted when it is distinct (hash of all accesses, switches and results) and "
    "non-trivial (a thread was preempted at least twice inside an operation on the container)."
)
RULE_C19 = (
    "One case is one simulated run: a container is built to a drawn size and shape, then metered operations (with allocation "
    "failures) are executed and the simulator counts every memory access; distinct by the hash of the counts, non-trivial "
    "when more than 8 metered operations were checked."
)


def die(msg, code=3):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def aslr_off():
    try:
        if subprocess.run(["setarch", os.uname().machine, "-R", "true"], capture_output=True).returncode == 0:
            return ["setarch", os.uname().machine, "-R"]
    except OSError:
        pass
    return []


NOASLR = aslr_off()


def run(cmd, **kw):
    return subprocess.run(NOASLR + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ build
def tree_hash(paths):
    h = hashlib.sha256()
    for d in paths:
        for f in sorted(glob.glob(d + "/**/*", recursive=True)):
            if os.path.isfile(f):
                h.update(os.path.relpath(f, d).encode() + b"\0")
                with open(f, "rb") as s:
                    h.update(hashlib.sha256(s.read()).digest())
    return h.hexdigest()


def build(kind, cfgs, opt):
    """Compiles the simulator with the container of REPO's working tree; objects are cached by content."""
    src = os.path.join(VERIF, kind)
    flags = ["-std=c++17", opt, "-g0", "-w", "-include", "cstdint", "-include", "stdexcept",
             "-I", os.path.join(REPO, "include"), "-I", src, "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    libs = []
    units = sorted(glob.glob(src + "/*.cpp")) + [f"{src}/cfg/{c}.cpp" for c in cfgs]
    if kind == "sim":
        flags += ["-fsanitize=address"]
        libs = ["-fsanitize=address"]
    else:
        libs = ["-lpthread"] + ["-Wl,--wrap=pthread_mutex_" + f for f in ("lock", "unlock", "trylock")]
    th = tree_hash([os.path.join(REPO, "include"), src])
    key = hashlib.sha256((th + CXX + " ".join(flags)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f"{kind}{opt}-{key}")
    os.makedirs(out, exist_ok=True)

    def one(u):
        extra = ["-fsanitize=thread", "-fsanitize-coverage=edge,trace-pc"] if kind == "mt" and "/cfg/" in u else []
        o = os.path.join(out, os.path.basename(u)[:-4] + ".o")
        if os.path.exists(o):
            return o, None
        t = f"{o}.{os.getpid()}.tmp"
        r = subprocess.run([CXX] + flags + extra + ["-c", u, "-o", t], capture_output=True, text=True)
        if r.returncode:
            return o, f"{u}:\n" + r.stderr[:3000]
        os.replace(t, o)
        return o, None

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, units))
    # A configuration the working tree's container cannot be instantiated for is left out (and reported); the
    # others still decide.
    bad = {u: e for u, (_, e) in zip(units, res) if e}
    if any("/cfg/" not in u for u in bad) or len(bad) == len(cfgs):
        die("the simulator does not compile against the working tree\n" + next(iter(bad.values())))
    global LEFT_OUT
    LEFT_OUT = sorted(os.path.basename(u)[:-4] for u in bad)
    for u, e in bad.items():
        print(f"NOTE configuration left out, it does not compile against the working tree: {e[:600]}", flush=True)
    objs = [o for u, (o, _) in zip(units, res) if u not in bad]
    exe = os.path.join(out, "x-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:12])
    if not os.path.exists(exe):
        t = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run([CXX, "-std=c++17"] + objs + libs + ["-o", t], capture_output=True, text=True)
        if r.returncode:
            die("the simulator does not link\n" + r.stderr[:3000])
        os.replace(t, exe)
    # keep the cache small
    old = sorted((d for d in glob.glob(BUILD + "/*-*") if os.path.isdir(d) and d != out), key=os.path.getmtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ search, replay
def search(exe, prop, seed, runs, secs, workers, isolate, tag, det=16, first=0):
    out = os.path.join(BUILD, f"{prop}-{tag}-{os.getpid()}.json")
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--secs", str(secs), "--workers", str(workers),
           "--det", str(det), "--isolate", str(int(isolate)), "--first", str(first), "--out", out]
    r = run(cmd, timeout=secs + 200)
    try:
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
    except (OSError, ValueError) as e:
        die(f"the search gave no result ({e}): {r.stdout[-1500:]}")
    return d


def replay(exe, path):
    try:
        r = run([exe, "replay", path], timeout=120)
    except subprocess.TimeoutExpired:
        return None
    m = re.match(r"(\w+) class=(.*?) op=(\S+) code=(\S+)(?: thread=(\d+))? hash=(\w+)\n(.*)", r.stdout)
    if r.returncode == 1 and m:
        return {"mine": m.group(1) == "violated", "cls": m.group(2), "op": m.group(3), "code": m.group(4), "hash": m.group(6),
                "msg": m.group(7).strip()}
    return None


def reproduces(exe, path, exact=True):
    a, b = replay(exe, path), replay(exe, path)
    if not a or not b or not a["mine"] or not b["mine"] or a["cls"] != b["cls"] or a["op"] != b["op"]:
        return None
    if exact and a["hash"] != b["hash"]:
        return None
    return a


def confirm(exe, prop, seed, found, tier, chain=0):
    """Turns what the search saw into a minimised trace that fails again in fresh processes. With `chain` workers the trace
    begins with the runs the worker had made before, as far as they matter."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for exact in (True,) if chain else (True, False):
        mine = [x for x in found if x["mine"]]
        if chain:
            mine = sorted(mine, key=lambda x: x["index"] - x["start"])[:3]
        for f in mine[:8]:
            stem = os.path.join(rdir, f"{prop}-s{seed}-r{f['index']}")
            full = stem + ".full"
            if chain:
                try:
                    run([exe, "chain", "--prop", prop, "--seed", str(seed), "--first", str(f["index"]), "--start", str(f["start"]),
                         "--workers", str(chain), "--secs", "60", "--out", full], timeout=150)
                except subprocess.TimeoutExpired:
                    pass
                if not os.path.exists(full):
                    continue
            else:
                with open(full, "w") as o:
                    o.write(run([exe, "gen", "--prop", prop, "--seed", str(seed), "--first", str(f["index"])]).stdout)
            a = reproduces(exe, full, exact)
            if not a:
                os.unlink(full)
                continue
            small = stem + ".txt"
            try:
                run([exe, "min", full, small, "25" if tier == "quick" else "90"], timeout=200)
            except subprocess.TimeoutExpired:
                pass
            b = reproduces(exe, small, exact) if os.path.exists(small) else None
            if b:
                os.unlink(full)
                return small, b, f
            os.replace(full, small)
            with open(small, "a") as o:
                o.write(f"# class {a['cls']}\n# message {a['msg']}\n# hash {a['hash']}\n")
            return small, a, f
    return None


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) trace=(\S+) class=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append({"trace": os.path.join(VERIF, m.group(2)), "cls": m.group(3), "text": m.group(4)})
    return out


def essence(path):
    keep = ("cfg ", "op ", "switch ", "reuse", "arenas", "threads")
    return [re.sub(r"\s+", " ", x.strip()) for x in open(path) if x.startswith(keep)]


# ------------------------------------------------------------------ evidence
REAL = ["boost/segmented_tree/seq.hpp of /repo's working tree, every line of it (templates instantiated unchanged, no hooks)",
        "libstdc++ algorithms the container calls (std::stable_sort, std::lower_bound, std::allocator_traits, ...)"]
STUB_SIM = ["allocator (SimAlloc: arenas, per-block ledger, fault point per request) or operator new/delete behind std::allocator",
            "scratch memory of the standard algorithms (operator new(nothrow) with a fault point)",
            "element type (Elem: lifetime-tracked, fault point per construction/assignment) except in the plain-data configurations",
            "single-pass source iterators, comparators and predicates (fault points)",
            "reference model: std::vector of values per container"]
STUB_MT = ["thread scheduler (one runnable thread at a time, the seed decides each switch at instrumented memory accesses)",
           "memory (operator new/delete on a deterministic arena with exact block accounting and fault points)",
           "pthread mutexes of the harness' own hand-over boxes (simulated blocking)",
           "happens-before race detector (vector clocks over every instrumented access)",
           "reference model: std::vector per container"]


def evidence(prop, tier, seed, kind, d, extra, violations, exe_s):
    wall = max(d["wall_s"], 1e-3)
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["nontrivial"],
        "rule": RULE_SIM if kind == "sim" else RULE_C19 if prop == "C19" else RULE_MT,
        "samples": d["samples"],
        "runs_per_hour": round(d["runs"] * 3600 / wall),
        "seeds_per_hour": round(d["runs"] * 3600 / wall),
        "search_wall_s": round(wall, 2),
        "build_wall_s": round(exe_s, 2),
        "seeds": f"one derived seed per run: mix(VERIF_SEED={seed}, property, run index 0..{d['runs'] - 1})",
        "runs_completed": d["completed"],
        "operations_completed": d["ops_ok"],
        "operations_failed_by_injection": d["ops_failed"],
        "operations_by_kind_completed_failed": d["ops"],
        "runs_by_configuration": d["configs"],
        "max_elements": d["max_size"],
        "max_height": d["max_height"],
        "oracle_checks": d["checks"],
        "allocations_simulated": d["allocs"],
        "same_seed_run_twice": {"pairs": d["det_pairs"], "differences": d["det_bad"]},
        "violations_of_other_properties_seen": d["foreign"],
        "configurations_left_out": LEFT_OUT,
        "real_code": REAL,
        "stubs": STUB_SIM if kind == "sim" else STUB_MT,
    }
    if kind == "sim":
        cov.update({
            "simulated_time": {"unit": "fault points passed inside container calls (the code has no clock)", "amount": d["steps"]},
            "faults_configured_and_fired": {k: {"configured": v[0], "fired": v[1]} for k, v in d["fired"].items()},
            "rare_conditions_hit": d["probes"],
            "distinct_states": {"measure": "hash of (height, size, every segment length) of a container after an operation", "count": d["states"]},
            "twin_comparisons": d["twin_steps"],
        })
    else:
        cov.update({
            "simulated_time": {"unit": "instrumented memory accesses (yield points; the code has no clock)", "amount": d["steps"]},
            "faults_configured_and_fired": {"ALLOC": {"configured": d["alloc_faults_set"], "fired": d["alloc_faults"]},
                                            "preemption inside a container call": {"fired": d["preempt_in_op"]}},
            "context_switches": d["switches"],
            "accesses_checked": d["accesses"],
            "bytes_checked_for_races": d["bytes_checked"],
            "lock_waits": d["lock_waits"],
            "handovers": d["handovers"],
            "runs_compared_with_each_thread_alone": d["compared_alone"],
            "runs_by_thread_count": d["threads"],
            "distinct_interleavings": {"measure": "hash over the sequence of (thread, access, switch, result) of a run, non-trivial ones only",
                                       "count": d["nontrivial"]},
        })
    cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "seeded search: the absence of a violation is evidence for the runs made, not a proof",
            "clang 18, libstdc++ 13, x86-64; element types, allocators and size targets of the listed configurations",
        ] + (["schedules are sequentially consistent interleavings; the container has no atomics, and data races are reported by happens-before"]
             if kind == "mt" else ["single-threaded runs; what threads can see is C11 and C12"]),
        "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


# ------------------------------------------------------------------ main
def kind_of(prop):
    return "mt" if prop in MT_CFGS else "sim"


def make(prop, tier):
    kind = kind_of(prop)
    cfgs = [c for c in (MT_CFGS if kind == "mt" else SIM_CFGS)[prop] if os.path.exists(f"{VERIF}/{kind}/cfg/{c}.cpp")]
    # An optimiser may drop loops without effects, and with them the work C19 is there to measure.
    return kind, build(kind, cfgs, "-O0" if kind == "mt" else "-O1")


def main(argv):
    if not argv or argv[0] in ("-h", "--help"):
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    if argv[0] == "--setup":
        for p in ("C02", "C04", "C12"):
            make(p, "quick")
        print("ready")
        return 0
    if argv[0] == "--replay":
        prop = next(x.split()[1] for x in open(argv[1]) if x.startswith("prop "))
        _, exe = make(prop, tier)
        r = run([exe, "replay", argv[1]] + argv[2:])
        print(r.stdout, end="")
        return r.returncode
    prop = argv[0]
    if prop not in SIM_CFGS and prop not in MT_CFGS:
        die("no such property: " + prop, 2)
    i = 1
    while i + 1 < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t = time.time()
    kind, exe = make(prop, tier)
    build_s = time.time() - t
    workers = max(1, os.cpu_count() or 4)
    runs = RUNS[prop][tier == "thorough"]
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    known = known_findings(prop)
    known_essence = {tuple(essence(k["trace"])) for k in known}
    d = search(exe, prop, seed, runs, CAP[tier], workers, False, "run")
    hit = confirm(exe, prop, seed, d["found"], tier) if d["own"] else None
    if d["own"] and not hit:
        # Perhaps it depends on what an earlier run in the same process left behind.
        hit = confirm(exe, prop, seed, d["found"], tier, workers)
    if d["own"] and not hit:
        d2 = search(exe, prop, seed, runs, 150, workers, True, "isolated")
        if d2["own"]:
            hit = confirm(exe, prop, seed, d2["found"], tier)
        if not hit:
            for f in d["found"][:10]:
                print("  unreproduced:", f)
            die(f"{d['own']} runs failed but none of them fails again in a fresh process")
    # The same seeds in other processes and with another number of workers must give the same logs.
    n = 320 if tier == "quick" else 4000
    if not d["own"] and not d["foreign"]:
        a = search(exe, prop, seed, n, 120, workers, False, "det-a", det=0)
        b = search(exe, prop, seed, n, 120, 3, False, "det-b", det=0)
        same = a["digest"] == b["digest"] and a["completed"] == b["completed"] == n
        extra = {"cross_process_determinism": {"seeds": n, "workers": [workers, 3], "logs_identical": same}}
        if not same or d["det_bad"]:
            print(f"WARNING the simulation was not deterministic (det_bad={d['det_bad']}, cross-process identical={same})")
    else:
        extra = {"cross_process_determinism": "skipped: violations were found"}
    for k in known:
        r = replay(exe, k["trace"])
        if r and r["cls"] == k["cls"]:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    violations = 0
    if hit and tuple(essence(hit[0])) not in known_essence:
        violations = d["own"]
        extra["violation"] = {"class": hit[1]["cls"], "message": hit[1]["msg"], "operation": hit[1]["code"], "run": hit[2]["index"],
                              "trace": open(hit[0]).read()}
    evidence(prop, tier, seed, kind, d, extra, violations, build_s)
    if d["foreign"]:
        cl = sorted({f["cls"] for f in d["found"] if not f["mine"]})
        print(f"NOTE {d['foreign']} runs ended early by what contradicts other properties: {', '.join(cl[:6])}")
    if violations:
        print(f"{prop}: {hit[1]['cls']} in {hit[1]['code']}: {hit[1]['msg']}")
        print(open(hit[0]).read().rstrip())
        print(f"VIOLATION property={prop} replay={hit[0]}")
        return 1
    print(f"{prop}: held in {d['runs']} runs ({d['nontrivial']} distinct non-trivial) in {d['wall_s']:.1f} s, build {build_s:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
