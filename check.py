#!/usr/bin/env python3
"""Deterministic simulation of conex.

  check.py run P05              the check of one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE          re-executes a replay file; exit 1 iff it fails as recorded
  check.py build                only builds the simulator from /repo's working tree
  check.py determinism [P..]    event-hash comparison of many seeds at two worker counts
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CONEX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = int(os.environ.get("SIM_JOBS", str(min(8, os.cpu_count() or 4))))
EIGEN = os.environ.get("EIGEN_INC", "/usr/include/eigen3")
CXX = os.environ.get("CXX", "g++")
COMMON = ["-std=c++17", "-O2", "-fPIC", "-DEIGEN_NO_DEBUG", "-DNDEBUG", "-DEIGEN_MPL2_ONLY",
          "-DEIGEN_HAS_TYPE_TRAITS=0", "-I" + REPO, "-I" + EIGEN, "-w"]
WRAPS = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "rand", "srand",
         "pthread_mutex_lock", "pthread_mutex_trylock", "__cxa_guard_acquire",
         "__cxa_guard_release", "__cxa_guard_abort"]

# runs per tier, and a cap in seconds on the exploration itself
RUNS = json.load(open(os.path.join(HERE, "runs.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ----------------------------------------------------------------------------- build
def repo_sources():
    out = []
    for root in ("conex", "interfaces"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "matlab", "python"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(".cc") and (root == "conex" or f == "conex.cc"):
                    out.append(p)
    return out


def headers():
    out = []
    for root in ("conex", "interfaces"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files) if f.endswith((".h", ".hpp", ".inc"))]
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        flags = " ".join(COMMON + WRAPS + [CXX])
        srcs = repo_sources()
        sims = sorted(glob.glob(os.path.join(HERE, "sim", "*.cc")))
        simh = sorted(glob.glob(os.path.join(HERE, "sim", "*.h")))
        heads = headers()
        hkey = digest(heads, flags)
        skey = digest(heads + simh, flags)
        binary = os.path.join(BUILD, "sim-" + digest(srcs + sims, hkey + skey))
        if os.path.exists(binary):
            return binary
        objdir = os.path.join(BUILD, "obj")
        os.makedirs(objdir, exist_ok=True)
        jobs, objs = [], []
        for s in srcs:
            o = os.path.join(objdir, "r_%s_%s.o" % (os.path.basename(s)[:-3], digest([s], hkey)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(s) * (6 if re.search(r"jordan|kkt|psd|hermitian|approx", s) else 1),
                             [CXX] + COMMON + ["-fsanitize-coverage=trace-pc", "-c", s, "-o", o + ".tmp"], o))
        for s in sims:
            o = os.path.join(objdir, "s_%s_%s.o" % (os.path.basename(s)[:-3], digest([s], skey)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(s) * 3,
                             [CXX] + COMMON + ["-g", "-I" + os.path.join(HERE, "sim"), "-c", s, "-o", o + ".tmp"], o))
        jobs.sort(key=lambda j: -j[0])

        def one(j):
            r = sh(j[1])
            if r.returncode == 0:
                os.rename(j[2] + ".tmp", j[2])
            return r

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, r in zip(jobs, ex.map(one, jobs)):
                if r.returncode:
                    print("build failed: %s\n%s" % (" ".join(j[1]), r.stdout[-3000:]))
                    sys.exit(2)
        r = sh([CXX, "-no-pie", "-o", binary + ".tmp"] + objs +
               ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lpthread"])
        if r.returncode:
            print("link failed:\n" + r.stdout[-3000:])
            sys.exit(2)
        os.rename(binary + ".tmp", binary)
        for old in glob.glob(os.path.join(BUILD, "sim-*")):  # keep the cache small
            if old != binary and time.time() - os.path.getmtime(old) > 86400:
                os.remove(old)
        for old in glob.glob(os.path.join(objdir, "*.o")):
            if old not in objs and time.time() - os.path.getmtime(old) > 86400:
                os.remove(old)
        return binary


# ------------------------------------------------------------------------------- runs
class Result:
    def __init__(self, text, rc):
        m = re.search(r"RESULT (\w+)(?: hash=(\w+) inter=(\w+) op=(-?\d+) steps=(\d+) kind=(\S*) msg=(.*))?",
                      text)
        self.status = m.group(1) if m else "error"
        self.hash = m.group(2) if m else None
        self.op = int(m.group(4)) if m and m.group(4) else -1
        self.kind = m.group(6) if m else ""
        self.msg = (m.group(7) or "") if m else text[-300:]

    def same(self, o):
        return (self.status, self.kind, self.hash, self.msg) == (o.status, o.kind, o.hash, o.msg)


def execute(binary, text, wall=300):
    fd, path = tempfile.mkstemp(suffix=".plan")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        try:
            r = subprocess.run([binary, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors="replace", timeout=wall)
            return Result(r.stdout, r.returncode)
        except subprocess.TimeoutExpired:
            return Result("", 2)
    finally:
        os.unlink(path)


def batch(binary, prop, first, count, thorough, deadline, workers):
    ps, outs = [], []
    for i in range(workers):
        out = tempfile.TemporaryFile()
        outs.append(out)
        ps.append(subprocess.Popen([binary, "batch", prop, str(first), str(count), str(int(thorough)),
                                    str(i), str(workers), str(deadline)], stdout=out,
                                   stderr=subprocess.DEVNULL))
    runs, counters, cov, timeouts, errors = {}, {}, 0, [], 0
    for p, out in zip(ps, outs):
        errors += p.wait() != 0
        out.seek(0)
        for line in out.read().decode(errors="replace").splitlines():
            if line.startswith(("R ", "V ")):
                head, _, msg = line.partition("|")
                f = head.split(" ")
                runs[int(f[1])] = dict(ok=f[0] == "R", hash=f[2], inter=f[3], steps=int(f[4]), rand=int(f[5]),
                                       op=int(f[6]), kind=f[7] if len(f) > 7 else "", msg=msg)
            elif line.startswith("T "):
                timeouts.append(int(line.split()[1]))
            elif line.startswith("C"):
                for kv in line.split()[1:]:
                    k, v = kv.split("=")
                    counters[k] = counters.get(k, 0) + int(v)
            elif line.startswith("M "):
                cov |= int(line[2:], 16)
        out.close()
    return runs, counters, bin(cov).count("1"), timeouts, errors


def gen(binary, prop, seed, thorough):
    return subprocess.run([binary, "gen", prop, str(seed), str(int(thorough))], stdout=subprocess.PIPE,
                          text=True, check=True).stdout


def minimise(binary, text, kind, budget_s=75):
    """ddmin over the operation list, then over the arguments of each operation."""
    head, *ops = text.strip().splitlines()
    end = time.time() + budget_s
    pool = cf.ThreadPoolExecutor(JOBS)

    def fails(candidates):
        if time.time() > end:
            return None
        for c, r in zip(candidates, pool.map(lambda c: execute(binary, "\n".join([head] + c) + "\n", 40), candidates)):
            if r.status == "violation" and r.kind == kind:
                return c
        return None

    n = 2
    while len(ops) >= 2 and time.time() < end:
        size = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        hit = None
        for i in range(0, len(cands), JOBS):
            hit = fails(cands[i:i + JOBS])
            if hit is not None:
                break
        if hit is not None:
            ops, n = hit, max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    changed = True
    while changed and time.time() < end:
        changed = False
        for i, op in enumerate(list(ops)):
            words = ops[i].split()
            cands = [ops[:i] + [" ".join(words[:k] + words[k + 1:])] + ops[i + 1:] for k in range(1, len(words))]
            if op.startswith("run ") or "sched=" in op:  # shorten the schedule
                for k, w in enumerate(words):
                    if w.startswith("sched="):
                        e = w[6:].split(",")
                        if len(e) > 1:
                            for part in (e[:len(e) // 2], e[len(e) // 2:], e[:-1], e[1:]):
                                cands.append(ops[:i] + [" ".join(words[:k] + ["sched=" + ",".join(part)] + words[k + 1:])] + ops[i + 1:])
            for j in range(0, len(cands), JOBS):
                hit = fails(cands[j:j + JOBS])
                if hit is not None:
                    ops, changed = hit, True
                    break
    pool.shutdown(wait=False)
    return "\n".join([head] + ops) + "\n"


# --------------------------------------------------------------------- known findings
def findings(prop):
    """Lines `finding: property=P16 kind=HOSTILE match=/regex/ plan=<file> what=<text>`.

    A finding matches one violation kind whose message matches the expression on a
    plan that satisfies `plan` (an expression over the plan text), nothing else.
    """
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=/(.*?)/ plan=/(.*?)/ what=(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(kind=m.group(2), msg=re.compile(m.group(3)), plan=re.compile(m.group(4), re.S),
                                what=m.group(5), hits=0))
    return out


# ------------------------------------------------------------------------------ check
def run_check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    print("property %s seed %d tier %s" % (prop, seed, tier), flush=True)
    binary = build()
    t_build = time.time() - t0
    cfg = RUNS[prop]
    count, cap = (cfg["thorough"], 640) if thorough else (cfg["quick"], 240)
    if os.environ.get("SIM_COUNT"):
        count = int(os.environ["SIM_COUNT"])
    first = 1 + (seed - 1) * 10_000_000
    known = findings(prop)

    # Regression plans: minimised histories of defects found (and repaired) before.
    plans = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.plan")))
    texts = {p: open(p).read() for p in plans}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        corpus = list(zip(plans, ex.map(lambda p: execute(binary, texts[p]), plans)))

    t1 = time.time()
    runs, counters, cells, timeouts, errors = batch(binary, prop, first, count, thorough, cap, JOBS)
    t_runs = time.time() - t1
    if errors or not runs or len(timeouts) > max(2, len(runs) // 50):
        print("error: %d workers failed, %d runs, %d wall-clock timeouts" % (errors, len(runs), len(timeouts)))
        sys.exit(2)

    # The same seeds again at another worker count: the event logs must agree.
    sample = min(cfg.get("recheck", 16), len(runs))
    again = batch(binary, prop, first, sample, thorough, 60, max(1, JOBS - 3))[0]
    both = [s for s in again if s in runs]
    mismatches = [s for s in both if again[s]["hash"] != runs[s]["hash"]]

    bad = [(p, texts[p], r.kind, r.msg, r.hash) for p, r in corpus if r.status == "violation"]
    bad += [(s, None, r["kind"], r["msg"], r["hash"]) for s, r in sorted(runs.items()) if not r["ok"]]
    reported, unrepro, suppressed = None, 0, 0
    for src, text, kind, msg, h in bad:
        if reported or unrepro >= 6:
            break
        if text is None:
            text = gen(binary, prop, src, thorough)
        a = execute(binary, text)
        b = execute(binary, text)
        if not (a.status == "violation" and a.same(b) and a.hash == h and a.kind == kind):
            unrepro += 1
            print("not reproducible: %s %s|%s (%s|%s, %s|%s)" % (src, kind, msg[:120], a.status, a.msg[:80], b.status, b.msg[:80]))
            continue
        f = next((f for f in known if f["kind"] == kind and f["msg"].search(msg) and f["plan"].search(text)), None)
        if f:
            f["hits"] += 1
            suppressed += 1
            continue
        reported = (src, text, kind, msg)

    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    replay = None
    if reported:
        src, text, kind, msg = reported
        small = minimise(binary, text, kind)
        r = execute(binary, small)
        if not (r.status == "violation" and r.kind == kind and execute(binary, small).same(r)):
            small, r = text, execute(binary, text)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        tag = src if isinstance(src, int) else os.path.basename(src).replace(".plan", "")
        replay = os.path.join(HERE, "replays", "%s-%s.plan" % (prop, tag))
        with open(replay, "w") as o:
            o.write("# violation of %s: %s %s\n# found at %s (VERIF_SEED=%d, tier %s); minimised from %d to %d operations\n"
                    "# expect kind=%s hash=%s\n# original plan:\n" %
                    (prop, r.kind, r.msg, "seed %d" % src if isinstance(src, int) else "corpus plan " + tag, seed, tier,
                     len(text.splitlines()) - 1, len(small.splitlines()) - 1, r.kind, r.hash))
            for line in text.splitlines():
                o.write("#   " + line + "\n")
            o.write(small)
        print("%s: %s" % (r.kind, r.msg))
        print("minimised history:\n" + small, end="")

    write_evidence(prop, tier, seed, binary, first, runs, counters, cells, timeouts, corpus, both, mismatches,
                   unrepro, suppressed, known, bool(reported), time.time() - t0, t_build, t_runs, thorough)
    print("%s: %d runs, %d failing, %d distinct, %.0f s (build %.0f s)" %
          (prop, len(runs), len(bad), len({r["hash"] for r in runs.values()}), time.time() - t0, t_build))
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if unrepro:
        print("error: %d violations did not reproduce" % unrepro)
        sys.exit(2)
    sys.exit(0)


FAULTS = ["alloc_failures", "stream_failures", "crashes", "preemptions", "adversarial_rand", "hostile_values",
          "factor_failures", "invalid_calls", "guarded_blocks", "ill_posed", "stalled_steps", "environments"]


def write_evidence(prop, tier, seed, binary, first, runs, counters, cells, timeouts, corpus, both, mismatches,
                   unrepro, suppressed, known, violated, wall, t_build, t_runs, thorough):
    cfg = RUNS[prop]
    nontrivial = [r for r in runs.values() if r["steps"] > 2000 or prop == "P14" and r["steps"] > 200]
    samples = []
    for s in sorted(runs)[:: max(1, len(runs) // 3)][:3]:
        samples.append(dict(seed=s, plan=gen(binary, prop, s, thorough).splitlines(), steps=runs[s]["steps"],
                            event_hash=runs[s]["hash"], outcome="ok" if runs[s]["ok"] else runs[s]["kind"]))
    steps = sum(r["steps"] for r in runs.values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=int(violated),
        coverage=dict(
            evaluations=len(runs) + len(corpus),
            distinct_nontrivial=len({r["hash"] for r in nontrivial}),
            rule="One run is one plan generated from one seed (%d..%d) by sim/gen.cc and executed in its own process; "
                 "non-trivial: the code under test executed more than %d basic blocks; distinct: the hash over every "
                 "observable result of the run (return values, solution bytes, statistics, statuses) differs." %
                 (first, first + len(runs) - 1, 200 if prop == "P14" else 2000),
            samples=samples,
            seeds=[first, first + len(runs) - 1],
            runs_per_hour=int(len(runs) / max(t_runs, 1e-9) * 3600),
            simulated_time=dict(unit="basic blocks of code under test (the scheduler's clock)", total=steps,
                                longest_run=max(r["steps"] for r in runs.values())),
            random_draws_served=sum(r["rand"] for r in runs.values()),
            faults_injected={k: counters.get(k, 0) for k in FAULTS},
            operations={k: v for k, v in counters.items() if k not in FAULTS},
            distinct_histories=len({r["hash"] for r in runs.values()}),
            distinct_interleavings=len({r["inter"] for r in runs.values()}),
            interleaving_measure="hash of the sequence (thread, basic blocks run before the switch)",
            code_cells_reached=cells, code_cells_measure="basic blocks of conex hashed into 65536 cells",
            regression_plans=len(corpus),
            determinism=dict(seeds_rerun_at_other_worker_count=len(both), mismatches=len(mismatches)),
            wall_clock_timeouts=len(timeouts), unreproducible=unrepro,
            known_findings=[dict(what=f["what"], hits=f["hits"]) for f in known],
            scope=cfg["scope"],
            real_components="all of /repo/conex/*.cc and /repo/interfaces/conex.cc from the working tree, Eigen, "
                            "libstdc++ containers and iostreams",
            stubbed_components="malloc family (counted, filled, guarded, failed on command), rand/srand, stream "
                               "buffers behind cout/cerr, uninitialised stack, caller-thread scheduling "
                               "(basic-block granularity), static-initialisation guards and mutexes",
            build_s=round(t_build, 1), exploration_s=round(t_runs, 1)),
        assumptions=["A clean batch samples the space of histories; it is evidence, not proof.",
                     "x86-64, g++ -O2, Eigen assertions off as in the shipped build."])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    binary = build()
    text = open(path).read()
    m = re.search(r"# expect kind=(\S*) hash=(\w+)", text)
    r = execute(binary, text)
    print("%s %s hash=%s: %s" % (r.status, r.kind, r.hash, r.msg))
    if r.status == "violation":
        if m and (m.group(1), m.group(2)) != (r.kind, r.hash):
            print("differs from the recorded violation (kind=%s hash=%s)" % m.groups())
        prop = re.search(r"prop=(\S+)", re.sub(r"(?m)^#.*$", "", text)).group(1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0 if r.status == "ok" else 2)


def determinism(props):
    binary, rc = build(), 0
    for p in props or sorted(RUNS):
        n = RUNS[p]["quick"] // 4 + 8
        a = batch(binary, p, 1, n, False, 300, JOBS)[0]
        b = batch(binary, p, 1, n, False, 300, 3)[0]
        diff = [s for s in a if s in b and (a[s]["hash"], a[s]["inter"], a[s]["steps"]) != (b[s]["hash"], b[s]["inter"], b[s]["steps"])]
        print("%s: %d seeds twice (%d and 3 workers), %d differ %s" % (p, len(a), JOBS, len(diff), diff[:5]), flush=True)
        rc |= bool(diff)
    sys.exit(rc)


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "run" and sys.argv[2] in RUNS:
        run_check(sys.argv[2])
    elif len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif sys.argv[1:] == ["build"]:
        print(build())
    elif len(sys.argv) >= 2 and sys.argv[1] == "determinism":
        determinism(sys.argv[2:])
    else:
        print(__doc__)
        sys.exit(2)
