#!/usr/bin/env python3
"""Runs the simulation that decides one property of colorz.

    check.py PROP [--tier quick|thorough]   the check (VERIF_SEED, VERIF_TIER)
    check.py --replay FILE                  reproduce a reported violation
    check.py --setup                        build every configuration
    check.py --determinism [N]              self-test: same seed, same run

Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=.. replay=..".
Exit 2: the machinery could not give an answer.
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("COLORZ_REPO", "/repo")
TARGET = os.path.join(SIM, "target")
REPLAYS = os.path.join(HERE, "replays")

CONFIGS = {
    "none": "",
    "std": "std",
    "sc": "alloc,supports-color",
    "stdsc": "std,supports-color",
    "strip": "alloc,strip-colors",
    "stdstrip": "std,strip-colors",
    "scstrip": "supports-color,strip-colors",
    "stdscstrip": "std,supports-color,strip-colors",
}
LABEL = {  # as simc prints it
    "none": "none", "std": "std", "sc": "supports-color", "stdsc": "std+supports-color",
    "strip": "strip-colors", "stdstrip": "std+strip-colors",
    "scstrip": "supports-color+strip-colors", "stdscstrip": "std+supports-color+strip-colors",
}

# half of the configurations without debug assertions and overflow checks in
# colorz, as released programs are built
RELEASE = {"none", "stdsc", "stdstrip", "scstrip"}

# property -> {configuration: share of the runs}
PLAN = {
    "C01": {"none": 3, "std": 5, "sc": 3, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C02": {"none": 2, "std": 6, "sc": 4, "stdsc": 3, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C03": {"none": 4, "std": 6, "sc": 2, "stdsc": 1, "strip": 2, "stdstrip": 2, "scstrip": 1, "stdscstrip": 1},
    "C04": {"none": 4, "std": 2, "sc": 2, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C05": {"strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C06": {"std": 2, "sc": 2, "stdsc": 2},
    "C07": {"none": 4, "std": 4, "sc": 2, "stdsc": 1, "strip": 2, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C08": {c: 1 for c in CONFIGS},
    "C09": {"none": 5, "std": 4, "sc": 2, "stdsc": 1, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C10": {"std": 4, "stdsc": 2, "stdstrip": 2, "stdscstrip": 1},
    "C11": {"none": 4, "std": 4, "sc": 2, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C12": {"none": 4, "std": 4, "sc": 2, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C13": {"none": 2, "std": 2, "sc": 2, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C15": {"none": 4, "std": 4, "sc": 2, "stdsc": 2, "strip": 2, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C16": {"none": 4, "std": 4, "sc": 2, "stdsc": 2, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
    "C14": {"none": 1, "std": 4, "sc": 4, "stdsc": 3, "strip": 1, "stdstrip": 1, "scstrip": 1, "stdscstrip": 1},
}
BROKEN = []  # configurations that do not build on this tree
RUNS = {"quick": 200_000, "thorough": 3_000_000}
CAP = {"quick": 240, "thorough": 700}  # seconds of exploration
CHUNK = 250
SHRINK = 60

RULE = (
    "One evaluation is one simulated run in a process of its own: a plan (initial environment, terminals and "
    "settings, operations of 1-4 tasks, faults, lost threads) and a schedule, both drawn from one seed.  A run is "
    "non-trivial if its oracle judged at least one call and the run contained at least one context switch inside a "
    "call of the library or at least one fault that actually happened; distinct runs differ in the plan or in the "
    "hash over their event sequence (which task did which atomic operation, libc call, write or value step, when)."
)
ASSUME = [
    "colorz and the driver instantiating its generic code are compiled at opt-level 0/1 with ThreadSanitizer's atomics "
    "instrumentation; compiler reorderings of a release build are covered only as far as the C11 memory model allows them",
    "the simulated memory model: sequential consistency, or (weak runs) per-location store histories with release/acquire "
    "clocks and stale reads; it has no out-of-thin-air or load-buffering executions",
    "searched by seeded sampling: a clean batch is evidence, not proof",
]
STUB = {
    "real": ["colorz (whole crate, from /repo's working tree)", "core/alloc/std formatting, std::env, std::io::IsTerminal",
             "supports-color and is_ci (configurations with supports-color)"],
    "simulated": ["thread scheduling", "memory order of atomics", "getenv (process environment)", "isatty (terminals)",
                  "clock_gettime, getrandom", "write, writev, open64, setenv, unsetenv by the library itself (never happen on the unchanged tree)",
                  "futex, sched_yield, nanosleep", "the global allocator (fails on demand)", "the destination (fmt::Write / io::Write)",
                  "the wrapped values", "the terminal that shows the output"],
}


def die(msg):
    print(f"ERROR {msg}", flush=True)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"),):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(cfg, th):
    """Builds the simulator of one configuration from /repo's working tree."""
    tdir = os.path.join(TARGET, cfg)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    env.pop("RUSTC", None)
    env.update(
        RUSTC_BOOTSTRAP="1", RUSTC_WRAPPER=os.path.join(SIM, "wrap.sh"),
        RUSTFLAGS="-Cunsafe-allow-abi-mismatch=sanitizer", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    )
    mark = os.path.join(tdir, "tree")
    old = open(mark).read() if os.path.exists(mark) else None
    if old is not None and old != th:  # do not rely on time stamps
        subprocess.run(["cargo", "clean", "--offline", "-p", "colorz", "--target-dir", tdir], cwd=SIM, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "--target-dir", tdir]
    if cfg in RELEASE:
        for opt in ("debug-assertions", "overflow-checks"):
            cmd += ["--config", f"profile.dev.package.colorz.{opt}=false"]
    if CONFIGS[cfg]:
        cmd += ["--features", CONFIGS[cfg]]
    p = subprocess.run(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return p.stdout[-3000:]
    open(mark, "w").write(th)
    return None


def build_all(cfgs):
    th = tree_hash()
    with cf.ThreadPoolExecutor(8) as ex:
        for cfg, err in zip(list(cfgs), ex.map(lambda c: build(c, th), list(cfgs))):
            if err:
                # what does not compile cannot misbehave; the others are explored
                print(f"WARNING configuration {LABEL[cfg]} does not build on this tree and is left out:\n{err[-1500:]}", flush=True)
                BROKEN.append(cfg)
    cfgs = [c for c in cfgs if c not in BROKEN]
    if not cfgs:
        die("the simulator builds in no configuration of this property")
    for cfg in cfgs:
        got = subprocess.run([simc(cfg), "config"], capture_output=True, text=True).stdout.strip()
        if got != LABEL[cfg]:
            die(f"configuration {cfg} was built as {got!r}")
    return cfgs


def simc(cfg):
    return os.path.join(TARGET, cfg, "debug", "simc")


def replay_cmd(path):
    return f"python3 {os.path.join(HERE, 'check.py')} --replay {path}"


def explore(prop, tier, seed, workers, scratch, runs=None):
    """The search.  The outcome does not depend on the number of workers."""
    shares = {c: n for c, n in PLAN[prop].items() if c not in BROKEN}
    total = sum(shares.values())
    runs = runs or RUNS[tier]
    chunks = []
    for cfg in shares:
        ci = list(CONFIGS).index(cfg)
        n = max(CHUNK, runs * shares[cfg] // total)
        for a in range(0, n, CHUNK):
            chunks.append((a, ci, cfg, min(a + CHUNK, n)))
    chunks.sort()
    t0 = time.time()
    best = None  # (index, config number, config, violation)
    results = []
    errors = []

    def one(chunk):
        a, ci, cfg, b = chunk
        left = CAP[tier] - (time.time() - t0)
        if left <= 0 or errors or (best is not None and (a, ci) > best[:2]):
            return None
        base = seed * 1000 + ci
        hf = os.path.join(scratch, f"h{ci}.{a}")
        p = subprocess.run([simc(cfg), "batch", prop, str(base), str(a), str(b), "1", str(int(left) + 1), hf],
                           capture_output=True, text=True)
        if p.returncode:
            errors.append(f"simulator: exit {p.returncode}: {p.stderr[-500:]}")
            return None
        return (chunk, json.loads(p.stdout), hf)

    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, c) for c in chunks]
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                continue
            results.append(r)
            v = r[1].get("violation")
            if v:
                if v["class"] == "harness":
                    errors.append(v["msg"] + f" (seed {v['seed']})")
                cand = (v["index"], r[0][1], r[0][2], v)
                if best is None or cand[:2] < best[:2]:
                    best = cand
    if errors:
        die("; ".join(errors[:3]))
    return results, best, time.time() - t0


def report(prop, cfg, v):
    """Minimises, writes the replay file and proves that it reproduces."""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{cfg}-{v['seed']}.replay")
    last = ""
    for secs in (SHRINK, 0):
        p = subprocess.run([simc(cfg), "shrink", prop, str(v["seed"]), path, str(secs)], capture_output=True, text=True)
        if p.returncode:
            last = p.stdout + p.stderr
            continue
        codes = [subprocess.run([simc(cfg), "replay", path], capture_output=True, text=True).returncode for _ in range(2)]
        if codes == [1, 1]:
            print(f"{prop}: {v['msg']}")
            print(f"{prop}: found in configuration {LABEL[cfg]}, seed {v['seed']}; after minimisation: "
                  + p.stdout.strip().replace("\n", "; "))
            print(f"{prop}: reproduce with: {replay_cmd(path)}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return True
        last = f"replay exit codes {codes}"
    print(f"{prop}: seed {v['seed']} ({LABEL[cfg]}) failed with {v['class']}: {v['msg']}, but does not replay: {last}")
    return False


def digest(prop, cfgs):
    out = {}
    for cfg in cfgs:
        out[cfg] = subprocess.run([simc(cfg), "digest", prop], capture_output=True, text=True).stdout.splitlines()
    return out


def digest_mismatch(prop, cfgs):
    """First output that differs between configurations."""
    d = digest(prop, cfgs)
    ref = cfgs[0]
    n = len(d[ref])
    for cfg in cfgs:
        for i, (a, b) in enumerate(zip(d[ref], d[cfg])):
            if a != b:
                return n, (ref, cfg, i, a, b)
        if len(d[cfg]) != n:
            return n, (ref, cfg, min(n, len(d[cfg])), f"{n} sequences", f"{len(d[cfg])} sequences")
    return n, None


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, len(os.sched_getaffinity(0)))
    t0 = time.time()
    print(f"{prop}: seed {seed}, tier {tier}, {workers} workers", flush=True)
    cfgs = build_all(list(PLAN[prop]))
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="colorz-sim-")
    bad = False
    extra = {}
    try:
        results, best, secs = explore(prop, tier, seed, workers, scratch)
        if best is not None:
            if not report(prop, best[2], best[3]):
                die("a failing run did not replay: the simulator is not deterministic on this tree")
            bad = True
        compared = {"C08": cfgs, "C16": [c for c in cfgs if "strip" not in c]}.get(prop, [])
        if len(compared) > 1:
            n, mm = digest_mismatch(prop, compared)
            extra["outputs_compared_between_configurations"] = n
            extra["configurations_compared"] = [LABEL[c] for c in compared]
            if mm and not bad:
                a, b, i, x, y = mm
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, f"{prop}-digest-{a}-{b}-{i}.replay")
                open(path, "w").write(f"colorz-simulation-replay 1\nkind digest\nproperty {prop}\nconfigs {a} {b}\nindex {i}\n"
                                      f"{LABEL[a]}: {x}\n{LABEL[b]}: {y}\n")
                print(f"{prop}: the same request is written differently in two feature configurations:\n  {LABEL[a]}: {x}\n  {LABEL[b]}: {y}")
                print(f"VIOLATION property={prop} replay={path}", flush=True)
                bad = True
        evidence(prop, tier, seed, workers, results, secs, tb, time.time() - t0, bad, extra)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not bad:
        print(f"{prop}: held on everything explored")
    sys.exit(1 if bad else 0)


def evidence(prop, tier, seed, workers, results, secs, tb, wall, bad, extra):
    runs, distinct, faulty = 0, set(), 0
    counters, ops, percfg, samples = {}, {}, {}, []
    for (a, ci, cfg, b), r, hf in sorted(results, key=lambda x: x[0][:2]):
        runs += r["runs"]
        faulty += r["with_fault"]
        percfg[LABEL[cfg]] = percfg.get(LABEL[cfg], 0) + r["runs"]
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max") else counters.get(k, 0) + v
        for k, v in r["operations"].items():
            ops[k] = ops.get(k, 0) + v
        data = open(hf, "rb").read()
        distinct.update((ci, data[i:i + 8]) for i in range(0, len(data), 8))
        if len(samples) < 3 and r["samples"]:
            samples.append(f"configuration {LABEL[cfg]}, {r['samples'][0]}")
    fault_names = ["stale_reads", "lost_threads", "destination_errors", "torn_writes", "short_writes", "eintr", "destination_panics",
                   "value_errors", "value_panics", "calls_while_unwinding", "reentrant_calls", "environment_changes", "terminal_changes",
                   "calls_with_failing_allocator"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(distinct),
        "rule": RULE,
        "samples": samples,
        "exhaustive": False,
        "seeds": runs,
        "seeds_from": f"mix(VERIF_SEED * 1000 + configuration number, 0..), VERIF_SEED={seed}",
        "runs_per_configuration": percfg,
        "configurations_not_building": [LABEL[c] for c in BROKEN],
        "runs_per_hour": round(runs / max(secs, 1e-9) * 3600),
        "exploration_s": round(secs, 1),
        "build_s": round(tb, 1),
        "workers": workers,
        "simulated_time_steps": counters.get("steps", 0),
        "simulated_clock_ms": counters.get("simulated_ms", 0),
        "clock_reads": counters.get("clock_reads", 0),
        "simulated_time_note": "simulated time is counted in scheduling steps (atomic operations, libc calls, value and destination "
                               "steps, call boundaries); a simulated clock, which jumps as the seed wills, stands behind "
                               "clock_gettime and sleeping, but colorz does not read it on the unchanged tree",
        "calls_judged": counters.get("judged", 0),
        "calls_made": counters.get("calls", 0),
        "runs_with_a_fault": faulty,
        "faults_injected": {k: counters.get(k, 0) for k in fault_names if counters.get(k, 0)},
        "schedule": {k: counters.get(k, 0) for k in ("context_switches", "switches_inside_calls", "atomic_operations", "getenv_calls",
                                                     "isatty_calls", "futex_waits", "repeated_calls", "max_steps_of_a_call", "stuck")},
        "operations": ops,
        "distinct_measure": "64-bit hash over the plan and the event sequence of a run",
        "components": STUB,
    }
    cov.update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME,
                   "wall_s": round(wall, 2), "violations": int(bad)}, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    print(f"{prop}: {runs} runs in {secs:.0f} s (build {tb:.0f} s), {len(distinct)} distinct and non-trivial, "
          f"{counters.get('judged', 0)} calls judged", flush=True)


def replay(path):
    head = open(path).read().split("\n--- trace")[0]
    get = lambda k: next((l[len(k) + 1:] for l in head.splitlines() if l.startswith(k + " ")), "")
    prop = get("property").strip()
    if get("kind") == "digest":
        cfgs = get("configs").split()
        build_all(cfgs)
        n, mm = digest_mismatch(prop, cfgs)
        print(mm if mm else "no difference any more")
        code = 1 if mm else 0
    else:
        cfg = next(c for c in CONFIGS if LABEL[c] == get("config").strip())
        build_all([cfg])
        code = subprocess.run([simc(cfg), "replay", path]).returncode
    if code == 1:
        print(f"VIOLATION property={prop} replay={path}")
    elif code == 0:
        print("the run of this replay file violates nothing on this tree")
    sys.exit(code if code in (0, 1) else 2)


def determinism(n):
    """The same seeds in different processes, with different numbers of
    processes at once, must give identical event logs and records."""
    build_all(list(CONFIGS))
    bad = 0
    jobs = [(p, c, 7000 + i) for i in range(4) for p in PLAN for c in PLAN[p]]

    def one(j):
        p, c, base = j
        return subprocess.run([simc(c), "hashes", p, str(base), str(n)], capture_output=True, text=True).stdout

    outs = []
    for workers in (8, 3, 16):
        with cf.ThreadPoolExecutor(workers) as ex:
            outs.append(list(ex.map(one, jobs)))
    total = 0
    for j, *os_ in zip(jobs, *outs):
        total += len(os_[0].splitlines())
        if any(o != os_[0] for o in os_) or len(os_[0].splitlines()) != n:
            print("DIFFERS", j)
            bad += 1
        for l in os_[0].splitlines():
            if l.split()[3] != "1":
                print("REPLAY DIFFERS", j, l)
                bad += 1
    print(f"{total} seeds, each run {2 * len(outs)} times in {len(jobs) * len(outs)} processes: {bad} differences")
    sys.exit(1 if bad else 0)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        replay(os.path.abspath(a[1]))
    elif a[:1] == ["--setup"]:
        build_all(list(CONFIGS))
        print("built", ", ".join(LABEL.values()))
    elif a[:1] == ["--determinism"]:
        determinism(int(a[1]) if len(a) > 1 else 40)
    elif a and a[0] in PLAN:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        check(a[0], tier if tier in RUNS else "quick")
    else:
        print(__doc__)
        sys.exit(2)


main()
