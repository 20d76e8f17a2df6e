#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions of /repo's current tree.

check.py PROP            explore (VERIF_SEED, VERIF_TIER); exit 0 held, 1 violation, 2 no answer
check.py --replay FILE   re-execute a replay file; exit 1 and the violation if it still fails
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import props as P

WORKERS = max(1, min(8, os.cpu_count() or 1))
EVID = VERIF + "/evidence"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


PY_SCENARIOS = ("pysplit", "pybatch", "pycmd", "shp")


def needs_python(prop):
    return bool(P.PROPS[prop].get("python") or P.PROPS[prop].get("also_python"))


def is_python(path):
    """whether a specification is executed by the Python runner"""
    with open(path) as f:
        return any(l.split()[:1] == ["scenario"] and l.split()[1] in PY_SCENARIOS for l in f)


def runner(python, bindir):
    if python:
        return [B.PYPY, VERIF + "/py/simpy.py"], dict(os.environ, SIM_BIN=bindir, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return [bindir + "/simrun"], dict(os.environ)


def tmpdir():
    # the scratch directories of the simulated disk: prefer memory
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="capi-sim-", dir=base)
            except OSError:
                pass
    return tempfile.mkdtemp(prefix="capi-sim-")


def replay(cmd, env, spec_path, scratch, timeout=120):
    """Executes a specification in a fresh process: (kind, text, result) with kind None when nothing was violated."""
    try:
        p = subprocess.run(cmd + ["replay", spec_path, "--scratch", scratch], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=timeout)
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return ("harness", "replay gave no result", {})
    if r.get("harness"):
        return ("harness", r.get("text", ""), r)
    return (r["kind"] if r["violation"] else None, r["text"], r)


def parse_lines(text):
    return [l for l in text.splitlines() if l.strip() and not l.startswith("#")]


KEEP = ("prop", "scenario", "seed")


def minimise(cmd, env, lines, kind, work, budget):
    """Drops schedule decisions, faults and inputs as long as the same kind of violation remains."""
    t0 = time.time()
    tried = [0]

    def fails(cands):
        """index of the first candidate that still fails (candidates run in parallel)"""
        def one(k):
            d = "%s/m%d" % (work, k)
            os.makedirs(d + "/scratch", exist_ok=True)
            with open(d + "/x.spec", "w") as f:
                f.write("\n".join(cands[k]) + "\n")
            return replay(cmd, env, d + "/x.spec", d + "/scratch", 60)[0] == kind
        tried[0] += len(cands)
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for k, ok in enumerate(ex.map(one, range(len(cands)))):
                if ok:
                    return k
        return None

    n = 2
    while time.time() - t0 < budget:
        idx = [i for i, l in enumerate(lines) if l.split()[0] not in KEEP]
        if not idx:
            break
        n = min(n, len(idx))
        size = (len(idx) + n - 1) // n
        chunks = [set(idx[i:i + size]) for i in range(0, len(idx), size)]
        hit = None
        for b in range(0, len(chunks), WORKERS):
            part = chunks[b:b + WORKERS]
            cands = [[l for i, l in enumerate(lines) if i not in c] for c in part]
            k = fails(cands)
            if k is not None:
                hit = cands[k]
                break
            if time.time() - t0 > budget:
                break
        if hit is not None:
            lines = hit
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(idx), n * 2)
    return lines, tried[0]


def known_findings(prop):
    out = []
    try:
        with open(VERIF + "/known-findings.txt") as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) match=/(.*)/ what=(.*)", l.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def explore(prop, tier, seed):
    t_start = time.time()
    cfg = P.PROPS[prop]
    try:
        bindir = B.build(with_python=needs_python(prop))
    except B.BuildError as e:
        log(e)
        log("the simulator or the code under test does not build")
        return 2
    t_build = time.time() - t_start
    work = tmpdir()
    groups = [(bool(cfg.get("python")),) + cfg[tier]]
    if cfg.get("also_python"):
        groups.append((True,) + cfg["also_python"][tier])
    try:
        stats = []
        search = 0.0
        for g, (python, count, wall) in enumerate(groups):
            cmd, env = runner(python, bindir)
            per = (count + WORKERS - 1) // WORKERS
            procs = []
            for w in range(WORKERS):
                d = "%s/w%d-%d" % (work, g, w)
                os.makedirs(d + "/scratch")
                c = cmd + ["explore", "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(WORKERS), "--count", str(per), "--out", d, "--scratch", d + "/scratch", "--max-viol", "3", "--wall", str(wall), "--tier", tier]
                procs.append(subprocess.Popen(c, env=env, stdout=subprocess.DEVNULL, stderr=open(d + "/err", "w")))
            for p in procs:
                try:
                    p.wait(timeout=wall + 200)
                except subprocess.TimeoutExpired:
                    p.kill()
            some = []
            for w in range(WORKERS):
                try:
                    with open("%s/w%d-%d/stats.json" % (work, g, w)) as f:
                        some.append(json.load(f))
                except (OSError, ValueError):
                    with open("%s/w%d-%d/err" % (work, g, w)) as f:
                        log("worker %d gave no result: %s" % (w, f.read()[-1500:]))
            if not some:
                return 2
            stats += some
            search += max(s["wall_s"] for s in some)
            if any(s["violations"] for s in some):
                break
        S = merge(stats)
        files = sorted((f for f in glob.glob(work + "/w*/viol-*.spec")), key=lambda f: (int(re.search(r"viol-(\d+)", f).group(1)), f))
        known = known_findings(prop)
        seen_known = {}
        confirmed = None
        unstable = 0
        for f in files:
            os.makedirs(work + "/rs/scratch", exist_ok=True)
            cmd, env = runner(is_python(f), bindir)
            k1, t1, r1 = replay(cmd, env, f, work + "/rs/scratch")
            k2, t2, r2 = replay(cmd, env, f, work + "/rs/scratch")
            same = r1.get("trace") == r2.get("trace") and r1.get("obs") == r2.get("obs")
            # how far a process gets before the wall-clock fallback of "no-progress" ends it is not up to the simulator
            if k1 in (None, "harness") or k1 != k2 or not (same or "real time" in t1 + t2):
                unstable += 1
                log("not reproducible, ignored: %s (%s / %s)" % (os.path.basename(f), k1, k2))
                continue
            m = [w for rx, w in known if rx.search("%s: %s" % (k1, t1))]
            if m:
                seen_known[m[0]] = seen_known.get(m[0], 0) + 1
                continue
            confirmed = (f, k1, t1)
            break
        rc = 0
        minimised = None
        if confirmed:
            f, kind, text = confirmed
            lines = parse_lines(open(f).read())
            if os.path.exists(f + ".sw"):  # the recorded schedule instead of the generator's seed
                k, _, _ = replay(cmd, env, f + ".sw", work + "/rs/scratch")
                if k == kind:
                    lines = parse_lines(open(f + ".sw").read())
            before = len(lines)
            lines, tried = minimise(cmd, env, lines, kind, work, 45 if tier == "quick" else 120)
            text = symbolise(text, bindir)
            os.makedirs(EVID, exist_ok=True)
            out = "%s/replay-%s.spec" % (EVID, prop)
            with open(out, "w") as g:
                g.write("# %s: %s\n# python3 driver/check.py --replay %s\n" % (kind, text.replace("\n", " | "), out) + "\n".join(lines) + "\n")
            k, t, r = replay(cmd, env, out, work + "/rs/scratch")
            k2, t2, r2 = replay(cmd, env, out, work + "/rs/scratch")
            if k != kind or k2 != kind or (r.get("trace") != r2.get("trace") and "real time" not in t + t2):
                shutil.copy(f, out)
                t = text
            t = symbolise(t, bindir)
            minimised = {"lines_before": before, "lines_after": len(lines), "candidates_tried": tried, "kind": kind, "text": t}
            log("%s: %s" % (kind, t))
            print("VIOLATION property=%s replay=%s" % (prop, out), flush=True)
            rc = 1
        else:
            for w, c in seen_known.items():
                print("KNOWN-FINDING: property=%s %s" % (prop, w))
            if S["harness"]:
                log("harness errors: %d, first: %s" % (S["harness"], S["first_harness"]))
                if S["harness"] * 20 > S["runs"]:
                    rc = 2
            if unstable:
                log("%d reported executions were not reproducible" % unstable)
        evidence(prop, tier, seed, cfg, S, search, t_build, time.time() - t_start, rc, minimised, unstable, seen_known)
        log("%s: %d runs in %.1f s (+ %.1f s build), %d violations" % (prop, S["runs"], search, t_build, S["violations"]))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def symbolise(text, bindir):
    """names the places in the code under test that a message gives as offsets into its library"""
    lib = bindir + "/libcapi_sim.so"
    found = sorted(set(re.findall(r"libcapi_sim\.so\+(0x[0-9a-f]+)", text)))
    if not found or not os.path.exists(lib):
        return text
    try:
        out = subprocess.run(["addr2line", "-aCfie", lib] + found, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30).stdout.splitlines()
    except (OSError, subprocess.TimeoutExpired):
        return text
    frames, cur = {}, None  # address -> [(function, place), ...], innermost first
    for i, l in enumerate(out):
        if re.fullmatch(r"0x[0-9a-f]+", l):
            cur = frames.setdefault(int(l, 16), [])
            base = i
        elif cur is not None and (i - base) % 2:
            cur.append((l, out[i + 1] if i + 1 < len(out) else ""))
    for a in found:
        fs = [(f.split("(")[0], w.split(" (")[0]) for f, w in frames.get(int(a, 16), []) if not w.startswith("??")]
        if not fs:
            continue
        f, w = next((x for x in fs if not x[1].startswith("/usr/")), fs[0])
        text = re.sub(r"libcapi_sim\.so\+" + a + r"\b", "%s (%s)" % (f, os.path.basename(w)), text)
    return text


def merge(stats):
    S = {"inter": set(), "obs": set(), "trace": set(), "probes": {}, "faults": {}, "scenarios": {}, "policies": {}, "samples": [], "first_harness": ""}
    for s in stats:
        for k, v in s.items():
            if k in ("inter", "obs", "trace"):
                S[k].update(v)
            elif k in ("probes", "faults", "scenarios", "policies"):
                for a, b in v.items():
                    S[k][a] = S[k].get(a, 0) + b
            elif k == "samples":
                S[k] += v[:1]
            elif k in ("max_threads", "most_steps"):
                S[k] = max(S.get(k, 0), v)
            elif k == "first_harness":
                S[k] = S[k] or v
            elif isinstance(v, (int, float)):
                S[k] = S.get(k, 0) + v
    return S


def evidence(prop, tier, seed, cfg, S, search, t_build, wall, rc, minimised, unstable, seen_known):
    os.makedirs(EVID, exist_ok=True)
    search = search or 1e-9
    distinct = len(S[cfg.get("measure", "inter")])
    cov = {
        "evaluations": S["runs"],
        "distinct_nontrivial": distinct,
        "rule": cfg["rule"],
        "samples": S["samples"][:3],
        "runs_per_hour": int(S["runs"] / search * 3600),
        "seeds_per_hour": int(S["runs"] / search * 3600),
        "simulated_processes": S.get("processes", 0),
        "simulated_time_s": round(S.get("sim_time_s", 0), 3),
        "simulated_steps": S.get("steps", 0),
        "most_steps_of_one_process": S.get("most_steps", 0),
        "faults_injected": {k: v for k, v in S["faults"].items() if v},
        "fault_kinds_never_injected_here": sorted(k for k, v in S["faults"].items() if not v),
        "rare_conditions_reached": {k: v for k, v in S["probes"].items() if v},
        "scheduling": {"policies": S["policies"], "preemptions": S.get("switches", 0), "forced_switches": S.get("forced", 0), "recorded_decisions": S.get("recorded_switches", 0), "parallel_regions": S.get("regions", 0), "most_threads_at_once": S.get("max_threads", 0)},
        "distinct_interleavings": len(S["inter"]),
        "interleaving_measure": "hash over the sequence of control transfers of a run (from thread, to thread, after how many instrumented steps) and of the faults and crashes that struck (which call, which error)",
        "distinct_executions": len(S["trace"]),
        "distinct_observations": len(S["obs"]),
        "io_calls_simulated": S.get("io_ops", 0),
        "mapped_stores_simulated": S.get("map_stores", 0),
        "simulated_crashes": S.get("crashes", 0),
        "allocations_served": S.get("allocs", 0),
        "determinism_rechecks": S.get("rechecked", 0),
        "determinism_mismatches": S.get("nondet", 0),
        "not_reproducible": unstable,
        "harness_errors": S.get("harness", 0),
        "scenarios": S["scenarios"],
        "real_components": cfg["real"],
        "stub_components": cfg["stub"],
        "build_s": round(t_build, 1),
    }
    if minimised:
        cov["minimisation"] = minimised
    if seen_known:
        cov["known_findings_seen"] = seen_known
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": P.ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": 1 if rc == 1 else 0}
    with open("%s/%s.json" % (EVID, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def do_replay(path):
    lines = parse_lines(open(path).read())
    prop = next(l.split()[1] for l in lines if l.split()[0] == "prop")
    try:
        bindir = B.build(with_python=needs_python(prop))
    except B.BuildError as e:
        log(e)
        return 2
    cmd, env = runner(is_python(path), bindir)
    work = tmpdir()
    try:
        os.makedirs(work + "/rs/scratch")
        k, t, r = replay(cmd, env, path, work + "/rs/scratch")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if k == "harness":
        log(t)
        return 2
    if k is None:
        print("held")
        return 0
    print("%s: %s" % (k, t))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(do_replay(os.path.abspath(sys.argv[2])))
    if len(sys.argv) < 2 or sys.argv[1] not in P.PROPS:
        log(__doc__)
        sys.exit(2)
    tier = os.environ.get("VERIF_TIER", "quick")
    if sys.argv[2:3] == ["--tier"]:
        tier = sys.argv[3]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(explore(sys.argv[1], tier, seed))
