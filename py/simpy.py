"""The Python scenarios (C12, C13, C14) under the simulator.  Run by PyPy with the same command line as simrun; environment:
SIM_BIN (directory of the built simulator), SIM_REPO (tree of the code under test, default /repo)."""
import ctypes, os, sys

BIN = os.environ["SIM_BIN"]
REPO = os.environ.get("SIM_REPO", "/repo")
if os.environ.get("SIM_PY") != "1":
    env = dict(os.environ, SIM_PY="1", LD_PRELOAD=BIN + "/libsim.so", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYPY_GC_NURSERY="128MB", SIM_KEEP_STDERR=os.environ.get("SIM_KEEP_STDERR", ""))
    if not env["SIM_KEEP_STDERR"]:
        del env["SIM_KEEP_STDERR"]
    libc = ctypes.CDLL(None)
    per = libc.personality(ctypes.c_ulong(0xFFFFFFFF))
    libc.personality(ctypes.c_ulong(per | 0x0040000))  # no address randomisation
    os.execve(sys.executable, [sys.executable, "--jit", "off", "-s", os.path.abspath(__file__)] + sys.argv[1:], env)

import gc, importlib.machinery, importlib.util, io, math, traceback, warnings

sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
L = ctypes.CDLL(BIN + "/libcapi_sim.so")
for f in "simx_spec simx_scratch simx_result simx_ref_graph simx_ref_merge simx_part_problem simx_save_graph simx_load_text simx_ref_path simx_diff simx_io_leaks".split():
    getattr(L, f).restype = ctypes.c_char_p
for f in "simx_io_used simx_io_ops simx_io_stores".split():
    getattr(L, f).restype = ctypes.c_int64
L.simx_io_crash_op.argtypes = [ctypes.c_uint64, ctypes.c_int]
L.simx_io_crash_store.argtypes = [ctypes.c_uint64]
L.simx_io_power.argtypes = [ctypes.c_uint64, ctypes.c_int]
L.simx_io_quota.argtypes = [ctypes.c_int64]

_name = "capi.src.implementation.visibility_graphs._vis_graph"
_spec = importlib.util.spec_from_file_location(_name, BIN + "/_vis_graph.so", loader=importlib.machinery.ExtensionFileLoader(_name, BIN + "/_vis_graph.so"))
_mod = importlib.util.module_from_spec(_spec)
sys.modules[_name] = _mod
_spec.loader.exec_module(_mod)
import shapefile
from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader

OK, VIOLATION, HARNESS, CRASH = 0, 66, 67, 68
PROBES = {n: i for i, n in enumerate("lock_wait slock_wait s2_lock _ _ _ _ _ edges crossing paths path_err long_path both save_ok save_err load_ok load_err old_kept new_seen absent op_threw op_ok item_err overlap worker_restart dup_part empty_part land concurrent periodic damaged_ok damaged_err reused_path refused_dir cmd_ok cmd_err read_ok read_err warnings swapped".split()) if n != "_"}
FK_STDOUT, FK_BADINPUT = 17, 23


class Stop(Exception):
    """the run has its verdict"""


def b(s):
    return s.encode() if isinstance(s, str) else s


def violation(kind, text):  # inside a simulated process
    L.simx_violation(b(kind), b(text[:3500]))


def probe(n):
    L.simx_probe(PROBES[n])


def phase(body, stdout_bad=False, pristine=False):
    """Runs body in a simulated process of its own; returns (outcome, result text)."""
    L.simx_phase()
    pid = os.fork()
    if pid == 0:
        try:
            gc.disable()
            L.simx_child(int(stdout_bad), int(pristine))
            L.simx_begin()
            body()
            L.simx_end()
            L.simx_exit(0)
        except BaseException:
            L.simx_harness(b(traceback.format_exc()[-1500:]))
        finally:
            os._exit(67)
    out = L.simx_wait(pid)
    if out in (VIOLATION, HARNESS):
        raise Stop
    return out, L.simx_result().decode()


def ref(p):
    if p is None:
        raise Stop
    return p.decode()


def deg(m):
    # a double that truncates to exactly m microdegrees
    return 0.0 if m == 0 else (m + (0.5 if m > 0 else -0.5)) / 1e6


def micro(d):
    return int(round(d * 1e6))


def spec():
    return [l.split() for l in L.simx_spec().decode().splitlines()]


def lines(S, key):
    return [l[1:] for l in S if l[0] == key]


def points(toks):
    return [tuple(int(v) for v in t.split(",")) for t in toks]


def graph_file(d):
    return b(GraphFilePaths(d).default_graph_path)


def text_of(path):
    return "path" + "".join(" %d,%d" % (micro(c.longitude), micro(c.latitude)) for c in path)


# ------------------------------------------------------------------------------------------------ C12
def run_pybatch(S, scratch):
    graphs = sorted({l[0][4:] for l in S if l[0].startswith("poly")})
    paths = []
    for g in graphs:
        d = scratch + "/graph" + g
        os.mkdir(d)
        ref(L.simx_save_graph(b("poly" + g), graph_file(d)))
        paths.append(d)
    calls = lines(S, "call")
    qs = {}
    for l in lines(S, "q"):
        qs.setdefault(l[0], []).append(l[1:])
    # the graph each call's interpolator has: what its file held when it was made
    texts = [open(graph_file(p), "rb").read() for p in paths]
    held = list(range(len(paths)))
    uses, made = [], {}
    for c in calls:
        i = int(c[1])
        if c[2] == "swap":
            held[i % len(paths)] = (held[i % len(paths)] + 1) % len(paths)
        elif c[2] == "new" or (c[2] != "gc" and i not in made):
            made[i] = held[i % len(paths)]
        uses.append(made.get(i, 0))
    want = {}
    for c, g in zip(calls, uses):
        for q in qs.get(c[0], []):
            key = (g, tuple(q))
            if key not in want:
                want[key] = ref(L.simx_ref_path(graph_file(paths[g]), b("q " + " ".join(q))))

    def body():
        computers, held = {}, list(range(len(paths)))

        def computer(i):
            if i not in computers:
                computers[i] = PathInterpolator(paths[i % len(paths)])
            return computers[i]

        for c, g in zip(calls, uses):
            i = int(c[1])
            if c[2] == "swap":
                held[i % len(paths)] = (held[i % len(paths)] + 1) % len(paths)
                with open(graph_file(paths[i % len(paths)]), "wb") as f:
                    f.write(texts[held[i % len(paths)]])
                continue
            if c[2] == "gc":
                gc.collect()
                continue
            if c[2] == "new":
                computers.pop(i, None)
                computer(i)
                continue
            items = qs.get(c[0], [])
            opts = items[0][4:7] if items else ["inf", "0", "1"]
            limit, correct, greed = float(opts[0]), opts[1] != "0", float(opts[2])
            names = ("search_distance_from_source_limit", "correct_vertices_on_land", "a_star_greediness_weighting")
            if c[3] == "positional":
                args, kw = (limit, correct, greed), {}
            elif c[3] == "keywords":
                args, kw = (), dict(zip(names, (limit, correct, greed)))
            else:  # only what differs from the defaults
                args, kw = (), {n: v for n, v, d in zip(names, (limit, correct, greed), (math.inf, False, 1.0)) if v != d}
            pairs = [(Coordinate(latitude=deg(int(q[1])), longitude=deg(int(q[0]))), Coordinate(latitude=deg(int(q[3])), longitude=deg(int(q[2])))) for q in items]
            given = [(p[0].latitude, p[0].longitude, p[1].latitude, p[1].longitude) for p in pairs]
            w = [want[(g, tuple(q))] for q in items]
            comp = computer(i)
            if c[2] == "one":
                for p, e in zip(pairs, w):
                    try:
                        path = comp.interpolate(p[0], p[1], *args, **kw)
                        got = text_of(path)
                        if isinstance(path, list):
                            path.reverse()  # the caller may do with its path what it likes
                        probe("paths")
                    except Exception as ex:
                        got = "error " + str(ex)
                        probe("path_err")
                    L.simx_observe(b(got))
                    if got != e:
                        violation("answer-mismatch", "interpolate of pair %s with limit %s correct %s greed %s answered '%s', a fresh computer '%s'" % (given, limit, correct, greed, got, e))
                continue
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                try:
                    res = comp.batch_interpolate(list(pairs), *args, **kw)
                except Exception as ex:
                    violation("batch-mismatch", "a batch of %d pairs failed as a whole: %s: %s" % (len(pairs), type(ex).__name__, ex))
            if len(res) != len(pairs):
                violation("batch-mismatch", "%d pairs gave %d entries" % (len(pairs), len(res)))
            failed = []
            for k, (r, e) in enumerate(zip(res, w)):
                L.simx_observe(b(str(r)))
                if e.startswith("error "):
                    failed.append(e[6:])
                    if r is not None:
                        violation("batch-mismatch", "entry %d of %d is %s, but the pair alone fails: %s" % (k, len(w), text_of(r), e))
                    probe("item_err")
                else:
                    if r is None:
                        violation("batch-mismatch", "entry %d of %d is None, but the pair alone gives '%s'" % (k, len(w), e))
                    got = text_of(r)
                    if got != e:
                        violation("batch-mismatch", "entry %d of %d is '%s', the pair alone gives '%s'" % (k, len(w), got, e))
                    probe("paths")
                    if len(r) > 2:
                        probe("long_path")
            for r in res:
                if isinstance(r, list):
                    del r[1:]
            msgs = [str(x.message) for x in caught]
            if len(msgs) != len(failed) or any(f not in m for f, m in zip(failed, msgs)):
                violation("batch-mismatch", "%d pairs failed (%s) but the warnings are %s" % (len(failed), failed, msgs))
            if failed:
                probe("warnings")
            if [(p[0].latitude, p[0].longitude, p[1].latitude, p[1].longitude) for p in pairs] != given:
                violation("batch-mismatch", "the batch changed the pairs it was given")

    phase(body)


# ------------------------------------------------------------------------------------------------ files
def snapshot(d):
    m = {}
    for base, ds, fs in os.walk(d):
        for x in ds:
            m[os.path.relpath(os.path.join(base, x), d) + "/"] = None
        for x in fs:
            with open(os.path.join(base, x), "rb") as f:
                m[os.path.relpath(os.path.join(base, x), d)] = f.read()
    return m


def wipe(d):
    for base, ds, fs in os.walk(d, topdown=False):
        for x in fs:
            os.unlink(os.path.join(base, x))
        for x in ds:
            os.rmdir(os.path.join(base, x))


def restore(d, m):
    wipe(d)
    for k in sorted(m):
        if k.endswith("/"):
            os.makedirs(d + "/" + k, exist_ok=True)
    for k, v in m.items():
        if v is not None:
            with open(d + "/" + k, "wb") as f:
                f.write(v)


def arm(faults, ops):
    nth, err, mode, desc = [], [], [], []
    for f in faults:
        n = min(ops, 1 + int(float(f[1]) * ops))
        nth.append(n)
        err.append(int(f[2]))
        mode.append(int(f[3]))
        desc.append("call %d of %d (%s)" % (n, ops, "short" if f[3] == "1" else os.strerror(int(f[2]))))
    k = len(nth)
    L.simx_io_arm(k, (ctypes.c_uint64 * max(k, 1))(*nth), (ctypes.c_int * max(k, 1))(*err), (ctypes.c_int * max(k, 1))(*mode))
    return ", ".join(desc)


def write_shapefile(path, shapes, shx=True, dbf=True, cpg=False):
    """shapes: None (a null record) or a list of rings, each a list of (longitude, latitude)."""
    w = shapefile.Writer(path, shapeType=shapefile.POLYGON)
    w.field("name", "C")
    for i, s in enumerate(shapes):
        if s is None:
            w.null()
        else:
            w.poly([[list(p) for p in ring] + [list(ring[0])] for ring in s])
        w.record("r%d" % i)
    w.close()
    if cpg:
        with open(path + ".cpg", "w") as f:
            f.write("UTF-8")
    for ext, keep in ((".shx", shx), (".dbf", dbf)):
        if not keep:
            os.unlink(path + ext)


# ------------------------------------------------------------------------------------------------ C13
class BadStdout(io.TextIOBase):
    def write(self, s):
        raise OSError(5, "the terminal went away")

    def flush(self):
        raise OSError(5, "the terminal went away")


def run_pycmd(S, scratch):
    rings = [points(l) for l in lines(S, "poly")]
    if not rings:
        return
    extra = int(lines(S, "extra")[0][0]) if lines(S, "extra") else 0
    shapes = [[[(deg(x), deg(y)) for x, y in r]] for r in rings]
    for k in range(extra):
        shapes.insert((k * 2) % (len(shapes) + 1), None)
    shp = scratch + "/in.shp"
    write_shapefile(scratch + "/in", shapes)
    texts = {}  # output directory -> text of the graph that is there
    full = None

    def dict_of(key):
        d = {}
        for l in lines(S, key):
            d.setdefault(l[0], []).append(l)
        return d

    crashes, faults, quotas, exists, stdouts, cuts = (dict_of(k) for k in ("crash", "fault", "quota", "exists", "stdout", "cut"))

    def command(c, out):
        if c[1] == "gen":
            GraphGenerator().generate(shp, out)
        elif c[1] == "range":
            GraphGenerator().generate_for_vertex_range(shp, out, int(c[3]), int(c[4]), int(c[5]))
        else:
            GraphMerger().merge([scratch + "/" + i for i in c[3:]], out)

    def uninterrupted(c):
        """the graph of the command in a process of its own, by one thread and without any fault"""
        d = scratch + "/ref"
        def alone():
            L.simx_io_start()
            command(c, d)
        phase(alone, pristine=True)
        t = ref(L.simx_load_text(graph_file(d)))
        wipe(d)
        os.rmdir(d)
        if not t.startswith("graph\n"):
            L.simx_mark_violation(b"silent-failure", b(" ".join(c[1:]) + " reported success, but its output does not load: " + t))
            raise Stop
        return t[6:]

    for c in lines(S, "cmd"):
        k, out = c[0], scratch + "/" + c[2]
        if os.path.exists(out):
            continue
        if c[1] == "merge":
            c = c[:3] + [i for i in c[3:] if i in texts]
            if len(c) == 3:
                continue
        full = full or ref(L.simx_ref_graph(b"poly"))
        if c[1] == "gen":
            want = full
        elif c[1] == "range":
            want = uninterrupted(c)
            bad = L.simx_part_problem(b(want), b(full)).decode()
            if bad:
                L.simx_mark_violation(b"wrong-graph", b(("%s holds what the full graph lacks: %s" % (" ".join(c[1:]), bad))[:3500]))
                raise Stop
        else:
            want = ref(L.simx_ref_merge(b"".join(graph_file(scratch + "/" + i) + b"\n" for i in c[3:])))
        what = " ".join(c[1:])

        def load(d):
            t = ref(L.simx_load_text(graph_file(d)))
            return t[6:] if t.startswith("graph\n") else None

        if k in exists:
            kind = exists[k][0][1]
            if kind == "file":
                with open(out, "w") as f:
                    f.write("something else")
            else:
                os.mkdir(out)
                if kind == "full":
                    for n in ("default", "notes"):
                        with open(out + "/" + n, "w") as f:
                            f.write("something else")
        before = snapshot(scratch)
        must_refuse = k in exists
        ops = stores = 0
        need = 65536
        if (k in crashes or k in faults or k in quotas) and not must_refuse:
            def counting():
                L.simx_io_start()
                used = L.simx_io_used()
                arm([], 1)
                command(c, out)
                L.simx_set_result(b("%d %d %d" % (L.simx_io_ops(), L.simx_io_stores(), L.simx_io_used() - used)))
            _, t = phase(counting)
            ops, stores, need = (int(x) for x in t.split())
            restore(scratch, before)
        trouble = []

        def body():
            L.simx_io_start()
            cut = cuts.get(k)
            if cut:
                L.simx_io_power(int(cut[0][1]), 1)
            desc = arm(faults.get(k, []) if ops else [], max(ops, 1))
            if k in quotas and not must_refuse:
                L.simx_io_quota(int(float(quotas[k][0][1]) * (need + 4096)) // 4096 * 4096)
                desc += " disk full"
            if k in crashes and ops:
                cr = crashes[k][0]
                at_op = cr[1] == "op" or stores == 0
                total = ops if at_op else stores
                n = min(total, 1 + int(float(cr[2]) * total))
                L.simx_io_power(int(cr[5]), int(cr[4] == "power"))
                if at_op:
                    L.simx_io_crash_op(n, int(cr[3] == "after"))
                else:
                    L.simx_io_crash_store(n)
            old, said = sys.stdout, ""
            if k in stdouts:
                mode = stdouts[k][0][1]
                L.simx_fired(FK_STDOUT)
                if mode == "closed":
                    sys.stdout = io.StringIO()
                    sys.stdout.close()
                elif mode == "raising":
                    sys.stdout = BadStdout()
                elif mode == "none":
                    sys.stdout = None
                said = " stdout " + mode
            err = None
            try:
                command(c, out)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
            sys.stdout = old
            L.simx_io_disarm()
            probe("cmd_ok" if err is None else "cmd_err")
            L.simx_observe(b(what + " " + str(err)))
            if err is None and must_refuse:
                violation("overwritten", "%s: the output path existed, but the command did not refuse" % what)
            if err is not None and not must_refuse and not desc:
                violation("command-failed", "%s (%s) failed without any fault: %s" % (what, said or "a sound stdout", err))
            desc += said
            leak = L.simx_io_leaks().decode()
            if leak and desc:  # a file object whose construction was struck is closed by its finaliser
                gc.collect()
                leak = L.simx_io_leaks().decode()
            if err is None and leak:
                violation("io-leak", "%s (%s) left open:%s" % (what, desc, leak))
            if err is None and cut:
                L.simx_io_cut()
            L.simx_set_result(b("%s\n%s" % (desc, "ok" if err is None else "err " + err)))

        stdout_full = k in stdouts and stdouts[k][0][1] == "full"
        out_code, t = phase(body, stdout_bad=stdout_full)
        desc, _, verdict = t.partition("\n")
        after = snapshot(scratch)
        rel = c[2]

        def fail(kind, text):
            L.simx_mark_violation(b(kind), b(text[:3500]))
            raise Stop

        state = "crashed" if out_code == CRASH else verdict
        for name, data in before.items():
            if name not in after or after[name] != data:
                fail("input-changed", "%s (%s; %s) changed or removed %s, which existed before" % (what, desc, state, name))
        for name in after:
            if name not in before and not (name == rel or name.startswith(rel + "/")):
                fail("input-changed", "%s (%s; %s) created %s outside its output directory" % (what, desc, state, name))
        if must_refuse:
            if set(after) != set(before):
                fail("overwritten", "%s: a refused command added %s" % (what, sorted(set(after) - set(before))))
            L.simx_probe(PROBES["refused_dir"])
            restore(scratch, {n: v for n, v in before.items() if n.rstrip("/") != rel and not n.startswith(rel + "/")})
        else:
            seen = load(out)
            if seen is not None and seen != want:
                fail("wrong-graph", "%s (%s; %s): the output directory loads as another graph: %s" % (what, desc, state, L.simx_diff(b(want), b(seen)).decode()))
            if verdict == "ok" and seen is None:
                fail("silent-failure", "%s (%s) reported success%s, but its output does not load" % (what, desc, " and the power went" if k in cuts else ""))
            if seen is not None:
                L.simx_probe(PROBES["new_seen"])
                texts[rel] = want
                continue
        # the command again, with a fresh directory and no fault
        again = rel + "again"
        def retry():
            L.simx_io_start()
            try:
                command(c, scratch + "/" + again)
            except Exception as e:
                violation("retry-failed", "%s repeated after '%s' (%s) failed: %s: %s" % (what, state, desc, type(e).__name__, e))
        phase(retry)
        seen = load(scratch + "/" + again)
        if seen != want:
            fail("retry-failed", "%s repeated after '%s' (%s) gave %s" % (what, state, desc, "no graph" if seen is None else "another graph: " + L.simx_diff(b(want), b(seen)).decode()))
        L.simx_probe(PROBES["absent"])
        if os.path.isdir(out) and not must_refuse:
            restore(out, {})
            os.rmdir(out)
        os.rename(scratch + "/" + again, out)
        texts[rel] = want


# ------------------------------------------------------------------------------------------------ C02
def run_pysplit(S, scratch):
    rings = [points(l) for l in lines(S, "poly")]
    if not rings or not lines(S, "split"):
        return
    n, seed = (int(x) for x in lines(S, "split")[0])
    shapes = [[[(deg(x), deg(y)) for x, y in r]] for r in rings]
    if lines(S, "extra") and lines(S, "extra")[0][0] != "0":
        shapes.insert(1, None)
    shp = scratch + "/in.shp"
    write_shapefile(scratch + "/in", shapes)
    full = ref(L.simx_ref_graph(b"poly"))
    crashes = {l[0]: l[1:] for l in lines(S, "crash")}
    covers, texts = {}, {}

    def fail(kind, text):
        L.simx_mark_violation(b(kind), b(text[:3500]))
        raise Stop

    if lines(S, "many"):
        n = min(n, 120)

        def body():
            L.simx_io_start()
            try:
                for i in range(n):
                    GraphGenerator().generate_for_vertex_range(shp, scratch + "/p%d" % i, i, n, seed)
                GraphMerger().merge([scratch + "/p%d" % i for i in range(n)], scratch + "/all")
            except Exception as e:
                violation("wrong-graph", "the commands for %d parts failed: %s: %s" % (n, type(e).__name__, e))

        phase(body)
        t = ref(L.simx_load_text(graph_file(scratch + "/all")))
        if t != "graph\n" + full:
            fail("wrong-graph", "all %d parts (seed %d) merged differ from a single generation: %s" % (n, seed, L.simx_diff(b(full), b(t[6:])).decode()))
        return
    for c in [l for l in S if l[0] in ("part", "merge")]:
        name, out = c[1], scratch + "/" + c[1]
        if name in texts:
            continue
        if c[0] == "part":
            covers[name] = {int(c[2]) % n}
            seen_before = [x for x in covers if x != name and covers[x] == covers[name]]
            if seen_before:
                L.simx_probe(PROBES["dup_part"])
        else:
            ins = [i for i in c[2:] if i in texts]
            if not ins:
                continue
            covers[name] = set().union(*(covers[i] for i in ins))
        what = " ".join(c)

        def command():
            if c[0] == "part":
                GraphGenerator().generate_for_vertex_range(shp, out, int(c[2]) % n, n, seed)
            else:
                GraphMerger().merge([scratch + "/" + i for i in ins], out)

        def body():
            L.simx_io_start()
            arm([], 1)
            if crash:
                at_op = crash[0] == "op" or not stores
                L.simx_io_power(int(crash[4]), int(crash[3] == "power"))
                if at_op:
                    L.simx_io_crash_op(min(ops, 1 + int(float(crash[1]) * ops)), int(crash[2] == "after"))
                else:
                    L.simx_io_crash_store(min(stores, 1 + int(float(crash[1]) * stores)))
            try:
                command()
            except Exception as e:
                violation("wrong-graph", "%s of %d parts failed: %s: %s" % (what, n, type(e).__name__, e))
            L.simx_set_result(b("%d %d" % (L.simx_io_ops(), L.simx_io_stores())))

        crash, ops, stores = None, 0, 0
        before = snapshot(scratch)
        code, t = phase(body)
        if name in crashes:
            ops, stores = (int(x) for x in t.split())
            restore(scratch, before)
            crash = crashes[name]
            code, _ = phase(body)
            crash = None
            if code == CRASH:  # another worker does it again
                L.simx_probe(PROBES["worker_restart"])
                if os.path.isdir(out):
                    restore(out, {})
                    os.rmdir(out)
                code, _ = phase(body)
        t = ref(L.simx_load_text(graph_file(out)))
        if not t.startswith("graph\n"):
            fail("wrong-graph", "%s of %d parts returned, but its output does not load: %s" % (what, n, t))
        t = texts[name] = t[6:]
        bad = L.simx_part_problem(b(t), b(full)).decode()
        if bad:
            fail("wrong-graph", "%s of %d parts holds what the full graph lacks: %s" % (what, n, bad))
        if len(covers[name]) == n and t != full:
            fail("wrong-graph", "%s holds all %d parts (seed %d) but differs from a single generation: %s" % (what, n, seed, L.simx_diff(b(full), b(t)).decode()))
        if c[0] == "merge":
            for i in ins:
                again = ref(L.simx_load_text(graph_file(scratch + "/" + i)))
                if again != "graph\n" + texts[i]:
                    fail("input-changed", "%s changed its input %s" % (what, i))


# ------------------------------------------------------------------------------------------------ C14
def new_leaks(before):
    """what is open now and was not before; a reader that failed is the shapefile library's to clean up"""
    def names(t):
        return t.replace(" mapping of ", " descriptor of ").split(" descriptor of ")[1:]
    a, c = names(before), names(L.simx_io_leaks().decode())
    for x in a:
        if x in c:
            c.remove(x)
    return " ".join(c)


def files_of(path):
    """suffix -> bytes of the files a shapefile is made of"""
    d, base = os.path.split(path)
    out = {}
    for name in sorted(os.listdir(d)):
        if name.startswith(base + "."):
            with open(d + "/" + name, "rb") as f:
                out[name[len(base):]] = f.read()
    return out


def install(path, files):
    for suffix in files_of(path):
        if suffix not in files:
            os.unlink(path + suffix)
    for suffix in sorted(files):
        with open(path + suffix, "wb") as f:
            f.write(files[suffix])


def run_shp(S, scratch):
    shapes, opts = {}, {}
    for l in lines(S, "shape"):
        rings = None
        if l[1] != "null":
            rings = [[]]
            for t in l[2:]:
                if t == "|":
                    rings.append([])
                else:
                    x, y = t.split(",")
                    rings[-1].append((deg(int(x)), deg(int(y))))
            rings = [r for r in rings if len(r) >= 3]
            if not rings:
                continue
        shapes.setdefault(l[0], []).append(rings)
    for l in lines(S, "files"):
        opts[l[0]] = l[1:]
    want, path = {}, {}
    for f in shapes:
        o = opts.get(f, ["1", "1", "0"])
        path[f] = scratch + "/f" + f
        write_shapefile(path[f], shapes[f], o[0] == "1", o[1] == "1", o[2] == "1")
        # what the format says: the rings as they were written (read back from the bytes, without the library)
        want[f] = rings_in(path[f] + ".shp")
        n = sum(1 for s in shapes[f] if s)
        if len(want[f]) != n:
            L.simx_mark_harness(b"the shapefile writer wrote other records than it was given")
            raise Stop
    faults = {}
    for l in lines(S, "fault"):
        faults.setdefault(l[0], []).append(l)
    reads = [r for r in lines(S, "read") if r[1] in path]
    swaps = {}
    for l in lines(S, "swap"):
        if l[1] in path and l[2] in path:
            swaps.setdefault(l[0], []).append((l[1], l[2]))
    first = {f: files_of(path[f]) for f in path}
    rings_of = dict(want)

    def swap(k, now=None):
        """before read k another file takes the place of f, as when a new edition of a map is installed"""
        for f, g in swaps.get(k, []):
            install(path[f], first[g])
            if now is not None:
                now[f] = rings_of[g]
                probe("swapped")

    def attempt(f, how):
        return ShapefileReader().read(path[f] + (".shp" if how == "0" else ""))

    counts = {}

    def counting():
        L.simx_io_start()
        t = []
        for r in reads:
            swap(r[0])
            arm([], 1)
            attempt(r[1], r[2])
            t.append(str(L.simx_io_ops()))
        L.simx_set_result(b(" ".join(t)))

    _, t = phase(counting)
    for r, n in zip(reads, t.split()):
        counts[r[0]] = int(n)
    for f in path:
        install(path[f], first[f])

    def body():
        L.simx_io_start()
        reader = ShapefileReader()
        for r in reads:
            swap(r[0], want)
            desc = arm(faults.get(r[0], []), max(counts[r[0]], 1))
            open_before = L.simx_io_leaks().decode()
            got = err = None
            try:
                got = reader.read(path[r[1]] + (".shp" if r[2] == "0" else ""))
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
            L.simx_io_disarm()
            L.simx_observe(b("%s %s" % (r, err)))
            if got is None and err is None:
                violation("wrong-polygons", "a read returned nothing")
            if err is not None:
                probe("read_err")
                if not desc:
                    violation("read-failed", "a read without any fault failed: %s" % err)
                continue
            probe("read_ok")
            rings = [[(c.longitude, c.latitude) for c in p.vertices] for p in got]
            if rings != want[r[1]]:
                w = want[r[1]]
                k = next((i for i, (a, c) in enumerate(zip(rings, w)) if a != c), min(len(rings), len(w)))
                violation("wrong-polygons", "a read (%s) gave %d polygons where the file holds %d; the first difference is at %d" % (desc or "no fault", len(rings), len(w), k))
            leak = new_leaks(open_before)
            if leak and desc:  # a file object whose construction was struck is closed by its finaliser
                gc.collect()
                leak = new_leaks(open_before)
            if leak:
                violation("io-leak", "a read (%s) that returned left open:%s" % (desc or "no fault", leak))
        # after all of this an undisturbed read still works
        for f in sorted(path):
            try:
                got = ShapefileReader().read(path[f] + ".shp")
            except Exception as e:
                violation("read-failed", "the last read, without any fault, failed: %s: %s" % (type(e).__name__, e))
            if [[(c.longitude, c.latitude) for c in p.vertices] for p in got] != want[f]:
                violation("wrong-polygons", "the last read, without any fault, gave other polygons")

    phase(body)


def rings_in(shp):
    """The first ring of every polygon record of a .shp file, without its closing point."""
    import struct
    data = open(shp, "rb").read()
    end = 2 * struct.unpack(">i", data[24:28])[0]
    o, out = 100, []
    while o < end:
        n = 2 * struct.unpack(">i", data[o + 4:o + 8])[0]
        rec = data[o + 8:o + 8 + n]
        o += 8 + n
        if struct.unpack("<i", rec[:4])[0] != 5:
            continue
        parts, pts = struct.unpack("<2i", rec[36:44])
        starts = list(struct.unpack("<%di" % parts, rec[44:44 + 4 * parts])) + [pts]
        base = 44 + 4 * parts
        ring = [struct.unpack("<2d", rec[base + 16 * i:base + 16 * i + 16]) for i in range(starts[0], starts[1])]
        if len(ring) > 3:
            out.append([tuple(p) for p in ring[:-1]])
    return out


SCEN = {"pysplit": run_pysplit, "pybatch": run_pybatch, "pycmd": run_pycmd, "shp": run_shp}


def callback(name):
    try:
        SCEN[name.decode()](spec(), L.simx_scratch().decode())
    except Stop:
        pass
    except BaseException:
        L.simx_mark_harness(b(traceback.format_exc()[-2000:]))


def clean_scratch():
    pass


CB = ctypes.CFUNCTYPE(None, ctypes.c_char_p)
cb = CB(callback)
L.simx_init(cb)
# warm up what is loaded lazily, so that the first run is like every other
warnings.catch_warnings(record=True).__enter__()
gc.collect()
args = [b("simpy")] + [b(a) for a in sys.argv[1:]]
argv = (ctypes.c_char_p * (len(args) + 1))(*args, None)
rc = L.simx_main(len(args), argv)
sys.stdout.flush()
os._exit(rc)
