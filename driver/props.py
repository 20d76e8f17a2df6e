"""What each check runs: number of simulated runs per tier with a wall-clock cap, and what its evidence says."""

CPP_REAL = ["all of capi/src/implementation/visibility_graphs/code (compiled from the working tree with -fsanitize=thread call-outs and -fopenmp)",
            "the vendored fmt, indicators and mio headers", "libs2 and libstdc++ (uninstrumented)"]
CPP_STUB = ["libgomp: parallel regions run on the simulator's own team of threads", "pthread and std::shared_mutex/mutex/condition_variable/thread: simulated locks under the seeded scheduler",
            "heap: simulated allocator with seeded placement, red zones and failures", "file system calls: real calls on a scratch directory behind a durability and fault model",
            "clocks, terminal size, pid, random_device: simulated"]
PY_REAL = ["the Python layer capi/src/implementation/*.py under PyPy", "the pybind11 module bindings.cpp and all C++ behind it, compiled from the working tree"]

ASSUMPTIONS = [
    "sequentially consistent interleavings at instrumented accesses, lock, atomic, allocation and I/O operations; weaker memory orders appear only as reported data races",
    "a seeded sample of schedules, faults and inputs, not all of them",
    "power loss keeps flushed data and an in-order prefix of directory updates; unflushed pages survive, vanish or tear at 512-byte sectors",
]
SCHED = "One run = one specification generated from (seed, index): inputs, team sizes, allocator layout, clock, terminal, schedule policy (none, random, PCT) and faults. "
# quick: (runs, wall cap s), thorough: likewise
PROPS = {
    "C01": {"quick": (3200, 180), "thorough": (40000, 780), "rule": SCHED + "Each run generates one set of polygons as a whole or a range under several schedules, team sizes, allocator layouts, clocks and terminal states, and compares with one-thread generation. Distinct: different sequence of control transfers, faults and crashes."},
    "C02": {"quick": (4500, 180), "thorough": (45000, 580), "also_python": {"quick": (500, 120), "thorough": (9000, 200)}, "rule": SCHED + "Each run splits one generation over simulated workers (separate processes) that crash, restart, repeat and exchange parts through files, merges them in a seeded order and compares with the full graph. Distinct: different sequence of control transfers, faults and crashes."},
    "C03": {"quick": (9000, 180), "thorough": (80000, 780), "rule": SCHED + "Each run executes parallel operations and shared use of graphs and computers with happens-before race detection over every instrumented access, deadlock detection and a step bound. Distinct: different sequence of control transfers, faults and crashes."},
    "C04": {"quick": (120000, 180), "thorough": (600000, 780), "rule": SCHED + "Each run drives one Graph from 2-5 client threads and checks the recorded history for linearizability per directed edge and per neighbour list against a sequential model, and every access for data races. Distinct: different sequence of control transfers, faults and crashes."},
    "C05": {"quick": (6000, 180), "thorough": (80000, 600), "also_python": {"quick": (1500, 120), "thorough": (9000, 180)}, "rule": SCHED + "Each run answers one batch under a seeded schedule and compares every item with the single answer of a fresh process. Distinct: different sequence of control transfers, faults and crashes."},
    "C06": {"quick": (7000, 180), "thorough": (80000, 600), "also_python": {"quick": (1500, 120), "thorough": (9000, 180)}, "rule": SCHED + "Each run is a history of single and batch queries (sequential and from several threads) over computers that share a graph; every answer is compared with that of a freshly built computer in a fresh process and the graph with itself. Distinct: different sequence of control transfers, faults and crashes."},
    "C07": {"quick": (9000, 180), "thorough": (120000, 780), "measure": "obs", "rule": SCHED + "Each run is a history of saves and loads of seeded graphs over several paths (one in seven by several threads at once), interleaved with idle restarts. Distinct: hash over what was loaded."},
    "C08": {"quick": (6000, 180), "thorough": (50000, 780), "rule": SCHED + "Each run crashes saves (process or power) before or after a seeded I/O call or mapped store, possibly repeatedly, and then loads in a new process. Distinct: different sequence of control transfers, faults and crashes."},
    "C09": {"quick": (7000, 180), "thorough": (60000, 780), "rule": SCHED + "Each run injects one to four failing, short or interrupted calls or a disk that fills up into saves and loads, then retries without the fault. Distinct: different sequence of control transfers, faults and crashes."},
    "C10": {"quick": (32000, 180), "thorough": (400000, 780), "measure": "obs", "rule": SCHED + "Each run damages a saved file (truncation, bit flips, overwritten fields and ranges, appended, random bytes) and loads it. Distinct: hash over the outcomes."},
    "C11": {"quick": (12000, 180), "thorough": (100000, 780), "rule": SCHED + "Each run fails one, some or all later allocations (or supplies an input that makes a worker throw) inside 1-3 operations, then repeats them without the fault. Distinct: different sequence of control transfers, faults and crashes."},
    "C12": {"quick": (5000, 180), "thorough": (60000, 780), "python": True, "rule": SCHED + "Each run is a history of single and batch calls on one to three Python interpolators (PyPy, the real binding module) over one or two saved graphs; every entry is compared with the C++ single answer of a fresh process and the warnings with the failed pairs. Distinct: different sequence of control transfers, faults and crashes."},
    "C13": {"quick": (1600, 180), "thorough": (20000, 780), "python": True, "rule": SCHED + "Each run is a history of the Python generate, range and merge commands (PyPy, the real shapefile library and binding module) that crash, fail, lose power, meet full disks, existing outputs and a broken standard output; after each one its output directory is loaded in a fresh process. Distinct: different sequence of control transfers, faults and crashes."},
    "C14": {"quick": (4500, 180), "thorough": (40000, 780), "python": True, "rule": SCHED + "Each run reads one or two seeded shapefiles several times under failing, short and interrupted calls and compares with the rings parsed straight from the bytes. Distinct: different sequence of control transfers, faults and crashes.",
            "real": ["capi/src/implementation/shapefiles and the data classes it builds, under PyPy", "the third-party shapefile library (pyshp) and PyPy's own file objects"],
            "stub": ["file system calls of the PyPy process: real calls on a scratch directory behind the fault model", "no threads are involved"]},
    "C15": {"quick": (9000, 180), "thorough": (90000, 780), "rule": SCHED + "Each run does the same 1-5 operations six times (up to 192 times where memory grew) over graphs and computers that are kept or built anew, under failing allocations, failing I/O calls and inputs that raise errors, and compares the memory, descriptors and mappings held after each round. Distinct: different sequence of control transfers, faults and crashes."},
}
for _p in PROPS.values():
    _p.setdefault("real", PY_REAL if _p.get("python") else CPP_REAL)
    _p.setdefault("stub", CPP_STUB)

_PURE = "A pure function of its inputs: no scheduling, time, I/O, randomness or fault can change its outcome, so there is nothing for a simulator to decide; "
NOT_APPLICABLE = {
    "C20": _PURE + "it is sequential plane geometry, to be settled by input generation against an exact-arithmetic oracle.",
    "C21": _PURE + "obstacle-freeness of a path is geometry of one query and one graph.",
    "C22": _PURE + "optimality of the search is a sequential algorithmic property.",
    "C23": _PURE + "the limit is a numeric comparison inside one sequential search.",
    "C24": _PURE + "the correction is spherical geometry of one point and one set of polygons.",
    "C25": _PURE + "it is arithmetic on one coordinate.",
    "C26": _PURE + "it is geometry of one vertex list.",
    "C27": _PURE + "it is arithmetic on machine integers.",
}
