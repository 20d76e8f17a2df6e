"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {
 "C01": "Seeded schedules, layouts, clocks and outputs of the real generator compared with one-thread generation; sampled, no exhaustiveness.",
 "C02": "Real generation, files and merge over simulated worker processes with crashes, restarts and repeats; compared with the full generation.",
 "C03": "Happens-before race detection over every instrumented access of the explored schedules, exact deadlock detection, step bound for progress.",
 "C04": "Recorded histories of the real Graph checked for linearizability per edge direction and per neighbour list against a sequential model.",
 "C05": "Real batch runs compared item by item with single answers of fresh processes.",
 "C06": "Answers of arbitrary query histories compared with fresh computers; graph compared before and after.",
 "C07": "Histories of real saves and loads over the simulated disk; whole graphs compared.",
 "C08": "Crashes before or after any I/O call or mapped store with a page-level model of what power loss keeps; recovery checked by the real loader.",
 "C09": "Errno, short transfer and full-disk faults at seeded calls; outcome, leak, retry and durability checked.",
 "C10": "Seeded damage of real files; bounds of the mapping and size of allocations checked on every access of the real loader.",
 "C11": "Seeded allocation failures and throwing inputs in every operation; error kind, locks, inputs, leaks and repetition checked.",
 "C12": "Real Python interpolator and bindings under simulated schedules, layouts and histories, compared with single answers.",
 "C13": "Real Python generate/split/merge over the simulated disk with crashes and failing calls; outputs compared with uninterrupted commands.",
 "C14": "Real shapefile reader over the simulated disk with failing, short and interrupted calls; compared with the rings that were written.",
    "C15": "Real graph, generator, computer and serializer code doing the same work 6-192 times under failing allocations, I/O and input; every block, descriptor and mapping is accounted for.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in P.PROPS:
        c = "python3 driver/check.py " + i
        checks.append({"property": i, "quick_cmd": c, "thorough_cmd": c + " --tier thorough", "technique": "deterministic simulation with fault injection: seeded schedules and faults over the real code",
                       "level": "exploration", "level_note": NOTE[i] + " Trusts the simulator's models of locks, threads, heap and disk."})
    else:
        na.append({"property": i, "reason": P.NOT_APPLICABLE[i]})
json.dump({"version": 1, "setup_cmd": "python3 driver/build.py --python",
           "hooks": {"guard": "none", "enable": "No hooks in /repo: the build redirects symbols of the compiled objects (sim/runtime/redefine.txt) and interposes libc.", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Replay: python3 driver/check.py --replay FILE. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
