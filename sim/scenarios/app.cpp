// The command line of simrun and simpy: explores seeded simulated executions and replays recorded ones.
#include "common.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using sim::Rng;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Scenario *find_scenario(const std::string &n) { for (auto &s : scenarios()) if (n == s.name) return &s; return nullptr; }
struct Weighted { const char *name; int w; };
bool python_runner();
static std::vector<Weighted> scenarios_for(const std::string &p) {
    static const std::map<std::string, std::vector<Weighted>> in_python = {{"C02", {{"pysplit", 1}}}, {"C05", {{"pybatch", 1}}}, {"C06", {{"pybatch", 1}}}};
    if (python_runner()) { auto it = in_python.find(p); if (it != in_python.end()) return it->second; }
    static const std::map<std::string, std::vector<Weighted>> m = {
        {"C01", {{"gen", 1}}}, {"C02", {{"split", 1}}}, {"C03", {{"conc", 1}}}, {"C04", {{"lin", 1}}}, {"C05", {{"batch", 1}}}, {"C06", {{"query", 1}}},
        {"C07", {{"roundtrip", 1}}}, {"C08", {{"crash", 1}}}, {"C09", {{"iofault", 1}}}, {"C10", {{"damage", 1}}}, {"C11", {{"fail", 1}}}, {"C12", {{"pybatch", 1}}}, {"C13", {{"pycmd", 1}}}, {"C14", {{"shp", 1}}}, {"C15", {{"repeat", 1}}}};
    auto it = m.find(p);
    return it == m.end() ? std::vector<Weighted>{} : it->second;
}
static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
struct Result { bool violation, harness; std::string kind, text; uint64_t trace, inter, obs, steps; std::vector<PhaseSw> sw; };
static Result execute(const Spec &spec, const std::string &scratch, bool record, Run *keep = nullptr) {
    memset(sim::g_sh, 0, offsetof(sim::Shared, sw));
    memset(sim::g_sh->probes, 0, offsetof(sim::Shared, blob) - offsetof(sim::Shared, probes));
    Run run;
    run.spec = spec;
    run.scratch = scratch;
    run.record = record;
    std::string prop = spec.str("prop");
    if (prop == "C03" || prop == "C04") run.races = 1;
    else if (auto *l = spec.get("racedir")) run.races = l->num(0) ? 2 : 0;
    clean_dir(scratch);
    Scenario *sc = find_scenario(spec.str("scenario"));
    if (!sc) { fprintf(stderr, "unknown scenario %s\n", spec.str("scenario").c_str()); exit(2); }
    sc->run(run);
    Result r;
    r.violation = sim::g_sh->violation == 1;
    r.harness = sim::g_sh->violation == 2;
    r.kind = sim::g_sh->kind;
    r.text = sim::g_sh->text;
    r.trace = sim::g_sh->trace_hash; r.inter = sim::g_sh->inter_hash; r.obs = sim::g_sh->obs_hash; r.steps = sim::g_sh->steps;
    r.sw = run.recorded;
    if (keep) *keep = run;
    return r;
}
static Spec replay_spec(const Spec &s, const std::vector<PhaseSw> &sw) {
    Spec o;
    for (auto &l : s.lines) {
        if (l.key == "sw") continue;
        if (l.key == "sched" && l.str(0) != "none") { Line x = l; x.a[0] = "replay"; x.a.resize(2); if (x.a[1].empty()) x.a[1] = "1"; o.lines.push_back(x); }
        else o.lines.push_back(l);
    }
    for (auto &w : sw) o.add("sw", V(w.phase, w.s.tid, w.s.ls, w.s.to));
    return o;
}
static std::string arg(int argc, char **argv, const char *k, const char *d) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
}
// One throw-away execution, so that what the supervisor itself initialises lazily is there before the first one that counts.
static void warm_up(const std::string &prop, const std::string &scratch) {
    auto ws = scenarios_for(prop);
    if (ws.empty()) return;
    Rng r(4711);
    Spec s; s.add("prop", V(prop.c_str())); s.add("scenario", V(ws[0].name));
    Spec g = find_scenario(ws[0].name)->gen(r, prop, false);
    for (auto &l : g.lines) s.lines.push_back(l);
    execute(s, scratch, true);
}
extern "C" int simx_main(int argc, char **argv) {
    sim::make_shared_block();
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string scratch = arg(argc, argv, "--scratch", "/tmp/simrun.scratch");
    mkdir(scratch.c_str(), 0755);
    if (cmd == "replay") {
        std::ifstream f(argv[2]);
        std::stringstream ss; ss << f.rdbuf();
        Spec s = Spec::parse(ss.str());
        warm_up(s.str("prop"), scratch);
        auto r = execute(s, scratch, true);
        printf("{\"violation\":%d,\"harness\":%d,\"kind\":%s,\"text\":%s,\"trace\":%lu,\"obs\":%lu,\"steps\":%lu,\"nsw\":%zu,\"sw\":[", r.violation, r.harness, jstr(r.kind).c_str(), jstr(r.text).c_str(), r.trace, r.obs, r.steps, r.sw.size());
        if (getenv("SIM_PRINT_SW")) for (size_t i = 0; i < r.sw.size(); ++i) printf("%s[%d,%d,%lu,%d]", i ? "," : "", r.sw[i].phase, r.sw[i].s.tid, r.sw[i].s.ls, r.sw[i].s.to);
        printf("]}\n");
        fflush(stdout);
        clean_dir(scratch);
        return r.harness ? 2 : r.violation ? 1 : 0;
    }
    if (cmd == "gen") { // print the specification of one seed
        std::string prop = arg(argc, argv, "--prop", "C01");
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10), i = strtoull(arg(argc, argv, "--index", "0").c_str(), nullptr, 10);
        bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
        auto ws = scenarios_for(prop);
        Rng r(sim::mix(sim::mix(seed, hash_str(prop)), i));
        int tot = 0; for (auto &w : ws) tot += w.w;
        int k = (int) r.below(tot); const char *name = nullptr;
        for (auto &w : ws) { if (k < w.w) { name = w.name; break; } k -= w.w; }
        Spec s; s.add("prop", V(prop.c_str())); s.add("scenario", V(name));
        Spec g = find_scenario(name)->gen(r, prop, thorough);
        for (auto &l : g.lines) s.lines.push_back(l);
        fputs(s.text().c_str(), stdout);
        fflush(stdout);
        return 0;
    }
    if (cmd != "explore") { fprintf(stderr, "usage: simrun explore|replay|gen ...\n"); return 2; }
    std::string prop = arg(argc, argv, "--prop", "C01"), out = arg(argc, argv, "--out", "/tmp");
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    uint64_t from = strtoull(arg(argc, argv, "--from", "0").c_str(), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "100").c_str(), nullptr, 10), step = strtoull(arg(argc, argv, "--step", "1").c_str(), nullptr, 10);
    double wall = atof(arg(argc, argv, "--wall", "1e9").c_str());
    bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
    uint64_t max_viol = strtoull(arg(argc, argv, "--max-viol", "1").c_str(), nullptr, 10);
    auto ws = scenarios_for(prop);
    if (ws.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    warm_up(prop, scratch);
    double t0 = now();
    uint64_t most_steps = 0, runs = 0, viol = 0, harness = 0, nondet = 0, rechecked = 0, switches = 0, forced = 0, steps = 0, io_ops = 0, map_stores = 0, allocs = 0, phases = 0, crashes = 0, threads = 0, regions = 0, recorded = 0;
    uint64_t sim_ns = 0, probes[64] = {0}, fired[64] = {0};
    std::set<uint64_t> inters, obs, traces;
    std::map<std::string, uint64_t> scen_count, policies;
    std::vector<std::string> samples, viol_files;
    std::string first_harness;
    for (uint64_t n = 0; n < count; ++n) {
        if (now() - t0 > wall) break;
        uint64_t i = from + n * step;
        Rng r(sim::mix(sim::mix(seed, hash_str(prop)), i));
        int tot = 0; for (auto &w : ws) tot += w.w;
        int k = (int) r.below(tot); const char *name = nullptr;
        for (auto &w : ws) { if (k < w.w) { name = w.name; break; } k -= w.w; }
        Spec s; s.add("prop", V(prop.c_str())); s.add("scenario", V(name)); s.add("seed", V(seed, i));
        Spec g = find_scenario(name)->gen(r, prop, thorough);
        for (auto &l : g.lines) s.lines.push_back(l);
        Run kept;
        auto res = execute(s, scratch, true, &kept);
        runs++;
        scen_count[name]++;
        policies[s.get("sched") ? s.get("sched")->str(0) : "none"]++;
        auto *sh = sim::g_sh;
        switches += sh->switches; forced += sh->forced; steps += sh->steps; most_steps = std::max(most_steps, sh->most_steps); io_ops += sh->io_ops; map_stores += sh->map_stores; allocs += sh->allocs;
        phases += kept.phases; crashes += kept.crashes; threads = std::max(threads, (uint64_t) sh->threads); regions += sh->regions; sim_ns += sh->sim_time_ns;
        recorded += res.sw.size();
        for (int q = 0; q < 64; ++q) { probes[q] += sh->probes[q]; fired[q] += sh->fault_fired[q]; }
        inters.insert(res.inter); obs.insert(res.obs); traces.insert(res.trace);
        if (samples.size() < 2 || (samples.size() < 4 && runs % 50 == 0)) samples.push_back(s.text().substr(0, 700));
        if (res.harness) {
            harness++;
            if (first_harness.empty()) { first_harness = res.text; std::ofstream(out + "/harness-" + std::to_string(i) + ".spec") << s.text(); }
            continue;
        }
        if (res.violation) {
            viol++;
            std::string fn = out + "/viol-" + std::to_string(i) + ".spec";
            std::ofstream f(fn);
            f << "# " << res.kind << ": " << res.text << "\n" << s.text();
            std::ofstream(fn + ".sw") << replay_spec(s, res.sw).text();
            viol_files.push_back(fn);
            if (viol >= max_viol) break;
            continue;
        }
        if (i % 23 == 0) { // determinism: the same seed again gives the same execution
            auto b = execute(s, scratch, true);
            rechecked++;
            if (b.trace != res.trace || b.obs != res.obs || b.steps != res.steps || b.violation != res.violation) {
                nondet++;
                fprintf(stderr, "run %lu again: trace %lu %lu obs %lu %lu steps %lu %lu\n", i, res.trace, b.trace, res.obs, b.obs, res.steps, b.steps);
                std::ofstream(out + "/nondet-" + std::to_string(i) + ".spec") << s.text();
            }
        }
        if (i % 41 == 0 && res.sw.size() < sizeof sh->sw / sizeof sh->sw[0] && s.get("sched") && s.get("sched")->str(0) != "none") { // the recorded schedule replays to the same execution
            auto b = execute(replay_spec(s, res.sw), scratch, true);
            rechecked++;
            if (b.obs != res.obs || b.trace != res.trace) { nondet++; std::ofstream(out + "/nondet-replay-" + std::to_string(i) + ".spec") << s.text(); }
        }
    }
    clean_dir(scratch);
    double dt = now() - t0;
    std::ostringstream j;
    auto list = [&](const std::vector<std::string> &v) { std::string o = "["; for (size_t q = 0; q < v.size(); ++q) o += (q ? "," : "") + jstr(v[q]); return o + "]"; };
    auto hashes = [&](const std::set<uint64_t> &v) { std::string o = "["; bool f = true; for (auto h : v) { o += (f ? "" : ",") + std::to_string(h); f = false; } return o + "]"; };
    j << "{\"runs\":" << runs << ",\"wall_s\":" << dt << ",\"violations\":" << viol << ",\"harness\":" << harness << ",\"first_harness\":" << jstr(first_harness) << ",\"nondet\":" << nondet
      << ",\"rechecked\":" << rechecked << ",\"switches\":" << switches << ",\"forced\":" << forced << ",\"steps\":" << steps << ",\"most_steps\":" << most_steps << ",\"io_ops\":" << io_ops << ",\"map_stores\":" << map_stores << ",\"allocs\":" << allocs
      << ",\"processes\":" << phases << ",\"crashes\":" << crashes << ",\"max_threads\":" << threads << ",\"regions\":" << regions << ",\"sim_time_s\":" << sim_ns * 1e-9 << ",\"recorded_switches\":" << recorded
      << ",\"inter\":" << hashes(inters) << ",\"obs\":" << hashes(obs) << ",\"trace\":" << hashes(traces) << ",\"samples\":" << list(samples) << ",\"viol_files\":" << list(viol_files) << ",\"scenarios\":{";
    bool f = true;
    for (auto &kv : scen_count) { j << (f ? "" : ",") << jstr(kv.first) << ":" << kv.second; f = false; }
    j << "},\"policies\":{"; f = true;
    for (auto &kv : policies) { j << (f ? "" : ",") << jstr(kv.first) << ":" << kv.second; f = false; }
    j << "},\"probes\":{"; f = true;
    for (int q = 0; q < PR_N; ++q) if (probe_names[q][0]) { j << (f ? "" : ",") << jstr(probe_names[q]) << ":" << probes[q]; f = false; }
    j << "},\"faults\":{"; f = true;
    for (int q = 0; q < sim::FK_MAX; ++q) if (sim::fault_kind_name(q)[0]) { j << (f ? "" : ",") << jstr(sim::fault_kind_name(q)) << ":" << fired[q]; f = false; }
    j << "}}\n";
    std::ofstream(arg(argc, argv, "--stats", (out + "/stats.json").c_str())) << j.str();
    return 0;
}
