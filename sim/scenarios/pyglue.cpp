// The part of the Python scenarios (C12, C13, C14) that is C++: their generators, references computed straight from the
// C++ code, and the calls with which the Python runner drives a simulated process.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <unistd.h>
using sim::Rng;
static std::string frac(Rng &r) { char f[32]; snprintf(f, sizeof f, "%.6f", r.unit()); return f; }

static void (*g_cb)(const char *) = nullptr;
bool python_runner() { return g_cb != nullptr; }
static Run *g_run = nullptr;
static int g_phase = 0;
static ChildOpts g_opts;
static std::string g_buf;
#define X extern "C" __attribute__((visibility("default")))

static void run_py(Run &run) {
    if (!g_cb) { fprintf(stderr, "this scenario needs the Python runner\n"); _exit(2); }
    g_run = &run;
    g_cb(run.spec.str("scenario").c_str());
    g_run = nullptr;
}
static std::string polys_key(const std::string &k, const Ring &g, std::vector<std::string> &a) { for (auto &p : g) a.push_back(std::to_string(p.x) + "," + std::to_string(p.y)); return k; }

// ---------------------------------------------------------------------------------------------- C12
// "poly<g> x,y ...": rings of graph g; "call <c> <graph> <interpolator> one|batch|gc|new <style>"; "q <c> <query>"
static Spec gen_pybatch(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    bool huge = r.chance(0.014), large = !huge && r.chance(0.015);
    int ng = !huge && r.chance(0.3) ? 2 : 1;
    std::vector<std::vector<Ring>> rs;
    for (int g = 0; g < ng; ++g) {
        if (g && r.chance(0.6)) rs.push_back(vary_rings(r, rs[0]));
        else rs.push_back(gen_ocean_rings(r, huge ? 10 : large ? 66 + (int) r.below(40) : r.chance(0.15) ? 30 : 16));
        for (auto &ring : rs.back()) { std::vector<std::string> a; auto k = polys_key("poly" + std::to_string(g), ring, a); s.add(k, a); }
    }
    int ni = ng + (r.chance(0.2) ? 1 : 0);
    std::vector<Query> pool;
    int n = 2 + (int) r.below(r.chance(0.3) ? 12 : 6);
    bool brief = !large && r.chance(0.04); // a long history
    if (brief) n = 16 + (int) r.below(40);
    if (huge) { brief = false; n = 1 + (int) r.below(3); }
    bool done = false;
    std::vector<int> last(ni, -1); // the last query of an interpolator
    int again = -1; // one made anew that is asked the same as before
    for (int c = 0; c < n; ++c) {
        int in = again >= 0 ? again : (int) r.below(ni), g = in % ng;
        double k = again >= 0 ? 1 : r.unit();
        if (k < 0.04) { s.add("call", V(c, in, "gc", "-")); continue; }
        if (k < 0.08) { s.add("call", V(c, in, "new", "-")); if (last[in] >= 0 && r.chance(0.6)) again = in; continue; }
        if (k < 0.14 && ng > 1) { // another graph takes the place of its file
            s.add("call", V(c, in, "swap", "-"));
            if (r.chance(0.5)) continue;
            s.add("call", V(++c, in, "new", "-"));
            if (last[in] >= 0 && r.chance(0.6)) { again = in; ++n; }
            continue;
        }
        bool batch = r.chance(0.6);
        static const char *styles[] = {"positional", "keywords", "partial"};
        s.add("call", V(c, in, batch ? "batch" : "one", styles[r.below(3)]));
        Query o = brief && pool.size() > 4 && r.chance(0.5) ? pool[r.below(pool.size())] : next_query(r, rs[g], pool);
        if (again >= 0) { o = pool[last[in]]; again = -1; }
        int m = !batch ? 1 : r.chance(0.06) ? 0 : 1 + (int) r.below(r.chance(0.15) ? 16 : 6);
        size_t few = 0;
        if (batch && !brief && !large && r.chance(0.04)) { m = r.chance(0.5) ? 32 << r.below(3) : 20 + (int) r.below(120); m += (int) r.below(3) - 1; few = 2 + r.below(8); } // long, of few different pairs
        std::vector<Query> told;
        if (batch && huge && !done) { done = true; m = huge_batch(r); telling_options(r, o); told = telling_queries(r, rs[g], 6 + r.below(8)); }
        for (int i = 0; i < m; ++i) {
            Query q = !told.empty() ? told[r.below(told.size())] : !i ? o : few && pool.size() > few ? pool[pool.size() - few - 1 + r.below(few + 1)] : next_query(r, rs[g], pool);
            q.limit = o.limit; q.correct = o.correct; q.greed = o.greed;
            pool.push_back(q);
            last[in] = (int) pool.size() - 1;
            spec_query(s, "q", q, V(c));
        }
    }
    return s;
}
static Reg reg_pybatch({"pybatch", gen_pybatch, run_py});

// ---------------------------------------------------------------------------------------------- C13
// "poly x,y ..."; "cmd <k> gen <out>" | "cmd <k> range <out> <i> <n> <seed>" | "cmd <k> merge <out> <in> ...";
// "crash <k> op|store <fraction> before|after process|power <seed>", "fault <k> <fraction> <errno> <mode>", "quota <k> <fraction>",
// "exists <k> empty|full|file", "stdout <k> closed|raising|none|full", "cut <k> <seed>"
static Spec gen_pycmd(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    auto rings = gen_rings(r, r.chance(0.015) ? 66 + (int) r.below(40) : r.chance(0.1) ? 30 : 14);
    spec_rings(s, rings);
    s.add("extra", V((int) r.below(3))); // records in the shapefile that are not polygons
    static const int errs[] = {ENOSPC, EIO, EMFILE, ENOMEM, EACCES, EINTR, EROFS};
    std::vector<std::string> graphs;
    int n = 1 + (int) r.below(5), k = 0, out = 0;
    auto upset = [&](int id) {
        double u = r.unit();
        if (u < 0.3) s.add("crash", V(id, r.chance(0.6) ? "op" : "store", frac(r).c_str(), r.chance(0.5) ? "before" : "after", r.chance(0.4) ? "process" : "power", r.below(1000000)));
        else if (u < 0.55) { // the last calls make the output durable
            int m = r.chance(0.75) ? 1 : 2;
            for (int i = 0; i < m; ++i) {
                char f[32]; snprintf(f, sizeof f, "%.6f", r.chance(0.35) ? 1 - 0.12 * r.unit() : r.unit());
                s.add("fault", V(id, (const char *) f, errs[r.below(7)], r.chance(0.1) ? 1 : 0));
            }
            if (r.chance(0.6)) { s.add("cut", V(id, r.below(1000000))); return; }
        } else if (u < 0.62) s.add("quota", V(id, frac(r).c_str()));
        else if (u < 0.7) { static const char *e[] = {"empty", "full", "file"}; s.add("exists", V(id, e[r.below(3)])); }
        else if (u < 0.76) { static const char *e[] = {"closed", "raising", "none", "full"}; s.add("stdout", V(id, e[r.below(4)])); }
        if (r.chance(0.35)) s.add("cut", V(id, r.below(1000000)));
    };
    for (int i = 0; i < n; ++i) {
        std::string o = "out" + std::to_string(out++);
        double u = r.unit();
        if (u < 0.3) s.add("cmd", V(k, "gen", o.c_str()));
        else if (u < 0.6 || graphs.empty()) {
            int parts = 1 + (int) r.below(4);
            unsigned seed = (unsigned) r.below(100000);
            int only = r.chance(0.5) ? (int) r.below(parts) : -1; // one part, or all of them
            for (int p = 0; p < parts; ++p) {
                if (only >= 0 && p != only) continue;
                if (only < 0 && p) o = "out" + std::to_string(out++);
                s.add("cmd", V(k, "range", o.c_str(), p, parts, seed));
                upset(k++);
                graphs.push_back(o);
            }
            continue;
        } else {
            std::vector<std::string> in;
            if (r.chance(0.6)) in = graphs; else { int m = r.chance(0.05) ? 6 + (int) r.below(30) : 1 + (int) r.below(4); for (int q = 0; q < m; ++q) in.push_back(graphs[r.below(graphs.size())]); }
            for (size_t q = in.size(); q > 1; --q) std::swap(in[q - 1], in[r.below(q)]);
            auto a = V(k, "merge", o.c_str());
            a.insert(a.end(), in.begin(), in.end());
            s.add("cmd", a);
        }
        upset(k++);
        graphs.push_back(o);
    }
    return s;
}
static Reg reg_pycmd({"pycmd", gen_pycmd, run_py});

// ---------------------------------------------------------------------------------------------- C02, through the commands
// "split <n> <seed>"; then in order "part <out> <i>" and "merge <out> <in> ..."; "crash <out> ..." as above
static Spec gen_pysplit(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    auto rings = gen_rings(r, r.chance(0.015) ? 66 + (int) r.below(40) : r.chance(0.1) ? 30 : 16);
    spec_rings(s, rings);
    int nv = 0;
    for (auto &g : rings) nv += g.size();
    int n = r.chance(0.1) ? nv + (int) r.below(4) - 1 : 1 + (int) r.below(r.chance(0.2) ? 9 : 5);
    n = std::max(1, std::min(n, 12));
    s.add("extra", V((int) r.below(2)));
    if (r.chance(0.12)) { // many parts, one after the other
        s.add("split", V(12 + (int) r.below(std::max(4, nv - 4)), r.below(4294967296ull)));
        s.add("many", V(1));
        return s;
    }
    s.add("split", V(n, r.chance(0.1) ? 0 : r.below(4294967296ull)));
    std::vector<int> todo;
    for (int i = 0; i < n; ++i) { todo.push_back(i); if (r.chance(0.1)) todo.push_back(i); }
    for (size_t q = todo.size(); q > 1; --q) std::swap(todo[q - 1], todo[r.below(q)]);
    std::vector<std::string> have;
    int out = 0;
    auto upset = [&](const std::string &o) {
        if (r.chance(0.12)) s.add("crash", V(o.c_str(), r.chance(0.6) ? "op" : "store", frac(r).c_str(), r.chance(0.5) ? "before" : "after", r.chance(0.4) ? "process" : "power", r.below(1000000)));
    };
    auto merge_of = [&](std::vector<std::string> in) {
        std::string o = "out" + std::to_string(out++);
        for (size_t q = in.size(); q > 1; --q) std::swap(in[q - 1], in[r.below(q)]);
        auto a = V(o.c_str());
        a.insert(a.end(), in.begin(), in.end());
        s.add("merge", a);
        upset(o);
        return o;
    };
    for (int i : todo) {
        std::string o = "out" + std::to_string(out++);
        s.add("part", V(o.c_str(), i));
        upset(o);
        have.push_back(o);
        if (r.chance(0.12)) { // some of what is there is merged already
            std::vector<std::string> in, rest;
            bool keep = r.chance(0.5);
            for (auto &x : have) (r.chance(0.6) ? in : rest).push_back(x);
            if (in.empty()) continue;
            auto m = merge_of(in);
            if (!keep) have = rest;
            have.push_back(m);
        }
    }
    merge_of(have);
    return s;
}
static Reg reg_pysplit({"pysplit", gen_pysplit, run_py});

// ---------------------------------------------------------------------------------------------- C14
// "shape poly|multi|point|null|line [x,y ... [| x,y ...]]", "files shx dbf cpg upper", "read <k> <file> <how>",
// "swap <k> <f> <g>" (before read k the first contents of g take the place of f), "fault <k> <fraction> <errno> <mode>"
static Spec gen_shp(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, false);
    int nf = r.chance(0.5) ? 2 : 1;
    for (int f = 0; f < nf; ++f) {
        auto rings = gen_small_rings(r, r.chance(0.05) ? 4000 : r.chance(0.2) ? 400 : 60, false);
        if (r.chance(0.02)) { // one long ring
            Ring g;
            for (int i = 0, n = 200 + (int) r.below(1500); i < n; ++i) { double t = i * 2 * M_PI / n, k = 0.6 + 0.4 * r.unit(); g.push_back({(int32_t) (7e7 * k * std::cos(t)), (int32_t) (6e7 * k * std::sin(t))}); }
            rings.insert(rings.begin() + (int) r.below(rings.size() + 1), g);
        }
        if (r.chance(0.008)) { // about a thousand records
            rings.clear();
            for (int i = 0, n = 990 + (int) r.below(60); i < n; ++i) { int x = (int) r.range(-170000000, 160000000), y = (int) r.range(-80000000, 80000000); rings.push_back({{x, y}, {x + 1000 + i, y}, {x, y + 2000}}); }
        }
        if (rings.empty()) rings = gen_rings(r, 12);
        if (r.chance(0.25)) // the same ring twice, a vertex twice, or the other way round
            for (int k = 1 + (int) r.below(3); k > 0; --k) {
                size_t i = r.below(rings.size());
                auto g = rings[i];
                if (r.chance(0.25)) std::reverse(g.begin(), g.end());
                if (r.chance(0.25)) g.insert(g.begin() + r.below(g.size()), g[r.below(g.size())]);
                rings.insert(r.chance(0.5) ? rings.begin() + i : rings.begin() + r.below(rings.size() + 1), g);
            }
        for (size_t i = 0; i < rings.size(); ++i) {
            std::vector<std::string> a = V(f, r.chance(0.15) ? "multi" : "poly");
            polys_key("", rings[i], a);
            if (a[1] == "multi") { // a second ring in the same record
                a.push_back("|");
                auto &o = rings[r.below(rings.size())];
                polys_key("", o, a);
            }
            s.add("shape", a);
            if (r.chance(0.06)) s.add("shape", V(f, "null"));
        }
        s.add("files", V(f, r.chance(0.8) ? 1 : 0, r.chance(0.8) ? 1 : 0, r.chance(0.3) ? 1 : 0));
    }
    static const int errs[] = {EIO, EMFILE, ENFILE, ENOMEM, EACCES, EINTR};
    int n = 1 + (int) r.below(5);
    for (int i = 0; i < n; ++i) {
        int f = (int) r.below(nf);
        if (nf > 1 && i && r.chance(0.3)) { // mostly of the file that is read next
            int to = r.chance(0.8) ? f : 1 - f;
            s.add("swap", V(i, to, r.chance(0.8) ? 1 - to : to));
        }
        s.add("read", V(i, f, (int) r.below(2)));
        if (r.chance(0.75)) {
            int m = r.chance(0.75) ? 1 : 2 + (int) r.below(3);
            for (int q = 0; q < m; ++q) s.add("fault", V(i, frac(r).c_str(), errs[r.below(6)], r.chance(0.3) ? 1 : 0));
        }
    }
    return s;
}
static Reg reg_shp({"shp", gen_shp, run_py});

// ---------------------------------------------------------------------------------------------- driving a process from Python
X void simx_init(void (*cb)(const char *)) { g_cb = cb; }
X const char *simx_spec() { g_buf = g_run->spec.text(); return g_buf.c_str(); }
X const char *simx_scratch() { return g_run->scratch.c_str(); }
X void simx_phase() { g_phase = g_run->phase++; phase_begin(*g_run); }
X void simx_child(int stdout_bad, int pristine) {
    g_opts = ChildOpts{};
    g_opts.stdout_bad = stdout_bad; g_opts.pristine = pristine;
    size_t total = g_run->spec.all("q").size() / 4;
    for (auto *k : {"poly", "poly0", "poly1"}) for (auto &g : rings_of(g_run->spec, k)) total += g.size();
    g_opts.max_steps = total > 60 ? 1500000000 : 500000000;
    child_setup(*g_run, g_phase, g_opts);
}
X void simx_begin() { sim::begin(); }
X void simx_end() { sim::end(); }
X void simx_exit(int c) { _exit(c); }
X int simx_wait(int pid) { g_buf.clear(); return reap(*g_run, g_phase, pid, &g_buf); }
X const char *simx_result() { return g_buf.c_str(); }
X void simx_set_result(const char *s) { set_result(s); }
X void simx_violation(const char *kind, const char *text) { sim::violation(kind, "%s", text); }
X void simx_harness(const char *text) { sim::harness_error("%s", text); }
X void simx_mark_harness(const char *text) { // in the supervisor: the run gives no answer
    if (!sim::g_sh->violation) { sim::g_sh->violation = 2; snprintf(sim::g_sh->text, sizeof sim::g_sh->text, "%s", text); }
}
X void simx_mark_violation(const char *kind, const char *text) { // in the supervisor
    if (!sim::g_sh->violation) { sim::g_sh->violation = 1; snprintf(sim::g_sh->kind, sizeof sim::g_sh->kind, "%s", kind); snprintf(sim::g_sh->text, sizeof sim::g_sh->text, "%s", text); }
}
X void simx_observe(const char *s) { sim::observe_str(s); }
X void simx_probe(int i) { sim::g_sh->probes[i]++; }
X void simx_fired(int i) { sim::g_sh->fault_fired[i]++; }
X void simx_io_start() { sim::io_scratch(g_run->scratch); sim::rt_io_begin_public(); }
X void simx_io_arm(int n, const uint64_t *nth, const int *err, const int *mode) {
    std::vector<sim::IoFault> f;
    for (int i = 0; i < n; ++i) f.push_back({nth[i], err[i], mode[i]});
    sim::io_arm(f);
}
X void simx_io_disarm() { sim::io_disarm(); }
X void simx_io_crash_op(uint64_t n, int after) { sim::io_crash_at_op(n, after); }
X void simx_io_crash_store(uint64_t n) { sim::io_crash_at_store(n); }
X void simx_io_power(uint64_t seed, int mode) { sim::io_powerloss(seed, mode); }
X void simx_io_cut() { sim::io_power_cut_now(); }
X void simx_io_quota(int64_t b) { sim::io_quota(b); }
X int64_t simx_io_used() { return sim::io_used(); }
X uint64_t simx_io_ops() { return sim::io_ops_since_arm(); }
X uint64_t simx_io_stores() { return sim::io_stores_since_arm(); }
X const char *simx_io_leaks() { g_buf = sim::io_leaks(); return g_buf.c_str(); }
X int simx_io_fds() { return sim::io_open_fds(); }

// ---- references: each in a pristine process of its own.  nullptr: that process did not end well (the run has its verdict)
static const char *in_child(const std::function<void()> &f, bool pristine) {
    ChildOpts o; o.pristine = pristine;
    std::string out;
    if (child(*g_run, f, &out, o) != OUT_OK) return nullptr;
    g_buf = out;
    return g_buf.c_str();
}
X const char *simx_ref_graph(const char *key) {
    std::string k = key;
    return in_child([&] { auto p = make_polygons(rings_of(g_run->spec, k)); set_result(canon(*VisgraphGenerator::generate(p))); }, true);
}
X const char *simx_ref_merge(const char *paths) { // newline separated
    std::string all = paths;
    return in_child([&] {
        std::vector<std::shared_ptr<Graph>> v;
        size_t i = 0;
        while (i < all.size()) { size_t k = all.find('\n', i); v.push_back(GraphSerializer::deserialize_from_file(all.substr(i, k - i))); i = k + 1; }
        set_result(canon(*merge_graphs(v)));
    }, true);
}
X const char *simx_save_graph(const char *key, const char *path) { // generates and saves; the text of the graph
    std::string k = key, p = path;
    return in_child([&] {
        auto polys = make_polygons(rings_of(g_run->spec, k));
        auto g = VisgraphGenerator::generate(polys);
        GraphSerializer::serialize_to_file(g, p);
        set_result(canon(*g));
    }, true);
}
X const char *simx_load_text(const char *path) { // "graph\n<text>" or "error <message>"
    std::string p = path;
    return in_child([&] {
        sim::io_scratch(g_run->scratch);
        sim::rt_io_begin_public();
        std::string err, t;
        if (guarded([&] { t = canon(*GraphSerializer::deserialize_from_file(p)); }, &err)) set_result("graph\n" + t);
        else set_result("error " + err);
    }, true);
}
X const char *simx_ref_path(const char *path, const char *query) { // the query's answer from the graph file, in a fresh process
    std::string p = path;
    Spec q = Spec::parse(query);
    return in_child([&] {
        ShortestPathComputer c(GraphSerializer::deserialize_from_file(p));
        set_result(single_answer(c, query_of(q.lines.at(0))));
    }, true);
}
X const char *simx_part_problem(const char *part, const char *full) { // "" when the part holds nothing that the full graph lacks
    g_buf.clear();
    if (canon_cut(part, "PV") != canon_cut(full, "PV")) g_buf = "other polygons or vertices: " + canon_diff(canon_cut(full, "PV"), canon_cut(part, "PV"));
    else { std::string why; if (!part_of(part, full, &why)) g_buf = "'" + why + "'"; }
    return g_buf.c_str();
}
X const char *simx_diff(const char *a, const char *b) { g_buf = canon_diff(a, b); return g_buf.c_str(); }
