// C11: memory running out, or an error raised, inside any operation at any moment.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
using sim::Rng;

// "f <op> <mode> <fraction> <count>" with op gen|range|merge|batch|query|save|load|computer|copy and mode none|one|site|some|from|bad
static Spec gen_fail(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    auto rings = gen_ocean_rings(r, r.chance(0.08) ? 24 : 12);
    spec_rings(s, rings);
    s.add("cross", V(r.below(1000)));
    static const char *ops[] = {"gen", "gen", "range", "range", "merge", "merge", "batch", "batch", "batch", "query", "save", "load", "computer", "graph"};
    int n = 1 + (int) r.below(3);
    for (int i = 0; i < n; ++i) {
        std::string op = ops[r.below(14)];
        bool can_bad = op == "gen" || op == "range" || op == "merge";
        const char *m = can_bad && r.chance(0.25) ? "bad" : r.chance(0.4) ? "one" : r.chance(0.6) ? "site" : r.chance(0.5) ? "some" : "from";
        char f[32]; snprintf(f, sizeof f, "%.6f", r.chance(0.15) ? r.unit() * 0.02 : r.unit());
        s.add("f", V(op.c_str(), m, (const char *) f, (int) (2 + r.below(30)), r.below(1000000)));
    }
    int q = 1 + (int) r.below(6);
    Query o = gen_query(r, rings);
    for (int i = 0; i < q; ++i) { Query x = gen_query(r, rings); x.limit = o.limit; x.correct = o.correct; x.greed = o.greed; spec_query(s, "q", x); }
    return s;
}
namespace {
struct FW {
    Run *run;
    std::vector<Polygon> polys;
    std::vector<Polygon> bad_polys;
    std::shared_ptr<Graph> g, g2, bad_graph;
    std::shared_ptr<ShortestPathComputer> c;
    std::vector<Query> qs;
    std::vector<std::pair<Coordinate, Coordinate>> pairs;
    std::string path, loadpath;
    // results
    std::shared_ptr<Graph> rg;
    std::vector<BatchInterpolateResult> rb;
    std::vector<Coordinate> rp;
    std::shared_ptr<ShortestPathComputer> rc;
};
}
std::vector<Polygon> invalid_polygons(const std::vector<Ring> &rings) {
    auto far = rings;
    far.push_back({{400000000, 10000000}, {410000000, 12000000}, {405000000, 20000000}});
    return make_polygons(far);
}
std::shared_ptr<Graph> unmergeable(const std::vector<Polygon> &polys) {
    // a graph with a vertex that belongs to none of its polygons cannot be merged
    auto g = std::make_shared<Graph>(polys);
    Coordinate first = g->get_vertices()[0], extra(1234567, 7654321);
    g->add_vertex(extra);
    g->add_edge(extra, first, false);
    return g;
}
static void build_world(Run &run, FW &w) {
    auto rings = rings_of(run.spec);
    w.run = &run;
    w.polys = make_polygons(rings);
    w.bad_polys = invalid_polygons(rings);
    w.g = std::make_shared<Graph>(w.polys);
    w.g2 = std::make_shared<Graph>(w.polys);
    auto vs = w.g->get_vertices();
    Rng r(run.spec.num("cross") + 5);
    for (size_t i = 0; i < vs.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            if (r.chance(0.5)) w.g->add_edge(vs[i], vs[j], r.chance(0.3));
            if (r.chance(0.3)) w.g2->add_edge(vs[i], vs[j], r.chance(0.3));
        }
    w.bad_graph = unmergeable(w.polys);
    w.c = std::make_shared<ShortestPathComputer>(w.g);
    for (auto &l : run.spec.all("q")) { w.qs.push_back(query_of(l)); w.pairs.push_back({C(w.qs.back().a), C(w.qs.back().b)}); }
    w.path = run.scratch + "/out";
    w.loadpath = run.scratch + "/in";
}
static std::vector<std::shared_ptr<Graph>> merged_of(const FW &w, const Line &l) {
    std::vector<std::shared_ptr<Graph>> v{w.g, w.g2, w.g};
    v.resize(1 + l.num(3) % 3);
    return v;
}
static void range_of(const FW &w, const Line &l, size_t *a, size_t *b) {
    size_t n = w.g->get_vertices().size();
    Rng r(l.u(4));
    *a = r.below(n + 1); *b = *a + r.below(n - *a + 1);
}
// only calls into the code under test
static void do_op(FW &w, const Line &l, bool bad, size_t a, size_t b, const std::vector<std::shared_ptr<Graph>> &mv) {
    auto op = l.a[0].c_str();
    auto is = [&](const char *x) { return !strcmp(op, x); };
    if (is("gen")) w.rg = VisgraphGenerator::generate(bad ? w.bad_polys : w.polys);
    else if (is("range")) w.rg = VisgraphGenerator::generate_with_shuffled_range(bad ? w.bad_polys : w.polys, bad ? 0 : a, bad ? w.g->get_vertices().size() : b, 7);
    else if (is("merge")) w.rg = merge_graphs(mv);
    else if (is("batch")) w.rb = w.c->shortest_paths(w.pairs, w.qs[0].limit, w.qs[0].correct, w.qs[0].greed);
    else if (is("query")) w.rp = w.c->shortest_path(w.pairs[0].first, w.pairs[0].second, w.qs[0].limit, w.qs[0].correct, w.qs[0].greed);
    else if (is("save")) GraphSerializer::serialize_to_file(w.g, w.path);
    else if (is("load")) w.rg = GraphSerializer::deserialize_from_file(w.loadpath);
    else if (is("computer")) w.rc = std::make_shared<ShortestPathComputer>(w.g);
    else if (is("graph")) w.rg = std::make_shared<Graph>(w.polys);
}
static std::string result_text(FW &w, const Line &l) {
    auto op = l.str(0);
    if (op == "batch") { std::string o; for (auto &x : w.rb) o += batch_text(x) + "\n"; return o; }
    if (op == "query") return path_text(w.rp);
    if (op == "save") return canon(*GraphSerializer::deserialize_from_file(w.path));
    if (op == "computer") return single_answer(*w.rc, w.qs[0]);
    return canon(*w.rg);
}
static std::vector<std::string> lines_of(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) { size_t k = s.find('\n', i); v.push_back(s.substr(i, k - i)); i = k + 1; }
    return v;
}
static void run_fail(Run &run) {
    if (run.spec.all("q").empty()) return;
    auto fs = run.spec.all("f");
    // expected results and the number of allocations of each operation, without faults, each in a process of its own
    std::vector<std::string> want;
    std::vector<uint64_t> counts;
    std::vector<std::vector<sim::AllocSite>> sites;
    {
        ChildOpts pr; pr.pristine = true;
        if (child(run, [&] { FW w; build_world(run, w); sim::io_scratch(run.scratch); sim::rt_io_begin_public(); GraphSerializer::serialize_to_file(w.g, w.loadpath); GraphSerializer::serialize_to_file(w.g2, w.path); set_result(""); }, nullptr, pr) != OUT_OK) return;
    }
    std::string old = slurp_file(run.scratch + "/out");
    for (auto &l : fs) {
        ChildOpts pr; pr.pristine = true;
        std::string t;
        if (child(run, [&] {
                FW w; build_world(run, w);
                sim::io_scratch(run.scratch); sim::rt_io_begin_public();
                size_t a, b; range_of(w, l, &a, &b);
                auto mv = merged_of(w, l);
                sim::alloc_fault_arm({});
                if (l.str(1) == "site") sim::alloc_sites_record();
                std::string err;
                uint64_t n0 = sim::alloc_count();
                bool ok = guarded([&] { do_op(w, l, false, a, b, mv); }, &err);
                uint64_t n = sim::alloc_count() - n0;
                sim::alloc_fault_disarm();
                std::string head = std::to_string(n);
                for (auto &x : sim::alloc_sites()) head += "," + std::to_string(x.hash) + "," + std::to_string(x.leaf) + "," + std::to_string(x.count);
                set_result(head + " " + (ok ? result_text(w, l) : "error " + err));
            }, &t, pr) != OUT_OK) return;
        counts.push_back(std::stoull(t));
        std::vector<uint64_t> nums;
        for (size_t k = t.find(','); k < t.find(' ');) { nums.push_back(std::stoull(t.substr(k + 1))); k = t.find(',', k + 1); }
        sites.emplace_back();
        for (size_t k = 0; k + 2 < nums.size(); k += 3) sites.back().push_back({nums[k], nums[k + 1], nums[k + 2]});
        want.push_back(t.substr(t.find(' ') + 1));
        spit_file(run.scratch + "/out", old);
    }
    child(run, [&] {
        FW w; build_world(run, w);
        sim::io_scratch(run.scratch); sim::rt_io_begin_public();
        std::string gt = canon(*w.g), g2t = canon(*w.g2);
        std::string at_path = g2t;
        for (size_t i = 0; i < fs.size(); ++i) {
            auto &l = fs[i];
            auto op = l.str(0), mode = l.str(1);
            bool bad = mode == "bad";
            size_t a, b; range_of(w, l, &a, &b);
            auto mv = merged_of(w, l);
            auto mvbad = mv;
            mvbad.insert(mvbad.begin() + 1, w.bad_graph);
            std::vector<uint64_t> nth;
            uint64_t from = ~0ull, total = std::max<uint64_t>(1, counts[i]);
            uint64_t at = 1 + (uint64_t) (l.real(2) * total);
            Rng r(l.u(4));
            if (mode == "one") nth = {at};
            else if (mode == "some") for (long k = 0; k < l.num(3); ++k) nth.push_back(1 + r.below(total));
            else if (mode == "from") from = at;
            for (int round = 0; round < 2; ++round) { // with the fault, then without
                bool fault = round == 0;
                w.rg.reset(); w.rb.clear(); w.rp.clear(); w.rc.reset();
                std::string err;
                if (fault && mode == "site") {
                    if (!sites[i].empty()) { auto &x = sites[i][std::min(sites[i].size() - 1, (size_t) (l.real(2) * sites[i].size()))]; sim::alloc_fault_site(x, 1 + r.below(x.count)); }
                } else if (fault && !bad) sim::alloc_fault_arm(nth, from);
                if (fault && bad) sim::g_sh->fault_fired[sim::FK_BADINPUT]++;
                bool threw = false;
                try { do_op(w, l, fault && bad, a, b, fault && bad ? mvbad : mv); }
                catch (const std::exception &e) { sim::alloc_fault_disarm(); threw = true; err = e.what(); }
                catch (...) { sim::alloc_fault_disarm(); sim::violation("wrong-error", "%s threw something that is not a std::exception", op.c_str()); }
                sim::alloc_fault_disarm();
                std::string what, lbl = fault ? (bad ? op + " with invalid input" : op + " with failing allocations (" + mode + ", at " + std::to_string(at) + " of " + std::to_string(total) + ")") : op + " repeated without the fault";
                if (sim::holds_locks(&what)) sim::violation("lock-held", "after %s: %s", lbl.c_str(), what.c_str());
                auto lk = sim::io_leaks();
                if (!lk.empty()) sim::violation("io-leak", "after %s, still open:%s", lbl.c_str(), lk.c_str());
                if (canon(*w.g) != gt || canon(*w.g2) != g2t) sim::violation("input-changed", "%s changed its input graph", lbl.c_str());
                sim::probe(threw ? PR_OP_THREW : PR_OP_OK);
                if (op == "save" && threw) {
                    std::string seen;
                    if (!guarded([&] { seen = canon(*GraphSerializer::deserialize_from_file(w.path)); }, &what)) sim::violation("wrong-result", "after %s failed, the file that was there no longer loads: %s", lbl.c_str(), what.c_str());
                    if (seen != at_path && seen != gt) sim::violation("wrong-result", "after %s failed, the path loads as a mixture", lbl.c_str());
                }
                if (threw) {
                    sim::observe_str(fault ? "threw" : err);
                    if (!fault && "error " + err != want[i]) sim::violation("wrong-result", "%s failed: %s (expected %s)", lbl.c_str(), err.c_str(), want[i].substr(0, 100).c_str());
                    if (fault && op == "batch") sim::probe(PR_ITEM_ERR);
                    continue;
                }
                if (bad && fault) { if (op == "merge" || op == "gen" || op == "range") continue; }
                if (want[i].compare(0, 6, "error ") == 0 && op != "batch" && op != "computer") sim::violation("wrong-result", "%s returned, although it fails without faults: %s", lbl.c_str(), want[i].c_str());
                auto got = result_text(w, l);
                sim::observe_str(got);
                if (op == "save") at_path = gt;
                if (op == "batch" && fault) {
                    auto x = lines_of(got), y = lines_of(want[i]);
                    if (x.size() != y.size()) sim::violation("wrong-result", "%s: %zu pairs gave %zu results", lbl.c_str(), y.size(), x.size());
                    for (size_t k = 0; k < x.size(); ++k) {
                        if (x[k] == y[k]) continue;
                        if (x[k].compare(0, 6, "error ") != 0) sim::violation("wrong-result", "%s: result %zu is '%s' instead of '%s' or an error", lbl.c_str(), k, x[k].c_str(), y[k].c_str());
                        sim::probe(PR_ITEM_ERR);
                    }
                } else if (got != want[i]) sim::violation("wrong-result", "%s gave another result: %s", lbl.c_str(), op == "batch" || op == "query" || op == "computer" ? got.c_str() : canon_diff(want[i], got).c_str());
            }
        }
    });
}
static Reg reg({"fail", gen_fail, run_fail});
