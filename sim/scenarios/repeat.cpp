// C15: the same work again and again does not make the process grow.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <sstream>
using sim::Rng;

// "keep 0|1" whether graph and computer outlive the rounds, "clients n",
// "f <op> none|one|from|bad|io <fraction> <seed>" one operation of every round
static Spec gen_repeat(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    for (auto &l : s.lines) { // every thread of a team comes to its turn in a few rounds
        if (l.key == "team") for (auto &t : l.a) t = std::to_string(1 + std::stoi(t) % 4);
        if (l.key == "sched") {
            static const char *ps[] = {"0.1", "0.3", "0.7"}, *pm[] = {"0", "1e-4", "1e-3"};
            if (r.chance(0.15)) l.a = V("none"); else l.a = V("random", r.below(1000000000), ps[r.below(3)], pm[r.below(3)]);
        }
    }
    auto rings = gen_ocean_rings(r, r.chance(0.1) ? 22 : 12);
    spec_rings(s, rings);
    s.add("cross", V(r.below(1000)));
    s.add("keep", V((int) r.chance(0.5)));
    bool clients = r.chance(0.3);
    if (clients) s.add("clients", V(2));
    static const char *ops[] = {"gen", "range", "merge", "batch", "batch", "query", "query", "save", "load", "load", "computer", "graph", "edges", "edges", "text", "vertex", "missing", "damaged"};
    int n = clients ? 2 + (int) r.below(4) : 1 + (int) r.below(5);
    bool io = !clients && r.chance(0.35);
    for (int i = 0; i < n; ++i) {
        std::string op = io && r.chance(0.7) ? r.chance(0.5) ? "save" : "load" : ops[r.below(18)];
        const char *m = "none";
        if (!clients && r.chance(0.5)) {
            m = r.chance(0.7) ? "one" : "from";
            if ((op == "gen" || op == "range" || op == "merge") && r.chance(0.3)) m = "bad";
            if ((op == "save" || op == "load") && r.chance(io ? 0.75 : 0.4)) m = "io";
        }
        char f[32]; snprintf(f, sizeof f, "%.6f", r.unit());
        s.add("f", V(op.c_str(), m, (const char *) f, r.below(1000000)));
    }
    int q = 1 + (int) r.below(4);
    for (int i = 0; i < q; ++i) spec_query(s, "q", gen_query(r, rings));
    return s;
}
namespace {
struct RW {
    std::vector<Polygon> polys, bad_polys;
    std::shared_ptr<Graph> g, g2, bad_graph;
    std::shared_ptr<ShortestPathComputer> c;
};
struct Fixed { // outlives the rounds, and is not counted
    std::vector<Ring> rings;
    std::vector<Line> fs;
    std::vector<Query> qs;
    std::vector<std::pair<Coordinate, Coordinate>> pairs;
    std::string path, loadpath, missing, damaged;
    uint64_t cross;
    std::vector<uint64_t> allocs, calls; // of each operation in the first round
};
struct RCl { int id; RW *w; Fixed *f; };
}
static void build(RW &w, const Fixed &f) {
    w.polys = make_polygons(f.rings);
    w.bad_polys = invalid_polygons(f.rings);
    w.g = std::make_shared<Graph>(w.polys);
    w.g2 = std::make_shared<Graph>(w.polys);
    auto vs = w.g->get_vertices();
    Rng r(f.cross + 5);
    for (size_t i = 0; i < vs.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            if (r.chance(0.5)) w.g->add_edge(vs[i], vs[j], r.chance(0.3));
            if (r.chance(0.3)) w.g2->add_edge(vs[i], vs[j], r.chance(0.3));
        }
    w.bad_graph = unmergeable(w.polys);
    w.c = std::make_shared<ShortestPathComputer>(w.g);
}
static void work(RW &w, const Fixed &f, const Line &l, bool bad, int id) {
    auto op = l.a[0].c_str();
    auto is = [&](const char *x) { return !strcmp(op, x); };
    auto &q = f.qs[l.u(3) % f.qs.size()];
    if (is("gen")) VisgraphGenerator::generate(bad ? w.bad_polys : w.polys);
    else if (is("range")) {
        size_t n = w.g->get_vertices().size();
        Rng r(l.u(3));
        size_t a = r.below(n + 1), b = a + r.below(n - a + 1);
        VisgraphGenerator::generate_with_shuffled_range(bad ? w.bad_polys : w.polys, bad ? 0 : a, bad ? n : b, 7);
    } else if (is("merge")) { std::vector<std::shared_ptr<Graph>> v{w.g, w.g2, w.g}; if (bad) v.insert(v.begin() + 1, w.bad_graph); merge_graphs(v); }
    else if (is("batch")) w.c->shortest_paths(f.pairs, q.limit, q.correct, q.greed);
    else if (is("query")) w.c->shortest_path(C(q.a), C(q.b), q.limit, q.correct, q.greed);
    else if (is("save")) GraphSerializer::serialize_to_file(w.g, f.path + (id ? "2" : ""));
    else if (is("load")) GraphSerializer::deserialize_from_file(f.loadpath);
    else if (is("missing")) GraphSerializer::deserialize_from_file(f.missing);
    else if (is("damaged")) GraphSerializer::deserialize_from_file(f.damaged);
    else if (is("computer")) ShortestPathComputer(w.g);
    else if (is("graph")) Graph(w.polys);
    else if (is("text")) w.g->to_string_representation();
    else if (is("vertex")) { auto g = std::make_shared<Graph>(w.polys); auto c = Coordinate(12345, (int32_t) l.u(3)); g->add_vertex(c); g->add_edge(c, g->get_vertices()[0], true); g->get_neighbors(c); }
    else if (is("edges")) {
        auto vs = w.g2->get_vertices();
        Rng r(l.u(3));
        for (int i = 0; i < 6; ++i) {
            auto &a = vs[r.below(vs.size())], &b = vs[r.below(vs.size())];
            w.g2->add_edge(a, b, r.chance(0.5)); w.g2->get_neighbors(a); w.g2->has_edge(a, b); w.g2->is_edge_meridian_crossing(a, b);
            if (r.chance(0.5)) w.g2->remove_edge(a, b);
        }
    }
}
static void attempt(RW &w, const Fixed &f, const Line &l, bool bad, int id) {
    try { work(w, f, l, bad, id); }
    catch (const std::exception &) { sim::probe(PR_OP_THREW); return; }
    catch (...) { sim::alloc_fault_disarm(); sim::violation("wrong-error", "%s threw something that is not a std::exception", l.str(0).c_str()); }
    sim::probe(PR_OP_OK);
}
static void repeat_client(void *p) {
    auto *c = (RCl *) p;
    for (size_t i = 0; i < c->f->fs.size(); ++i) if ((int) (i % 2) == c->id) { attempt(*c->w, *c->f, c->f->fs[i], false, c->id); sim::yield_point(); }
}
static void one_round(RW &w, Fixed &f, bool first, int clients) {
    if (clients > 1) {
        RCl cs[2] = {{0, &w, &f}, {1, &w, &f}};
        void *args[2] = {&cs[0], &cs[1]};
        sim::run_on_pool(repeat_client, args, 2);
        return;
    }
    for (size_t i = 0; i < f.fs.size(); ++i) {
        auto &l = f.fs[i];
        auto mode = l.str(1);
        bool fault = !first && mode != "none";
        uint64_t n0 = sim::alloc_count();
        if (first || mode == "io") {
            std::vector<sim::IoFault> v;
            static const int errs[] = {ENOSPC, EIO, EMFILE, ENOMEM, EACCES, EINTR};
            if (fault && f.calls[i]) v.push_back({1 + std::min(f.calls[i] - 1, (uint64_t) (l.real(2) * f.calls[i])), errs[l.u(3) % 6], 0});
            sim::io_arm(v);
        }
        if (fault && f.allocs[i]) {
            uint64_t at = 1 + std::min(f.allocs[i] - 1, (uint64_t) (l.real(2) * f.allocs[i]));
            if (mode == "one") sim::alloc_fault_arm({at});
            if (mode == "from") sim::alloc_fault_arm({}, at);
        }
        if (fault && mode == "bad") sim::g_sh->fault_fired[sim::FK_BADINPUT]++;
        attempt(w, f, l, fault && mode == "bad", 0);
        sim::alloc_fault_disarm();
        if (first) { f.allocs.push_back(sim::alloc_count() - n0); f.calls.push_back(sim::io_ops_since_arm()); }
        sim::io_disarm();
    }
}
// Growth without end doubles with the number of rounds, whether it comes in drops or in leaps; what fills up does not.
static bool endless(const uint64_t *held, int n) {
    auto least = [&](int a) { return (int64_t) *std::min_element(held + a, held + a + a / 5 + 1); };
    for (int a = n; a > 20; a /= 2) {
        int64_t late = least(a) - least(a / 2), early = least(a / 2) - least(a / 4);
        if (early <= 0 || late < 1.4 * early) return false;
    }
    return true;
}
static void run_repeat(Run &run) {
    if (run.spec.all("q").empty() || run.spec.all("f").empty()) return;
    Fixed f;
    f.rings = rings_of(run.spec);
    f.fs = run.spec.all("f");
    for (auto &l : run.spec.all("q")) { f.qs.push_back(query_of(l)); f.pairs.push_back({C(f.qs.back().a), C(f.qs.back().b)}); }
    f.cross = run.spec.num("cross");
    f.path = run.scratch + "/out"; f.loadpath = run.scratch + "/in"; f.missing = run.scratch + "/none"; f.damaged = run.scratch + "/damaged";
    {
        ChildOpts pr; pr.pristine = true;
        if (child(run, [&] { RW w; build(w, f); sim::io_scratch(run.scratch); sim::rt_io_begin_public(); GraphSerializer::serialize_to_file(w.g, f.loadpath); }, nullptr, pr) != OUT_OK) return;
        auto b = slurp_file(f.loadpath);
        b.resize(b.size() - 1 - b.size() / 5);
        spit_file(f.damaged, b);
    }
    bool keep = run.spec.num("keep");
    int clients = (int) run.spec.num("clients");
    ChildOpts o; o.max_steps = 900000000;
    child(run, [&] {
        sim::io_scratch(run.scratch);
        sim::rt_io_begin_public();
        constexpr int FEW = 6, MORE = 48, MANY = 192;
        static uint64_t held[MANY + 1];
        RW kept;
        if (keep) build(kept, f);
        f.allocs.reserve(16); f.calls.reserve(16);
        int rounds = FEW;
        for (int k = 1; k <= rounds; ++k) {
            {
                RW w;
                if (!keep) build(w, f);
                one_round(keep ? kept : w, f, k == 1, clients);
            }
            held[k] = sim::live_bytes();
            auto lk = sim::io_leaks();
            if (!lk.empty()) sim::violation("growth", "after round %d of the same work, still open:%s", k, lk.c_str());
            if (k == FEW) // what is kept once for all, or once per thread, fills up in time: look on only if there is doubt
                for (int i = 3; i <= k; ++i) if (held[i] > held[i - 1]) { rounds = MORE; sim::probe(PR_LOOKED_ON); break; }
            if (k == MORE && endless(held, 40)) rounds = MANY;
        }
        if (rounds < MANY || !endless(held, 160)) return;
        std::string what;
        for (auto &l : f.fs) what += " " + l.str(0) + (l.str(1) == "none" || clients > 1 ? "" : "(" + l.str(1) + ")");
        sim::violation("growth", "the same work (%s ) done again and again: after 20, 40, 80 and 160 rounds %lu, %lu, %lu and %lu bytes are held", what.c_str(), (unsigned long) held[20], (unsigned long) held[40], (unsigned long) held[80], (unsigned long) held[160]);
    }, nullptr, o);
}
static Reg reg({"repeat", gen_repeat, run_repeat});
