// C01: one answer for every schedule, layout, clock and output device.
#include "common.h"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <sstream>
using sim::Rng;

static Spec gen_gen(Rng &r, const std::string &, bool thorough) {
    Spec s;
    gen_env(s, r, true);
    if (r.chance(0.15)) s.add("stdout", V("bad"));
    int cap = r.chance(thorough ? 0.3 : 0.12) ? 60 : 26;
    if (r.chance(0.007)) cap = 80 + (int) r.below(80);
    auto rings = gen_rings(r, cap);
    spec_rings(s, rings);
    int n = 0;
    for (auto &g : rings) n += g.size();
    // sometimes the same process goes on to another map, of the same size or not
    bool two = cap <= 60 && r.chance(0.35);
    int n2 = 0;
    if (two) {
        std::vector<Ring> other;
        bool mirror = r.chance(0.5);
        if (r.chance(0.6)) { other = rings; for (auto &g : other) for (auto &p : g) { if (mirror) p.x = -p.x; else p.y = -p.y; } }
        else other = r.chance(0.6) ? vary_rings(r, rings) : gen_rings(r, cap);
        for (auto &g : other) n2 += g.size();
        spec_rings(s, other, "polyb");
    }
    if (!two || r.chance(0.8)) s.add("op", V("full", "a"));
    int k = (int) r.below(3) + two;
    for (int i = 0; i < k; ++i) {
        bool b2 = two && r.chance(0.6);
        if (two && r.chance(0.5)) { s.add("op", V("full", b2 ? "b" : "a")); continue; }
        int m = b2 ? n2 : n, a = (int) r.below(m + 1), b = (int) r.below(m + 1);
        s.add("op", V("range", b2 ? "b" : "a", std::min(a, b), std::max(a, b), r.chance(0.5) ? r.below(5) : r.below(4000000000ull)));
    }
    return s;
}
static std::shared_ptr<Graph> do_op(const Line &op, const std::vector<Polygon> &pa, const std::vector<Polygon> &pb) {
    auto &polys = op.str(1) == "b" ? pb : pa;
    if (op.str(0) == "full") return VisgraphGenerator::generate(polys);
    return VisgraphGenerator::generate_with_shuffled_range(polys, op.u(2), op.u(3), (unsigned) op.u(4));
}
void check_full(const std::string &c) {
    std::set<std::string> es;
    std::istringstream is(c);
    std::string l;
    while (std::getline(is, l)) if (!l.empty() && (l[0] == 'E' || l[0] == 'X')) es.insert(l);
    for (auto &e : es) {
        if (e[0] == 'X') sim::violation("malformed-graph", "%s", e.c_str());
        std::istringstream q(e);
        std::string k; int i, j, f;
        q >> k >> i >> j >> f;
        if (i == j) sim::violation("malformed-graph", "vertex %d is its own neighbour", i);
        if (f & 2) sim::violation("malformed-graph", "edge %d-%d exists in one direction only", i, j);
        if (!es.count("E " + std::to_string(j) + " " + std::to_string(i) + " " + std::to_string(f)))
            sim::violation("malformed-graph", "edge %d-%d has no counterpart with the same crossing flag", i, j);
        sim::probe(f & 1 ? PR_CROSSING : PR_EDGES);
    }
}
static void run_gen(Run &run) {
    auto rings = rings_of(run.spec), rings_b = rings_of(run.spec, "polyb");
    auto ops = run.spec.all("op");
    size_t total = 0;
    for (auto &g : rings) total += g.size();
    auto one = [&](const Line &op, const std::vector<Polygon> &pa, const std::vector<Polygon> &pb, bool *ok) {
        std::string c, err;
        *ok = guarded([&] { c = canon(*do_op(op, pa, pb)); }, &err);
        return *ok ? c : "error " + err + "\n";
    };
    // every operation by one thread in a process of its own
    std::map<std::string, std::string> ref;
    ChildOpts pr; pr.pristine = true; pr.max_steps = total > 60 ? 1500000000 : 500000000;
    for (auto &op : ops) {
        std::string key;
        for (auto &x : op.a) key += x + " ";
        if (ref.count(key)) continue;
        bool ok;
        std::string out;
        if (child(run, [&] { set_result(one(op, make_polygons(rings), make_polygons(rings_b), &ok)); }, &out, pr) != OUT_OK) return;
        ref[key] = out;
    }
    ChildOpts o;
    o.max_steps = pr.max_steps;
    o.stdout_bad = run.spec.str("stdout") == "bad";
    child(run, [&] {
        auto pa = make_polygons(rings), pb = make_polygons(rings_b);
        for (size_t i = 0; i < ops.size(); ++i) {
            std::string key;
            for (auto &x : ops[i].a) key += x + " ";
            bool ok;
            auto c = one(ops[i], pa, pb, &ok);
            sim::observe_str(c);
            if (ok && ops[i].str(0) == "full") check_full(c);
            if (c == ref[key]) continue;
            if (!ok) sim::violation("wrong-graph", "operation %zu (%s) failed: %s", i, key.c_str(), c.c_str());
            sim::violation("wrong-graph", "operation %zu (%s) differs from the one-thread result: %s", i, key.c_str(), canon_diff(ref[key], c).c_str());
        }
    }, nullptr, o);
}
static Reg reg({"gen", gen_gen, run_gen});
