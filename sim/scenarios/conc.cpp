// C03: parallel operations and clients sharing one graph or one computer, under the race detector.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cmath>
using sim::Rng;

static Spec gen_conc(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    auto rings = gen_ocean_rings(r, r.chance(0.1) ? 26 : 16);
    spec_rings(s, rings);
    int n = 0;
    for (auto &g : rings) n += g.size();
    s.add("cross", V((int) r.below(100)));
    if (r.chance(0.25)) // errors inside parallel regions are ordinary too
        for (int k = 1 + (int) r.below(5); k > 0; --k) s.add("nomem", V((unsigned long) std::exp(r.unit() * 10)));
    bool one = r.chance(0.45); // a single parallel operation, else clients
    int clients = one ? 1 : 2 + (int) r.below(4);
    bool writers = r.chance(0.6);
    bool gen_used = false;
    int many = !one && r.chance(0.15) ? 40 + (int) r.below(r.chance(0.3) ? 260 : 60) : 0; // edges of a large graph instead
    if (many) s.add("large", V(many));
    int step = 8 << r.below(many > 256 ? 6 : many > 128 ? 5 : many > 64 ? 4 : 3), base = (int) r.below(8);
    std::vector<int> hot;
    bool spread = r.chance(0.5);
    for (int i = 0; i < 4; ++i) hot.push_back(!many ? 0 : spread ? (int) r.below(many) : std::min(many - 1, base + step * i));
    std::vector<Query> pool;
    for (int c = 0; c < clients; ++c) {
        int ops = one ? 1 + (int) r.below(2) : 1 + (int) r.below(5);
        for (int k = 0; k < ops; ++k) {
            int w = (int) r.below(100);
            if (many) {
                auto v = [&] { return r.chance(0.85) ? hot[r.below(4)] : (int) r.below(many); };
                s.add("c", V(c, "edge", (int) (writers ? r.below(7) : 4 + r.below(3)), v(), v(), (int) r.below(2)));
                continue;
            }
            auto point = [&](std::vector<std::string> head) {
                Query q = next_query(r, rings, pool);
                pool.push_back(q);
                std::vector<std::string> a = V(q.a.x, q.a.y, q.b.x, q.b.y, num17(q.limit).c_str(), (int) q.correct, num17(q.greed).c_str());
                head.insert(head.end(), a.begin(), a.end());
                if (head[1] == "batch") head.push_back(std::to_string(r.chance(0.5) ? 0 : r.below(4))); // which pairs repeat others
                s.add("c", head);
            };
            if (one ? w < 35 : w < 6) { if (gen_used) continue; gen_used = true; s.add("c", V(c, "gen", (int) r.chance(0.15))); }
            else if (one ? w < 55 : w < 12) { int a = (int) r.below(n + 1), b = (int) r.range(a, n); s.add("c", V(c, "range", a, b, r.below(1000), (int) r.chance(0.1))); }
            else if (one ? w < 75 : w < 22) s.add("c", V(c, "merge", (int) (1 + r.below(6)), (int) r.below(4), (int) r.chance(0.15)));
            else if (one ? w < 100 : w < 36) point(V(c, "batch", (int) (1 + r.below(6))));
            else if (w < 56) point(V(c, "query"));
            else if (w < 84 || writers) s.add("c", V(c, "edge", (int) (writers ? r.below(7) : 4 + r.below(3)), (int) r.below(n), (int) r.below(n), (int) r.below(2)));
            else s.add("c", V(c, r.chance(0.4) ? "save" : r.chance(0.5) ? "text" : "load"));
        }
    }
    return s;
}
namespace {
struct World {
    Run *run;
    std::vector<Line> ops;
    std::vector<Polygon> polys, bad_polys;
    std::shared_ptr<Graph> g, g2, bad, edged; // edged: of which single edges are changed
    std::shared_ptr<ShortestPathComputer> c;
    std::vector<Coordinate> vs, evs;
};
struct Cl { int id; World *w; };
}
static void one_op(World &w, const Line &l, int id) {
    auto k = l.str(1);
    if (k == "gen") sim::observe(VisgraphGenerator::generate(l.num(2) ? w.bad_polys : w.polys)->get_vertices().size());
    else if (k == "range") {
        size_t n = w.vs.size();
        sim::observe(VisgraphGenerator::generate_with_shuffled_range(l.num(5) ? w.bad_polys : w.polys, std::min(n, (size_t) l.num(2)), std::min(n, (size_t) l.num(3)), (unsigned) l.u(4))->get_vertices().size());
    } else if (k == "merge") {
        std::vector<std::shared_ptr<Graph>> v;
        for (int i = 0; i < l.num(2); ++i) v.push_back((l.num(3) >> (i % 2) & 1) ? w.g2 : w.g);
        if (l.num(4)) for (size_t i = 0; i < v.size(); i += 2) v.insert(v.begin() + i, w.bad);
        sim::observe(merge_graphs(v)->get_vertices().size());
    } else if (k == "batch") {
        Query q = query_of(l, 3);
        std::vector<std::pair<Coordinate, Coordinate>> pairs;
        for (int i = 0; i < l.num(2); ++i) // the pair itself, then legs to and from other places
            pairs.push_back(!i ? std::make_pair(C(q.a), C(q.b)) : i % 3 == 1 ? std::make_pair(C(q.b), C(q.a)) : i % 3 == 2 ? std::make_pair(C(q.a), w.vs[i * 7 % w.vs.size()]) : std::make_pair(w.vs[i * 5 % w.vs.size()], C(q.b)));
        for (size_t i = 1; i < pairs.size(); ++i) {
            if (l.num(10) == 1 && i % 2) pairs[i] = pairs[i - 1];
            if (l.num(10) == 2 && i >= (pairs.size() + 1) / 2) pairs[i] = pairs[pairs.size() - 1 - i];
            if (l.num(10) == 3) pairs[i] = pairs[0];
        }
        sim::observe(w.c->shortest_paths(pairs, q.limit, q.correct, q.greed).size());
    } else if (k == "query") single_answer(*w.c, query_of(l, 2));
    else if (k == "edge") {
        size_t n = w.evs.size();
        auto &a = w.evs[l.num(3) % n], &b = w.evs[l.num(4) % n];
        switch (l.num(2)) {
        case 0: w.edged->add_edge(a, b, l.num(5)); break;
        case 1: w.edged->remove_edge(a, b); break;
        case 2: w.edged->add_directed_edge(a, b, l.num(5)); break;
        case 3: w.edged->remove_directed_edge(a, b); break;
        case 4: w.edged->has_edge(a, b); break;
        case 5: w.edged->is_edge_meridian_crossing(a, b); break;
        default: sim::observe(w.edged->get_neighbors(a).size() < 1000);
        }
    } else if (k == "save") GraphSerializer::serialize_to_file(w.g, w.run->scratch + "/c" + std::to_string(id));
    else if (k == "load") sim::observe(GraphSerializer::deserialize_from_file(w.run->scratch + "/shared")->get_vertices().size());
    else if (k == "text") sim::observe(w.g->to_string_representation().size() > 0);
}
static void conc_client(void *p) {
    Cl *c = (Cl *) p;
    for (auto &l : c->w->ops) {
        if (l.num(0) != c->id) continue;
        try { one_op(*c->w, l, c->id); sim::probe(PR_OP_OK); }
        catch (const std::exception &) { sim::probe(PR_OP_THREW); } // an ordinary end of an operation
        sim::yield_point();
    }
}
static void run_conc(Run &run) {
    auto rings = rings_of(run.spec);
    child(run, [&] {
        sim::io_scratch(run.scratch);
        sim::rt_io_begin_public();
        World w;
        w.run = &run;
        w.polys = make_polygons(rings);
        w.ops = run.spec.all("c");
        w.g = std::make_shared<Graph>(w.polys);
        w.g2 = std::make_shared<Graph>(w.polys);
        w.vs = w.g->get_vertices();
        w.edged = w.g;
        w.evs = w.vs;
        if (auto *l = run.spec.get("large")) {
            std::vector<Coordinate> ring;
            for (int i = 0; i < l->num(0); ++i) { double t = i * 2 * M_PI / l->num(0); ring.push_back(Coordinate((int32_t) (9e7 * std::cos(t)), (int32_t) (6e7 * std::sin(t)))); }
            w.edged = std::make_shared<Graph>(std::vector<Polygon>{Polygon(ring)});
            w.evs = w.edged->get_vertices();
        }
        w.bad_polys = invalid_polygons(rings);
        w.bad = unmergeable(w.polys);
        Rng r(run.spec.num("cross") + 17);
        for (size_t i = 0; i < w.vs.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                if (r.chance(0.5)) w.g->add_edge(w.vs[i], w.vs[j], r.chance(0.3));
                if (r.chance(0.3)) w.g2->add_edge(w.vs[i], w.vs[j], r.chance(0.3));
            }
        w.c = std::make_shared<ShortestPathComputer>(w.g);
        GraphSerializer::serialize_to_file(w.g, run.scratch + "/shared");
        int clients = 0;
        for (auto &l : w.ops) clients = std::max(clients, (int) l.num(0) + 1);
        std::vector<Cl> cs;
        for (int i = 0; i < clients; ++i) cs.push_back({i, &w});
        std::vector<uint64_t> nomem;
        for (auto &l : w.run->spec.all("nomem")) nomem.push_back(l.u(0));
        if (!nomem.empty()) sim::alloc_fault_arm(nomem);
        if (clients == 1) conc_client(&cs[0]);
        else {
            sim::probe(PR_CONCURRENT);
            std::vector<int> ids;
            for (auto &c : cs) ids.push_back(sim::spawn(conc_client, &c));
            for (int id : ids) sim::join(id);
        }
        sim::alloc_fault_disarm();
        std::string what;
        if (sim::holds_locks(&what)) sim::violation("deadlock", "a lock is still held when every operation has ended: %s", what.c_str());
    });
}
static Reg reg({"conc", gen_conc, run_conc});
