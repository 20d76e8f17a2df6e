// Graph and query generators shared by the scenarios.
#include "common.h"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cmath>
using sim::Rng;

std::vector<Ring> gen_small_rings(Rng &r, int max_vertices, bool messy) {
    std::vector<Ring> out;
    int total = 0, target = (int) r.below(max_vertices + 1);
    int cols = 24, slot = 0;
    int fixed = r.chance(0.4) ? 3 + (int) r.below(9) : 0;
    while (total < target && slot < cols * 14) {
        double cx = (-172 + (slot % cols) * 14.9) * 1e6, cy = (-78 + (slot / cols) * 12.0) * 1e6;
        slot++;
        int n = fixed ? fixed : 3 + (int) r.below(12);
        Ring g;
        for (int i = 0; i < n; ++i) {
            double a = (i + 0.7 * r.unit()) * 2 * M_PI / n, k = 0.5 + 0.5 * r.unit();
            g.push_back({(int32_t) (cx + 5e6 * k * std::cos(a)), (int32_t) (cy + 5e6 * k * std::sin(a))});
        }
        if (r.chance(0.5)) std::reverse(g.begin(), g.end());
        if (messy && r.chance(0.5)) {
            int m = 1 + (int) r.below(4);
            for (int q = 0; q < m; ++q) {
                size_t i = r.below(g.size());
                Pt a = g[i], b = g[(i + 1) % g.size()];
                switch (r.below(4)) {
                case 0: g.insert(g.begin() + i, a); break;                                                             // repeated vertex
                case 1: g.insert(g.begin() + i + 1, {(int32_t) (((int64_t) a.x + b.x) / 2), (int32_t) (((int64_t) a.y + b.y) / 2)}); break; // (nearly) collinear
                case 2: g.insert(g.begin() + i + 1, {a.x + 1000, a.y}); g.insert(g.begin() + i + 2, {a.x + 2000, a.y}); break;
                case 3: g.insert(g.begin() + i + 1, {a.x + 1000, a.y + 500}); g.insert(g.begin() + i + 2, {a.x + 1000, a.y + 500}); break;
                }
            }
        } else if (messy && r.chance(0.2)) { // sliver
            int32_t x = (int32_t) cx, y = (int32_t) cy, k = 1 + (int32_t) r.below(9000000);
            g = {{x, y}, {x + k, y + 1}, {x + (int32_t) r.below(k) + 1, y + (int32_t) r.below(2)}};
        }
        if ((int) g.size() + total > max_vertices) break;
        total += g.size();
        out.push_back(g);
    }
    return out;
}
void gen_graph(Spec &s, Rng &r, const std::string &id, int max_vertices, bool messy) {
    if (r.chance(0.15)) {
        auto rings = gen_rings(r, std::min(20, max_vertices));
        for (auto &g : rings) { std::vector<std::string> a; for (auto &p : g) a.push_back(std::to_string(p.x) + "," + std::to_string(p.y)); s.add("poly" + id, a); }
        s.add("graph", V(id.c_str(), "gen"));
        return;
    }
    int cap = r.chance(0.03) ? 0 : r.chance(0.6) ? std::min(max_vertices, 24) : max_vertices;
    auto rings = gen_small_rings(r, cap, messy);
    for (auto &g : rings) { std::vector<std::string> a; for (auto &p : g) a.push_back(std::to_string(p.x) + "," + std::to_string(p.y)); s.add("poly" + id, a); }
    static const int dens[] = {0, 20, 100, 400, 1000};
    static const int cross[] = {0, 0, 50, 500, 1000};
    s.add("graph", V(id.c_str(), "rand", r.below(1000000), dens[r.below(5)], cross[r.below(5)], (int) (r.chance(0.3) ? 100 : 0)));
}
// one ring of many vertices, or many rings; dense crossing edges
void big_graph(Spec &s, Rng &r, const std::string &id) {
    if (r.chance(0.25)) { // more than 255 rings
        for (int i = 0, n = 256 + (int) r.below(20); i < n; ++i) {
            int x = (-172 + i % 24 * 14) * 1000000 + (int) r.below(4000000), y = (-78 + i / 24 * 11) * 1000000 + (int) r.below(4000000);
            s.add("poly" + id, V((std::to_string(x) + "," + std::to_string(y)).c_str(), (std::to_string(x + 5000000) + "," + std::to_string(y)).c_str(), (std::to_string(x) + "," + std::to_string(y + 5000000)).c_str()));
        }
        s.add("graph", V(id.c_str(), "rand", r.below(1000000), (int) r.below(60), r.chance(0.5) ? 500 : 0, 0));
        return;
    }
    int n = 256 + (int) r.below(340);
    if (r.chance(0.5)) {
        std::vector<std::string> a;
        for (int i = 0; i < n; ++i) { double t = i * 2 * M_PI / n; a.push_back(std::to_string((int) (9e7 * std::cos(t))) + "," + std::to_string((int) (6e7 * std::sin(t)))); }
        s.add("poly" + id, a);
    } else
        for (auto &g : gen_small_rings(r, n, false)) { std::vector<std::string> a; for (auto &p : g) a.push_back(std::to_string(p.x) + "," + std::to_string(p.y)); s.add("poly" + id, a); }
    s.add("graph", V(id.c_str(), "rand", r.below(1000000), r.chance(0.7) ? 1000 : 100, r.chance(0.7) ? 1000 : 300, 0));
}
void sibling_graph(Spec &s, Rng &r, const std::string &of, const std::string &id) {
    for (auto &l : s.all("poly" + of)) s.add("poly" + id, l.a);
    static const int dens[] = {0, 20, 100, 400, 1000};
    static const int cross[] = {0, 0, 0, 50, 1000};
    s.add("graph", V(id.c_str(), "rand", r.below(1000000), dens[r.below(5)], cross[r.below(5)], 0));
}
std::shared_ptr<Graph> graph_of(const Spec &s, const std::string &id) {
    auto polys = make_polygons(rings_of(s, "poly" + id));
    for (auto &l : s.all("graph")) {
        if (l.str(0) != id) continue;
        if (l.str(1) == "gen") return VisgraphGenerator::generate(polys);
        auto g = std::make_shared<Graph>(polys);
        auto vs = g->get_vertices();
        Rng r(l.u(2));
        long dens = l.num(3), cross = l.num(4), both = l.num(5);
        for (size_t i = 0; i < vs.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                if ((long) r.below(1000) >= dens) continue;
                bool c = (long) r.below(1000) < cross, b = (long) r.below(1000) < both;
                if (c || b) g->add_edge(vs[i], vs[j], true);
                if (!c || b) g->add_edge(vs[i], vs[j], false);
            }
        return g;
    }
    sim::harness_error("no graph %s", id.c_str());
}
// options that change many answers
// options that show whether they reached a query, and queries across the map, whose paths have a choice
void telling_options(Rng &r, Query &q) {
    q.correct = r.chance(0.75);
    q.limit = r.chance(0.6) ? INFINITY : 10 + r.unit() * 60;
    static const double gs[] = {1.0, 0.0, 3.0, 10.0, 10.0, 30.0};
    q.greed = gs[r.below(6)];
}
std::vector<Query> telling_queries(Rng &r, const std::vector<Ring> &rings, size_t n) {
    int x0 = INT32_MAX, x1 = INT32_MIN, y0 = INT32_MAX, y1 = INT32_MIN;
    for (auto &g : rings) for (auto &p : g) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    std::vector<Query> v;
    for (size_t i = 0; i < n; ++i) {
        Query q = gen_query(r, rings);
        for (int t = 0; t < 12 && std::abs((double) q.a.x - q.b.x) < 0.6 * ((double) x1 - x0) && std::abs((double) q.a.y - q.b.y) < 0.6 * ((double) y1 - y0); ++t) q = gen_query(r, rings);
        v.push_back(q);
    }
    return v;
}
// a size just around one at which an implementation might change its ways
int huge_batch(Rng &r) {
    static const int sizes[] = {256, 500, 512, 1000, 1024, 1500, 2000, 2048, 4096};
    return sizes[r.below(9)] + (int) r.range(-1, 2);
}
std::string num17(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
Query gen_query(Rng &r, const std::vector<Ring> &rings) {
    Query q;
    q.a = gen_point(r, rings);
    q.b = r.chance(0.04) ? q.a : gen_point(r, rings);
    q.limit = r.chance(0.7) ? INFINITY : r.chance(0.5) ? 1 + r.unit() * 60 : r.unit() * 0.8;
    q.correct = r.chance(0.45);
    static const double gs[] = {1.0, 1.0, 1.0, 0.0, 0.5, 2.0, 10.0};
    q.greed = gs[r.below(7)];
    return q;
}
// A query that has something in common with an earlier one, as consecutive legs of a track or repeated requests have.
Query next_query(Rng &r, const std::vector<Ring> &rings, const std::vector<Query> &pool) {
    Query f = gen_query(r, rings);
    if (pool.empty() || r.chance(0.4)) return f;
    Query p = r.chance(0.5) ? pool.back() : pool[r.below(pool.size())], q = p;
    auto nudge = [&](Pt &x) { x.x += (int) r.range(-2, 2); x.y += (int) r.range(-2, 2); };
    switch (r.below(11)) {
    case 0: case 1: break; // the very same
    case 2: case 3: q.limit = f.limit; q.correct = f.correct; q.greed = f.greed; break;
    case 4: std::swap(q.a, q.b); break;
    case 5: q.b = f.b; break;
    case 6: q.a = f.a; break;
    case 7: q.a = p.b; q.b = f.b; break;
    case 8: nudge(r.chance(0.5) ? q.a : q.b); break;
    case 9: q.correct = !q.correct; break;
    default:
        if (r.chance(0.5)) q.greed = r.chance(0.5) ? q.greed + 1e-9 : f.greed;
        else q.limit = r.chance(0.5) && !std::isinf(q.limit) ? q.limit * (1 + r.unit() * 1e-3) : f.limit;
    }
    return q;
}
void spec_query(Spec &s, const std::string &key, const Query &q, std::vector<std::string> extra) {
    std::vector<std::string> a = V(q.a.x, q.a.y, q.b.x, q.b.y, num17(q.limit).c_str(), (int) q.correct, num17(q.greed).c_str());
    extra.insert(extra.end(), a.begin(), a.end());
    s.add(key, extra);
}
Query query_of(const Line &l, size_t at) {
    Query q;
    q.a = {(int32_t) l.num(at), (int32_t) l.num(at + 1)};
    q.b = {(int32_t) l.num(at + 2), (int32_t) l.num(at + 3)};
    q.limit = l.real(at + 4); q.correct = l.num(at + 5); q.greed = l.real(at + 6);
    return q;
}
std::string path_text(const std::vector<Coordinate> &p) {
    std::string o = "path";
    for (auto &c : p) o += " " + std::to_string(P(c).x) + "," + std::to_string(P(c).y);
    return o;
}
std::string single_answer(const ShortestPathComputer &c, const Query &q) {
    std::string err, o;
    bool ok = guarded([&] {
        auto p = c.shortest_path(C(q.a), C(q.b), q.limit, q.correct, q.greed);
        if (p.size() > 2) sim::probe(PR_LONG_PATH);
        o = path_text(p);
    }, &err);
    sim::probe(ok ? PR_PATHS : PR_PATH_ERR);
    return ok ? o : "error " + err;
}
std::string batch_text(const BatchInterpolateResult &r) {
    if (r.path.has_value() && r.error_msg.has_value()) return "both a path and an error";
    if (r.path.has_value()) return path_text(*r.path);
    if (r.error_msg.has_value()) return "error " + *r.error_msg;
    return "neither a path nor an error";
}
