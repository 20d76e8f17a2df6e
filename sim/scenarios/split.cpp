// C02: split generation, crashes and restarts of workers, merging.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
using sim::Rng;

static Spec gen_split(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    bool large = r.chance(0.012);
    auto rings = gen_rings(r, large ? 70 + (int) r.below(60) : r.chance(0.1) ? 40 : 22);
    spec_rings(s, rings);
    int n = 0;
    for (auto &g : rings) n += g.size();
    s.add("seed0", V(r.chance(0.08) ? 0 : r.chance(0.5) ? r.below(100) : r.below(4294967296ull)));
    int k = 1 + (int) r.below(r.chance(0.05) ? 24 : 5), most = k > 8 ? k : 8;
    std::vector<std::pair<int, int>> cuts;
    if (r.chance(0.5)) { // as the command does
        if (r.chance(0.15)) k = n + 1 + (int) r.below(3);
        k = std::min(k, most);
        int sz = n / k;
        for (int i = 0; i < k; ++i) cuts.push_back({sz * i, i < k - 1 ? sz * (i + 1) : n});
    } else {
        std::vector<int> c{0, n};
        for (int i = 1; i < k; ++i) c.push_back((int) r.below(n + 1));
        std::sort(c.begin(), c.end());
        for (int i = 0; i < k; ++i) cuts.push_back({c[i], c[i + 1]});
    }
    std::vector<int> order;
    for (size_t i = 0; i < cuts.size(); ++i) {
        bool file = r.chance(0.5);
        std::vector<std::string> a = V((int) i, cuts[i].first, cuts[i].second, file ? "file" : "mem");
        if (file && r.chance(0.35)) {
            char f[32]; snprintf(f, sizeof f, "%.4f", r.unit());
            a.push_back(r.chance(0.5) ? "store" : "op");
            a.push_back(f);
        }
        s.add("part", a);
        order.push_back((int) i);
        while (r.chance(0.15)) order.push_back((int) i);
    }
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    std::vector<std::string> o;
    for (int i : order) o.push_back(std::to_string(i));
    s.add("merge", o);
    if (r.chance(0.5)) { // a merge of only some parts
        std::vector<std::string> o2;
        for (size_t i = 0; i < cuts.size(); ++i) if (r.chance(0.5)) o2.push_back(std::to_string(i));
        if (!o2.empty()) s.add("submerge", o2);
    }
    if (r.chance(0.2)) s.add("remerge", V(1)); // merge (merge of a prefix) with the rest
    return s;
}
// Every edge of the part is one of the full graph; one that reads as direct does so there as well.  An edge visible both
// ways reads as direct in the full graph, so a part that saw only the view across the meridian may read as crossing.
bool part_of(const std::string &part, const std::string &full, std::string *why) {
    std::string relaxed = full;
    size_t i = 0;
    while (i < full.size()) {
        size_t k = full.find('\n', i);
        if (full[i] == 'E' && full[k - 1] == '0') { relaxed += full.substr(i, k - 1 - i); relaxed += "1\n"; }
        i = k + 1;
    }
    return canon_subset(part, relaxed, why);
}
static void run_split(Run &run) {
    auto rings = rings_of(run.spec);
    std::string ref;
    ChildOpts pr; pr.pristine = true;
    if (child(run, [&] { auto polys = make_polygons(rings); set_result(canon(*VisgraphGenerator::generate(polys))); }, &ref, pr) != OUT_OK) return;
    unsigned seed = (unsigned) run.spec.get("seed0")->u(0);
    size_t total = 0;
    for (auto &g : rings) total += g.size();
    auto parts = run.spec.all("part");
    for (auto &p : parts) // a spec whose polygons were reduced keeps naming vertices that exist
        for (int i : {1, 2}) if (p.u(i) > total) p.a[i] = std::to_string(total);
    auto path = [&](int i) { return run.scratch + "/part" + std::to_string(i); };
    auto make_part = [&](const Line &p) { auto polys = make_polygons(rings); return VisgraphGenerator::generate_with_shuffled_range(polys, p.u(1), p.u(2), seed); };
    for (auto &p : parts) {
        if (p.str(3) != "file") continue;
        int id = (int) p.num(0);
        bool crash = p.a.size() > 5;
        for (int attempt = 0; attempt < 2; ++attempt) {
            auto out = child(run, [&] {
                sim::io_scratch(run.scratch);
                sim::rt_io_begin_public();
                auto g = make_part(p);
                sim::io_arm({});
                if (crash && attempt == 0) {
                    // an estimate of the number of events of this save
                    double f = p.real(5);
                    size_t nv = g->get_vertices().size();
                    if (p.str(4) == "op") sim::io_crash_at_op(1 + (uint64_t) (f * 9), f * 100 - (int) (f * 100) < 0.5);
                    else sim::io_crash_at_store(1 + (uint64_t) (f * (24 + 16 * nv)));
                }
                std::string err;
                if (!guarded([&] { GraphSerializer::serialize_to_file(g, path(id)); }, &err)) sim::violation("wrong-graph", "saving a part failed: %s", err.c_str());
                set_result("");
            });
            if (out == OUT_CRASH) { sim::g_sh->fault_fired[sim::FK_WORKER_CRASH]++; sim::g_sh->probes[PR_WORKER_RESTART]++; continue; }
            if (out != OUT_OK) return;
            break;
        }
    }
    child(run, [&] {
        sim::io_scratch(run.scratch);
        sim::rt_io_begin_public();
        std::map<int, std::shared_ptr<Graph>> gs;
        std::map<int, std::string> before;
        std::string err;
        for (auto &p : parts) {
            int id = (int) p.num(0);
            bool ok = guarded([&] { gs[id] = p.str(3) == "file" ? GraphSerializer::deserialize_from_file(path(id)) : make_part(p); }, &err);
            if (!ok) sim::violation("wrong-graph", "part %d cannot be obtained: %s", id, err.c_str());
            before[id] = canon(*gs[id]);
            if (p.u(1) == p.u(2)) { sim::probe(PR_EMPTY_PART); if (!canon_cut(before[id], "E").empty()) sim::violation("wrong-graph", "the part of an empty range has edges"); }
            if (canon_cut(before[id], "PV") != canon_cut(ref, "PV")) sim::violation("wrong-graph", "part %d has other polygons or vertices: %s", id, canon_diff(canon_cut(ref, "PV"), canon_cut(before[id], "PV")).c_str());
            std::string why;
            if (!part_of(before[id], ref, &why)) sim::violation("wrong-graph", "part %d holds an edge or flag that the full graph lacks: '%s'", id, why.c_str());
            sim::observe_str(before[id]);
        }
        auto merged = [&](const std::vector<std::shared_ptr<Graph>> &v) {
            std::shared_ptr<Graph> m;
            if (!guarded([&] { m = merge_graphs(v); }, &err)) sim::violation("wrong-graph", "merging failed: %s", err.c_str());
            return m;
        };
        auto mo = run.spec.get("merge");
        std::vector<std::shared_ptr<Graph>> v;
        std::set<int> seen;
        for (size_t i = 0; mo && i < mo->a.size(); ++i) { int id = (int) mo->num(i); if (gs.count(id)) { v.push_back(gs[id]); if (!seen.insert(id).second) sim::probe(PR_DUP_PART); } }
        bool complete = seen.size() == gs.size() && !gs.empty();
        if (!v.empty()) {
            std::string c;
            if (run.spec.num("remerge") && v.size() > 2) {
                std::vector<std::shared_ptr<Graph>> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end());
                b.push_back(merged(a));
                c = canon(*merged(b));
            } else c = canon(*merged(v));
            sim::observe_str(c);
            std::string why;
            size_t covered = 0;
            for (auto &p : parts) covered += p.u(2) - p.u(1);
            if (complete && covered == total) { if (c != ref) sim::violation("wrong-graph", "the merged graph differs from a single generation: %s", canon_diff(ref, c).c_str()); }
            else if (!part_of(c, ref, &why)) sim::violation("wrong-graph", "a partial merge holds '%s', which the full graph lacks", why.c_str());
        }
        if (auto *so = run.spec.get("submerge")) {
            std::vector<std::shared_ptr<Graph>> w;
            for (size_t i = 0; i < so->a.size(); ++i) if (gs.count((int) so->num(i))) w.push_back(gs[(int) so->num(i)]);
            std::string why;
            if (!w.empty()) {
                auto c = canon(*merged(w));
                if (canon_cut(c, "PV") != canon_cut(ref, "PV")) sim::violation("wrong-graph", "a partial merge has other polygons or vertices");
                if (!part_of(c, ref, &why)) sim::violation("wrong-graph", "a partial merge holds '%s', which the full graph lacks", why.c_str());
                for (size_t i = 0; i < so->a.size(); ++i) if (gs.count((int) so->num(i))) {
                    std::string miss;
                    if (!canon_subset(canon_cut(before[(int) so->num(i)], "E"), c, &miss)) {
                        // an edge of a part may only change its flag to the one of the full graph
                        std::string flip = miss; flip.back() = flip.back() == '1' ? '0' : '1';
                        if (!canon_subset(flip + "\n", c, &miss)) sim::violation("wrong-graph", "a merge lost the edge '%s' of part %ld", miss.c_str(), so->num(i));
                    }
                }
            }
        }
        for (auto &kv : gs)
            if (canon(*kv.second) != before[kv.first]) sim::violation("input-changed", "merging changed part %d: %s", kv.first, canon_diff(before[kv.first], canon(*kv.second)).c_str());
    });
}
static Reg reg({"split", gen_split, run_split});
