// C05: batches equal single answers.  C06: queries leave no trace.
#include "common.h"
#include "visgraph/visgraph_generator.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
using sim::Rng;

// The graph of the rings, rebuilt from the text of a generated one (so that no state of the generating process is shared).
static std::string generated(Run &run, const std::vector<Ring> &rings, bool *ok) {
    std::string ref;
    ChildOpts pr; pr.pristine = true;
    *ok = child(run, [&] { auto polys = make_polygons(rings); set_result(canon(*VisgraphGenerator::generate(polys))); }, &ref, pr) == OUT_OK;
    return ref;
}
static std::shared_ptr<Graph> rebuild(const std::vector<Ring> &rings, const std::string &text) {
    auto g = std::make_shared<Graph>(make_polygons(rings));
    std::vector<Coordinate> vs;
    std::istringstream is(text);
    std::string ln;
    while (std::getline(is, ln)) {
        std::istringstream ls(ln.substr(1));
        if (ln[0] == 'V') { long x, y; char c; ls >> x >> c >> y; vs.push_back(Coordinate((int32_t) x, (int32_t) y)); }
        if (ln[0] == 'E') { size_t i, j; int f; ls >> i >> j >> f; if (i < vs.size() && j < vs.size()) g->add_directed_edge(vs[j], vs[i], f & 1); }
    }
    return g;
}
// Map 1 of a run: "polyb" lines, and of its edges those that a "thin" line leaves.
struct Map { std::vector<Ring> rings; std::string text; };
static void second_map(Spec &s, Rng &r, const std::vector<Ring> &rings) {
    bool same = r.chance(0.4);
    spec_rings(s, same ? rings : vary_rings(r, rings), "polyb");
    if (same || r.chance(0.1)) s.add("thin", V((int) (2 + r.below(4))));
}
static bool maps_of(Run &run, std::vector<Map> &maps) {
    bool ok;
    maps.resize(1);
    maps[0].rings = rings_of(run.spec);
    maps[0].text = generated(run, maps[0].rings, &ok);
    if (!ok) return false;
    auto other = rings_of(run.spec, "polyb");
    if (other.empty()) return true;
    maps.push_back({other, generated(run, other, &ok)});
    auto thin = run.spec.all("thin");
    if (ok && !thin.empty()) {
        auto &text = maps[1].text;
        std::string out;
        for (size_t at = 0, end; at < text.size(); at = end + 1) {
            end = std::min(text.find('\n', at), text.size());
            auto ln = text.substr(at, end - at);
            if (ln[0] == 'E') {
                char *p = &ln[1];
                long i = strtol(p, &p, 10), j = strtol(p, &p, 10);
                if ((std::min(i, j) * 7 + std::max(i, j) * 13) % std::max(2l, thin[0].num(0)) == 0) continue;
            }
            out += ln + "\n";
        }
        maps[1].text = out;
    }
    return ok;
}
static std::shared_ptr<Graph> rebuild(const Map &m) { return rebuild(m.rings, m.text); }
static std::vector<std::string> reference(Run &run, const std::vector<Ring> &rings, const std::string &text, const std::vector<Query> &qs, bool *ok) {
    // every query in a process of its own, with a graph and a computer of its own
    std::map<std::string, std::string> memo;
    std::vector<std::string> out;
    *ok = true;
    for (auto &q : qs) {
        Spec k; spec_query(k, "q", q);
        auto key = k.text();
        if (!memo.count(key)) {
            ChildOpts pr; pr.pristine = true;
            std::string a;
            if (child(run, [&] { ShortestPathComputer c(rebuild(rings, text)); set_result(single_answer(c, q)); }, &a, pr) != OUT_OK) { *ok = false; return out; }
            memo[key] = a;
        }
        out.push_back(memo[key]);
    }
    return out;
}

// ---------------------------------------------------------------------------------------------- C05
static Spec gen_batch(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    if (r.chance(0.0008)) { // more pairs than 16 bits can number
        auto rings = gen_ocean_rings(r, 4);
        spec_rings(s, rings);
        for (auto &l : s.lines) if (l.key == "team") for (auto &t : l.a) t = std::to_string(1 + std::stoi(t) % 4);
        Query o = gen_query(r, rings);
        for (int i = 0; i < 5; ++i) { Query q = gen_query(r, rings); q.limit = o.limit; q.correct = o.correct; q.greed = o.greed; spec_query(s, "q", q, V(0)); }
        s.add("times", V(0, (r.chance(0.3) ? 32768 : 65536) + (int) r.range(-1, 40), r.below(1000000)));
        return s;
    }
    bool huge = r.chance(0.01); // about a thousand pairs and more, over a tiny map
    bool large = !huge && r.chance(0.012);
    auto rings = gen_ocean_rings(r, huge ? 10 : large ? 70 + (int) r.below(50) : r.chance(0.1) ? 40 : 22);
    spec_rings(s, rings);
    int batches = huge ? 1 : 1 + (int) r.below(3);
    bool two = batches > 1 && !large && r.chance(0.4); // later batches on other maps and computers
    if (two) second_map(s, r, rings);
    std::vector<Query> pool;
    for (int b = 0; b < batches; ++b) {
        Query o = gen_query(r, rings); // options
        int n = r.chance(0.05) ? 0 : r.chance(0.1) ? 1 : 2 + (int) r.below(r.chance(0.15) ? 24 : 9);
        size_t few = 0;
        if (!large && r.chance(0.03)) { n = r.chance(0.5) ? 32 << r.below(3) : 20 + (int) r.below(120); n += (int) r.below(3) - 1; few = 2 + r.below(8); } // long, of few different pairs
        std::vector<Query> told;
        if (huge) { n = huge_batch(r); telling_options(r, o); told = telling_queries(r, rings, 6 + r.below(8)); }
        for (int i = 0; i < n; ++i) {
            Query q = huge ? told[r.below(told.size())] : few && pool.size() > few ? pool[pool.size() - few - 1 + r.below(few + 1)] : next_query(r, rings, pool);
            q.limit = o.limit; q.correct = o.correct; q.greed = o.greed;
            pool.push_back(q);
            spec_query(s, "q", q, V(b));
        }
        if (!n) s.add("empty", V(b));
        if (two && r.chance(0.7)) s.add("on", V(b, (int) r.below(2), (int) r.below(2)));
    }
    return s;
}
static void run_batch(Run &run) {
    std::vector<Map> maps;
    bool ok;
    if (!maps_of(run, maps)) return;
    std::map<long, std::vector<Query>> batches;
    std::map<long, std::pair<int, bool>> on; // the map of a batch, and whether its graph is made anew
    for (auto &l : run.spec.all("on")) if (l.num(1) < (long) maps.size()) on[l.num(0)] = {(int) l.num(1), l.num(2)};
    auto map_of = [&](long b) { return on.count(b) ? on[b].first : 0; };
    for (auto &l : run.spec.all("empty")) batches[l.num(0)];
    for (auto &l : run.spec.all("q")) batches[l.num(0)].push_back(query_of(l, 1));
    std::map<std::string, std::string> wants[2];
    size_t total = 0;
    std::map<long, Line> times;
    for (auto &l : run.spec.all("times")) times[l.num(0)] = l;
    for (int m = 0; m < (int) maps.size(); ++m) {
        std::vector<Query> all;
        for (auto &kv : batches) if (map_of(kv.first) == m) all.insert(all.end(), kv.second.begin(), kv.second.end());
        auto answers = reference(run, maps[m].rings, maps[m].text, all, &ok);
        if (!ok) return;
        total += all.size();
        for (size_t i = 0; i < all.size(); ++i) { Spec k; spec_query(k, "q", all[i]); wants[m][k.text()] = answers[i]; }
    }
    for (auto &kv : times) total += std::min(70000l, kv.second.num(1));
    ChildOpts o;
    o.max_steps = 500000000 + total * 20000000;
    child(run, [&] {
        std::shared_ptr<Graph> graphs[2];
        std::unique_ptr<ShortestPathComputer> computer;
        int current = -1;
        for (auto &kv : batches) {
            auto qs = kv.second;
            if (times.count(kv.first) && !qs.empty()) { // "times <batch> <n> <seed>": n pairs out of these
                auto &l = times[kv.first];
                Rng r(l.u(2));
                for (size_t k = qs.size(); (long) qs.size() < std::min(70000l, l.num(1));) { auto q = qs[r.below(k)]; qs.push_back(q); }
            }
            int m = map_of(kv.first);
            bool anew = on.count(kv.first) && on[kv.first].second;
            if (m != current || anew) {
                computer.reset();
                if (anew) graphs[m].reset();
                if (!graphs[m]) graphs[m] = rebuild(maps[m]);
                computer = std::make_unique<ShortestPathComputer>(graphs[m]);
                current = m;
            }
            auto &c = *computer;
            auto &want = wants[m];
            std::vector<std::pair<Coordinate, Coordinate>> pairs;
            for (auto &q : qs) pairs.push_back({C(q.a), C(q.b)});
            std::vector<BatchInterpolateResult> res;
            std::string err;
            Query o = qs.empty() ? Query{{0, 0}, {0, 0}, INFINITY, false, 1} : qs[0];
            if (!guarded([&] { res = c.shortest_paths(pairs, o.limit, o.correct, o.greed); }, &err)) sim::violation("batch-mismatch", "a batch of %zu failed as a whole: %s", qs.size(), err.c_str());
            if (res.size() != qs.size()) sim::violation("batch-mismatch", "%zu pairs gave %zu results", qs.size(), res.size());
            for (size_t i = 0; i < qs.size(); ++i) {
                Spec k; spec_query(k, "q", qs[i]);
                auto got = batch_text(res[i]);
                sim::observe_str(got);
                if (res[i].error_msg.has_value()) sim::probe(PR_ITEM_ERR); else sim::probe(PR_PATHS);
                if (res[i].path && res[i].path->size() > 2) sim::probe(PR_LONG_PATH);
                if (got != want[k.text()]) sim::violation("batch-mismatch", "result %zu of %zu (%d,%d)->(%d,%d): batch '%s', alone '%s'", i, qs.size(), qs[i].a.x, qs[i].a.y, qs[i].b.x, qs[i].b.y, got.c_str(), want[k.text()].c_str());
            }
            // the same pairs one by one from the same computer
            for (size_t i = 0; i < qs.size() && i < 4; ++i) {
                Spec k; spec_query(k, "q", qs[i]);
                auto got = single_answer(c, qs[i]);
                if (got != want[k.text()]) sim::violation("batch-mismatch", "single query (%d,%d)->(%d,%d) after a batch: '%s', fresh computer '%s'", qs[i].a.x, qs[i].a.y, qs[i].b.x, qs[i].b.y, got.c_str(), want[k.text()].c_str());
            }
        }
    }, nullptr, o);
}
static Reg reg_batch({"batch", gen_batch, run_batch});

// ---------------------------------------------------------------------------------------------- C06
static Spec gen_queries(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, true);
    bool huge = r.chance(0.02); // a tiny map for a very long history
    bool large = !huge && r.chance(0.012);
    auto rings = gen_ocean_rings(r, huge ? 10 : large ? 70 + (int) r.below(50) : r.chance(0.1) ? 36 : 20);
    spec_rings(s, rings);
    int clients = r.chance(0.5) ? 1 : 2 + (int) r.below(3);
    int n = 3 + (int) r.below(8);
    bool brief = huge || (!large && r.chance(0.04)); // a long history
    if (brief) n = 16 + (int) r.below(huge ? 500 : 60);
    std::vector<Query> pool;
    int group = 0;
    bool two = !large && !huge && r.chance(0.35); // computers come and go, and the maps they are for
    if (two) second_map(s, r, rings);
    std::vector<int> last(clients, -1); // the last query of a client's own computer
    for (int i = 0; i < n; ++i) {
        Query o = brief && pool.size() > 4 && r.chance(0.5) ? pool[r.below(pool.size())] : next_query(r, rings, pool);
        int c = (int) r.below(clients), m = 1;
        bool own = two && r.chance(0.8);
        if (two && r.chance(0.3)) {
            s.add("renew", V(c, (int) r.below(2), (int) r.below(2)));
            if (last[c] >= 0 && r.chance(0.6)) { o = pool[last[c]]; own = true; }
        }
        if (r.chance(0.25)) { ++group; m = 1 + (int) r.below(5); }
        for (int j = 0; j < m; ++j) {
            Query q = j ? next_query(r, rings, pool) : o;
            q.limit = o.limit; q.correct = o.correct; q.greed = o.greed;
            pool.push_back(q);
            if (own) last[c] = (int) pool.size() - 1;
            if (m > 1) spec_query(s, "q", q, V(c, group)); else spec_query(s, "q", q, V(c, "one"));
            if (own) s.lines.back().a.push_back("own");
        }
    }
    return s;
}
namespace {
struct QOp { long client; std::string group; Query q; bool own, fresh; int map; std::string want; }; // group "renew": the client's own computer
struct QClient {
    long id;
    const std::vector<QOp> *ops;
    const ShortestPathComputer *c;
    const std::vector<Map> *maps;
    const std::vector<std::shared_ptr<Graph>> *graphs;
};
}
static void q_check(const char *how, const Query &q, const std::string &got, const std::string &want) {
    sim::observe_str(got);
    if (got != want) sim::violation("answer-changed", "%s query (%d,%d)->(%d,%d) limit %g correct %d greed %g answered '%s', a fresh computer '%s'", how, q.a.x, q.a.y, q.b.x, q.b.y, q.limit, (int) q.correct, q.greed, got.c_str(), want.c_str());
}
static void q_client(void *p) {
    auto *k = (QClient *) p;
    std::set<std::string> done;
    std::shared_ptr<Graph> own_graph;
    std::unique_ptr<ShortestPathComputer> own;
    auto make = [&](int map, bool fresh) {
        own.reset();
        own_graph.reset();
        own_graph = fresh ? rebuild((*k->maps)[map]) : (*k->graphs)[map];
        own = std::make_unique<ShortestPathComputer>(own_graph);
    };
    for (size_t i = 0; i < k->ops->size(); ++i) {
        auto &o = (*k->ops)[i];
        if (o.client != k->id) continue;
        if (o.group == "renew") { make(o.map, o.fresh); continue; }
        if (o.own && !own) make(0, false);
        auto *c = o.own ? own.get() : k->c;
        if (o.group == "one") q_check("single", o.q, single_answer(*c, o.q), o.want);
        else if (done.insert(o.group).second) { // the batch of all queries of this group
            std::vector<const QOp *> items;
            std::vector<std::pair<Coordinate, Coordinate>> pairs;
            for (auto &x : *k->ops) if (x.client == k->id && x.group == o.group) { items.push_back(&x); pairs.push_back({C(x.q.a), C(x.q.b)}); }
            std::vector<BatchInterpolateResult> res;
            std::string err;
            if (!guarded([&] { res = c->shortest_paths(pairs, o.q.limit, o.q.correct, o.q.greed); }, &err)) sim::violation("answer-changed", "a batch failed as a whole: %s", err.c_str());
            if (res.size() != items.size()) sim::violation("answer-changed", "a batch of %zu gave %zu results", items.size(), res.size());
            for (size_t j = 0; j < items.size(); ++j) q_check("batch", items[j]->q, batch_text(res[j]), items[j]->want);
        }
        sim::yield_point();
    }
}
static void run_queries(Run &run) {
    std::vector<Map> maps;
    bool ok;
    if (!maps_of(run, maps)) return;
    std::vector<QOp> ops;
    std::map<long, int> current;
    long clients = 1;
    for (auto &l : run.spec.lines) {
        if (l.key == "renew") {
            int m = l.num(1) < (long) maps.size() ? (int) l.num(1) : 0;
            current[l.num(0)] = m;
            ops.push_back({l.num(0), "renew", {}, true, l.num(2) != 0, m, ""});
        } else if (l.key == "q") {
            bool own = l.a.size() > 9;
            ops.push_back({l.num(0), l.str(1), query_of(l, 2), own, false, own ? current[l.num(0)] : 0, ""});
            if (ops.back().group != "one") // all of a group are asked where its first one is
                for (auto &o : ops) if (o.client == ops.back().client && o.group == ops.back().group) { ops.back().own = o.own; ops.back().map = o.map; break; }
        } else continue;
        clients = std::max(clients, l.num(0) + 1);
    }
    for (int m = 0; m < (int) maps.size(); ++m) {
        std::vector<Query> all;
        std::vector<QOp *> who;
        for (auto &o : ops) if (o.group != "renew" && o.map == m) { all.push_back(o.q); who.push_back(&o); }
        auto answers = reference(run, maps[m].rings, maps[m].text, all, &ok);
        if (!ok) return;
        for (size_t i = 0; i < who.size(); ++i) who[i]->want = answers[i];
    }
    ChildOpts opts;
    opts.max_steps = 500000000 + ops.size() * 40000000; // all are asked twice
    child(run, [&] {
        std::vector<std::shared_ptr<Graph>> gs;
        std::vector<std::string> before;
        for (auto &m : maps) { gs.push_back(rebuild(m)); before.push_back(canon(*gs.back())); }
        {
            ShortestPathComputer c(gs[0]);
            std::vector<QClient> ks;
            for (long i = 0; i < clients; ++i) ks.push_back({i, &ops, &c, &maps, &gs});
            if (clients == 1) q_client(&ks[0]);
            else {
                sim::probe(PR_CONCURRENT);
                std::vector<int> ids;
                for (auto &k : ks) ids.push_back(sim::spawn(q_client, &k));
                for (int id : ids) sim::join(id);
            }
            for (size_t m = 0; m < gs.size(); ++m) {
                auto after = canon(*gs[m]);
                if (after != before[m]) sim::violation("graph-changed", "the queries changed the graph: %s", canon_diff(before[m], after).c_str());
            }
            // every answer again, now that all others were given
            std::unique_ptr<ShortestPathComputer> d;
            if (gs.size() > 1) d = std::make_unique<ShortestPathComputer>(gs[1]);
            for (auto &o : ops) {
                if (o.group == "renew") continue;
                auto got = single_answer(o.map ? *d : c, o.q);
                if (got != o.want) sim::violation("answer-changed", "query (%d,%d)->(%d,%d) repeated at the end answered '%s', a fresh computer '%s'", o.q.a.x, o.q.a.y, o.q.b.x, o.q.b.y, got.c_str(), o.want.c_str());
            }
        }
        for (size_t m = 0; m < gs.size(); ++m) if (canon(*gs[m]) != before[m]) sim::violation("graph-changed", "the repeated queries changed the graph");
    }, nullptr, opts);
}
static Reg reg_query({"query", gen_queries, run_queries});
