// C04: one graph used by several threads; the history must have an explanation with atomic directed edges.
#include "common.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <unordered_set>
using sim::Rng;

enum Op { ADD, REM, HAS, CROSS, NEIGH, ADDD, REMD, HASV };
static Spec gen_lin(Rng &r, const std::string &, bool thorough) {
    Spec s;
    gen_env(s, r, true);
    bool large = r.chance(0.04);
    int nv = large ? 24 + (int) r.below(r.chance(0.3) ? 300 : 120) : r.chance(0.3) ? 7 + (int) r.below(16) : 3 + (int) r.below(4);
    Ring g;
    if (large) for (int i = 0; i < nv; ++i) { double t = i * 2 * M_PI / nv; g.push_back({(int32_t) (9e7 * std::cos(t)), (int32_t) (6e7 * std::sin(t))}); }
    else for (int i = 0; i < nv; ++i) g.push_back({(int32_t) (i * 7000000 - 75000000), (int32_t) (i * i * 100000)});
    spec_rings(s, {g});
    int threads = 2 + (int) r.below(4);
    int per = threads <= 3 ? 2 + (int) r.below(6) : 2 + (int) r.below(3);
    if (thorough && r.chance(0.2)) per += 2;
    std::vector<int> hot; // contention on few vertices
    int nh = r.chance(0.6) ? 2 + (int) r.below(2) : std::min(nv, 3 + (int) r.below(4));
    if (large && r.chance(0.7)) { // a power of two apart
        int step = 8 << r.below(nv > 256 ? 6 : nv > 128 ? 5 : nv > 64 ? 4 : nv > 32 ? 3 : 2), b = (int) r.below(std::max(1, nv - step));
        for (int i = 0; i < nh && b + i * step < nv; ++i) hot.push_back(b + i * step);
        nh = (int) hot.size();
        if (nh < 2) { hot = {0, nv - 1}; nh = 2; }
    } else if (r.chance(0.4)) { int b = (int) r.below(nv - nh + 1); for (int i = 0; i < nh; ++i) hot.push_back(b + i); } // neighbours in memory
    else while ((int) hot.size() < nh) { int v = (int) r.below(nv); if (std::find(hot.begin(), hot.end(), v) == hot.end()) hot.push_back(v); }
    bool two = r.chance(0.2); // two graphs of the same vertices, which have nothing to do with each other
    bool focus = r.chance(0.2); // the first thread keeps looking at one vertex, the others change its edges
    for (int t = 0; t < threads; ++t)
        for (int k = 0; k < per; ++k) {
            if (focus) {
                int b = hot[1 + r.below(nh - 1)];
                if (!t) s.add("op", V(t, (int) (r.chance(0.8) ? NEIGH : HAS), hot[0], b, 0, 0));
                else s.add("op", V(t, (int) (r.chance(0.6) ? ADD : REM), r.chance(0.5) ? hot[0] : b, 0, (int) r.below(2), (int) (two && r.chance(0.3))));
                if (t) { auto &x = s.lines.back(); x.a[3] = x.num(2) == hot[0] ? std::to_string(b) : std::to_string(hot[0]); }
                continue;
            }
            int a = hot[r.below(nh)], b = hot[r.below(nh)];
            if (a == b && !r.chance(0.1)) b = hot[(std::find(hot.begin(), hot.end(), a) - hot.begin() + 1) % nh];
            int o;
            uint64_t w = r.below(100);
            o = w < 30 ? ADD : w < 48 ? REM : w < 62 ? HAS : w < 76 ? CROSS : w < 92 ? NEIGH : w < 95 ? ADDD : w < 98 ? REMD : HASV;
            s.add("op", V(t, o, a, b, (int) r.below(2), (int) (two && r.chance(0.5))));
        }
    int init = (int) r.below(4);
    for (int i = 0; i < init; ++i) { int a = (int) r.below(nv), b = (int) r.below(nv); if (a != b) s.add("init", V(a, b, (int) r.below(2), (int) (two && r.chance(0.5)))); }
    return s;
}
struct H { int t, op, a, b, c; uint64_t inv, res; uint64_t val; };
struct Sub { int h; int kind; int x, y, c; }; // 0 set directed, 1 clear directed, 2 read op
namespace {
struct Checker {
    int nv; bool transposed; // nv: number of the vertices that operations touch
    std::vector<H> hs;
    std::vector<std::vector<Sub>> subs; // per history entry: unordered sub-operations
    std::unordered_set<std::string> seen;
    std::vector<uint8_t> st;
    std::vector<uint8_t> mask; // which sub-operations of entry i are done (bits)
    uint64_t nodes = 0;
    int full(int i) { return (1 << subs[i].size()) - 1; }
    bool read_ok(const H &h) {
        switch (h.op) {
        case HAS: return h.val == (uint64_t) (h.a != h.b && st[h.a * nv + h.b] != 0);
        case CROSS: return h.val == (uint64_t) (h.a != h.b && st[h.a * nv + h.b] == 2);
        case HASV: return h.val == 1;
        case NEIGH: {
            uint64_t m = 0;
            for (int i = 0; i < nv; ++i) if (transposed ? st[i * nv + h.a] : st[h.a * nv + i]) m |= 1ull << i;
            return m == h.val;
        }
        }
        return true;
    }
};
struct Client { int t; const std::vector<Line> *ops; Graph **gs; const std::vector<Coordinate> *vs; const std::vector<int> *of; std::map<int, int> *at; std::vector<H> *out; };
}
static const int OTHER = 1000000; // added to a vertex number: the second graph's
static void client_main(void *p) {
    Client *c = (Client *) p;
    for (auto &l : *c->ops) {
        if (l.num(0) != c->t) continue;
        int gi = (int) l.num(5), base = gi * OTHER;
        Graph *g = c->gs[gi];
        H h{c->t, (int) l.num(1), c->at->at(base + (int) l.num(2)), c->at->at(base + (int) l.num(3)), (int) l.num(4), 0, 0, 0};
        const auto &A = (*c->vs)[h.a], &B = (*c->vs)[h.b];
        h.inv = sim::seq();
        sim::yield_point();
        try {
            switch (h.op) {
            case ADD: g->add_edge(A, B, h.c); break;
            case REM: g->remove_edge(A, B); break;
            case ADDD: g->add_directed_edge(A, B, h.c); break;
            case REMD: g->remove_directed_edge(A, B); break;
            case HAS: h.val = g->has_edge(A, B); break;
            case CROSS: h.val = g->is_edge_meridian_crossing(A, B); break;
            case HASV: h.val = g->has_vertex(A); break;
            case NEIGH:
                for (auto &n : g->get_neighbors(A)) {
                    int idx = -1;
                    for (size_t i = 0; i < c->vs->size(); ++i) if ((*c->of)[i] == gi && (*c->vs)[i] == n) idx = (int) i;
                    if (idx < 0) sim::violation("not-linearizable", "a neighbour list holds (%d,%d), to which no edge was ever added", P(n).x, P(n).y);
                    if (h.val >> idx & 1) sim::violation("not-linearizable", "a neighbour list names vertex %d twice", idx);
                    h.val |= 1ull << idx;
                }
                break;
            }
        } catch (const std::exception &e) { sim::violation("not-linearizable", "operation %d of thread %d failed: %s", h.op, h.t, e.what()); }
        sim::yield_point();
        h.res = sim::seq();
        c->out->push_back(h);
    }
}
static void run_lin(Run &run) {
    auto rings = rings_of(run.spec);
    auto ops = run.spec.all("op");
    auto inits = run.spec.all("init");
    child(run, [&] {
        bool two = false;
        for (auto &l : ops) two |= l.num(5) != 0;
        for (auto &l : inits) two |= l.num(3) != 0;
        Graph first(make_polygons(rings));
        std::unique_ptr<Graph> second(two ? new Graph(make_polygons(rings)) : nullptr);
        Graph *gs[2] = {&first, second.get()};
        auto all = first.get_vertices();
        // the vertices that no operation touches must stay without edges; the others are numbered anew
        std::map<int, int> at;
        std::vector<Coordinate> vs;
        std::vector<int> of; // the graph of each
        auto touch = [&](long v, long gi) {
            if (v >= (long) all.size()) sim::harness_error("bad vertex index");
            if (at.emplace((int) (gi * OTHER + v), (int) vs.size()).second) { vs.push_back(all[v]); of.push_back((int) gi); }
        };
        for (auto &l : ops) { touch(l.num(2), l.num(5)); touch(l.num(3), l.num(5)); }
        for (auto &l : inits) { touch(l.num(0), l.num(3)); touch(l.num(1), l.num(3)); }
        int nv = (int) vs.size();
        Checker ck; ck.nv = nv;
        std::vector<uint8_t> init(nv * nv, 0);
        for (auto &l : inits) {
            int a = at[(int) (l.num(3) * OTHER + l.num(0))], b = at[(int) (l.num(3) * OTHER + l.num(1))];
            gs[l.num(3)]->add_edge(vs[a], vs[b], l.num(2));
            init[a * nv + b] |= l.num(2) ? 2 : 1;
            init[b * nv + a] |= l.num(2) ? 2 : 1;
        }
        int threads = 0;
        for (auto &l : ops) threads = std::max(threads, (int) l.num(0) + 1);
        std::vector<std::vector<H>> hist(threads);
        std::vector<Client> cl(threads);
        std::vector<int> ids;
        for (int t = 0; t < threads; ++t) { cl[t] = Client{t, &ops, gs, &vs, &of, &at, &hist[t]}; }
        for (int t = 0; t < threads; ++t) ids.push_back(sim::spawn(client_main, &cl[t]));
        for (int id : ids) sim::join(id);
        for (auto &v : hist) for (auto &h : v) ck.hs.push_back(h);
        std::sort(ck.hs.begin(), ck.hs.end(), [](const H &a, const H &b) { return a.inv < b.inv; });
        int overlap = 0;
        for (size_t i = 0; i + 1 < ck.hs.size(); ++i) if (ck.hs[i].res > ck.hs[i + 1].inv) overlap++;
        sim::probe(PR_OVERLAP, overlap);
        // final state through the public interface
        std::vector<int> fh(nv * nv), fc(nv * nv);
        std::vector<uint64_t> fn(nv);
        for (int a = 0; a < nv; ++a) {
            auto &g = *gs[of[a]];
            for (int b = 0; b < nv; ++b) if (of[a] == of[b]) { fh[a * nv + b] = g.has_edge(vs[a], vs[b]); fc[a * nv + b] = g.is_edge_meridian_crossing(vs[a], vs[b]); }
            for (auto &n : g.get_neighbors(vs[a])) {
                int i = 0;
                while (i < nv && (of[i] != of[a] || vs[i] != n)) ++i;
                if (i == nv) sim::violation("not-linearizable", "at the end a vertex has the neighbour (%d,%d), to which no edge was ever added", P(n).x, P(n).y);
                fn[a] |= 1ull << i;
            }
        }
        for (int gi = 0; gi <= (int) two; ++gi) for (size_t i = 0; i < all.size(); ++i)
            if (!at.count(gi * OTHER + (int) i) && !gs[gi]->get_neighbors(all[i]).empty()) sim::violation("not-linearizable", "vertex (%d,%d) has neighbours, but no operation named it", P(all[i]).x, P(all[i]).y);
        std::string trace;
        static const char *names[] = {"add", "remove", "has", "crossing", "neighbours", "add-directed", "remove-directed", "has-vertex"};
        for (auto &h : ck.hs) {
            std::vector<Sub> s;
            int i = (int) ck.subs.size();
            auto set = [&](int x, int y) { if (x != y) s.push_back({i, h.op == ADD || h.op == ADDD ? 0 : 1, x, y, h.c}); };
            if (h.op == ADD || h.op == REM) { set(h.a, h.b); set(h.b, h.a); }
            else if (h.op == ADDD || h.op == REMD) set(h.a, h.b);
            else s.push_back({i, 2, 0, 0, 0});
            ck.subs.push_back(s);
            trace += fmt_err(" T%d:%s(%d,%d,%d)@%lu-%lu=%lu", h.t, names[h.op], h.a, h.b, h.c, (unsigned long) h.inv, (unsigned long) h.res, (unsigned long) h.val);
            sim::observe(h.val); sim::observe(h.op * 100 + h.t);
        }
        for (int x : fh) sim::observe(x);
        for (int x : fc) sim::observe(x);
        // the search must end in a state that reads like the final graph (flags 3 and 1 read alike)
        for (int conv = 0; conv < 2; ++conv) {
            ck.transposed = conv == 0;
            ck.st = init; ck.mask.assign(ck.hs.size(), 0); ck.seen.clear();
            std::function<bool()> search = [&]() -> bool {
                bool all = true;
                uint64_t minres = ~0ull;
                for (size_t i = 0; i < ck.hs.size(); ++i) if (ck.mask[i] != ck.full(i)) { all = false; minres = std::min(minres, ck.hs[i].res); }
                if (all) {
                    for (int a = 0; a < nv; ++a) {
                        uint64_t m = 0;
                        for (int b = 0; b < nv; ++b) {
                            uint8_t s = ck.st[a * nv + b];
                            if (fh[a * nv + b] != (a != b && s != 0) || fc[a * nv + b] != (a != b && s == 2)) return false;
                            if (ck.transposed ? ck.st[b * nv + a] : s) m |= 1ull << b;
                        }
                        if (m != fn[a]) return false;
                    }
                    return true;
                }
                std::string key((char *) ck.mask.data(), ck.mask.size());
                key.append((char *) ck.st.data(), ck.st.size());
                if (!ck.seen.insert(key).second) return false;
                if (++ck.nodes > 3000000) sim::harness_error("linearizability search too large");
                for (size_t i = 0; i < ck.hs.size(); ++i) {
                    if (ck.mask[i] == ck.full(i) || ck.hs[i].inv > minres) continue;
                    for (size_t k = 0; k < ck.subs[i].size(); ++k) {
                        if (ck.mask[i] >> k & 1) continue;
                        const Sub s = ck.subs[i][k];
                        if (s.kind == 2) { if (!ck.read_ok(ck.hs[i])) continue; ck.mask[i] |= 1 << k; if (search()) return true; ck.mask[i] &= ~(1 << k); }
                        else {
                            uint8_t old = ck.st[s.x * nv + s.y];
                            ck.st[s.x * nv + s.y] = s.kind == 0 ? (uint8_t) (old | (s.c ? 2 : 1)) : 0;
                            ck.mask[i] |= 1 << k;
                            if (search()) return true;
                            ck.mask[i] &= ~(1 << k);
                            ck.st[s.x * nv + s.y] = old;
                        }
                    }
                }
                return false;
            };
            if (search()) return;
        }
        std::string fs;
        for (int a = 0; a < nv; ++a) for (int b = 0; b < nv; ++b) if (fh[a * nv + b]) fs += fmt_err(" %d-%d%s", a, b, fc[a * nv + b] ? "x" : "");
        sim::violation("not-linearizable", "no order of the operations explains the answers;%s; final edges:%s", trace.c_str(), fs.c_str());
    });
}
static Reg reg({"lin", gen_lin, run_lin});
