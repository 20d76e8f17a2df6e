// Shared by all scenarios: run specifications, generators, child processes, canonical graphs.
#pragma once
#include "../runtime/sim.h"
#include "datastructures/graph/graph.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "types/coordinate/coordinate.hpp"
#include "types/polygon/polygon.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Line {
    std::string key;
    std::vector<std::string> a;
    long num(size_t i, long d = 0) const { return i < a.size() ? std::stol(a[i]) : d; }
    uint64_t u(size_t i, uint64_t d = 0) const { return i < a.size() ? std::stoull(a[i]) : d; }
    double real(size_t i, double d = 0) const { return i < a.size() ? std::stod(a[i]) : d; }
    std::string str(size_t i, const std::string &d = "") const { return i < a.size() ? a[i] : d; }
};
// A specification is the complete description of one simulated execution.
struct Spec {
    std::vector<Line> lines;
    void add(const std::string &key, std::vector<std::string> a) { lines.push_back({key, std::move(a)}); }
    const Line *get(const std::string &k) const { for (auto &l : lines) if (l.key == k) return &l; return nullptr; }
    std::vector<Line> all(const std::string &k) const { std::vector<Line> r; for (auto &l : lines) if (l.key == k) r.push_back(l); return r; }
    long num(const std::string &k, long d = 0) const { auto *l = get(k); return l ? l->num(0, d) : d; }
    std::string str(const std::string &k, const std::string &d = "") const { auto *l = get(k); return l ? l->str(0, d) : d; }
    std::string text() const;
    static Spec parse(const std::string &t);
};
template <class... A> std::vector<std::string> V(A... a) {
    std::vector<std::string> r;
    auto one = [&](auto x) { if constexpr (std::is_arithmetic_v<decltype(x)>) r.push_back(std::to_string(x)); else r.push_back(std::string(x)); };
    (one(a), ...);
    return r;
}

struct Pt { int32_t x, y; bool operator<(const Pt &o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const Pt &o) const { return x == o.x && y == o.y; } };
typedef std::vector<Pt> Ring;

// ---- generators (all choices from the given generator)
std::vector<Ring> gen_rings(sim::Rng &r, int max_vertices);
std::vector<Ring> gen_ocean_rings(sim::Rng &r, int max_vertices); // also valid on the sphere, as the spatial index demands
Pt gen_point(sim::Rng &r, const std::vector<Ring> &rings);
void spec_rings(Spec &s, const std::vector<Ring> &rings, const std::string &key = "poly");
std::vector<Ring> vary_rings(sim::Rng &r, const std::vector<Ring> &rings);
std::vector<Ring> rings_of(const Spec &s, const std::string &key = "poly");
void gen_env(Spec &s, sim::Rng &r, bool threads);   // alloc / clock / tty / team / sched lines
std::vector<Polygon> make_polygons(const std::vector<Ring> &rings);
std::vector<Polygon> invalid_polygons(const std::vector<Ring> &rings);
std::shared_ptr<Graph> unmergeable(const std::vector<Polygon> &polys);
inline Coordinate C(Pt p) { return Coordinate(p.x, p.y); }
inline Pt P(const Coordinate &c) { return {c.get_longitude_microdegrees(), c.get_latitude_microdegrees()}; }

// ---- canonical text of a graph (independent of vertex and polygon order)
std::string canon(const Graph &g);
std::string canon_diff(const std::string &a, const std::string &b); // first difference, for messages
std::string canon_cut(const std::string &c, const char *keys);      // only lines of the given kinds
bool canon_subset(const std::string &part, const std::string &full, std::string *why); // every edge line of part is in full

// ---- supervisor
struct PhaseSw { int phase; sim::Switch s; };
struct Run {
    Spec spec;
    std::string scratch;
    int phase = 0;
    bool record = false;
    std::vector<PhaseSw> recorded;
    uint64_t phases = 0, crashes = 0;
    bool violated = false;
    int races = 0;
    std::map<std::string, std::string> memo;
    std::string samples;
};
enum Outcome { OUT_OK = 0, OUT_VIOLATION = 66, OUT_HARNESS = 67, OUT_CRASH = 68 };
struct ChildOpts {
    bool pristine = false;   // reference process: one thread, bump allocator, steady clock
    bool stdout_bad = false;
    uint64_t max_steps = 0;
    int team = 0;
};
// Runs body in a fresh simulated process.  Its result text is returned through *out (set_result in the child).
Outcome child(Run &run, const std::function<void()> &body, std::string *out = nullptr, const ChildOpts &o = {});
// the same in pieces, for processes that the Python runner forks
void phase_begin(Run &run);
void child_setup(const Run &run, int phase, const ChildOpts &o);
Outcome reap(Run &run, int phase, int pid, std::string *out);
void set_result(const std::string &s);
sim::Config config_of(const Run &run, int phase, const ChildOpts &o);

std::string hex(const std::string &b);
std::string unhex(const std::string &h);
std::string slurp_file(const std::string &path);
void spit_file(const std::string &path, const std::string &bytes);
void clean_dir(const std::string &dir);
std::string fmt_err(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Scenario {
    const char *name;
    Spec (*gen)(sim::Rng &r, const std::string &prop, bool thorough);
    void (*run)(Run &run);
};
extern std::vector<Scenario> &scenarios();
struct Reg { Reg(Scenario s) { scenarios().push_back(s); } };
enum Probe { PR_LOCK_WAIT = 0, PR_SLOCK_WAIT, PR_S2_LOCK, PR_EDGES = 8, PR_CROSSING, PR_PATHS, PR_PATH_ERR, PR_LONG_PATH, PR_BOTH, PR_SAVE_OK, PR_SAVE_ERR, PR_LOAD_OK,
             PR_LOAD_ERR, PR_OLD_KEPT, PR_NEW_SEEN, PR_ABSENT, PR_OP_THREW, PR_OP_OK, PR_ITEM_ERR, PR_OVERLAP, PR_WORKER_RESTART, PR_DUP_PART, PR_EMPTY_PART, PR_LAND, PR_CONCURRENT, PR_PERIODIC, PR_DAMAGED_OK, PR_DAMAGED_ERR, PR_REUSED_PATH, PR_REFUSED_DIR, PR_CMD_OK, PR_CMD_ERR, PR_READ_OK, PR_READ_ERR, PR_WARNINGS, PR_SWAPPED, PR_LOOKED_ON, PR_N };
extern const char *probe_names[PR_N];
// thrown out of the code under test: what counts as an ordinary error
template <class F> bool guarded(F f, std::string *err) {
    try { f(); return true; }
    catch (const std::exception &e) { *err = e.what(); return false; }
    catch (...) { sim::violation("wrong-error", "something that is not a std::exception was thrown"); }
}
// ---- graphs described by a specification: rings under "poly<id>", "graph <id> gen" or "graph <id> rand seed edges%o crossing%o both%o"
std::shared_ptr<Graph> graph_of(const Spec &s, const std::string &id);
void big_graph(Spec &s, sim::Rng &r, const std::string &id);
void sibling_graph(Spec &s, sim::Rng &r, const std::string &of, const std::string &id); // the same polygons, other edges
void gen_graph(Spec &s, sim::Rng &r, const std::string &id, int max_vertices, bool messy);
std::vector<Ring> gen_small_rings(sim::Rng &r, int max_vertices, bool messy);
// ---- queries: "q sx sy dx dy limit correct greed"
struct Query { Pt a, b; double limit; bool correct; double greed; };
int huge_batch(sim::Rng &r);
void telling_options(sim::Rng &r, Query &q);
std::vector<Query> telling_queries(sim::Rng &r, const std::vector<Ring> &rings, size_t n);
Query gen_query(sim::Rng &r, const std::vector<Ring> &rings);
Query next_query(sim::Rng &r, const std::vector<Ring> &rings, const std::vector<Query> &pool);
std::string num17(double d);
void spec_query(Spec &s, const std::string &key, const Query &q, std::vector<std::string> extra = {});
Query query_of(const Line &l, size_t at = 0);
std::string path_text(const std::vector<Coordinate> &p);
std::string single_answer(const ShortestPathComputer &c, const Query &q);
std::string batch_text(const BatchInterpolateResult &r);
void check_full(const std::string &c);
bool part_of(const std::string &part, const std::string &full, std::string *why);
