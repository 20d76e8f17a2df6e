// C07 round trips, C08 crashes, C09 I/O faults, C10 damaged files.
#include "common.h"
#include "serialization/graph_serializer.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using sim::Rng;

static std::string frac(Rng &r) { char f[32]; snprintf(f, sizeof f, "%.6f", r.unit()); return f; }
static void start_io(Run &run) { sim::io_scratch(run.scratch); sim::rt_io_begin_public(); }
// "names <style>": what the files of a run are called
static std::string named(const Spec &s, const std::string &n) {
    auto st = s.str("names");
    auto sx = [&](const char *x) { // a name and the same name with a suffix
        std::string o = "graph";
        int k = n == "graph" || n == "p0" ? 0 : n == "other" || n == "p1" ? 1 : 2;
        while (k--) o += x;
        return o;
    };
    if (st == "braces") return "{}" + n + "{0:d}{{";
    if (st == "percent") return "%s%n%" + n;
    if (st == "blanks") return " " + n + " b\t ";
    if (st == "quotes") return "'\"$(" + n + "`;";
    if (st == "utf8") return "\xc3\xb6\xff" + n;
    if (st == "hidden") return "." + n;
    if (st == "dash") return "-" + n;
    if (st == "long") return n + std::string(s.get("names")->num(1) - n.size(), 'n');
    if (st == "suffix") return sx(s.get("names")->str(1).c_str());
    if (st == "sub") return "sub.d/" + n;
    if (st == "deep") return "sub.d/a/b/" + n;
    if (st == "dots") return "sub.d/../" + n;
    if (st == "here") return "./" + n;
    if (st == "slashes") return "sub.d//" + n;
    if (st == "dirlink") return "ln.d/" + n;
    if (st == "updirlink") return "ln.d/../" + n; // another directory than without the link
    if (st == "same") return n + ".d/graph"; // the same name in different directories
    return n;
}
static void add_names(Spec &s, Rng &r, double chance) {
    if (!r.chance(chance)) return;
    static const char *st[] = {"braces", "percent", "blanks", "quotes", "utf8", "hidden", "dash", "long", "suffix", "suffix", "sub", "sub", "deep", "dots", "here", "slashes", "dirlink", "updirlink", "same", "same"};
    static const char *sx[] = {".tmp", "~", ".bak", ".new", ".lock", "2", "_tmp"};
    std::string t = st[r.below(20)];
    if (t == "long") s.add("names", V("long", r.chance(0.5) ? 255 : (int) r.range(100, 254)));
    else if (t == "suffix") s.add("names", V("suffix", sx[r.below(7)]));
    else s.add("names", V(t.c_str()));
}
static void make_dirs(Run &run) {
    auto st = run.spec.str("names");
    auto mk = [&](const std::string &d) { if (syscall(SYS_mkdir, (run.scratch + "/" + d).c_str(), 0755) == 0) {} };
    if (st == "sub" || st == "deep" || st == "dots" || st == "slashes" || st == "dirlink" || st == "updirlink") mk("sub.d");
    if (st == "deep") { mk("sub.d/a"); mk("sub.d/a/b"); }
    if (st == "dirlink" && symlink("sub.d", (run.scratch + "/ln.d").c_str()) == 0) {}
    if (st == "updirlink") { mk("sub.d/x"); if (symlink("sub.d/x", (run.scratch + "/ln.d").c_str()) == 0) {} }
    if (st == "same") for (auto n : {"p0", "p1", "p2", "graph", "other", "third"}) mk(std::string(n) + ".d");
}
static std::string path_of(Run &run, const std::string &name) { return run.scratch + "/" + named(run.spec, name); }
static void save(const std::shared_ptr<Graph> &g, const std::string &p) { GraphSerializer::serialize_to_file(g, p); }
static std::shared_ptr<Graph> load(const std::string &p) { return GraphSerializer::deserialize_from_file(p); }
static std::string junk(uint64_t n, uint64_t kind, uint64_t seed) {
    std::string s(n, '\0');
    Rng r(seed);
    for (auto &c : s) c = kind == 0 ? (char) r.next() : kind == 1 ? (char) 0xff : kind == 2 ? (char) r.below(2) : 0;
    return s;
}
static void add_junk(Spec &s, Rng &r, const std::string &name, uint64_t around) {
    uint64_t n = r.chance(0.1) ? 0 : r.chance(0.5) ? r.below(64) : r.below(4 * around + 10000);
    s.add("pre", V(name.c_str(), "junk", n, r.below(4), r.below(1000000)));
}

// "link <name> rel|abs|sub|chain|up": the name is a symbolic link to a file next to it, in a directory below or above, or to
// another link
static const char *link_style(Rng &r) { static const char *st[] = {"rel", "abs", "sub", "sub", "chain", "up"}; return st[r.below(6)]; }
static void make_links(Run &run) {
    make_dirs(run);
    for (auto &l : run.spec.all("link")) {
        auto p = path_of(run, l.str(0));
        auto dir = p.substr(0, p.rfind('/') + 1);
        auto t = "target-of-" + l.str(0), st = l.str(1);
        auto ln = [&](const std::string &to, const std::string &at) { if (symlink(to.c_str(), at.c_str()) == 0) {} };
        if (st == "abs") ln(dir + t, p);
        else if (st == "sub") { if (syscall(SYS_mkdir, (dir + "targets").c_str(), 0755) == 0) {} ln("targets/" + t, p); }
        else if (st == "up" && dir != run.scratch + "/") ln("../" + t, p);
        else if (st == "chain") { ln("mid-of-" + l.str(0), p); ln(t, dir + "mid-of-" + l.str(0)); }
        else ln(t, p);
        if (l.num(2)) { // the link leads to a file that is there (an empty one)
            int fd = (int) syscall(SYS_openat, AT_FDCWD, p.c_str(), O_CREAT | O_WRONLY, 0644);
            if (fd >= 0) syscall(SYS_close, fd);
        }
    }
}
// the text of the graph with the given id, computed in a process of its own
static bool texts(Run &run, const std::vector<std::string> &ids, std::map<std::string, std::string> &want) {
    for (auto &id : ids) {
        if (want.count(id)) continue;
        ChildOpts pr; pr.pristine = true; pr.max_steps = 900000000;
        if (child(run, [&] { set_result(canon(*graph_of(run.spec, id))); }, &want[id], pr) != OUT_OK) return false;
    }
    return true;
}

// ---------------------------------------------------------------------------------------------- C07
static Spec gen_roundtrip(Rng &r, const std::string &, bool thorough) {
    Spec s;
    bool conc = r.chance(0.22); // several threads at once
    bool storm = conc && r.chance(0.5); // little but saves of small graphs
    gen_env(s, r, conc);
    int ng = 1 + (int) r.below(3), np = 1 + (int) r.below(3);
    int cap = storm ? 6 : conc ? 6 + (int) r.below(20) : r.chance(0.06) ? 320 : r.chance(0.3) ? 90 : 40;
    if (thorough && !conc && r.chance(0.05)) cap = 500;
    if (conc) s.add("clients", V(2 + (int) r.below(3)));
    bool big = !conc && r.chance(thorough ? 0.03 : 0.012); // more than 65535 edges, a ring of more than 255 vertices, or more than 255 rings
    if (big) ng = np = 1;
    if (big) big_graph(s, r, "0");
    else for (int i = 0; i < ng; ++i) { if (i && r.chance(0.3)) sibling_graph(s, r, "0", std::to_string(i)); else gen_graph(s, r, std::to_string(i), cap, r.chance(0.35)); }
    for (int i = 0; i < np; ++i) if (r.chance(0.5)) add_junk(s, r, "p" + std::to_string(i), 3000);
    for (int i = 0; i < np; ++i) if (r.chance(0.1)) s.add("link", V(("p" + std::to_string(i)).c_str(), link_style(r), r.chance(0.8) ? 1 : 0));
    add_names(s, r, 0.2);
    if (r.chance(0.1)) s.add("relative", V(1));
    int n = conc ? 3 + (int) r.below(8) : 1 + (int) r.below(big ? 2 : 7);
    for (int i = 0; i < n; ++i) {
        std::string p = "p" + std::to_string(r.below(np));
        if (r.chance(storm ? 0.9 : 0.6)) s.add("op", V("save", std::to_string(r.below(ng)).c_str(), p.c_str()));
        else if (r.chance(0.12)) s.add("op", V("restart"));
        else if (r.chance(0.2)) s.add("op", V("resave", p.c_str(), ("p" + std::to_string(r.below(np))).c_str())); // save what was loaded
        else s.add("op", V("load", p.c_str()));
    }
    return s;
}
// Threads that save and load at once.  Each path is an atomic register: a load gives the graph of a save that had begun by then
// and was not overwritten for certain before.
namespace {
struct SaveLoad { std::string path, text; bool save; uint64_t inv, res; };
struct SlClient {
    int id, of;
    const std::vector<Line> *ops;
    size_t from, to;
    std::map<std::string, std::shared_ptr<Graph>> *gs;
    const std::map<std::string, std::string> *want;
    std::function<std::string(const std::string &)> where;
    std::function<bool(const std::string &)> there; // a graph was certainly saved there
    std::vector<SaveLoad> *out;
};
}
static void sl_client(void *p) {
    auto *k = (SlClient *) p;
    std::string err;
    auto put = [&](std::shared_ptr<Graph> g, const std::string &text, const std::string &p) {
        SaveLoad e{p, text, true, sim::seq(), ~0ull};
        size_t at = k->out->size();
        k->out->push_back(e); // from now on loads may give it
        sim::yield_point();
        if (!guarded([&] { save(g, k->where(p)); }, &err)) sim::violation("roundtrip", "saving to %s failed: %s", p.c_str(), err.c_str());
        sim::yield_point();
        (*k->out)[at].res = sim::seq();
        sim::probe(PR_SAVE_OK);
    };
    auto get = [&](const std::string &p) {
        std::shared_ptr<Graph> g;
        if (!k->there(p)) return g;
        SaveLoad e{p, "", false, sim::seq(), 0};
        sim::yield_point();
        if (!guarded([&] { g = load(k->where(p)); }, &err)) sim::violation("roundtrip", "loading %s failed: %s", p.c_str(), err.c_str());
        sim::yield_point();
        e.res = sim::seq();
        e.text = canon(*g);
        sim::observe_str(e.text);
        k->out->push_back(e);
        sim::probe(PR_LOAD_OK);
        return g;
    };
    for (size_t i = k->from; i < k->to; ++i) {
        if ((int) (i % k->of) != k->id) continue;
        auto &l = (*k->ops)[i];
        if (l.str(0) == "save") { if (k->want->count(l.str(1))) put((*k->gs)[l.str(1)], k->want->at(l.str(1)), l.str(2)); }
        else if (l.str(0) == "load") get(l.str(1));
        else if (l.str(0) == "resave") { auto g = get(l.str(1)); if (g) put(g, canon(*g), l.str(2)); }
    }
}
static void sl_epoch(Run &run, const std::vector<Line> &ops, size_t from, size_t to, int clients, const std::map<std::string, std::string> &at, const std::map<std::string, std::string> &want, const std::function<std::string(const std::string &)> &where) {
    std::map<std::string, std::shared_ptr<Graph>> gs;
    for (auto &kv : want) gs[kv.first] = graph_of(run.spec, kv.first);
    std::vector<std::vector<SaveLoad>> hist(clients);
    auto there = [&](const std::string &p) {
        if (at.count(p)) return true;
        for (auto &h : hist) for (auto &e : h) if (e.save && e.path == p && e.res != ~0ull) return true;
        return false;
    };
    std::vector<SlClient> cs;
    for (int c = 0; c < clients; ++c) { hist[c].reserve(64); cs.push_back({c, clients, &ops, from, to, &gs, &want, where, there, &hist[c]}); }
    std::vector<int> ids;
    for (auto &c : cs) ids.push_back(sim::spawn(sl_client, &c));
    for (int id : ids) sim::join(id);
    std::vector<SaveLoad> saves, loads;
    for (auto &kv : at) saves.push_back({kv.first, want.at(kv.second), true, 0, 0});
    for (auto &h : hist) for (auto &e : h) (e.save ? saves : loads).push_back(e);
    std::set<std::string> paths;
    for (auto &e : saves) paths.insert(e.path);
    std::string err, final;
    for (auto &p : paths) { // what is there in the end
        std::shared_ptr<Graph> g;
        SaveLoad e{p, "", false, sim::seq(), 0};
        if (!guarded([&] { g = load(where(p)); }, &err)) sim::violation("roundtrip", "loading %s failed in the end: %s", p.c_str(), err.c_str());
        e.res = sim::seq();
        e.text = canon(*g);
        loads.push_back(e);
        for (auto &kv : want) if (kv.second == e.text) { final += p + " " + kv.first + "\n"; break; }
    }
    for (auto &l : loads) {
        bool ok = false;
        for (auto &w : saves) {
            if (w.path != l.path || w.text != l.text || w.inv > l.res) continue;
            bool gone = false;
            for (auto &x : saves) gone |= x.path == l.path && x.inv > w.res && x.res < l.inv;
            if (!gone) { ok = true; break; }
        }
        if (ok) continue;
        std::string near;
        for (auto &kv : want) if (kv.second == l.text) near = kv.first;
        sim::violation("roundtrip", "several threads: %s held %s, which nobody had saved there or was overwritten", l.path.c_str(), near.empty() ? "an unknown graph" : ("graph " + near).c_str());
    }
    for (auto &kv : gs) if (canon(*kv.second) != want.at(kv.first)) sim::violation("roundtrip", "saving changed the graph: %s", canon_diff(want.at(kv.first), canon(*kv.second)).c_str());
    set_result(final);
}
static void run_roundtrip(Run &run) {
    std::vector<std::string> ids;
    for (auto &l : run.spec.all("graph")) ids.push_back(l.str(0));
    std::map<std::string, std::string> want;
    if (!texts(run, ids, want)) return;
    make_links(run);
    bool relative = run.spec.num("relative");
    auto path_of = [&](Run &u, const std::string &name) { return relative ? named(u.spec, name) : ::path_of(u, name); };
    for (auto &l : run.spec.all("pre")) spit_file(::path_of(run, l.str(0)), junk(l.u(2), l.u(3), l.u(4)));
    std::map<std::string, std::string> at; // path -> graph id
    auto ops = run.spec.all("op");
    size_t i = 0;
    while (i <= ops.size()) {
        size_t end = i;
        while (end < ops.size() && ops[end].str(0) != "restart") ++end;
        bool last = end >= ops.size();
        auto now = at;
        ChildOpts big; big.max_steps = 900000000;
        std::string final;
        int clients = (int) std::min(8l, run.spec.num("clients"));
        auto out = child(run, [&] {
            start_io(run);
            if (relative && chdir(run.scratch.c_str()) != 0) sim::violation("harness", "chdir");
            if (clients > 1) {
                sim::probe(PR_CONCURRENT);
                sl_epoch(run, ops, i, end, clients, at, want, [&](const std::string &p) { return path_of(run, p); });
                auto lk = sim::io_leaks();
                if (!lk.empty()) sim::violation("roundtrip", "left open after successful calls:%s", lk.c_str());
                return;
            }
            std::map<std::string, std::shared_ptr<Graph>> gs;
            std::string err;
            auto check = [&](const std::string &p) {
                std::shared_ptr<Graph> g;
                if (!guarded([&] { g = load(path_of(run, p)); }, &err)) sim::violation("roundtrip", "loading %s failed: %s", p.c_str(), err.c_str());
                auto c = canon(*g);
                if (c != want[now[p]]) sim::violation("roundtrip", "%s holds another graph than the one saved there: %s", p.c_str(), canon_diff(want[now[p]], c).c_str());
                sim::observe_str(c);
                sim::probe(PR_LOAD_OK);
                return g;
            };
            auto put = [&](std::shared_ptr<Graph> g, const std::string &id, const std::string &p) {
                if (now.count(p)) sim::probe(PR_REUSED_PATH);
                if (!guarded([&] { save(g, path_of(run, p)); }, &err)) sim::violation("roundtrip", "saving to %s failed: %s", p.c_str(), err.c_str());
                if (canon(*g) != want[id]) sim::violation("roundtrip", "saving changed the graph: %s", canon_diff(want[id], canon(*g)).c_str());
                sim::probe(PR_SAVE_OK);
                now[p] = id;
            };
            for (size_t k = i; k < end; ++k) {
                auto &l = ops[k];
                if (l.str(0) == "save") {
                    auto id = l.str(1);
                    if (!want.count(id)) continue;
                    if (!gs.count(id)) gs[id] = graph_of(run.spec, id);
                    put(gs[id], id, l.str(2));
                } else if (l.str(0) == "load") { if (now.count(l.str(1))) check(l.str(1)); }
                else if (l.str(0) == "resave") { if (now.count(l.str(1))) { auto id = now[l.str(1)]; put(check(l.str(1)), id, l.str(2)); } }
            }
            if (last) for (auto &kv : now) check(kv.first);
            auto lk = sim::io_leaks();
            if (!lk.empty()) sim::violation("roundtrip", "left open after successful calls:%s", lk.c_str());
        }, &final, big);
        if (out != OUT_OK) return;
        if (clients > 1) {
            at.clear();
            for (size_t a = 0, b; a < final.size(); a = b + 1) { // "path id"
                b = final.find('\n', a);
                auto m = final.find(' ', a);
                at[final.substr(a, m - a)] = final.substr(m + 1, b - m - 1);
            }
        } else for (size_t k = i; k < end; ++k) {
            if (ops[k].str(0) == "save" && want.count(ops[k].str(1))) at[ops[k].str(2)] = ops[k].str(1);
            if (ops[k].str(0) == "resave" && at.count(ops[k].str(1))) at[ops[k].str(2)] = at[ops[k].str(1)];
        }
        i = end + 1;
    }
}
static Reg reg_rt({"roundtrip", gen_roundtrip, run_roundtrip});

// ---------------------------------------------------------------------------------------------- C08
// Snapshot of the scratch directory, to repeat an operation from the same state: D directories, F files, L links
static void restore(const std::string &dir, const std::map<std::string, std::string> &m) {
    clean_dir(dir);
    for (auto &kv : m) {
        auto p = dir + "/" + kv.first.substr(1);
        if (kv.first[0] == 'D') { if (syscall(SYS_mkdir, p.c_str(), 0755) == 0) {} }
        else if (kv.first[0] == 'F') spit_file(p, kv.second);
        else if (symlink(kv.second.c_str(), p.c_str()) == 0) {}
    }
}
static void snapshot_of(const std::string &dir, const std::string &below, std::map<std::string, std::string> &m) {
    DIR *d = opendir((dir + "/" + below).c_str());
    if (!d) return;
    std::vector<std::string> n, sub;
    while (auto *e = readdir(d)) {
        if (e->d_type != DT_DIR) n.push_back(e->d_name);
        else if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) sub.push_back(e->d_name);
    }
    closedir(d);
    for (auto &x : n) {
        char b[4096];
        auto p = dir + "/" + below + x;
        ssize_t k = readlink(p.c_str(), b, sizeof b);
        if (k >= 0) m["L" + below + x] = std::string(b, k); else m["F" + below + x] = slurp_file(p);
    }
    for (auto &x : sub) { m["D" + below + x] = ""; snapshot_of(dir, below + x + "/", m); }
}
static std::map<std::string, std::string> snapshot(const std::string &dir) {
    std::map<std::string, std::string> m;
    snapshot_of(dir, "", m);
    return m;
}
static void parse_counts(const std::string &t, uint64_t *ops, uint64_t *stores) { unsigned long a = 0, b = 0; sscanf(t.c_str(), "%lu %lu", &a, &b); *ops = a; *stores = b; }
// "old <id>|none", "pre", "crash <graph id> op|store <fraction> before|after process|power <seed> [<earlier saves> <their seed>]"
// Earlier saves: by the same process, which it completed before the one that is interrupted.
static void earlier_saves(Run &run, const std::vector<std::string> &ids, uint64_t n, uint64_t seed, const std::function<std::string(bool)> &path_of, std::string *last) {
    Rng r(seed);
    for (uint64_t i = 0; i < n; ++i) {
        auto id = ids[r.below(ids.size())];
        bool there = r.chance(0.75);
        save(graph_of(run.spec, id), path_of(there));
        if (there) *last = id;
    }
}
static void plan_earlier(Rng &r, std::vector<std::string> &a, double chance) {
    if (r.chance(chance)) { a.push_back(std::to_string(1 + r.below(3))); a.push_back(std::to_string(r.below(1000000))); }
}
static Spec gen_crash(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, false);
    int cap = r.chance(0.1) ? 300 : r.chance(0.3) ? 120 : 40;
    int ng = 2 + (int) r.below(2);
    for (int i = 0; i < ng; ++i) {
        if (i && r.chance(0.45)) { sibling_graph(s, r, "0", std::to_string(i)); continue; } // other edges over the same polygons
        gen_graph(s, r, std::to_string(i), cap, false);
    }
    bool old = r.chance(0.7);
    s.add("old", V(old ? "0" : "none"));
    s.add("other", V(r.chance(0.4) ? 1 : 0));
    if (r.chance(0.12)) s.add("link", V("graph", link_style(r), r.chance(0.8) ? 1 : 0));
    add_names(s, r, 0.12);
    int n = 1 + (int) r.below(3);
    for (int i = 0; i < n; ++i) {
        auto a = V(std::to_string(1 + r.below(ng - 1)).c_str(), r.chance(0.5) ? "op" : "store", frac(r).c_str(), r.chance(0.5) ? "before" : "after", r.chance(0.35) ? "process" : "power", r.below(1000000));
        plan_earlier(r, a, 0.25);
        s.add("crash", a);
    }
    auto a = V(std::to_string(r.below(ng)).c_str(), r.chance(0.6) ? 1 : 0, r.below(1000000));
    plan_earlier(r, a, 0.25);
    s.add("final", a);
    return s;
}
static void run_crash(Run &run) {
    std::vector<std::string> ids;
    for (auto &l : run.spec.all("graph")) ids.push_back(l.str(0));
    std::map<std::string, std::string> want;
    if (!texts(run, ids, want)) return;
    auto path = path_of(run, "graph"), other = path_of(run, "other");
    make_links(run);
    std::set<std::string> allowed; // texts that may be at the path; empty: nothing was saved yet
    std::string old = run.spec.str("old", "none");
    bool absent_ok = true;
    bool with_other = run.spec.num("other") && want.count("0");
    if (with_other || (old != "none" && want.count(old))) {
        if (child(run, [&] {
                start_io(run);
                if (with_other) save(graph_of(run.spec, "0"), other);
                if (old != "none" && want.count(old)) save(graph_of(run.spec, old), path);
            }) != OUT_OK) return;
        if (old != "none" && want.count(old)) { allowed = {want[old]}; absent_ok = false; }
    }
    // what a load gives now: checked against the allowed texts, and returned
    auto look = [&](const char *when, std::string *seen) {
        return child(run, [&] {
            start_io(run);
            std::string err;
            std::shared_ptr<Graph> g;
            if (with_other) {
                if (!guarded([&] { g = load(other); }, &err)) sim::violation("crash-lost", "%s: the untouched file next to it no longer loads: %s", when, err.c_str());
                if (canon(*g) != want["0"]) sim::violation("crash-mixture", "%s: the untouched file next to it changed", when);
            }
            if (!guarded([&] { g = load(path); }, &err)) {
                sim::probe(PR_ABSENT);
                if (!absent_ok) sim::violation("crash-lost", "%s: the path no longer loads: %s", when, err.c_str());
                set_result("absent");
                return;
            }
            auto c = canon(*g);
            if (!allowed.count(c)) {
                std::string d = allowed.empty() ? std::string("nothing was saved completely") : canon_diff(*allowed.begin(), c);
                sim::violation("crash-mixture", "%s: the path loads as a graph that was never saved there: %s", when, d.c_str());
            }
            set_result(c);
        }, seen) == OUT_OK;
    };
    for (auto &l : run.spec.all("crash")) {
        if (!want.count(l.str(0))) continue;
        auto snap = snapshot(run.scratch);
        std::string counts, seen, last;
        ChildOpts pr;
        auto earlier = [&] {
            std::string to;
            earlier_saves(run, ids, l.num(6), l.u(7), [&](bool there) { return there ? path : path_of(run, "third"); }, &to);
        };
        if (child(run, [&] {
                auto g = graph_of(run.spec, l.str(0));
                start_io(run);
                earlier();
                sim::io_arm({});
                save(g, path);
                set_result(fmt_err("%lu %lu", (unsigned long) sim::io_ops_since_arm(), (unsigned long) sim::io_stores_since_arm()));
            }, &counts) != OUT_OK) return;
        restore(run.scratch, snap);
        uint64_t ops, stores;
        parse_counts(counts, &ops, &stores);
        bool at_op = l.str(1) == "op" || stores == 0;
        uint64_t nth = 1 + (uint64_t) (l.real(2) * (at_op ? ops : stores));
        nth = std::min(nth, at_op ? ops : stores);
        auto out = child(run, [&] {
            auto g = graph_of(run.spec, l.str(0));
            start_io(run);
            sim::io_powerloss(l.u(5), l.str(4) == "power");
            earlier();
            sim::io_arm({});
            if (at_op) sim::io_crash_at_op(nth, l.str(3) == "after"); else sim::io_crash_at_store(nth);
            save(g, path);
            sim::io_disarm();
        });
        if (out != OUT_OK && out != OUT_CRASH) return;
        { // the last of the earlier saves there had returned
            Rng q(l.u(7));
            for (long i = 0; i < l.num(6); ++i) { auto id = ids[q.below(ids.size())]; if (q.chance(0.75)) last = id; }
            if (!last.empty()) { allowed = {want[last]}; absent_ok = false; }
        }
        auto before = allowed;
        if (out == OUT_OK) { allowed = {want[l.str(0)]}; absent_ok = false; } // returned before the planned crash
        else allowed.insert(want[l.str(0)]);
        std::string when = fmt_err("after a %s at %s %lu of %lu (%s) of a save", l.str(4) == "power" ? "power loss" : "process crash", at_op ? "I/O call" : "mapped store", (unsigned long) nth, (unsigned long) (at_op ? ops : stores), l.str(3).c_str());
        if (!look(when.c_str(), &seen)) return;
        if (seen != "absent") {
            sim::g_sh->probes[before.count(seen) ? PR_OLD_KEPT : PR_NEW_SEEN]++;
            // what a load has shown is on disk now: it stays
            allowed = {seen};
            absent_ok = false;
        } else { allowed.clear(); absent_ok = true; }
    }
    auto *f = run.spec.get("final");
    if (!f || !want.count(f->str(0))) return;
    // the repeated save succeeds, and once it has returned a power cut changes nothing
    if (child(run, [&] {
            auto g = graph_of(run.spec, f->str(0));
            start_io(run);
            sim::io_powerloss(f->u(2), 1);
            std::string err, to;
            if (!guarded([&] { earlier_saves(run, ids, f->num(3), f->u(4), [&](bool there) { return there ? path : path_of(run, "third"); }, &to); save(g, path); }, &err)) sim::violation("crash-retry", "the save repeated after the crash failed: %s", err.c_str());
            if (f->num(1)) sim::io_power_cut_now();
        }) != OUT_OK) return;
    allowed = {want[f->str(0)]};
    absent_ok = false;
    std::string seen;
    look(f->num(1) ? "after a power loss that followed a completed save" : "after a completed save", &seen);
}
static Reg reg_crash({"crash", gen_crash, run_crash});

// ---------------------------------------------------------------------------------------------- C09
// "io <graph id> save|load", "fault <fraction> <errno> <mode>", "kind <io kind> <errno>" (every such call), "quota <fraction of the need>", "cut <seed>"
static Spec gen_iofault(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, false);
    int cap = r.chance(0.15) ? 260 : r.chance(0.3) ? 100 : 30;
    gen_graph(s, r, "0", cap, false);
    if (r.chance(0.4)) sibling_graph(s, r, "0", "1"); else gen_graph(s, r, "1", cap, false);
    s.add("old", V(r.chance(0.7) ? "0" : "none"));
    if (r.chance(0.12)) s.add("link", V("graph", link_style(r), r.chance(0.8) ? 1 : 0));
    add_names(s, r, 0.12);
    if (r.chance(0.25)) s.add("earlier", V(1 + r.below(3), r.below(1000000)));
    static const int errs[] = {ENOSPC, EIO, EMFILE, ENFILE, ENOMEM, EACCES, EINTR, EROFS, EPERM};
    int n = 1 + (int) r.below(3);
    for (int i = 0; i < n; ++i) {
        bool sv = r.chance(0.65);
        std::string id = std::to_string(i);
        s.add("io", V(id.c_str(), sv ? "save" : "load", r.chance(0.5) ? 1 : 0, r.below(1000000)));
        if (sv && r.chance(0.04)) { // the file system does not support a call, or one kind of call fails whenever it is made
            static const int kinds[] = {sim::IO_FALLOC, sim::IO_FALLOC, sim::IO_FSYNC, sim::IO_MSYNC, sim::IO_OPEN, sim::IO_MMAP, sim::IO_RENAME, sim::IO_WRITE};
            int k = kinds[r.below(8)];
            s.add("kind", V(id.c_str(), k, k == sim::IO_FALLOC && r.chance(0.8) ? r.chance(0.6) ? EOPNOTSUPP : EINVAL : errs[r.below(9)]));
            if (r.chance(0.5)) s.add("quota", V(id.c_str(), frac(r).c_str(), r.chance(0.7) ? 1 : 0));
        } else if (sv && r.chance(0.25)) {
            s.add("quota", V(id.c_str(), r.chance(0.3) ? "0" : frac(r).c_str(), r.chance(0.7) ? 1 : 0));
            if (r.chance(0.35)) s.add("fault", V(id.c_str(), frac(r).c_str(), r.chance(0.4) ? EINTR : errs[r.below(9)], 0));
        } else {
            int k = r.chance(0.75) ? 1 : 2 + (int) r.below(3);
            for (int q = 0; q < k; ++q) s.add("fault", V(id.c_str(), frac(r).c_str(), errs[r.below(9)], r.chance(0.06) ? 1 : 0));
        }
    }
    return s;
}
static void run_iofault(Run &run) {
    std::map<std::string, std::string> want;
    if (!texts(run, {"0", "1"}, want)) return;
    auto path = path_of(run, "graph");
    make_links(run);
    std::string now; // text of the graph at the path
    bool present = false;
    if (run.spec.str("old") == "0") {
        if (child(run, [&] { start_io(run); save(graph_of(run.spec, "0"), path); }) != OUT_OK) return;
        now = want["0"]; present = true;
    }
    for (auto &l : run.spec.all("io")) {
        bool saving = l.str(1) == "save";
        if (!saving && !present) continue;
        auto snap = snapshot(run.scratch);
        std::string counts;
        int64_t need = 0;
        auto earlier = [&] { // saves by the same process, which succeed
            auto *e = saving ? run.spec.get("earlier") : nullptr;
            std::string last;
            if (e) earlier_saves(run, {"0", "1"}, e->num(0), e->u(1) + l.u(3), [&](bool there) { return there ? path : path_of(run, "other"); }, &last);
            return last;
        };
        if (child(run, [&] {
                auto g = graph_of(run.spec, "1");
                start_io(run);
                earlier();
                int64_t u = sim::io_used();
                sim::io_arm({});
                if (saving) save(g, path); else load(path);
                set_result(fmt_err("%lu %lu", (unsigned long) sim::io_ops_since_arm(), (unsigned long) std::max((int64_t) 4096, sim::io_used() - u)));
            }, &counts) != OUT_OK) return;
        restore(run.scratch, snap);
        uint64_t ops, nd;
        parse_counts(counts, &ops, &nd);
        need = (int64_t) nd + 8192;
        for (auto &kv : snap) if (kv.first[0] == 'F') need = std::max(need, (int64_t) kv.second.size() + 8192);
        std::vector<sim::IoFault> faults;
        std::string desc;
        for (auto &f : run.spec.all("fault")) if (f.str(0) == l.str(0)) {
            uint64_t nth = std::min<uint64_t>(ops, 1 + (uint64_t) (f.real(1) * ops));
            faults.push_back({nth, (int) f.num(2), (int) f.num(3)});
            desc += fmt_err(" call %lu of %lu (%s)", (unsigned long) nth, (unsigned long) ops, f.num(3) ? "short" : strerror((int) f.num(2)));
        }
        for (auto &f : run.spec.all("kind")) if (f.str(0) == l.str(0)) {
            faults.push_back({f.u(1), (int) f.num(2), 2});
            desc += fmt_err(" every %s (%s)", sim::io_kind_name((int) f.num(1)), strerror((int) f.num(2)));
        }
        std::string result;
        auto out = child(run, [&] {
            auto g = graph_of(run.spec, "1");
            start_io(run);
            sim::io_powerloss(l.u(3), 1);
            auto last = earlier();
            auto now0 = last.empty() ? now : want[last];
            bool present0 = present || !last.empty();
            sim::io_arm(faults);
            std::string q;
            for (auto &f : run.spec.all("quota")) if (f.str(0) == l.str(0)) { sim::io_quota((int64_t) (f.real(1) * need) / 4096 * 4096, f.num(2)); desc += " disk full"; }
            std::shared_ptr<Graph> got;
            std::string err;
            bool ok = guarded([&] { if (saving) save(g, path); else got = load(path); }, &err);
            sim::io_disarm();
            auto lk = sim::io_leaks();
            if (!lk.empty()) sim::violation("io-leak", "after a %s with a fault at%s that %s, still open:%s", saving ? "save" : "load", desc.c_str(), ok ? "returned" : "failed", lk.c_str());
            sim::probe(saving ? (ok ? PR_SAVE_OK : PR_SAVE_ERR) : ok ? PR_LOAD_OK : PR_LOAD_ERR);
            if (!saving) {
                if (ok && canon(*got) != now0) sim::violation("io-wrong", "a load with a fault at%s returned another graph: %s", desc.c_str(), canon_diff(now0, canon(*got)).c_str());
                if (!guarded([&] { got = load(path); }, &err)) sim::violation("io-retry", "loading again without the fault failed: %s", err.c_str());
                if (canon(*got) != now0) sim::violation("io-wrong", "loading again without the fault gave another graph");
                set_result("old");
                return;
            }
            if (canon(*g) != want["1"]) sim::violation("io-wrong", "saving changed the graph in memory");
            if (l.num(2)) sim::io_power_cut_now(); // what is not on disk is gone now
            std::string seen;
            bool loads = guarded([&] { seen = canon(*load(path)); }, &err);
            if (ok) {
                if (!loads) sim::violation("io-silent", "a save with a fault at%s returned normally, but the path does not load%s: %s", desc.c_str(), l.num(2) ? " after a power cut" : "", err.c_str());
                if (seen != want["1"]) sim::violation("io-silent", "a save with a fault at%s returned normally, but the path loads as another graph%s: %s", desc.c_str(), l.num(2) ? " after a power cut" : "", canon_diff(want["1"], seen).c_str());
            } else if (!present0) {
                if (loads && seen != want["1"]) sim::violation("io-damage", "a failed save (fault at%s) left a wrong graph at a path that held nothing: %s", desc.c_str(), canon_diff(want["1"], seen).c_str());
            } else {
                if (!loads) sim::violation("io-damage", "a failed save (fault at%s) destroyed the graph that was there: %s", desc.c_str(), err.c_str());
                if (seen != now0 && seen != want["1"]) sim::violation("io-damage", "a failed save (fault at%s) left a mixture: %s", desc.c_str(), canon_diff(now0, seen).c_str());
                sim::probe(seen == now0 ? PR_OLD_KEPT : PR_NEW_SEEN);
            }
            lk = sim::io_leaks();
            if (!lk.empty()) sim::violation("io-leak", "a load left open:%s", lk.c_str());
            if (!guarded([&] { save(g, path); }, &err)) sim::violation("io-retry", "saving again without the fault failed: %s", err.c_str());
            if (!guarded([&] { seen = canon(*load(path)); }, &err) || seen != want["1"]) sim::violation("io-retry", "saving again without the fault did not leave the graph: %s", err.c_str());
            set_result("new");
        }, &result);
        if (out != OUT_OK) return;
        if (result == "new") { now = want["1"]; present = true; }
    }
}
static Reg reg_io({"iofault", gen_iofault, run_iofault});

// ---------------------------------------------------------------------------------------------- C10
static Spec gen_damage(Rng &r, const std::string &, bool) {
    Spec s;
    gen_env(s, r, false);
    gen_graph(s, r, "0", r.chance(0.1) ? 160 : r.chance(0.5) ? 14 : 50, false);
    if (r.chance(0.12)) { s.add("dmg", V("random", r.below(r.chance(0.3) ? 20000 : 200), r.below(4), r.below(1000000))); return s; }
    if (r.chance(0.2)) { s.add("dmg", V("trunc", frac(r).c_str(), (int) r.range(-9, 9))); return s; }
    if (r.chance(0.15)) { // cut around a field
        static const char *fields[] = {"polygons", "vertices", "crossings", "edge", "end"};
        s.add("dmg", V("cutat", fields[r.below(5)], frac(r).c_str(), (int) r.range(-9, 9)));
        return s;
    }
    if (r.chance(0.02)) { s.add("dmg", V("rings", 500 + r.below(3500), 3 + r.below(4))); return s; } // many more polygons than the adjacencies that follow
    int n = 1 + (int) r.below(4);
    for (int i = 0; i < n; ++i)
        switch (r.below(8)) {
        case 0: s.add("dmg", V("flip", frac(r).c_str(), (int) r.below(8))); break;
        case 1: s.add("dmg", V("byte", frac(r).c_str(), (int) r.below(256))); break;
        case 2: case 3: { // a count or index field
            static const char *fields[] = {"polygons", "vertices", "crossings", "edge"};
            static const char *vals[] = {"0", "1", "2", "3", "7", "255", "65536", "16777216", "4294967295", "4294967296", "1152921504606846976", "2305843009213693951", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551608"};
            s.add("dmg", V("field", fields[r.below(4)], frac(r).c_str(), r.chance(0.7) ? "set" : "add", r.chance(0.6) ? vals[r.below(16)] : std::to_string(r.below(40)).c_str()));
            break;
        }
        case 4: s.add("dmg", V("coord", frac(r).c_str(), (int) (r.chance(0.3) ? r.chance(0.5) ? 2147483647 : -2147483647 - 1 : r.range(-400000000, 400000000)), (int) r.below(3))); break;
        case 5: s.add("dmg", V("append", 1 + r.below(r.chance(0.2) ? 9000 : 40), r.below(4), r.below(1000000))); break;
        case 6: s.add("dmg", V("zero", frac(r).c_str(), 1 + r.below(600))); break;
        case 7: s.add("dmg", V("cut", frac(r).c_str(), 1 + r.below(40))); break; // bytes missing in the middle
        }
    return s;
}
// offsets of the count fields and coordinates, following the file format
struct Layout { std::vector<size_t> polygons, vertices, crossings, edge, coords; size_t end = 0; }; // end of the content, 0 if unknown
static uint64_t get64(const std::string &b, size_t o) { uint64_t v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | (unsigned char) b[o + i]; return v; }
static void put64(std::string &b, size_t o, uint64_t v) { for (int i = 0; i < 8 && o + i < b.size(); ++i) { b[o + i] = (char) v; v >>= 8; } }
static Layout layout_of(const std::string &b) {
    Layout L;
    if (b.size() < 8) return L;
    L.polygons.push_back(0);
    uint64_t np = get64(b, 0), nv = 0;
    size_t o = 8;
    for (uint64_t i = 0; i < np && o + 8 <= b.size(); ++i) {
        uint64_t n = get64(b, o);
        L.vertices.push_back(o);
        o += 8;
        for (uint64_t j = 0; j < 2 * n && o + 4 <= b.size(); ++j) { L.coords.push_back(o); o += 4; }
        nv += n;
    }
    for (uint64_t i = 0; i < nv; ++i) o += (i + 7) / 8;
    if (o + 8 <= b.size()) {
        L.crossings.push_back(o);
        if (get64(b, o) <= (b.size() - o - 8) / 8) L.end = o + 8 + 8 * get64(b, o);
        for (size_t e = o + 8; e + 8 <= b.size() && L.edge.size() < 5000; e += 8) L.edge.push_back(e);
    }
    return L;
}
static std::string damaged(const Spec &s, const std::string &good, bool *only_truncated) {
    std::string b = good;
    Layout L = layout_of(good);
    *only_truncated = false;
    auto ds = s.all("dmg");
    for (auto &d : ds) {
        auto k = d.str(0);
        auto at = [&](const std::string &f) { return b.empty() ? 0 : std::min(b.size() - 1, (size_t) (std::stod(f) * b.size())); };
        if (k == "random") b = junk(d.u(1), d.u(2), d.u(3));
        else if (k == "trunc") {
            long n = (long) (d.real(1) * b.size()) + d.num(2);
            n = std::max(0l, std::min((long) b.size() - 1, n));
            if (!b.empty()) { b.resize(n); *only_truncated = ds.size() == 1; }
        } else if (k == "cutat" && !b.empty()) {
            std::vector<size_t> end{b.size()};
            auto &v = d.str(1) == "polygons" ? L.polygons : d.str(1) == "vertices" ? L.vertices : d.str(1) == "crossings" ? L.crossings : d.str(1) == "edge" ? L.edge : end;
            long n = v.empty() ? 0 : (long) v[std::min(v.size() - 1, (size_t) (d.real(2) * v.size()))] + d.num(3);
            b.resize(std::max(0l, std::min((long) b.size() - 1, n)));
            *only_truncated = ds.size() == 1;
        } else if (k == "flip" && !b.empty()) b[at(d.str(1))] ^= (char) (1 << d.num(2));
        else if (k == "byte" && !b.empty()) b[at(d.str(1))] = (char) d.num(2);
        else if (k == "field") {
            auto &v = d.str(1) == "polygons" ? L.polygons : d.str(1) == "vertices" ? L.vertices : d.str(1) == "crossings" ? L.crossings : L.edge;
            if (v.empty()) continue;
            size_t o = v[std::min(v.size() - 1, (size_t) (d.real(2) * v.size()))];
            if (o + 8 > b.size()) continue;
            uint64_t x = d.u(4);
            put64(b, o, d.str(3) == "set" ? x : get64(b, o) + x);
        } else if (k == "coord" && !L.coords.empty()) {
            size_t o = L.coords[std::min(L.coords.size() - 1, (size_t) (d.real(1) * L.coords.size()))];
            if (d.num(3) == 0 && o >= 16) { for (int i = 0; i < 8 && o + i < b.size(); ++i) b[o + i] = b[o - 8 + i]; } // a vertex twice
            else { uint32_t v = (uint32_t) d.num(2); for (int i = 0; i < 4 && o + i < b.size(); ++i) b[o + i] = (char) (v >> (8 * i)); }
        } else if (k == "rings" && b.size() >= 8) {
            size_t o = L.coords.empty() ? 8 : L.coords.back() + 4;
            uint64_t m = d.u(1), each = d.u(2);
            put64(b, 0, get64(b, 0) + m);
            std::string extra;
            for (uint64_t i = 0; i < m; ++i) {
                std::string one(8 + 8 * each, '\0');
                put64(one, 0, each);
                for (uint64_t j = 0; j < each; ++j) put64(one, 8 + 8 * j, (1000 * (i % 60) + 7 * j * j + 1) | (uint64_t) (1000 * (i / 60) + 5 * j + 1) << 32);
                extra += one;
            }
            b.insert(std::min(o, b.size()), extra);
        } else if (k == "append") b += junk(d.u(1), d.u(2), d.u(3));
        else if (k == "zero") { size_t o = at(d.str(1)); for (size_t i = 0; i < d.u(2) && o + i < b.size(); ++i) b[o + i] = 0; }
        else if (k == "cut") { size_t o = at(d.str(1)); if (!b.empty()) b.erase(o, d.u(2)); }
    }
    return b;
}
static void run_damage(Run &run) {
    auto path = path_of(run, "graph");
    std::string want;
    if (child(run, [&] { start_io(run); auto g = graph_of(run.spec, "0"); save(g, path); set_result(canon(*g)); }, &want) != OUT_OK) return;
    std::string good = slurp_file(path);
    bool truncated;
    std::string bad = damaged(run.spec, good, &truncated);
    if (bad == good) return;
    size_t content = layout_of(good).end;
    spit_file(path, bad);
    ChildOpts o;
    o.max_steps = 60000000ull + 60000ull * bad.size();
    child(run, [&] {
        start_io(run);
        sim::g_sh->fault_fired[sim::FK_DATA_CORRUPT]++;
        for (int round = 0; round < 2; ++round) {
            std::shared_ptr<Graph> g;
            std::string err;
            sim::reset_biggest_alloc();
            bool ok = guarded([&] { g = load(path); }, &err);
            uint64_t big = sim::biggest_alloc();
            if (big > 64 * bad.size() + (1 << 20)) sim::violation("load-damaged", "loading a file of %zu bytes asked for a block of %lu bytes", bad.size(), (unsigned long) big);
            auto lk = sim::io_leaks();
            if (!lk.empty()) sim::violation("load-damaged", "after loading a damaged file, still open:%s", lk.c_str());
            if (!ok) { sim::probe(PR_DAMAGED_ERR); sim::observe_str(err); continue; }
            sim::probe(PR_DAMAGED_OK);
            auto c = canon(*g); // reads every vertex and edge
            sim::observe_str(c);
            if (truncated && c == want && bad.size() < content) sim::violation("load-truncated", "a file cut from %zu to %zu bytes loaded without an error", good.size(), bad.size());
            if (truncated && c != want) sim::violation("load-truncated", "a file cut from %zu to %zu bytes loaded as another graph: %s", good.size(), bad.size(), canon_diff(want, c).c_str());
            auto vs = g->get_vertices();
            size_t nv = 0;
            for (auto &p : g->get_polygons()) nv += p.get_vertices().size();
            if (nv != vs.size()) sim::violation("malformed-graph", "%zu polygon vertices but %zu graph vertices", nv, vs.size());
            if (vs.size() * 8 > bad.size()) sim::violation("malformed-graph", "%zu vertices out of a file of %zu bytes", vs.size(), bad.size());
            for (size_t i = 0; i < vs.size(); ++i)
                for (auto &n : g->get_neighbors(vs[i])) {
                    if (n == vs[i]) sim::violation("malformed-graph", "vertex (%d,%d) is its own neighbour", P(n).x, P(n).y);
                    if (!g->has_edge(n, vs[i]) || !g->has_edge(vs[i], n)) sim::violation("malformed-graph", "an edge has one direction only");
                    if (g->is_edge_meridian_crossing(n, vs[i]) != g->is_edge_meridian_crossing(vs[i], n)) sim::violation("malformed-graph", "an edge has different flags in its directions");
                }
        }
    }, nullptr, o);
}
static Reg reg_dmg({"damage", gen_damage, run_damage});
