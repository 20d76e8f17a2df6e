#include "common.h"
#include <s2/s2loop.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <poll.h>
#include <signal.h>

using sim::Rng;
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
const char *probe_names[PR_N] = {"lock_contended", "shared_lock_contended", "s2_index_lock_contended", "", "", "", "", "", "edges_seen", "crossing_edges_seen", "paths_found", "path_errors",
    "paths_with_3_or_more_points", "edges_direct_and_crossing", "saves_ok", "saves_refused", "loads_ok", "loads_refused", "old_graph_kept", "new_graph_seen", "path_absent", "operation_threw",
    "operation_ok", "batch_item_errors", "overlapping_operations", "workers_restarted", "duplicate_parts", "empty_parts", "endpoints_on_land", "concurrent_clients", "periodic_longitudes",
    "damaged_file_accepted", "damaged_file_refused", "path_reused", "existing_directory_refused", "commands_ok", "commands_failed", "shapefile_reads_ok", "shapefile_reads_failed", "warnings_seen", "shapefiles_replaced", "longer_look_at_growth"};

// ---------------------------------------------------------------- spec text
std::string Spec::text() const {
    std::string o;
    for (auto &l : lines) {
        o += l.key;
        for (auto &x : l.a) { o += ' '; o += x.empty() ? "-" : x; }
        o += '\n';
    }
    return o;
}
Spec Spec::parse(const std::string &t) {
    Spec s;
    std::istringstream is(t);
    std::string ln;
    while (std::getline(is, ln)) {
        if (ln.empty() || ln[0] == '#') continue;
        std::istringstream ls(ln);
        Line l;
        ls >> l.key;
        std::string x;
        while (ls >> x) l.a.push_back(x);
        if (!l.key.empty()) s.lines.push_back(l);
    }
    return s;
}
std::string fmt_err(const char *fmt, ...) {
    char b[3000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
std::string hex(const std::string &b) {
    static const char *d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : b) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
std::string unhex(const std::string &h) {
    std::string o;
    for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char) std::stoi(h.substr(i, 2), nullptr, 16);
    return o;
}

// ---------------------------------------------------------------- polygons
static double cross(Pt a, Pt b, Pt c) { return ((double) b.x - a.x) * ((double) c.y - a.y) - ((double) b.y - a.y) * ((double) c.x - a.x); }
static bool proper_ring(const Ring &r) {
    size_t n = r.size();
    if (n < 3) return false;
    std::set<Pt> s(r.begin(), r.end());
    if (s.size() != n) return false;
    for (size_t i = 0; i < n; ++i)
        if (cross(r[i], r[(i + 1) % n], r[(i + 2) % n]) == 0) return false; // no collinear triples: the ring is stored as given
    auto sgn = [](double d) { return d > 0 ? 1 : d < 0 ? -1 : 0; };
    auto onseg = [](Pt a, Pt b, Pt p) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); };
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            Pt a = r[i], b = r[(i + 1) % n], c = r[j], d = r[(j + 1) % n];
            if (b == c || d == a) {
                continue;
            }
            int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
            if ((s1 * s2 < 0 && s3 * s4 < 0) || onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return false;
        }
    return true;
}
static Ring star(Rng &r, double cx, double cy, double rx, double ry, int n, int64_t lattice) {
    Ring g;
    std::vector<double> ang;
    for (int i = 0; i < n; ++i) ang.push_back((i + 0.8 * r.unit()) * 2 * M_PI / n);
    for (int i = 0; i < n; ++i) {
        double k = 0.25 + 0.73 * r.unit();
        double x = cx + rx * k * std::cos(ang[i]), y = cy + ry * k * std::sin(ang[i]);
        if (lattice) { x = std::round(x / lattice) * lattice; y = std::round(y / lattice) * lattice; }
        g.push_back({(int32_t) std::lround(x), (int32_t) std::lround(y)});
    }
    if (r.chance(0.5)) std::reverse(g.begin(), g.end());
    return g;
}
std::vector<Ring> gen_rings(Rng &r, int max_vertices) {
    std::vector<Ring> out;
    int target = 3 + (int) r.below(max_vertices - 2);
    int kind = (int) r.below(10); // 0-3 world, 4-6 local, 7-8 near the meridian, 9 tiny scale
    double x0 = -179.5e6, x1 = 179.5e6, y0 = -80e6, y1 = 80e6;
    if (kind >= 4 && kind <= 6) { x0 = r.range(-170, 140) * 1e6; x1 = x0 + 30e6; y0 = r.range(-70, 40) * 1e6; y1 = y0 + 30e6; }
    else if (kind == 9) { x0 = r.range(-170, 140) * 1e6; x1 = x0 + 2000; y0 = r.range(-70, 40) * 1e6; y1 = y0 + 2000; }
    int nx = 1 + (int) r.below(4), ny = 1 + (int) r.below(4);
    if (max_vertices > 60 && kind < 7) { // a large map
        nx = 4 + (int) r.below(4); ny = 3 + (int) r.below(4);
        target = max_vertices / 2 + (int) r.below(max_vertices / 2);
    }
    if (kind == 7 || kind == 8) nx = 2;
    int64_t lattice = kind == 9 ? 0 : r.chance(0.3) ? (r.chance(0.5) ? 1000000 : 5000000) : 0;
    std::vector<int> cells;
    for (int i = 0; i < nx * ny; ++i) cells.push_back(i);
    for (size_t i = cells.size(); i > 1; --i) std::swap(cells[i - 1], cells[r.below(i)]);
    int total = 0;
    for (int c : cells) {
        if (total >= target || total + 3 > max_vertices) break;
        double cw = (x1 - x0) / nx, ch = (y1 - y0) / ny;
        double cx = x0 + (c % nx + 0.5) * cw, cy = y0 + (c / nx + 0.5) * ch;
        double rx = cw * 0.48, ry = ch * 0.48;
        if (kind == 7 || kind == 8) { rx = 15e6; cx = c % nx ? 163e6 : -163e6; }
        int n = 3 + (int) r.below(std::min(10, max_vertices - total - 2));
        for (int t = 0; t < 6; ++t) {
            Ring g = r.chance(0.15) ? Ring{{(int32_t) (cx - rx * 0.7), (int32_t) (cy - ry * 0.7)}, {(int32_t) (cx + rx * 0.7), (int32_t) (cy - ry * 0.7)}, {(int32_t) (cx + rx * 0.7), (int32_t) (cy + ry * 0.7)}, {(int32_t) (cx - rx * 0.7), (int32_t) (cy + ry * 0.7)}}
                                    : star(r, cx, cy, rx, ry, n, lattice);
            if ((int) g.size() + total > max_vertices || !proper_ring(g)) continue;
            bool in = true;
            for (auto &p : g) if (p.x < -179999990 || p.x > 179999990 || p.y < -89000000 || p.y > 89000000) in = false;
            for (auto &o : out) { // strictly disjoint bounding boxes
                int32_t a0 = g[0].x, a1 = a0, b0 = g[0].y, b1 = b0, c0 = o[0].x, c1 = c0, d0 = o[0].y, d1 = d0;
                for (auto &p : g) { a0 = std::min(a0, p.x); a1 = std::max(a1, p.x); b0 = std::min(b0, p.y); b1 = std::max(b1, p.y); }
                for (auto &p : o) { c0 = std::min(c0, p.x); c1 = std::max(c1, p.x); d0 = std::min(d0, p.y); d1 = std::max(d1, p.y); }
                if (!(a1 < c0 || c1 < a0 || b1 < d0 || d1 < b0)) in = false;
            }
            if (!in) continue;
            total += g.size();
            out.push_back(g);
            break;
        }
    }
    if (out.empty()) out.push_back({{1000000, 1000000}, {9000000, 2000000}, {4000000, 8000000}});
    return out;
}
// A coast with many deep inlets: a straight way along it crosses many edges
static Ring comb_ring(Rng &r, int max_vertices) {
    int teeth = std::max(3, std::min(max_vertices, 60) / 2 - 1 - (int) r.below(3));
    int w = 300000 + (int) r.below(900000), x = (int) r.range(-150, 100) * 1000000, y = (int) r.range(-60, 40) * 1000000, h = 1000000 + (int) r.below(8000000);
    bool upright = r.chance(0.5);
    Ring g = {{x, y}, {x + 2 * w * teeth, y}};
    for (int i = teeth - 1; i >= 0; --i) {
        g.push_back({x + 2 * w * i + w + (int) r.below(w / 3), y + h + (int) r.below(h / 4)});
        if (i) g.push_back({x + 2 * w * i + (int) r.below(w / 3), y + h / 6 + (int) r.below(h / 8)});
    }
    if (upright) for (auto &p : g) { p = {x - (p.y - y), y + (p.x - x) / 3}; }
    return g;
}
std::vector<Ring> gen_ocean_rings(Rng &r, int max_vertices) {
    if (max_vertices >= 16 && r.chance(0.05)) {
        auto g = comb_ring(r, max_vertices);
        std::vector<S2Point> v;
        for (auto &p : g) v.push_back(C(p).to_s2_point());
        S2Loop l(v, S2Debug::DISABLE);
        S2Error e;
        if (!l.FindValidationError(&e)) return {g};
    }
    for (int t = 0; t < 20; ++t) {
        std::vector<Ring> out;
        for (auto &g : gen_rings(r, max_vertices)) {
            std::vector<S2Point> v;
            for (auto &p : g) v.push_back(C(p).to_s2_point());
            S2Loop l(v, S2Debug::DISABLE);
            S2Error e;
            if (!l.FindValidationError(&e)) out.push_back(g);
        }
        if (!out.empty()) return out;
    }
    return {{{1000000, 1000000}, {9000000, 2000000}, {4000000, 8000000}}};
}
Pt gen_point(Rng &r, const std::vector<Ring> &rings) {
    int k = (int) r.below(10);
    if (k == 0) { auto &g = rings[r.below(rings.size())]; return g[r.below(g.size())]; } // a vertex
    if (k == 1) { auto &g = rings[r.below(rings.size())]; double x = 0, y = 0; for (auto &p : g) { x += p.x; y += p.y; } return {(int32_t) (x / g.size()), (int32_t) (y / g.size())}; } // often on land
    if (k == 2) { auto &g = rings[r.below(rings.size())]; size_t i = r.below(g.size()); Pt a = g[i], b = g[(i + 1) % g.size()]; return {(int32_t) (((int64_t) a.x + b.x) / 2), (int32_t) (((int64_t) a.y + b.y) / 2)}; } // on an edge
    if (k == 3) return {(int32_t) r.range(-539, 539) * 1000000 + (int32_t) r.below(1000000), (int32_t) r.range(-85, 85) * 1000000};
    if (k <= 7) { // near the polygons
        auto &g = rings[r.below(rings.size())];
        Pt p = g[r.below(g.size())];
        double sx = 1, sy = 1;
        for (auto &q : g) { sx = std::max(sx, std::fabs((double) q.x - p.x)); sy = std::max(sy, std::fabs((double) q.y - p.y)); }
        double x = p.x + (r.unit() * 4 - 2) * sx, y = p.y + (r.unit() * 4 - 2) * sy;
        x = std::min(179.9e6, std::max(-179.9e6, x)); y = std::min(85e6, std::max(-85e6, y));
        return {(int32_t) x, (int32_t) y};
    }
    return {(int32_t) r.range(-179999999, 179999999), (int32_t) r.range(-85000000, 85000000)};
}
// A map much like another one: a ring less, rings or vertices in another order, a vertex a little elsewhere
std::vector<Ring> vary_rings(Rng &r, const std::vector<Ring> &rings) {
    auto out = rings;
    for (int n = 1 + (int) r.below(2); n > 0; --n) {
        size_t i = r.below(out.size());
        switch (r.below(5)) {
        case 0: case 1: if (out.size() > 1) out.erase(out.begin() + i); break;
        case 2: std::rotate(out.begin(), out.begin() + i, out.end()); break;
        case 3: std::rotate(out[i].begin(), out[i].begin() + r.below(out[i].size()), out[i].end()); break;
        default: {
            auto g = out[i];
            auto &p = g[r.below(g.size())];
            p.x += (int) r.range(-2, 2); p.y += (int) r.range(-2, 2);
            if (p.x > 180000000 || p.x < -180000000 || p.y > 90000000 || p.y < -90000000) break;
            std::vector<S2Point> v;
            for (auto &q : g) v.push_back(C(q).to_s2_point());
            S2Loop l(v, S2Debug::DISABLE);
            S2Error e;
            if (!l.FindValidationError(&e)) out[i] = g;
        }
        }
    }
    return out;
}
void spec_rings(Spec &s, const std::vector<Ring> &rings, const std::string &key) {
    for (auto &g : rings) {
        std::vector<std::string> a;
        for (auto &p : g) a.push_back(std::to_string(p.x) + "," + std::to_string(p.y));
        s.add(key, a);
    }
}
std::vector<Ring> rings_of(const Spec &s, const std::string &key) {
    std::vector<Ring> out;
    for (auto &l : s.all(key)) {
        Ring g;
        for (auto &t : l.a) { auto k = t.find(','); g.push_back({(int32_t) std::stol(t.substr(0, k)), (int32_t) std::stol(t.substr(k + 1))}); }
        out.push_back(g);
    }
    return out;
}
std::vector<Polygon> make_polygons(const std::vector<Ring> &rings) {
    std::vector<Polygon> v;
    for (auto &g : rings) {
        std::vector<Coordinate> c;
        for (auto &p : g) c.push_back(C(p));
        v.push_back(Polygon(c));
    }
    return v;
}
void gen_env(Spec &s, Rng &r, bool threads) {
    s.add("alloc", V((int) r.below(4), r.below(1000000)));
    s.add("clock", V((int) (r.chance(0.6) ? 0 : 1 + r.below(2)), r.below(1000000)));
    s.add("tty", V((int) (r.chance(0.5) ? 80 : r.chance(0.5) ? -1 : r.range(0, 40))));
    std::vector<std::string> t;
    int n = 1 + (int) r.below(3);
    for (int i = 0; i < n; ++i) t.push_back(std::to_string(r.chance(0.06) ? 1 : r.chance(0.1) ? (int) r.range(9, 24) : (int) r.range(2, 8)));
    s.add("team", t);
    if (r.chance(0.35)) s.add("maxthreads", V((int) r.range(2, 12)));
    if (threads && r.chance(0.6)) s.add("racedir", V(1));
    if (!threads || r.chance(0.04)) { s.add("sched", V("none")); return; }
    uint64_t seed = r.below(1000000000);
    if (r.chance(0.35)) {
        uint64_t len = (uint64_t) std::pow(10.0, 2.5 + 4.0 * r.unit());
        s.add("sched", V("pct", seed, (int) (1 + r.below(8)), len));
    } else {
        static const double ps[] = {0.0, 0.02, 0.1, 0.3, 0.7}, pm[] = {0, 1e-5, 1e-4, 1e-3, 1e-2, 5e-2};
        char a[32], b[32];
        snprintf(a, sizeof a, "%g", ps[r.below(5)]);
        snprintf(b, sizeof b, "%g", pm[r.below(6)]);
        s.add("sched", V("random", seed, (const char *) a, (const char *) b));
    }
}

// ---------------------------------------------------------------- canonical graphs
std::string canon(const Graph &g) {
    std::vector<std::string> ps;
    for (auto &p : g.get_polygons()) {
        std::string t = "P";
        for (auto &c : p.get_vertices()) { t += ' '; t += std::to_string(c.get_longitude_microdegrees()); t += ','; t += std::to_string(c.get_latitude_microdegrees()); }
        ps.push_back(t);
    }
    std::sort(ps.begin(), ps.end());
    std::vector<Pt> vs;
    for (auto &c : g.get_vertices()) vs.push_back(P(c));
    std::sort(vs.begin(), vs.end());
    std::string o;
    for (auto &p : ps) { o += p; o += '\n'; }
    std::map<Pt, int> idx;
    for (size_t i = 0; i < vs.size(); ++i) {
        o += "V " + std::to_string(vs[i].x) + "," + std::to_string(vs[i].y) + "\n";
        idx[vs[i]] = (int) i;
    }
    for (size_t i = 0; i < vs.size(); ++i) {
        if (i && vs[i] == vs[i - 1]) continue;
        auto nb = g.get_neighbors(C(vs[i]));
        std::vector<std::pair<int, int>> es;
        for (auto &c : nb) {
            auto it = idx.find(P(c));
            if (it == idx.end()) sim::violation("malformed-graph", "neighbour (%d,%d) is no vertex of the graph", P(c).x, P(c).y);
            es.push_back({it->second, g.is_edge_meridian_crossing(C(vs[i]), c) ? 1 : 0});
            if (!g.has_edge(C(vs[i]), c)) es.back().second |= 2; // direction missing
        }
        std::sort(es.begin(), es.end());
        size_t cnt = 0;
        for (size_t j = 0; j < vs.size() && vs.size() <= 60; ++j) cnt += g.has_edge(C(vs[i]), C(vs[j]));
        if (vs.size() <= 60 && cnt != es.size()) o += "X " + std::to_string(i) + " has_edge disagrees with the neighbour list\n";
        for (auto &e : es) { o += "E " + std::to_string(i) + " " + std::to_string(e.first) + " " + std::to_string(e.second) + "\n"; }
    }
    return o;
}
static std::vector<std::string> split_lines(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) { size_t k = s.find('\n', i); if (k == std::string::npos) k = s.size(); v.push_back(s.substr(i, k - i)); i = k + 1; }
    return v;
}
std::string canon_cut(const std::string &c, const char *keys) {
    std::string o;
    for (auto &l : split_lines(c)) if (!l.empty() && strchr(keys, l[0])) { o += l; o += '\n'; }
    return o;
}
std::string canon_diff(const std::string &a, const std::string &b) {
    auto x = split_lines(a), y = split_lines(b);
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    std::vector<std::string> d1, d2;
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d1));
    std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(d2));
    std::string o = std::to_string(d1.size()) + " missing, " + std::to_string(d2.size()) + " extra;";
    if (!d1.empty()) o += " first missing '" + d1[0].substr(0, 120) + "'";
    if (!d2.empty()) o += " first extra '" + d2[0].substr(0, 120) + "'";
    return o;
}
bool canon_subset(const std::string &part, const std::string &full, std::string *why) {
    auto y = split_lines(full);
    std::set<std::string> s(y.begin(), y.end());
    for (auto &l : split_lines(part)) if (!s.count(l)) { *why = l; return false; }
    return true;
}

// ---------------------------------------------------------------- files
std::string slurp_file(const std::string &path) {
    std::string s;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char b[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd);
    return s;
}
void spit_file(const std::string &path, const std::string &bytes) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) sim::harness_error("cannot write %s", path.c_str());
    size_t o = 0;
    while (o < bytes.size()) { ssize_t n = syscall(SYS_write, fd, bytes.data() + o, bytes.size() - o); if (n <= 0) sim::harness_error("cannot write %s", path.c_str()); o += n; }
    syscall(SYS_close, fd);
}
void clean_dir(const std::string &dir) {
    DIR *dp = opendir(dir.c_str());
    if (dp) {
        std::vector<std::string> names;
        while (auto *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
        closedir(dp);
        for (auto &n : names) {
            std::string p = dir + "/" + n;
            struct stat st;
            if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) { clean_dir(p); syscall(SYS_rmdir, p.c_str()); }
            else syscall(SYS_unlink, p.c_str());
        }
    } else syscall(SYS_mkdir, dir.c_str(), 0755);
}

// ---------------------------------------------------------------- children
void set_result(const std::string &s) {
    if (s.size() > sizeof sim::g_sh->blob) sim::harness_error("result too long");
    memcpy(sim::g_sh->blob, s.data(), s.size());
    sim::g_sh->blob_len = s.size();
}
sim::Config config_of(const Run &run, int phase, const ChildOpts &o) {
    sim::Config c;
    c.races = run.races;
    if (o.max_steps) c.max_steps = o.max_steps;
    if (o.pristine) { c.teams = {1}; c.races = 0; return c; }
    const Spec &s = run.spec;
    if (auto *l = s.get("alloc")) { c.alloc_mode = (int) l->num(0); c.alloc_seed = l->u(1) + phase * 7919; }
    if (auto *l = s.get("clock")) { c.clock_mode = (int) l->num(0); c.clock_seed = l->u(1) + phase * 7919; }
    if (auto *l = s.get("tty")) c.tty_width = (int) l->num(0);
    if (auto *l = s.get("team")) { c.teams.clear(); for (size_t i = 0; i < l->a.size(); ++i) c.teams.push_back((int) l->num(i)); }
    if (c.teams.empty()) c.teams = {1};
    if (auto *l = s.get("maxthreads")) c.max_threads = (int) l->num(0);
    if (o.team) c.teams = {o.team};
    if (auto *l = s.get("sched")) {
        c.sched_seed = l->u(1, 1) + phase * 104729;
        if (l->str(0) == "random") { c.policy = sim::POL_RANDOM; c.p_sync = l->real(2); c.p_mem = l->real(3); }
        else if (l->str(0) == "pct") { c.policy = sim::POL_PCT; c.pct_depth = (int) l->num(2); c.pct_len = l->u(3); }
        else if (l->str(0) == "replay") {
            c.policy = sim::POL_REPLAY;
            for (auto &w : s.lines) if (w.key == "sw" && w.num(0) == phase) c.switches.push_back({(int) w.num(1), w.u(2), (int) w.num(3)});
        }
    }
    return c;
}
struct Body { const std::function<void()> *f; };
static void body_main(void *p) {
    sim::begin();
    (*((Body *) p)->f)();
    sim::end();
}
void phase_begin(Run &run) {
    sim::Shared *sh = sim::g_sh;
    sh->blob_len = 0;
    sh->n_sw = 0;
    sh->crashed = 0;
    run.phases++;
}
void child_setup(const Run &run, int phase, const ChildOpts &o) {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int fd = (int) syscall(SYS_openat, AT_FDCWD, o.stdout_bad ? "/dev/full" : "/dev/null", O_WRONLY, 0);
    if (fd >= 0) { dup2(fd, 1); if (!getenv("SIM_KEEP_STDERR")) dup2(fd, 2); syscall(SYS_close, fd); }
    if (o.stdout_bad) { sim::g_sh->fault_fired[sim::FK_STDOUT]++; syscall(SYS_close, 1); fd = (int) syscall(SYS_openat, AT_FDCWD, "/dev/full", O_WRONLY, 0); }
    sim::configure(config_of(run, phase, o));
}
Outcome child(Run &run, const std::function<void()> &body, std::string *out, const ChildOpts &o) {
    int phase = run.phase++;
    phase_begin(run);
    std::cout.flush();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) sim::harness_error("fork failed");
    if (pid == 0) {
        child_setup(run, phase, o);
        Body b{&body};
        sim::run_on_sim_stack(body_main, &b);
        syscall(SYS_exit_group, 0);
    }
    return reap(run, phase, pid, out);
}
Outcome reap(Run &run, int phase, int pid, std::string *out) {
    sim::Shared *sh = sim::g_sh;
    int status = 0;
    // wall-clock fallback only: code that loops outside every simulated step
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int pfd = (int) syscall(SYS_pidfd_open, pid, 0);
    bool hung = false;
    if (pfd >= 0) {
        struct pollfd pf{pfd, POLLIN, 0};
        uint64_t beat = sh->beat;
        while (poll(&pf, 1, 5000) <= 0) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (sh->beat != beat) { beat = sh->beat; t0 = t1; }
            else if (t1.tv_sec - t0.tv_sec >= 75) { hung = true; kill(pid, SIGKILL); break; }
        }
        syscall(SYS_close, pfd);
    }
    waitpid(pid, &status, 0);
    if (run.record)
        for (uint64_t i = 0; i < sh->n_sw; ++i) run.recorded.push_back({phase, sh->sw[i]});
    sh->n_sw = 0;
    if (hung) {
        if (!sh->violation) { sh->violation = 1; snprintf(sh->kind, sizeof sh->kind, "no-progress"); snprintf(sh->text, sizeof sh->text, "the simulated process made no progress for 75 s of real time"); }
        return OUT_VIOLATION;
    }
    if (WIFSIGNALED(status)) {
        if (!sh->violation) { sh->violation = 1; snprintf(sh->kind, sizeof sh->kind, "process-death"); snprintf(sh->text, sizeof sh->text, "the process was killed by signal %d", WTERMSIG(status)); }
        return OUT_VIOLATION;
    }
    int code = WEXITSTATUS(status);
    if (code == 68) { run.crashes++; return OUT_CRASH; }
    if (code == 67) return OUT_HARNESS;
    if (code != 0) {
        if (!sh->violation) { sh->violation = 1; snprintf(sh->kind, sizeof sh->kind, "process-death"); snprintf(sh->text, sizeof sh->text, "the process ended with status %d", code); }
        return OUT_VIOLATION;
    }
    if (out) out->assign(sh->blob, sh->blob_len);
    return OUT_OK;
}
