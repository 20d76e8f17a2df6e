// OpenMP runtime (libgomp ABI) on simulated threads.
#include "internal.h"
#include <cstring>
#include <deque>
#include <string>
#include <map>

namespace sim {
struct WorkShare {
    bool init = false;
    bool ull = false, up = true;
    int kind = 0; // 1 static 2 dynamic 3 guided
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    long start0 = 0; unsigned long long ustart0 = 0;
    int section_next = 1, section_count = 0;
    bool single_taken = false;
    void *copyprivate = nullptr;
    int done = 0;
    std::deque<std::pair<int, bool>> order; // of an ordered loop: the threads whose chunks are not all passed, in the order of the chunks
    VC order_vc{};
};
struct Group { int left = 0; VC vc{}; Group *outer = nullptr; };
struct Task {
    void (*fn)(void *) = nullptr;
    char *buf = nullptr, *arg = nullptr;
    Task *parent = nullptr;
    Group *group = nullptr;
    int children = 0, refs = 1;
    VC start{}, kids{};
};
struct Team {
    int n = 1;
    std::deque<WorkShare> ws;
    int bar_arrived = 0;
    uint64_t bar_gen = 0;
    VC bar_vc{}, bar_out{};
    int finished = 0;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    Team *parent = nullptr;
    int parent_tid = 0, parent_ws = 0;
    std::deque<Task *> tasks; // that wait for a thread
    int running = 0;
};
struct Member { Team *team; int tid; };
static size_t g_region = 0;
static int g_set_threads = 0;

static Team *team() { return g_cur ? g_cur->team : nullptr; }
static int pick_team(unsigned req) {
    int n = g_cfg.teams.empty() ? 1 : g_cfg.teams[g_region % g_cfg.teams.size()];
    g_region++;
    if (req > 0) {
        // the runtime may deliver fewer threads than asked for
        if ((int) req < n) n = (int) req;
        else n = std::min<int>((int) req, MAXT - 8);
    } else if (g_set_threads > 0) n = g_set_threads;
    if (n > MAXT - 8) n = MAXT - 8;
    if (n > 1) n = std::min(n, std::max(1, pool_room() - 8)); // several clients share the thread limit
    if (n < 1) n = 1;
    return n;
}
static void unref(Task *t) { while (t && --t->refs == 0) { Task *up = t->parent; free(t->buf); delete t; t = up; } }
// runs the first waiting task, of this parent or group if one is given
static bool run_task(Team *tm, Task *parent, Group *group) {
    for (size_t i = 0; i < tm->tasks.size(); ++i) {
        Task *t = tm->tasks[i];
        if ((parent && t->parent != parent) || (group && t->group != group)) continue;
        tm->tasks.erase(tm->tasks.begin() + i);
        tm->running++;
        T *me = g_cur;
        Task *task = me->task; Group *g = me->group;
        me->task = t; me->group = t->group;
        hb_acquire_from(t->start);
        sync_point();
        t->fn(t->arg);
        sync_point();
        me->task = task; me->group = g;
        tm->running--;
        hb_release_to(t->parent->kids);
        hb_release_to(tm->bar_vc);
        t->parent->children--;
        wake(&t->parent->children);
        if (t->group) { hb_release_to(t->group->vc); t->group->left--; wake(&t->group->left); }
        unref(t);
        wake(&tm->bar_gen);
        wake(&tm->finished);
        return true;
    }
    return false;
}
static void barrier_wait() {
    Team *tm = team();
    if (!tm || tm->n == 1) return;
    sync_point();
    hb_release_to(tm->bar_vc);
    uint64_t gen = tm->bar_gen;
    ++tm->bar_arrived;
    while (tm->bar_gen == gen) {
        if (run_task(tm, nullptr, nullptr)) continue;
        if (tm->bar_arrived == tm->n && tm->running == 0) {
            tm->bar_arrived = 0;
            tm->bar_out = tm->bar_vc;
            tm->bar_gen++;
            wake(&tm->bar_gen);
        } else block(&tm->bar_gen, "OpenMP barrier");
    }
    hb_acquire_from(tm->bar_out);
    sync_point();
}
static void member_main(void *p) {
    Member *m = (Member *) p;
    T *me = g_cur;
    Team *tm = m->team;
    me->team = tm; me->team_tid = m->tid; me->ws_idx = 0; me->task = nullptr; me->group = nullptr;
    delete m;
    tm->fn(tm->data);
    // implicit barrier at the end of the region
    sync_point();
    while (run_task(tm, nullptr, nullptr)) {}
    unref(me->task);
    me->task = nullptr;
    hb_release_to(tm->bar_vc);
    tm->finished++;
    me->team = nullptr;
    wake(&tm->finished);
}
static void run_parallel(void (*fn)(void *), void *data, unsigned nt, const WorkShare *ws0) {
    if (!g_active) { // outside the simulation (preparation code): one thread
        static T dummy{};
        T *saved = g_cur;
        if (!g_cur) { dummy.trig = ~0ull; g_cur = &dummy; }
        T *me = g_cur;
        Team *tm = new Team();
        tm->n = 1; tm->parent = me->team; tm->parent_tid = me->team_tid; tm->parent_ws = me->ws_idx;
        if (ws0) tm->ws.push_back(*ws0);
        me->team = tm; me->team_tid = 0; me->ws_idx = 0;
        fn(data);
        me->team = tm->parent; me->team_tid = tm->parent_tid; me->ws_idx = tm->parent_ws;
        delete tm;
        g_cur = saved;
        return;
    }
    T *me = g_cur;
    bool nested = me->team != nullptr && me->team->n > 1;
    Team *tm = new Team();
    tm->n = nested ? 1 : pick_team(nt);
    tm->fn = fn; tm->data = data;
    tm->parent = me->team; tm->parent_tid = me->team_tid; tm->parent_ws = me->ws_idx;
    if (ws0) tm->ws.push_back(*ws0);
    if (g_sh) g_sh->regions++;
    if (!nested) {
        for (int i = 1; i < tm->n; ++i) new_thread(member_main, new Member{tm, i}, true);
    }
    me->team = tm; me->team_tid = 0; me->ws_idx = 0;
    Task *task = me->task; Group *group = me->group;
    me->task = nullptr; me->group = nullptr;
    sync_point();
    fn(data);
    sync_point();
    hb_release_to(tm->bar_vc);
    for (;;) {
        if (run_task(tm, nullptr, nullptr)) continue;
        if (tm->finished >= tm->n - 1 && tm->running == 0) break;
        block(&tm->finished, "end of an OpenMP parallel region");
    }
    hb_acquire_from(tm->bar_vc);
    unref(me->task);
    me->task = task; me->group = group;
    me->team = tm->parent; me->team_tid = tm->parent_tid; me->ws_idx = tm->parent_ws;
    delete tm;
}
static Team *team_or_solo() {
    T *me = g_cur;
    if (!me->team) { me->team = new Team(); me->team_tid = 0; me->ws_idx = 0; } // orphaned construct: team of one
    return me->team;
}
static WorkShare &cur_ws(bool enter) {
    Team *tm = team_or_solo();
    if (enter) {
        if ((int) tm->ws.size() <= g_cur->ws_idx) tm->ws.resize(g_cur->ws_idx + 1);
        g_cur->ws_idx++;
    }
    return tm->ws[g_cur->ws_idx - 1];
}
static bool loop_next(WorkShare &w, long *is, long *ie) {
    sync_point();
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long n = (w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr);
    long c = w.chunk > 0 ? w.chunk : 1;
    if (w.kind == 3) { long g = n / (team_or_solo()->n); if (g > c) c = g; }
    if (w.kind == 1 && w.chunk <= 0) { int tn = team_or_solo()->n; c = (n + tn - 1) / tn; if (c < 1) c = 1; }
    if (c > n) c = n;
    *is = w.next;
    w.next += c * w.incr;
    *ie = w.next;
    if (w.incr > 0 ? *ie > w.end : *ie < w.end) *ie = w.end;
    return true;
}
static bool uloop_next(WorkShare &w, unsigned long long *is, unsigned long long *ie) {
    sync_point();
    typedef unsigned long long U;
    if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    U inc = w.up ? w.uincr : -w.uincr;
    U n = w.up ? (w.uend - w.unext + inc - 1) / inc : (w.unext - w.uend + inc - 1) / inc;
    U c = w.uchunk > 0 ? w.uchunk : 1;
    if (w.kind == 3) { U g = n / (U) team_or_solo()->n; if (g > c) c = g; }
    if (w.kind == 1 && w.uchunk == 0) { U tn = team_or_solo()->n; c = (n + tn - 1) / tn; if (c < 1) c = 1; }
    if (c > n) c = n;
    *is = w.unext;
    if (c >= n) w.unext = w.uend;
    else w.unext = w.up ? w.unext + c * inc : w.unext - c * inc;
    *ie = w.unext;
    return true;
}
static void init_long(WorkShare &w, int kind, long s, long e, long i, long c) {
    if (w.init) return;
    w.init = true; w.kind = kind; w.next = s; w.end = e; w.incr = i; w.chunk = c; w.start0 = s;
}
static void init_ull(WorkShare &w, int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c) {
    if (w.init) return;
    w.init = true; w.ull = true; w.kind = kind; w.up = up; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c; w.ustart0 = s;
}
} // namespace sim
using namespace sim;

SIM_EXPORT int sim_pthread_mutex_lock(void *);
SIM_EXPORT int sim_pthread_mutex_unlock(void *);

SIM_EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_parallel(fn, data, nt, nullptr); }
SIM_EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_parallel(fn, data, nt, nullptr); return nt ? nt : 1; }
#define PLOOP(NAME, KIND)                                                                                                     \
    SIM_EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { \
        WorkShare w; init_long(w, KIND, s, e, i, c); run_parallel(fn, d, nt, &w); }
PLOOP(static, 1) PLOOP(dynamic, 2) PLOOP(guided, 3) PLOOP(nonmonotonic_dynamic, 2) PLOOP(nonmonotonic_guided, 3)
SIM_EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { WorkShare w; init_long(w, 2, s, e, i, 1); run_parallel(fn, d, nt, &w); }
SIM_EXPORT void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { WorkShare w; init_long(w, 2, s, e, i, 1); run_parallel(fn, d, nt, &w); }
SIM_EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { WorkShare w; init_long(w, 2, s, e, i, 1); run_parallel(fn, d, nt, &w); }
// inside GOMP_parallel_loop_* the threads call *_next directly: the work share was entered for them
static WorkShare &ws_for_next() { if (g_cur->ws_idx == 0) return cur_ws(true); return cur_ws(false); }
#define LOOP(NAME, KIND)                                                                                                       \
    SIM_EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) {                               \
        WorkShare &w = cur_ws(true); init_long(w, KIND, s, e, i, c); return loop_next(w, is, ie); }                              \
    SIM_EXPORT bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(ws_for_next(), is, ie); }                     \
    SIM_EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
        WorkShare &w = cur_ws(true); init_ull(w, KIND, up, s, e, i, c); return uloop_next(w, is, ie); }                          \
    SIM_EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return uloop_next(ws_for_next(), is, ie); }
LOOP(static, 1) LOOP(dynamic, 2) LOOP(guided, 3) LOOP(nonmonotonic_dynamic, 2) LOOP(nonmonotonic_guided, 3)
// the chunks of an ordered loop pass their ordered regions in the order of the iterations
static void order_leave(WorkShare &w) {
    for (auto &o : w.order) if (o.first == g_cur->team_tid) o.second = true;
    while (!w.order.empty() && w.order.front().second) w.order.pop_front();
    wake(&w.order);
}
static bool order_enter(WorkShare &w, bool got) { if (got) w.order.push_back({g_cur->team_tid, false}); return got; }
#define OLOOP(NAME, KIND)                                                                                                      \
    SIM_EXPORT bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) {                       \
        WorkShare &w = cur_ws(true); init_long(w, KIND, s, e, i, c); return order_enter(w, loop_next(w, is, ie)); }              \
    SIM_EXPORT bool GOMP_loop_ordered_##NAME##_next(long *is, long *ie) { WorkShare &w = ws_for_next(); order_leave(w); return order_enter(w, loop_next(w, is, ie)); } \
    SIM_EXPORT bool GOMP_loop_ull_ordered_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
        WorkShare &w = cur_ws(true); init_ull(w, KIND, up, s, e, i, c); return order_enter(w, uloop_next(w, is, ie)); }          \
    SIM_EXPORT bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long *is, unsigned long long *ie) { WorkShare &w = ws_for_next(); order_leave(w); return order_enter(w, uloop_next(w, is, ie)); }
OLOOP(static, 1) OLOOP(dynamic, 2) OLOOP(guided, 3)
#define RLOOP(NAME)                                                                                                            \
    SIM_EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) {                                       \
        WorkShare &w = cur_ws(true); init_long(w, 2, s, e, i, 1); return loop_next(w, is, ie); }                                 \
    SIM_EXPORT bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(ws_for_next(), is, ie); }                     \
    SIM_EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { \
        WorkShare &w = cur_ws(true); init_ull(w, 2, up, s, e, i, 1); return uloop_next(w, is, ie); }                             \
    SIM_EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return uloop_next(ws_for_next(), is, ie); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
SIM_EXPORT void GOMP_loop_end() { barrier_wait(); }
SIM_EXPORT void GOMP_loop_end_nowait() { if (g_active) sync_point(); }
SIM_EXPORT bool GOMP_loop_end_cancel() { barrier_wait(); return false; }
SIM_EXPORT void GOMP_barrier() { barrier_wait(); }
SIM_EXPORT bool GOMP_barrier_cancel() { barrier_wait(); return false; }
SIM_EXPORT bool GOMP_cancel(int, bool) { return false; }
SIM_EXPORT bool GOMP_cancellation_point(int) { return false; }
SIM_EXPORT bool GOMP_single_start() {
    sync_point();
    WorkShare &w = cur_ws(true);
    if (w.single_taken) return false;
    w.single_taken = true;
    return true;
}
SIM_EXPORT void *GOMP_single_copy_start() {
    sync_point();
    WorkShare &w = cur_ws(true);
    if (!w.single_taken) { w.single_taken = true; return nullptr; }
    barrier_wait();
    return cur_ws(false).copyprivate;
}
SIM_EXPORT void GOMP_single_copy_end(void *d) { cur_ws(false).copyprivate = d; barrier_wait(); }
SIM_EXPORT unsigned GOMP_sections_start(unsigned n) { sync_point(); WorkShare &w = cur_ws(true); w.section_count = n; return w.section_next <= w.section_count ? w.section_next++ : 0; }
SIM_EXPORT unsigned GOMP_sections_next() { sync_point(); WorkShare &w = ws_for_next(); return w.section_next <= w.section_count ? w.section_next++ : 0; }
SIM_EXPORT void GOMP_sections_end() { barrier_wait(); }
SIM_EXPORT void GOMP_sections_end_nowait() { sync_point(); }
SIM_EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned count, unsigned) { WorkShare w; w.section_count = count; run_parallel(fn, d, nt, &w); }
SIM_EXPORT void GOMP_ordered_start() {
    if (!g_active || !g_cur->team || g_cur->ws_idx == 0) return;
    sync_point();
    WorkShare *w = &cur_ws(false);
    while (!w->order.empty() && w->order.front().first != g_cur->team_tid) block(&w->order, "OpenMP ordered region");
    hb_acquire_from(w->order_vc);
}
SIM_EXPORT void GOMP_ordered_end() {
    if (!g_active || !g_cur->team || g_cur->ws_idx == 0) return;
    hb_release_to(cur_ws(false).order_vc);
    sync_point();
}
static char g_crit, g_atomic;
SIM_EXPORT void GOMP_critical_start() { sim_pthread_mutex_lock(&g_crit); }
SIM_EXPORT void GOMP_critical_end() { sim_pthread_mutex_unlock(&g_crit); }
SIM_EXPORT void GOMP_critical_name_start(void **p) { sim_pthread_mutex_lock(p); }
SIM_EXPORT void GOMP_critical_name_end(void **p) { sim_pthread_mutex_unlock(p); }
SIM_EXPORT void GOMP_atomic_start() { sim_pthread_mutex_lock(&g_atomic); }
SIM_EXPORT void GOMP_atomic_end() { sim_pthread_mutex_unlock(&g_atomic); }
// a task runs at once on the thread that meets it, or later on whichever thread of the team waits first
static Task *implicit_task() { if (!g_cur->task) g_cur->task = new Task(); return g_cur->task; }
static bool put_off() {
    static uint64_t n;
    uint64_t way = mix(g_cfg.alloc_seed, 77) % 3;
    if (!g_active || !g_cur->team || g_cur->team->n == 1 || way == 0) return false;
    return way == 1 || mix(g_cfg.alloc_seed, 100 + n++) % 2;
}
static void add_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool now, const long *range) {
    if (g_active) sync_point();
    if (!cpy && !range && now) { fn(data); return; }
    if (align < 1) align = 1;
    char *buf = (char *) malloc(size + align);
    if (g_active) { race_clear((uintptr_t) buf, size + align); sync_forget((uintptr_t) buf, size + align); }
    char *arg = (char *) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
    if (cpy) cpy(arg, data);
    else memcpy(arg, data, size);
    if (range) memcpy(arg, range, 2 * sizeof(long));
    if (now || !put_off()) {
        fn(arg);
        free(buf);
        return;
    }
    Team *tm = g_cur->team;
    Task *t = new Task();
    t->fn = fn; t->buf = buf; t->arg = arg;
    t->parent = implicit_task();
    t->parent->refs++;
    t->parent->children++;
    t->group = g_cur->group;
    if (t->group) t->group->left++;
    hb_release_to(t->start);
    tm->tasks.push_back(t);
    wake(&tm->bar_gen);
    wake(&tm->finished);
    sync_point();
}
SIM_EXPORT void GOMP_taskwait() {
    if (!g_active) return;
    sync_point();
    Task *me = g_cur->task;
    if (!me) return;
    while (me->children > 0) if (!run_task(g_cur->team, me, nullptr)) block(&me->children, "OpenMP taskwait");
    hb_acquire_from(me->kids);
}
SIM_EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool yes, unsigned flags, void **, int, void *) {
    bool depends = flags & 8;
    if (depends) GOMP_taskwait();
    add_task(fn, data, cpy, size, align, !yes || depends || (flags & 2), nullptr);
}
SIM_EXPORT void GOMP_taskyield() { if (g_active) sync_point(); }
SIM_EXPORT void GOMP_taskgroup_start() { if (!g_cur || !g_active) return; Group *g = new Group(); g->outer = g_cur->group; g_cur->group = g; }
SIM_EXPORT void GOMP_taskgroup_end() {
    if (!g_cur || !g_active) return;
    sync_point();
    Group *g = g_cur->group;
    if (!g) return;
    while (g->left > 0) if (!run_task(g_cur->team, nullptr, g)) block(&g->left, "end of an OpenMP task group");
    hb_acquire_from(g->vc);
    g_cur->group = g->outer;
    delete g;
}
template <class I> static void task_loop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long parts, I start, I end, I step, bool up) {
    if (up ? start >= end : start <= end) return;
    unsigned long n = up ? ((unsigned long) end - start + step - 1) / step : ((unsigned long) start - end - step - 1) / -step;
    if (flags & (1u << 9)) parts = parts ? n / parts : n; // a grain size
    else if (!parts) parts = g_cur && g_cur->team ? g_cur->team->n : 1;
    parts = std::max(1ul, std::min(parts, n));
    if (!(flags & (1u << 11))) GOMP_taskgroup_start();
    unsigned long done = 0;
    for (unsigned long i = 0; i < parts; ++i) {
        unsigned long to = n * (i + 1) / parts;
        long range[2] = {(long) (start + (I) done * step), to == n ? (long) end : (long) (start + (I) to * step)};
        done = to;
        add_task(fn, data, cpy, size, align, !(flags & (1u << 10)) || (flags & 2), range);
    }
    if (!(flags & (1u << 11))) GOMP_taskgroup_end();
}
SIM_EXPORT void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long parts, int, long start, long end, long step) {
    task_loop<long>(fn, data, cpy, size, align, flags, parts, start, end, step, step > 0);
}
SIM_EXPORT void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long parts, int, unsigned long long start, unsigned long long end, unsigned long long step) {
    task_loop<unsigned long long>(fn, data, cpy, size, align, flags, parts, start, end, step, flags & (1u << 8));
}

SIM_EXPORT int omp_get_thread_num() { return g_cur && g_cur->team ? g_cur->team_tid : 0; }
SIM_EXPORT int omp_get_num_threads() { return g_cur && g_cur->team ? g_cur->team->n : 1; }
SIM_EXPORT int omp_get_max_threads() { return std::max(g_cfg.max_threads, g_set_threads > 0 ? g_set_threads : g_cfg.teams.empty() ? 1 : g_cfg.teams[g_region % g_cfg.teams.size()]); }
SIM_EXPORT int omp_get_num_procs() { return std::max(g_cfg.max_threads, g_cfg.teams.empty() ? 1 : g_cfg.teams[0]); }
SIM_EXPORT void omp_set_num_threads(int n) { g_set_threads = n; }
SIM_EXPORT int omp_in_parallel() { return g_cur && g_cur->team && g_cur->team->n > 1; }
SIM_EXPORT int omp_get_level() { int n = 0; for (Team *t = team(); t; t = t->parent) n++; return n; }
SIM_EXPORT int omp_get_active_level() { int n = 0; for (Team *t = team(); t; t = t->parent) n += t->n > 1; return n; }
SIM_EXPORT void omp_set_dynamic(int) {}
SIM_EXPORT int omp_get_dynamic() { return 0; }
SIM_EXPORT void omp_set_nested(int) {}
SIM_EXPORT int omp_get_thread_limit() { return MAXT - 8; }
SIM_EXPORT double omp_get_wtime() { return now_ns() * 1e-9; }
SIM_EXPORT double omp_get_wtick() { return 1e-9; }
SIM_EXPORT void omp_init_lock(void *l) { sync_forget((uintptr_t) l, 8); }
SIM_EXPORT void omp_destroy_lock(void *) {}
SIM_EXPORT void omp_set_lock(void *l) { sim_pthread_mutex_lock(l); }
SIM_EXPORT void omp_unset_lock(void *l) { sim_pthread_mutex_unlock(l); }
SIM_EXPORT int sim_pthread_mutex_trylock(void *);
SIM_EXPORT int omp_test_lock(void *l) { return sim_pthread_mutex_trylock(l) == 0; }
SIM_EXPORT int omp_get_nested() { return 0; }
SIM_EXPORT void omp_set_max_active_levels(int) {}
SIM_EXPORT int omp_get_max_active_levels() { return 1; }
SIM_EXPORT int omp_in_final() { return 0; }
SIM_EXPORT int omp_get_team_size(int level) { Team *t = team(); for (int l = omp_get_level(); t && l > level; --l) t = t->parent; return level < 0 || level > omp_get_level() ? -1 : level == 0 || !t ? 1 : t->n; }
