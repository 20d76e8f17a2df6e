// Scheduler: baton passing between real threads, seeded policies, recorded decisions, clock.
#include "internal.h"
#include <execinfo.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>

namespace sim {
Shared *g_sh = nullptr;
Config g_cfg;
T *g_cur = nullptr;
bool g_active = false;
int g_live = 0;
bool g_track = false;
static T *g_threads[MAXT];
static int g_nthreads = 0;
static Rng g_rng(1), g_clock_rng(1), g_spur_rng(1);
static uint64_t g_steps_base = 0, g_seq = 0, g_now = 0;
static std::vector<uint64_t> g_pct_points;
static size_t g_pct_pos;
static uint64_t g_pct_low;
static std::vector<std::vector<Switch>> g_sw_by_tid;

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
uint64_t Rng::geometric(double p) {
    if (p <= 0) return ~0ull >> 2;
    double u = unit();
    if (u <= 0) u = 1e-18;
    double v = std::log(u) / std::log1p(-std::min(p, 0.999999));
    if (v > 1e15) v = 1e15;
    return 1 + (uint64_t) v;
}

Shared *make_shared_block() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = (Shared *) p;
    return g_sh;
}

static void finish_stats();
void vviolation(const char *kind, const char *fmt, va_list ap) {
    g_active = false;
    if (g_sh && !g_sh->violation) {
        finish_stats();
        vsnprintf(g_sh->text, sizeof g_sh->text, fmt, ap);
        snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
        g_sh->violation = 1;
    } else if (!g_sh) {
        fprintf(stderr, "VIOLATION %s: ", kind); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    }
    syscall(SYS_exit_group, 66);
    __builtin_unreachable();
}
void violation(const char *kind, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vviolation(kind, fmt, ap);
    __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
    g_active = false;
    va_list ap; va_start(ap, fmt);
    if (g_sh && !g_sh->violation) {
        vsnprintf(g_sh->text, sizeof g_sh->text, fmt, ap);
        snprintf(g_sh->kind, sizeof g_sh->kind, "harness-error");
        g_sh->violation = 2;
    } else { vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); }
    syscall(SYS_exit_group, 67);
    __builtin_unreachable();
}

void addr_name(uintptr_t pc, char *buf, size_t n) {
    Dl_info di;
    if (dladdr((void *) pc, &di) && di.dli_fname) {
        const char *b = strrchr(di.dli_fname, '/');
        snprintf(buf, n, "%s+0x%lx", b ? b + 1 : di.dli_fname, (unsigned long) (pc - (uintptr_t) di.dli_fbase));
    } else snprintf(buf, n, "0x%lx", (unsigned long) pc);
}

// ------------------------------------------------------------------ futex baton
static void fwait(std::atomic<int> &a) {
    while (a.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int *) &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_release);
}
static void fwake(std::atomic<int> &a) {
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, (int *) &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

uint64_t steps() { return g_steps_base + (g_cur ? g_cur->ls - g_cur->ls_in : 0); }
uint64_t seq() { return ++g_seq; }
int current_tid() { return g_cur ? g_cur->id : -1; }
bool active() { return g_active; }
void inter_fold(uint64_t v) { if (g_sh) g_sh->inter_hash = mix(g_sh->inter_hash, v); }
static void trace_fold(uint64_t v) { if (g_sh) g_sh->trace_hash = mix(g_sh->trace_hash, v); }
void observe(uint64_t v) { if (g_sh) g_sh->obs_hash = mix(g_sh->obs_hash, v); }
void observe_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    observe(h);
}
void probe(int i, uint64_t n) { if (g_sh) g_sh->probes[i] += n; }

static void finish_stats() {
    if (!g_sh) return;
    g_sh->most_steps = std::max(g_sh->most_steps, steps());
    g_sh->steps += steps();
    g_steps_base = 0; if (g_cur) g_cur->ls_in = g_cur->ls;
    g_sh->sim_time_ns += g_now; g_now = 0;
}

// Default rule of the scheduler (not recorded): a thread that ran FAIR steps in a row hands over.
constexpr uint64_t FAIR = 200000;
static inline bool fair_hit(T *t) { return t->ls > t->ls_in && (t->ls - t->ls_in) % FAIR == 0; }
static void set_trig(T *t) {
    uint64_t d = FAIR - (t->ls - t->ls_in) % FAIR; // periodic slow point for fairness and the step budget
    if (g_live > 1) {
        if (g_cfg.policy == POL_RANDOM && g_cfg.p_mem > 0) d = std::min(d, g_rng.geometric(g_cfg.p_mem));
        else if (g_cfg.policy == POL_PCT) {
            if (g_pct_pos < g_pct_points.size()) {
                uint64_t s = steps(), p = g_pct_points[g_pct_pos];
                d = std::min(d, p > s ? p - s : 1);
            }
        }
    }
    uint64_t trig = t->ls + d;
    if (g_cfg.policy == POL_REPLAY && t->sw) {
        while (t->sw_pos < t->sw->size() && (*t->sw)[t->sw_pos].ls <= t->ls) t->sw_pos++;
        if (t->sw_pos < t->sw->size()) trig = std::min(trig, (*t->sw)[t->sw_pos].ls);
    }
    t->trig = trig;
}

static void record(T *me, T *to) {
    if (g_sh && g_sh->n_sw < sizeof g_sh->sw / sizeof g_sh->sw[0]) {
        g_sh->sw[g_sh->n_sw++] = Switch{me->id, me->ls, to->id};
    }
}

static void transfer(T *me, T *to, bool wait_self) {
    if (to == me) { set_trig(me); return; }
    g_steps_base += me->ls - me->ls_in;
    me->ls_in = me->ls;
    to->ls_in = to->ls;
    uint64_t h = ((uint64_t) me->id << 48) ^ ((uint64_t) to->id << 40) ^ me->ls;
    inter_fold(h); trace_fold(h);
    if (g_sh) g_sh->switches++;
    if (g_sh) g_sh->beat++;
    g_cur = to;
    set_trig(to);
    fwake(to->go);
    if (wait_self) fwait(me->go);
}

static T *default_next(T *me) { // next runnable after me, cyclic
    for (int k = 1; k <= g_nthreads; ++k) {
        T *t = g_threads[(me->id + k) % g_nthreads];
        if (t->state == ST_RUN && t != me) return t;
    }
    return nullptr;
}
static int runnable(T **out, T *except) {
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i]->state == ST_RUN && g_threads[i] != except) out[n++] = g_threads[i];
    return n;
}
static T *best_prio(T *me) {
    T *b = nullptr;
    for (int i = 0; i < g_nthreads; ++i) {
        T *t = g_threads[i];
        if (t->state == ST_RUN && (!b || t->prio > b->prio)) b = t;
    }
    (void) me;
    return b;
}

static void dump_blocked(std::string &s) {
    char b[256];
    for (int i = 0; i < g_nthreads; ++i) {
        T *t = g_threads[i];
        if (t->state == ST_BLOCKED) {
            snprintf(b, sizeof b, " [thread %d waits for %s]", t->id, t->block_what ? t->block_what : "?");
            s += b;
        }
    }
}

// the current thread cannot go on (blocked or finished): choose somebody else
static void forced_switch(T *me, bool wait_self) {
    for (;;) {
        T *cand[MAXT];
        int n = runnable(cand, nullptr);
        if (n == 0) {
            // discrete-event time: jump to the next timer
            uint64_t best = ~0ull;
            for (int i = 0; i < g_nthreads; ++i)
                if (g_threads[i]->state == ST_BLOCKED && g_threads[i]->wake_at) best = std::min(best, g_threads[i]->wake_at);
            if (best != ~0ull) {
                if (best > g_now) g_now = best;
                for (int i = 0; i < g_nthreads; ++i) {
                    T *t = g_threads[i];
                    if (t->state == ST_BLOCKED && t->wake_at && t->wake_at <= g_now) {
                        t->timed_out = true; t->wake_at = 0; t->block_on = nullptr; t->state = ST_RUN;
                    }
                }
                continue;
            }
            std::string s;
            dump_blocked(s);
            violation("deadlock", "all threads are blocked:%s", s.c_str());
        }
        T *def = nullptr;
        if (me->state == ST_RUN) def = me; else def = default_next(me);
        T *to = def;
        me->ls++;
        if (g_cfg.policy == POL_RANDOM) to = cand[g_rng.below(n)];
        else if (g_cfg.policy == POL_PCT) to = best_prio(me);
        else if (g_cfg.policy == POL_REPLAY && me->sw) {
            for (size_t k = me->sw_pos > 2 ? me->sw_pos - 2 : 0; k < me->sw->size() && (*me->sw)[k].ls <= me->ls; ++k)
                if ((*me->sw)[k].ls == me->ls) {
                    int w = (*me->sw)[k].to;
                    if (w < g_nthreads && g_threads[w]->state == ST_RUN) to = g_threads[w];
                }
        }
        if (to != def) record(me, to);
        if (g_sh) g_sh->forced++;
        transfer(me, to, wait_self);
        return;
    }
}

static uint64_t g_preempted;
constexpr uint64_t PREEMPTIONS = 150000; // of one simulated process; a control transfer is what costs real time
static void voluntary(T *me, T *to) {
    if (!to || to == me || ++g_preempted > PREEMPTIONS) { set_trig(me); return; }
    record(me, to);
    transfer(me, to, true);
}

static bool g_give_way;
void hand_over_soon(uint64_t d) {
    T *t = g_cur;
    if (g_live > 1 && t->trig > t->ls + d) { t->trig = t->ls + d; g_give_way = true; }
}
void slow_point(bool sync) {
    if (!g_active) { if (g_cur) g_cur->trig = ~0ull; return; }
    T *me = g_cur;
    if (g_sh) g_sh->beat++;
    if (steps() > g_cfg.max_steps)
        violation("no-progress", "the operation did not finish within %lu simulated steps", (unsigned long) g_cfg.max_steps);
    if (g_live <= 1) { set_trig(me); return; }
    if (fair_hit(me)) {
        if (g_cfg.policy == POL_PCT) me->prio = g_pct_low--;
        T *d = default_next(me);
        transfer(me, d ? d : me, true);
        return;
    }
    if (g_cfg.policy == POL_REPLAY) {
        if (me->sw) {
            size_t k = me->sw_pos;
            if (k < me->sw->size() && (*me->sw)[k].ls == me->ls) {
                int w = (*me->sw)[k].to;
                me->sw_pos++;
                if (w < g_nthreads && g_threads[w]->state == ST_RUN && w != me->id) {
                    record(me, g_threads[w]);
                    transfer(me, g_threads[w], true);
                    return;
                }
            }
        }
    } else if (g_cfg.policy == POL_RANDOM) {
        T *cand[MAXT];
        int n = runnable(cand, me);
        if (n > 0) { voluntary(me, cand[g_rng.below(n)]); return; }
    } else if (g_cfg.policy == POL_PCT) {
        uint64_t s = steps();
        bool hit = false;
        while (g_pct_pos < g_pct_points.size() && g_pct_points[g_pct_pos] <= s) { g_pct_pos++; hit = true; }
        if (g_give_way) { hit = true; g_give_way = false; }
        if (hit) me->prio = g_pct_low--;
        voluntary(me, best_prio(me));
        return;
    }
    (void) sync;
    set_trig(me);
}

void sync_point() {
    if (!g_active) return;
    T *me = g_cur;
    me->ls++;
    if (g_cfg.clock_mode == 0) g_now += 50;
    if (g_live > 1) {
        if (g_cfg.policy == POL_RANDOM) {
            if (me->ls >= me->trig || g_rng.chance(g_cfg.p_sync)) { slow_point(true); return; }
            return;
        }
        if (g_cfg.policy == POL_PCT) { slow_point(true); return; }
    }
    if (me->ls >= me->trig) slow_point(false);
}
void yield_point() { sync_point(); }

void wake(const void *on) {
    for (int i = 0; i < g_nthreads; ++i) {
        T *t = g_threads[i];
        if (t->state == ST_BLOCKED && t->block_on == on) { t->state = ST_RUN; t->block_on = nullptr; t->wake_at = 0; }
    }
}
void block(const void *on, const char *what) {
    T *me = g_cur;
    if (!g_active) violation("deadlock", "blocked outside the simulation on %s", what);
    me->state = ST_BLOCKED; me->block_on = on; me->block_what = what; me->wake_at = 0; me->timed_out = false;
    forced_switch(me, true);
}
bool block_until(const void *on, const char *what, uint64_t t) {
    T *me = g_cur;
    me->state = ST_BLOCKED; me->block_on = on; me->block_what = what; me->wake_at = t ? t : 1; me->timed_out = false;
    // timers may also fire while others run: let chance decide, so timeouts race with wake-ups
    forced_switch(me, true);
    return !me->timed_out;
}
bool chance_spurious(double p) { bool r = g_spur_rng.chance(p); if (r && g_sh) g_sh->fault_fired[FK_SPURIOUS]++; return r; }

void tick() { g_cur->vc.c[g_cur->id]++; }
void hb_release_to(VC &vc) { vc.join(g_cur->vc); tick(); }
void hb_acquire_from(const VC &vc) { g_cur->vc.join(vc); }

// ------------------------------------------------------------------ threads
static void *stack_for(int slot) {
    uintptr_t a = STACK_BASE + (uintptr_t) slot * (STACK_SIZE + (1u << 20));
    void *p = mmap((void *) a, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void *) a) harness_error("cannot place a simulated stack");
    return p;
}
static void run_tls(T *t) {
    while (t->tls && !t->tls->empty()) {
        auto d = t->tls->back();
        t->tls->pop_back();
        d.f(d.a);
    }
}
static void *trampoline(void *p) {
    T *t = (T *) p;
    fwait(t->go);
    for (;;) {
        t->fn(t->arg);
        if (t->pool) {
            t->state = ST_IDLE;
            g_live--;
            g_track = g_live > 1;
            forced_switch(t, true); // comes back when given a new region
            continue;
        }
        run_tls(t);
        sync_point();
        t->state = ST_DONE;
        g_live--;
        tick();
        g_track = g_live > 1;
        wake(t);
        forced_switch(t, false);
        return nullptr;
    }
}
int pool_room() {
    int n = MAXT - g_nthreads;
    for (int i = 0; i < g_nthreads; ++i) if (g_threads[i]->state == ST_IDLE && g_threads[i]->pool) n++;
    return n;
}
T *new_thread(void (*fn)(void *), void *arg, bool pool) {
    T *t = nullptr;
    if (pool)
        for (int i = 0; i < g_nthreads; ++i)
            if (g_threads[i]->state == ST_IDLE && g_threads[i]->pool) { t = g_threads[i]; break; }
    bool fresh = !t;
    if (fresh) {
        if (g_nthreads >= MAXT) harness_error("too many simulated threads");
        t = (T *) calloc(1, sizeof(T));
        t->id = g_nthreads;
        new (&t->go) std::atomic<int>(0);
        t->pool = pool;
        t->tls = new std::vector<T::Dtor>();
        g_threads[g_nthreads++] = t;
        if (g_cfg.policy == POL_REPLAY && t->id < (int) g_sw_by_tid.size()) t->sw = &g_sw_by_tid[t->id];
        t->trig = ~0ull;
    }
    t->fn = fn; t->arg = arg;
    t->prio = 1000000 + g_rng.below(1000000000);
    t->vc.join(g_cur->vc);
    t->vc.c[t->id]++;
    tick();
    t->state = ST_RUN;
    t->team = nullptr; t->ws_idx = 0; t->team_tid = 0; t->task = nullptr; t->group = nullptr;
    g_live++;
    g_track = g_live > 1;
    if (g_sh) g_sh->threads = std::max<uint64_t>(g_sh->threads, g_live);
    if (fresh) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stack_for(t->id + 1), STACK_SIZE);
        t->has_pthread = true;
        if (pthread_create(&t->pt, &at, trampoline, t) != 0) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
    }
    set_trig(g_cur);
    return t;
}

int spawn(void (*fn)(void *), void *arg) { T *t = new_thread(fn, arg, false); sync_point(); return t->id; }
void join(int tid) {
    T *t = g_threads[tid];
    sync_point();
    while (t->state != ST_DONE) block(t, "thread exit (join)");
    hb_acquire_from(t->vc);
}
namespace {
struct Lent { void (*fn)(void *); void *arg; VC vc; bool done; };
}
static void lent_main(void *p) {
    auto *l = (Lent *) p;
    l->fn(l->arg);
    sync_point();
    l->vc = g_cur->vc;
    tick();
    l->done = true;
    wake(l);
}
void run_on_pool(void (*fn)(void *), void *const *args, int n) {
    std::vector<Lent> ls(n);
    for (int i = 0; i < n; ++i) { ls[i] = {fn, args[i], g_cur->vc, false}; new_thread(lent_main, &ls[i], true); }
    sync_point();
    for (auto &l : ls) {
        while (!l.done) block(&l, "the end of a client");
        hb_acquire_from(l.vc);
    }
}

// ------------------------------------------------------------------ life cycle
static void on_signal(int sig, siginfo_t *si, void *uc) {
    (void) uc;
    g_active = false;
    if (getenv("SIM_BT")) { void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); }
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
    if (g_sh && !g_sh->violation) {
        finish_stats();
        snprintf(g_sh->kind, sizeof g_sh->kind, "process-death");
        snprintf(g_sh->text, sizeof g_sh->text, "the process was killed by %s%s (simulated thread %d)", n,
                 sig == SIGABRT ? " (uncaught exception, failed assertion or abort)" : "", g_cur ? g_cur->id : -1);
        (void) si;
        g_sh->violation = 1;
    }
    syscall(SYS_exit_group, 66);
}
static char g_altstack[65536];

void configure(const Config &c) {
    g_cfg = c;
    g_rng = Rng(mix(c.sched_seed, 11));
    g_clock_rng = Rng(mix(c.clock_seed, 12));
    g_spur_rng = Rng(mix(c.sched_seed, 13));
    g_now = 0;
    g_pct_points.clear();
    if (c.policy == POL_PCT)
        for (int i = 0; i < c.pct_depth; ++i) g_pct_points.push_back(g_rng.below(c.pct_len) + 1);
    std::sort(g_pct_points.begin(), g_pct_points.end());
    g_pct_pos = 0;
    g_pct_low = 900000;
    steer_reset(mix(c.sched_seed, 14));
    g_sw_by_tid.assign(MAXT, {});
    for (auto &s : c.switches) if (s.tid < MAXT) g_sw_by_tid[s.tid].push_back(s);
    for (auto &v : g_sw_by_tid) std::stable_sort(v.begin(), v.end(), [](const Switch &a, const Switch &b) { return a.ls < b.ls; });
}

void begin() {
    arena_init();
    if (!g_threads[0]) {
        T *t = (T *) calloc(1, sizeof(T));
        t->id = 0;
        new (&t->go) std::atomic<int>(0);
        t->tls = new std::vector<T::Dtor>();
        g_threads[0] = t;
        g_nthreads = 1;
        stack_t ss{};
        ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    }
    T *t = g_threads[0];
    t->state = ST_RUN;
    t->prio = 1000000 + g_rng.below(1000000000);
    if (g_cfg.policy == POL_REPLAY) t->sw = &g_sw_by_tid[0]; else t->sw = nullptr;
    t->sw_pos = 0;
    g_preempted = 0;
    g_cur = t;
    g_live = 1;
    g_track = false;
    t->vc.c[0]++;
    t->ls_in = t->ls;
    g_active = true;
    set_trig(t);
    rt_io_begin();
}
void end() {
    if (!g_active) return;
    finish_stats();
    g_active = false;
}

struct StackRun { void (*fn)(void *); void *arg; };
static void *stack_tramp(void *p) { auto *r = (StackRun *) p; r->fn(r->arg); return nullptr; }
void run_on_sim_stack(void (*fn)(void *), void *arg) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stack_for(0), STACK_SIZE);
    StackRun r{fn, arg};
    pthread_t pt;
    if (pthread_create(&pt, &at, stack_tramp, &r) != 0) harness_error("pthread_create failed");
    pthread_join(pt, nullptr);
    munmap((void *) STACK_BASE, STACK_SIZE);
}

// ------------------------------------------------------------------ clock
uint64_t now_ns() {
    if (g_cfg.clock_mode == 0) g_now += 1000 + g_clock_rng.below(2000000);
    else if (g_cfg.clock_mode == 1) g_now += g_clock_rng.chance(0.2) ? g_clock_rng.below((g_clock_rng.chance(0.1) ? 2000000ull : 7200ull) * 1000000000ull) : g_clock_rng.below(1000);
    return g_now;
}
void advance_ns(uint64_t d) { g_now += d; }
static int64_t wall_ns() {
    int64_t n = (int64_t) now_ns() + 1600000000ll * 1000000000ll;
    if (g_cfg.clock_mode == 1 && g_clock_rng.chance(0.3)) {
        n -= (int64_t) g_clock_rng.below(86400ull * 1000000000ull); // the wall clock is set back
        if (g_sh) g_sh->fault_fired[FK_CLOCK_JUMP]++;
    }
    return n;
}
} // namespace sim
using namespace sim;

SIM_EXPORT int64_t sim_system_now() { return g_active ? wall_ns() : 1600000000ll * 1000000000ll; }
SIM_EXPORT int64_t sim_steady_now() { return g_active ? (int64_t) now_ns() + 1000000000ll : 1000000000ll; }
SIM_EXPORT time_t sim_time(time_t *t) { time_t v = sim_system_now() / 1000000000ll; if (t) *t = v; return v; }
SIM_EXPORT int sim_clock_gettime(int id, struct timespec *ts) {
    int64_t n = (id == 0) ? sim_system_now() : sim_steady_now();
    ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll;
    return 0;
}
SIM_EXPORT int sim_gettimeofday(struct timeval *tv, void *) {
    int64_t n = sim_system_now();
    tv->tv_sec = n / 1000000000ll; tv->tv_usec = (n % 1000000000ll) / 1000;
    return 0;
}
SIM_EXPORT int sim_sched_yield() {
    if (!g_active) return 0;
    T *me = g_cur;
    me->ls++;
    if (g_live > 1) {
        T *d = default_next(me);
        if (d) transfer(me, d, true);
    }
    return 0;
}
SIM_EXPORT int sim_nanosleep(const struct timespec *r, struct timespec *) {
    if (!g_active) return 0;
    uint64_t d = (uint64_t) r->tv_sec * 1000000000ull + r->tv_nsec;
    block_until(&g_now, "sleep", g_now + d + 1);
    return 0;
}
SIM_EXPORT int sim_clock_nanosleep(int, int flags, const struct timespec *r, struct timespec *) {
    if (flags) { struct timespec z{0, 1000}; return sim_nanosleep(&z, nullptr); }
    return sim_nanosleep(r, nullptr);
}
SIM_EXPORT int sim_usleep(unsigned us) { struct timespec z{us / 1000000, (long) (us % 1000000) * 1000}; return sim_nanosleep(&z, nullptr); }
SIM_EXPORT unsigned sim_sleep(unsigned s) { struct timespec z{(time_t) s, 0}; sim_nanosleep(&z, nullptr); return 0; }
SIM_EXPORT unsigned sim_rd_getval(void *) { return g_active ? (unsigned) mix(g_cfg.clock_seed, seq()) : 4; }
// rand(): one generator for the whole process, seeded 1 until srand()
static uint64_t g_rand_state = 1;
SIM_EXPORT int sim_rand() { g_rand_state = mix(g_rand_state, 0x5eed); return (int) (g_rand_state & 0x7fffffff); }
SIM_EXPORT void sim_seed_rand(unsigned s) { g_rand_state = s; }
SIM_EXPORT int sim_getpid() { return 4242; }

// ------------------------------------------------------------------ pthread-like threads
namespace {
struct PStart { void *(*f)(void *); void *a; };
void pstart(void *p) { PStart s = *(PStart *) p; free(p); s.f(s.a); }
struct CState { virtual ~CState(); virtual void run() = 0; };
}
SIM_EXPORT int sim_pthread_create(pthread_t *out, const pthread_attr_t *, void *(*f)(void *), void *a) {
    if (!g_active) harness_error("thread created outside the simulation");
    auto *s = (PStart *) malloc(sizeof(PStart)); s->f = f; s->a = a;
    T *t = new_thread(pstart, s, false);
    *out = (pthread_t) (t->id + 1);
    sync_point();
    return 0;
}
SIM_EXPORT int sim_pthread_join(pthread_t p, void **) { join((int) p - 1); return 0; }
SIM_EXPORT int sim_pthread_detach(pthread_t) { return 0; }
SIM_EXPORT pthread_t sim_pthread_self() { return g_active ? (pthread_t) (g_cur->id + 1) : (pthread_t) 1; }
SIM_EXPORT int sim_cxa_thread_atexit(void (*f)(void *), void *a, void *) {
    if (g_cur && g_cur->tls) g_cur->tls->push_back({f, a});
    return 0;
}
