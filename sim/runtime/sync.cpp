// Simulated synchronisation objects (pthread mutex/rwlock/cond/once/spin, C++ guards, absl::Mutex).
#include "internal.h"
#include <cerrno>
#include <cstring>
#include <unordered_map>
#include <time.h>
#include <string>

namespace sim {
struct SyncObj {
    T *writer = nullptr;
    int depth = 0;
    std::vector<std::pair<T *, int>> readers;
    VC vc_w{}, vc_r{};
    int once = 0; // 0 none 1 running 2 done
    uint64_t cond_seq = 0;
};
static std::unordered_map<uintptr_t, SyncObj *> &objs() { static auto *m = new std::unordered_map<uintptr_t, SyncObj *>(); return *m; }
static SyncObj *obj(const void *p) {
    auto &m = objs();
    auto it = m.find((uintptr_t) p);
    if (it != m.end()) return it->second;
    auto *o = new SyncObj();
    m[(uintptr_t) p] = o;
    return o;
}
void sync_forget(uintptr_t a, size_t n) {
    auto &m = objs();
    if (m.empty()) return;
    if (n / 8 > m.size() * 2) {
        for (auto it = m.begin(); it != m.end();)
            if (it->first >= a && it->first < a + n) { delete it->second; it = m.erase(it); } else ++it;
        return;
    }
    for (uintptr_t x = (a + 7) & ~7ull; x < a + n; x += 8) {
        auto it = m.find(x);
        if (it != m.end()) { delete it->second; m.erase(it); }
    }
}
bool holds_locks(std::string *what) {
    for (auto &kv : objs()) {
        if (kv.second->writer) { if (what) *what = "exclusive lock held by thread " + std::to_string(kv.second->writer->id); return true; }
        for (auto &r : kv.second->readers) if (r.second > 0) { if (what) *what = "shared lock held by thread " + std::to_string(r.first->id); return true; }
    }
    return false;
}
static int lock_x(const void *p, const char *what, bool trylock, bool errcheck, uint64_t deadline = 0) {
    if (!g_active) return 0;
    sync_point();
    SyncObj *o = obj(p);
    if (trylock && (o->writer || !o->readers.empty())) return EBUSY;
    if (errcheck && o->writer == g_cur) return EDEADLK;
    if (o->writer || !o->readers.empty()) probe(0);
    while (o->writer || !o->readers.empty()) {
        if (deadline) { if (!block_until(p, what, deadline)) return ETIMEDOUT; }
        else block(p, what);
        o = obj(p);
    }
    o->writer = g_cur;
    hb_acquire_from(o->vc_w);
    hb_acquire_from(o->vc_r);
    return 0;
}
static int lock_s(const void *p, bool trylock) {
    if (!g_active) return 0;
    sync_point();
    SyncObj *o = obj(p);
    if (o->writer == g_cur) return trylock ? EBUSY : EDEADLK;
    if (trylock && o->writer) return EBUSY;
    if (o->writer) probe(1);
    while (o->writer) { block(p, "shared lock"); o = obj(p); }
    bool found = false;
    for (auto &r : o->readers) if (r.first == g_cur) { r.second++; found = true; }
    if (!found) o->readers.emplace_back(g_cur, 1);
    hb_acquire_from(o->vc_w);
    return 0;
}
static int unlock(const void *p) {
    if (!g_active) return 0;
    SyncObj *o = obj(p);
    if (o->writer == g_cur) {
        hb_release_to(o->vc_w);
        o->writer = nullptr;
        wake(p);
    } else {
        for (size_t i = 0; i < o->readers.size(); ++i)
            if (o->readers[i].first == g_cur) {
                hb_release_to(o->vc_r);
                if (--o->readers[i].second == 0) o->readers.erase(o->readers.begin() + i);
                if (o->readers.empty()) wake(p);
                sync_point();
                return 0;
            }
        // unlocking a lock that this thread does not hold
        if (o->writer) { hb_release_to(o->vc_w); o->writer = nullptr; wake(p); }
    }
    sync_point();
    return 0;
}
} // namespace sim
using namespace sim;

SIM_EXPORT int sim_pthread_rwlock_rdlock(void *l) { return lock_s(l, false); }
SIM_EXPORT int sim_pthread_rwlock_tryrdlock(void *l) { return lock_s(l, true); }
SIM_EXPORT int sim_pthread_rwlock_wrlock(void *l) { return lock_x(l, "exclusive lock", false, true); }
SIM_EXPORT int sim_pthread_rwlock_trywrlock(void *l) { return lock_x(l, "exclusive lock", true, false); }
SIM_EXPORT int sim_pthread_rwlock_unlock(void *l) { return unlock(l); }
SIM_EXPORT int sim_pthread_rwlock_init(void *l, const void *) { memset(l, 0, sizeof(pthread_rwlock_t)); sync_forget((uintptr_t) l, 8); return 0; }
SIM_EXPORT int sim_pthread_rwlock_destroy(void *l) { sync_forget((uintptr_t) l, 8); return 0; }

static bool recursive(void *m) { return ((pthread_mutex_t *) m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE; }
SIM_EXPORT int sim_pthread_mutex_lock(void *l) {
    if (!g_active) return 0;
    if (recursive(l)) { SyncObj *o = obj(l); if (o->writer == g_cur) { o->depth++; return 0; } }
    return lock_x(l, "mutex", false, false);
}
SIM_EXPORT int sim_pthread_mutex_trylock(void *l) {
    if (!g_active) return 0;
    if (recursive(l)) { SyncObj *o = obj(l); if (o->writer == g_cur) { o->depth++; return 0; } }
    return lock_x(l, "mutex", true, false);
}
SIM_EXPORT int sim_pthread_mutex_unlock(void *l) {
    if (!g_active) return 0;
    if (recursive(l)) { SyncObj *o = obj(l); if (o->writer == g_cur && o->depth > 0) { o->depth--; return 0; } }
    return unlock(l);
}
SIM_EXPORT int sim_pthread_mutex_timedlock(void *l, const struct timespec *) { return lock_x(l, "mutex", false, false, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_pthread_mutex_clocklock(void *l, int, const struct timespec *) { return lock_x(l, "mutex", false, false, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_pthread_mutex_init(void *l, const void *a) {
    memset(l, 0, sizeof(pthread_mutex_t));
    if (a) { int k = 0; pthread_mutexattr_gettype((const pthread_mutexattr_t *) a, &k); ((pthread_mutex_t *) l)->__data.__kind = k; }
    sync_forget((uintptr_t) l, 8);
    return 0;
}
SIM_EXPORT int sim_pthread_mutex_destroy(void *l) { sync_forget((uintptr_t) l, 8); return 0; }
SIM_EXPORT int sim_pthread_spin_init(void *l, int) { sync_forget((uintptr_t) l, 8); return 0; }
SIM_EXPORT int sim_pthread_spin_destroy(void *l) { sync_forget((uintptr_t) l, 8); return 0; }
SIM_EXPORT int sim_pthread_spin_lock(void *l) { return lock_x(l, "spin lock", false, false); }
SIM_EXPORT int sim_pthread_spin_trylock(void *l) { return lock_x(l, "spin lock", true, false); }
SIM_EXPORT int sim_pthread_spin_unlock(void *l) { return unlock(l); }

SIM_EXPORT int sim_pthread_rwlock_timedrdlock(void *l, const struct timespec *) { return lock_s(l, false); }
SIM_EXPORT int sim_pthread_rwlock_timedwrlock(void *l, const struct timespec *) { return lock_x(l, "exclusive lock", false, true, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_pthread_rwlock_clockrdlock(void *l, int, const struct timespec *) { return lock_s(l, false); }
SIM_EXPORT int sim_pthread_rwlock_clockwrlock(void *l, int, const struct timespec *) { return lock_x(l, "exclusive lock", false, true, now_ns() + 1000000000ull); }
// semaphores: the count lives in the object
SIM_EXPORT int sim_sem_init(void *s, int, unsigned n) { sync_forget((uintptr_t) s, 8); *(unsigned *) s = n; return 0; }
SIM_EXPORT int sim_sem_destroy(void *s) { sync_forget((uintptr_t) s, 8); return 0; }
SIM_EXPORT int sim_sem_post(void *s) {
    if (g_active) { sync_point(); hb_release_to(obj(s)->vc_w); }
    ++*(unsigned *) s;
    if (g_active) wake(s);
    return 0;
}
static int sem_take(void *s, bool wait, uint64_t deadline) {
    if (g_active) sync_point();
    while (*(unsigned *) s == 0) {
        if (!wait || !g_active) { errno = EAGAIN; return -1; }
        if (deadline) { if (!block_until(s, "semaphore", deadline)) { errno = ETIMEDOUT; return -1; } }
        else block(s, "semaphore");
    }
    --*(unsigned *) s;
    if (g_active) hb_acquire_from(obj(s)->vc_w);
    return 0;
}
SIM_EXPORT int sim_sem_wait(void *s) { return sem_take(s, true, 0); }
SIM_EXPORT int sim_sem_trywait(void *s) { return sem_take(s, false, 0); }
SIM_EXPORT int sim_sem_timedwait(void *s, const struct timespec *) { return sem_take(s, true, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_sem_getvalue(void *s, int *v) { *v = *(unsigned *) s; return 0; }
// pthread barriers
struct Bar { unsigned n, arrived, gen; };
SIM_EXPORT int sim_pthread_barrier_init(void *b, const void *, unsigned n) { sync_forget((uintptr_t) b, 8); *(Bar *) b = Bar{n, 0, 0}; return n ? 0 : EINVAL; }
SIM_EXPORT int sim_pthread_barrier_destroy(void *b) { sync_forget((uintptr_t) b, 8); return 0; }
SIM_EXPORT int sim_pthread_barrier_wait(void *p) {
    if (!g_active) return PTHREAD_BARRIER_SERIAL_THREAD;
    Bar *b = (Bar *) p;
    sync_point();
    hb_release_to(obj(p)->vc_w);
    unsigned gen = b->gen;
    bool last = ++b->arrived == b->n;
    if (last) { b->arrived = 0; b->gen++; wake(p); }
    else while (b->gen == gen) block(p, "barrier");
    hb_acquire_from(obj(p)->vc_w);
    return last ? PTHREAD_BARRIER_SERIAL_THREAD : 0;
}

static int cond_wait(void *c, void *m, uint64_t deadline) {
    if (!g_active) return 0;
    int rc = 0;
    if (chance_spurious(0.05)) { unlock(m); sync_point(); lock_x(m, "mutex", false, false); return 0; }
    // release and wait atomically: no scheduling point between them
    SyncObj *o = obj(m);
    hb_release_to(o->vc_w);
    o->writer = nullptr;
    wake(m);
    if (deadline) { if (!block_until(c, "condition variable", deadline)) rc = ETIMEDOUT; }
    else block(c, "condition variable");
    SyncObj *co = obj(c);
    hb_acquire_from(co->vc_w);
    lock_x(m, "mutex", false, false);
    return rc;
}
SIM_EXPORT int sim_pthread_cond_init(void *c, const void *) { memset(c, 0, sizeof(pthread_cond_t)); return 0; }
SIM_EXPORT int sim_pthread_cond_destroy(void *) { return 0; }
SIM_EXPORT int sim_pthread_cond_wait(void *c, void *m) { return cond_wait(c, m, 0); }
SIM_EXPORT int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *) { return cond_wait(c, m, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_pthread_cond_clockwait(void *c, void *m, int, const struct timespec *) { return cond_wait(c, m, now_ns() + 1000000000ull); }
SIM_EXPORT int sim_pthread_cond_signal(void *c) { if (g_active) { sync_point(); hb_release_to(obj(c)->vc_w); wake(c); } return 0; } // may wake several: allowed
SIM_EXPORT int sim_pthread_cond_broadcast(void *c) { if (g_active) { sync_point(); hb_release_to(obj(c)->vc_w); wake(c); } return 0; }
// std::condition_variable
SIM_EXPORT void sim_cv_wait(void *cv, void **ul) { cond_wait(cv, ul[0], 0); }
SIM_EXPORT void sim_cv_notify(void *cv) { sim_pthread_cond_broadcast(cv); }
SIM_EXPORT void sim_cv_ctor(void *cv) { memset(cv, 0, 48); }
SIM_EXPORT void sim_cv_dtor(void *) {}
// std::thread
SIM_EXPORT void sim_std_thread_start(void *thr, void **state, void (*)()) {
    struct Run {
        static void go(void *s) {
            void **vt = *(void ***) s;
            ((void (*)(void *)) vt[2])(s); // _State::_M_run
            ((void (*)(void *)) vt[1])(s); // deleting destructor
        }
    };
    void *s = state[0];
    state[0] = nullptr;
    int id = spawn(Run::go, s);
    *(uint64_t *) thr = (uint64_t) id + 1;
}
SIM_EXPORT void sim_std_thread_join(void *thr) { uint64_t id = *(uint64_t *) thr; join((int) id - 1); *(uint64_t *) thr = 0; }
SIM_EXPORT void sim_std_thread_detach(void *thr) { *(uint64_t *) thr = 0; }
SIM_EXPORT unsigned sim_std_thread_hwc() { return g_cfg.teams[0]; }
// futures
SIM_EXPORT bool sim_futex_wait_until(void *, unsigned *addr, unsigned val, bool has_timeout, long, long) {
    sync_point();
    while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
        if (has_timeout) { if (!block_until(addr, "future", now_ns() + 1000000000ull)) return false; }
        else block(addr, "future");
    }
    hb_acquire_from(obj(addr)->vc_w);
    return true;
}
SIM_EXPORT void sim_futex_notify_all(unsigned *addr) { hb_release_to(obj(addr)->vc_w); wake(addr); sync_point(); }

SIM_EXPORT int sim_pthread_once(int *ctl, void (*f)()) {
    if (!g_active) { if (!*ctl) { f(); *ctl = 2; } return 0; }
    sync_point();
    SyncObj *o = obj(ctl);
    while (*ctl == 1) block(ctl, "pthread_once");
    if (*ctl == 2) { hb_acquire_from(o->vc_w); return 0; }
    *ctl = 1;
    try { f(); } catch (...) { *ctl = 0; wake(ctl); throw; }
    hb_release_to(o->vc_w);
    *ctl = 2;
    wake(ctl);
    return 0;
}
// function-local statics
SIM_EXPORT int sim_cxa_guard_acquire(uint8_t *g) {
    if (!g_active) { return g[0] ? 0 : 1; }
    sync_point();
    while (g[1]) block(g, "initialisation of a local static");
    if (g[0]) { hb_acquire_from(obj(g)->vc_w); return 0; }
    g[1] = 1;
    return 1;
}
SIM_EXPORT void sim_cxa_guard_release(uint8_t *g) {
    if (g_active) { hb_release_to(obj(g)->vc_w); }
    g[0] = 1; g[1] = 0;
    if (g_active) { wake(g); sync_point(); }
}
SIM_EXPORT void sim_cxa_guard_abort(uint8_t *g) { g[1] = 0; if (g_active) wake(g); }

// absl::Mutex as used inside libs2 (lazy index construction): same semantics under the scheduler.
// libs2 takes this lock while it holds a spin lock of its own, so a free lock is taken without a scheduling point.
SIM_EXPORT void _ZN4absl7debian35Mutex4LockEv(void *m) {
    if (!g_active) return;
    SyncObj *o = obj(m);
    while (o->writer) { probe(2); block(m, "absl::Mutex"); o = obj(m); }
    o->writer = g_cur;
    hb_acquire_from(o->vc_w);
}
SIM_EXPORT void _ZN4absl7debian35Mutex6UnlockEv(void *m) { if (g_active) unlock(m); }
SIM_EXPORT void _ZN4absl7debian35MutexD1Ev(void *m) { sync_forget((uintptr_t) m, 8); }
SIM_EXPORT void _ZN4absl7debian35MutexD2Ev(void *m) { sync_forget((uintptr_t) m, 8); }

// ------------------------------------------------------------------ atomics' happens-before
namespace sim {
VC *atomic_vc(uintptr_t a) { return &obj((void *) a)->vc_w; }
}

// objcopy wants one target per renamed symbol
SIM_EXPORT void sim_cv_notify_2(void *a) { sim_cv_notify(a); }
SIM_EXPORT void sim_cv_ctor_2(void *a) { sim_cv_ctor(a); }
SIM_EXPORT void sim_cv_dtor_2(void *a) { sim_cv_dtor(a); }
