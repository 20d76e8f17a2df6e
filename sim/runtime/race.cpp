// ThreadSanitizer ABI implemented on the simulator: scheduling points, vector-clock race detection, bounds.
#include "internal.h"
#include <cstdarg>
#include <cstdio>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/mman.h>
#include <unordered_map>

namespace sim {
VC *atomic_vc(uintptr_t a);

// epoch: tid(7) | atomic(1) | clock(24)
static inline uint32_t mk(int tid, bool atomic, uint32_t clk) { return ((uint32_t) tid << 25) | ((uint32_t) atomic << 24) | (clk & 0xffffffu); }
static inline int e_tid(uint32_t e) { return e >> 25; }
static inline bool e_atomic(uint32_t e) { return (e >> 24) & 1; }
static inline uint32_t e_clk(uint32_t e) { return e & 0xffffffu; }

struct Page {
    uint32_t w[4096], r0[4096], r1[4096];
    uintptr_t wpc[512], rpc[512];
};
static std::unordered_map<uintptr_t, Page *> *g_pages;
static uintptr_t g_last_page = 0;
static Page *g_last = nullptr;
static inline Page *page_of(uintptr_t a, bool create) {
    uintptr_t k = a >> 12;
    if (k == g_last_page && g_last) return g_last;
    if (!g_pages) g_pages = new std::unordered_map<uintptr_t, Page *>();
    auto it = g_pages->find(k);
    if (it != g_pages->end()) { g_last_page = k; g_last = it->second; return it->second; }
    if (!create) return nullptr;
    Page *p = (Page *) mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    (*g_pages)[k] = p;
    g_last_page = k; g_last = p;
    return p;
}
void race_clear(uintptr_t a, size_t n) {
    if (!g_pages) return;
    while (n) {
        size_t off = a & 4095, m = std::min(n, 4096 - off);
        if (Page *p = page_of(a, false)) {
            memset(p->w + off, 0, m * 4); memset(p->r0 + off, 0, m * 4); memset(p->r1 + off, 0, m * 4);
        }
        a += m; n -= m;
    }
}
static const char *region(uintptr_t a) {
    if ((a >> 40) == 0x20) return a >= STACK_BASE ? "stack variable" : "heap object";
    if ((a >> 40) == 0x21) return "mapped file";
    return "global or foreign memory";
}
// Steering: code whose accesses raced in this run hands over to another thread right after such an access, often.
static uintptr_t g_racy[1024];
static int g_nracy;
static Rng g_steer(1);
static bool racy_slot(uintptr_t pc, bool add) {
    size_t h = (pc * 0x9E3779B97F4A7C15ull) >> 54;
    for (size_t k = 0; k < 1024; ++k) {
        uintptr_t &s = g_racy[(h + k) & 1023];
        if (s == pc) return true;
        if (!s) { if (add && g_nracy < 900) { s = pc; g_nracy++; } return false; }
    }
    return false;
}
void steer_reset(uint64_t seed) { memset(g_racy, 0, sizeof g_racy); g_nracy = 0; g_steer = Rng(seed); }
static void steer_after(void *pc) {
    if (!g_nracy || g_cfg.policy == POL_REPLAY || g_cfg.policy == POL_NONE || !g_track) return;
    if (!racy_slot((uintptr_t) pc, false) || !g_steer.chance(0.4)) return;
    hand_over_soon(g_steer.chance(0.7) ? 1 : 1 + g_steer.below(12));
}
static void report_race(uintptr_t a, bool w, int other, bool ow, void *pc, uintptr_t opc) {
    if (g_cfg.races == 2) { racy_slot((uintptr_t) pc, true); racy_slot(opc, true); return; }
    char p1[160], p2[160];
    addr_name((uintptr_t) pc, p1, sizeof p1);
    addr_name(opc, p2, sizeof p2);
    violation("data-race", "unsynchronised %s of thread %d at %s conflicts with the %s of thread %d at %s (%s)", w ? "write" : "read",
              g_cur->id, p1, ow ? "write" : "read", other, p2, region(a));
}
static inline bool hb(uint32_t e) { return e_clk(e) <= (g_cur->vc.c[e_tid(e)] & 0xffffffu); }

void race_access(uintptr_t a, size_t n, bool w, bool atomic, void *pc) {
    while (n) {
        Page *p = page_of(a, true);
        size_t off = a & 4095, m = std::min(n, 4096 - off);
        const uint32_t me = mk(g_cur->id, atomic, g_cur->vc.c[g_cur->id]);
        for (size_t i = off; i < off + m; ++i) {
            uint32_t we = p->w[i];
            if (w) {
                if (we == me) { if (!p->r0[i]) continue; }
                if (we && we != me && e_tid(we) != g_cur->id && !(atomic && e_atomic(we)) && !hb(we)) report_race(a, true, e_tid(we), true, pc, p->wpc[i >> 3]);
                for (uint32_t re : {p->r0[i], p->r1[i]})
                    if (re && e_tid(re) != g_cur->id && !(atomic && e_atomic(re)) && !hb(re)) report_race(a, true, e_tid(re), false, pc, p->rpc[i >> 3]);
                p->w[i] = me; p->r0[i] = 0; p->r1[i] = 0;
            } else {
                if (p->r0[i] == me) continue;
                if (we && e_tid(we) != g_cur->id && !(atomic && e_atomic(we)) && !hb(we)) report_race(a, false, e_tid(we), true, pc, p->wpc[i >> 3]);
                if (!p->r0[i] || e_tid(p->r0[i]) == g_cur->id || hb(p->r0[i])) p->r0[i] = me;
                else p->r1[i] = me;
            }
        }
        if (w) for (size_t i = off >> 3; i <= (off + m - 1) >> 3; ++i) p->wpc[i] = (uintptr_t) pc;
        else for (size_t i = off >> 3; i <= (off + m - 1) >> 3; ++i) p->rpc[i] = (uintptr_t) pc;
        a += m; n -= m;
    }
}

void access(uintptr_t a, size_t n, bool w, void *pc) {
    if (!g_active) return;
    mem_point();
    if (!g_active) return;
    if ((a >> 41) == 0x10) special_access(a, n, w, pc);
    if (g_track && g_cfg.races) {
        race_access(a, n, w, false, pc);
        if (g_cfg.races == 2) steer_after(pc);
    }
}
void access_bulk(uintptr_t a, size_t n, bool w, void *pc) { if (n) access(a, n, w, pc); }

static inline void atomic_pre(uintptr_t a, size_t n, bool w, int mo, bool acq, bool rel, void *pc) {
    if (!g_active) return;
    sync_point();
    if ((a >> 41) == 0x10) special_access(a, n, w, pc);
    if (g_live > 1 || w) {
        if (rel && mo >= __ATOMIC_RELEASE) { // release, acq_rel, seq_cst
            VC *v = atomic_vc(a);
            hb_release_to(*v);
        }
        if (acq && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL)) hb_acquire_from(*atomic_vc(a));
    }
    if (g_track && g_cfg.races) race_access(a, n, w, true, pc);
}
} // namespace sim
using namespace sim;
extern "C" int sim_rand();
extern "C" void sim_seed_rand(unsigned);
#define PC __builtin_return_address(0)

SIM_EXPORT void __tsan_init() {}
SIM_EXPORT void __tsan_func_entry(void *) {}
SIM_EXPORT void __tsan_func_exit() {}
#define RW(N)                                                                                      \
    SIM_EXPORT void __tsan_read##N(void *p) { access((uintptr_t) p, N, false, PC); }                \
    SIM_EXPORT void __tsan_write##N(void *p) { access((uintptr_t) p, N, true, PC); }                \
    SIM_EXPORT void __tsan_read_write##N(void *p) { access((uintptr_t) p, N, false, PC); access((uintptr_t) p, N, true, PC); } \
    SIM_EXPORT void __tsan_unaligned_read##N(void *p) { access((uintptr_t) p, N, false, PC); }      \
    SIM_EXPORT void __tsan_unaligned_write##N(void *p) { access((uintptr_t) p, N, true, PC); }      \
    SIM_EXPORT void __tsan_volatile_read##N(void *p) { access((uintptr_t) p, N, false, PC); }       \
    SIM_EXPORT void __tsan_volatile_write##N(void *p) { access((uintptr_t) p, N, true, PC); }       \
    SIM_EXPORT void __tsan_unaligned_volatile_read##N(void *p) { access((uintptr_t) p, N, false, PC); } \
    SIM_EXPORT void __tsan_unaligned_volatile_write##N(void *p) { access((uintptr_t) p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_EXPORT void __tsan_read_range(void *p, unsigned long n) { access_bulk((uintptr_t) p, n, false, PC); }
SIM_EXPORT void __tsan_write_range(void *p, unsigned long n) { access_bulk((uintptr_t) p, n, true, PC); }
SIM_EXPORT void __tsan_vptr_update(void **p, void *) { access((uintptr_t) p, 8, true, PC); }
SIM_EXPORT void __tsan_vptr_read(void **p) { access((uintptr_t) p, 8, false, PC); }

#define ATOM(B, TY)                                                                                                   \
    SIM_EXPORT TY __tsan_atomic##B##_load(const volatile TY *p, int mo) {                                              \
        atomic_pre((uintptr_t) p, sizeof(TY), false, mo, true, false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) {                                           \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, false, true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }   \
    SIM_EXPORT TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) {                                          \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) {                                         \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) {                                         \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) {                                         \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) {                                          \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) {                                         \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int mo) {                                        \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    SIM_EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int) {              \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC);                                               \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                      \
    SIM_EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int) {                \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC);                                               \
        if (g_active && g_live > 1 && chance_spurious(0.1)) { *e = __atomic_load_n(p, __ATOMIC_SEQ_CST); return 0; }   \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                      \
    SIM_EXPORT TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int) {                   \
        atomic_pre((uintptr_t) p, sizeof(TY), true, mo, true, true, PC);                                               \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
SIM_EXPORT void __tsan_atomic_thread_fence(int) {
    static char fence_obj;
    if (!g_active) return;
    sync_point();
    VC *v = atomic_vc((uintptr_t) &fence_obj);
    hb_acquire_from(*v);
    hb_release_to(*v);
}
SIM_EXPORT void __tsan_atomic_signal_fence(int) {}

// block operations called by the code under test
SIM_EXPORT void *sim_memcpy(void *d, const void *s, size_t n) {
    if (g_active && n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); }
    return memcpy(d, s, n);
}
SIM_EXPORT void *sim_memmove(void *d, const void *s, size_t n) {
    if (g_active && n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); }
    return memmove(d, s, n);
}
SIM_EXPORT void *sim_memset(void *d, int c, size_t n) {
    if (g_active && n) access((uintptr_t) d, n, true, PC);
    return memset(d, c, n);
}
SIM_EXPORT int sim_memcmp(const void *a, const void *b, size_t n) {
    if (g_active && n) { access((uintptr_t) a, n, false, PC); access((uintptr_t) b, n, false, PC); }
    return memcmp(a, b, n);
}
SIM_EXPORT int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }

// strings and formatted output
#define RD(p, n) do { if (g_active && (n)) access((uintptr_t) (p), (n), false, PC); } while (0)
#define WR(p, n) do { if (g_active && (n)) access((uintptr_t) (p), (n), true, PC); } while (0)
SIM_EXPORT size_t sim_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return n; }
SIM_EXPORT size_t sim_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : n); return n; }
SIM_EXPORT char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n); WR(d, n); return strcpy(d, s); }
SIM_EXPORT char *sim_strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : n); WR(d, m); return strncpy(d, s, m); }
SIM_EXPORT char *sim_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, k = strlen(d); RD(s, n); RD(d, k + 1); WR(d + k, n); return strcat(d, s); }
SIM_EXPORT char *sim_strncat(char *d, const char *s, size_t m) { size_t n = strnlen(s, m), k = strlen(d); RD(s, n); RD(d, k + 1); WR(d + k, n + 1); return strncat(d, s, m); }
SIM_EXPORT int sim_strcmp(const char *a, const char *b) { size_t n = 0; while (a[n] && a[n] == b[n]) ++n; RD(a, n + 1); RD(b, n + 1); return strcmp(a, b); }
SIM_EXPORT int sim_strncmp(const char *a, const char *b, size_t m) { size_t n = 0; while (n < m && a[n] && a[n] == b[n]) ++n; if (n < m) ++n; RD(a, n); RD(b, n); return strncmp(a, b, m); }
SIM_EXPORT char *sim_strchr(const char *s, int c) { const char *p = strchr(s, c); RD(s, p ? (size_t) (p - s) + 1 : strlen(s) + 1); return (char *) p; }
SIM_EXPORT char *sim_strrchr(const char *s, int c) { RD(s, strlen(s) + 1); return (char *) strrchr(s, c); }
SIM_EXPORT char *sim_strstr(const char *s, const char *t) { RD(s, strlen(s) + 1); RD(t, strlen(t) + 1); return (char *) strstr(s, t); }
SIM_EXPORT void *sim_memchr(const void *s, int c, size_t m) { const char *p = (const char *) memchr(s, c, m); RD(s, p ? (size_t) (p - (const char *) s) + 1 : m); return (void *) p; }
SIM_EXPORT char *sim_strdup(const char *s) { RD(s, strlen(s) + 1); return strdup(s); }
SIM_EXPORT int sim_vsnprintf(char *d, size_t m, const char *f, va_list ap) {
    va_list aq; va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, f, aq);
    va_end(aq);
    if (m && n >= 0) WR(d, std::min(m, (size_t) n + 1));
    return vsnprintf(d, m, f, ap);
}
SIM_EXPORT int sim_vsprintf(char *d, const char *f, va_list ap) { return sim_vsnprintf(d, 1u << 30, f, ap); }
SIM_EXPORT int sim_vsnprintf_chk(char *d, size_t m, int, size_t, const char *f, va_list ap) { return sim_vsnprintf(d, m, f, ap); }
SIM_EXPORT int sim_vsprintf_chk(char *d, int, size_t, const char *f, va_list ap) { return sim_vsnprintf(d, 1u << 30, f, ap); }
SIM_EXPORT int sim_snprintf(char *d, size_t m, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsnprintf(d, m, f, ap); va_end(ap); return n; }
SIM_EXPORT int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsnprintf(d, 1u << 30, f, ap); va_end(ap); return n; }
SIM_EXPORT int sim_snprintf_chk(char *d, size_t m, int, size_t, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsnprintf(d, m, f, ap); va_end(ap); return n; }
SIM_EXPORT int sim_sprintf_chk(char *d, int, size_t, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vsnprintf(d, 1u << 30, f, ap); va_end(ap); return n; }
SIM_EXPORT void *sim_memcpy_chk(void *d, const void *s, size_t n, size_t) { return sim_memcpy(d, s, n); }
SIM_EXPORT void *sim_memmove_chk(void *d, const void *s, size_t n, size_t) { return sim_memmove(d, s, n); }
SIM_EXPORT void *sim_memset_chk(void *d, int c, size_t n, size_t) { return sim_memset(d, c, n); }
SIM_EXPORT char *sim_strcpy_chk(char *d, const char *s, size_t) { return sim_strcpy(d, s); }
SIM_EXPORT char *sim_strcat_chk(char *d, const char *s, size_t) { return sim_strcat(d, s); }
// functions whose result or state is shared by the whole process
static char g_shared_state[16];
SIM_EXPORT struct tm *sim_localtime(const time_t *t) { WR(&g_shared_state[0], 1); return localtime(t); }
SIM_EXPORT struct tm *sim_gmtime(const time_t *t) { WR(&g_shared_state[0], 1); return gmtime(t); }
SIM_EXPORT char *sim_ctime(const time_t *t) { WR(&g_shared_state[0], 1); return ctime(t); }
SIM_EXPORT char *sim_asctime(const struct tm *t) { WR(&g_shared_state[0], 1); return asctime(t); }
SIM_EXPORT char *sim_strtok(char *s, const char *d) { WR(&g_shared_state[1], 1); return strtok(s, d); }
SIM_EXPORT char *sim_strerror(int e) { return strerror(e); }
SIM_EXPORT char *sim_setlocale(int c, const char *l) { WR(&g_shared_state[2], 1); return setlocale(c, l); }
SIM_EXPORT int sim_setenv(const char *a, const char *b, int o) { WR(&g_shared_state[3], 1); return setenv(a, b, o); }
SIM_EXPORT char *sim_getenv(const char *a) { RD(&g_shared_state[3], 1); return getenv(a); }
SIM_EXPORT void sim_srand(unsigned s) { sim_seed_rand(s); }
SIM_EXPORT long sim_random() { return sim_rand(); }
SIM_EXPORT void sim_srandom(unsigned s) { sim_seed_rand(s); }
SIM_EXPORT double sim_drand48() { WR(&g_shared_state[4], 1); return sim_rand() / 2147483648.0; }
