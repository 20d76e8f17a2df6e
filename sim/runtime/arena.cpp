// Heap of the simulated process: fixed addresses, seeded placement, bounds and lifetime tracking, allocation faults.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <link.h>
#include <new>
#include <sys/mman.h>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <dlfcn.h>
#include <unwind.h>

namespace sim {
constexpr int ZONES = 16;
constexpr size_t ZONE = 256u << 20;
constexpr uint64_t MEMORY = 320u << 20; // of the simulated machine
struct Hdr { uint64_t size; uint32_t magic; uint16_t repo; uint16_t zone; };
constexpr uint32_t LIVE = 0xA11FE55Au, DEAD = 0xDEADB10Cu;
static uint8_t *g_shadow; // one byte per 8 bytes of heap
static bool g_init;
static uintptr_t g_lo[ZONES], g_hi[ZONES];
static uint64_t g_allocs, g_live_blocks, g_live_bytes, g_live_repo, g_biggest;
static Rng g_lay(1);
static std::unordered_map<size_t, std::vector<uintptr_t>> *g_free;
static std::set<uint64_t> *g_fail;
static uint64_t g_fail_from = ~0ull, g_arm_count = 0;
static bool g_armed;
thread_local int g_rt_depth = 0;

static uintptr_t shadow_idx(uintptr_t a) { return (a - ARENA_BASE) >> 3; }
static void set_addressable(uintptr_t a, size_t n) {
    size_t i = shadow_idx(a), k = n / 8;
    memset(g_shadow + i, 0, k);
    if (n % 8) g_shadow[i + k] = n % 8;
}
static void set_dead(uintptr_t a, size_t n, uint8_t v) { memset(g_shadow + shadow_idx(a), v, (n + 7) / 8); }

static void init_ranges();
void arena_init() {
    if (!g_init) {
        void *p = mmap((void *) ARENA_BASE, ZONE * ZONES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (void *) ARENA_BASE) harness_error("cannot place the simulated heap");
        g_shadow = (uint8_t *) mmap(nullptr, ZONE * ZONES / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (int i = 0; i < ZONES; ++i) { g_lo[i] = ARENA_BASE + i * ZONE; g_hi[i] = g_lo[i] + ZONE; }
        g_free = new std::unordered_map<size_t, std::vector<uintptr_t>>();
        g_fail = new std::set<uint64_t>();
        g_init = true;
    }
    g_lay = Rng(mix(g_cfg.alloc_seed, 21));
    init_ranges();
}
static void *arena_alloc(size_t size, size_t align, bool repo) {
    if (size > g_biggest) { g_biggest = size; if (g_sh) g_sh->biggest_alloc = size; }
    if (size > g_cfg.alloc_cap) return nullptr;
    size_t need = ((size + 15) & ~15ull) + 16 /*header*/ + 16 /*red zone*/;
    if (align > 16) need += align;
    static uint64_t used; // of the simulated memory; blocks are given out twice only in mode 3 or once half of it is gone
    uintptr_t blk = 0;
    int zone = 0;
    if ((g_cfg.alloc_mode == 3 || used > MEMORY / 2) && align <= 16) {
        auto it = g_free->find(need);
        if (it != g_free->end() && !it->second.empty()) { blk = it->second.back(); it->second.pop_back(); zone = ((Hdr *) blk)->zone; }
    }
    if (!blk && (used += need) > MEMORY) { used -= need; return nullptr; }
    if (!blk) {
        zone = g_cfg.alloc_mode == 1 ? (int) g_lay.below(ZONES) : 0;
        size_t gap = g_cfg.alloc_mode == 0 || g_cfg.alloc_mode == 3 ? 0 : 16 * g_lay.below(5);
        for (int tries = 0; tries <= ZONES; ++tries) {
            if (g_hi[zone] - g_lo[zone] < need + gap + 4096) { zone = (zone + 1) % ZONES; if (tries == ZONES) return nullptr; continue; }
            if (g_cfg.alloc_mode == 2 || (g_cfg.alloc_mode == 1 && g_lay.chance(0.5))) { g_hi[zone] -= need + gap; blk = g_hi[zone]; }
            else { blk = g_lo[zone] + gap; g_lo[zone] += need + gap; }
            break;
        }
    }
    uintptr_t user = blk + 16;
    if (align > 16) user = (user + align - 1) & ~(align - 1);
    Hdr *h = (Hdr *) (user - 16);
    set_dead(user - 16, 16, 0xf1);
    h->size = size; h->magic = LIVE; h->repo = repo; h->zone = zone;
    set_addressable(user, size);
    race_clear(user, size);
    sync_forget(user, size);
    memset((void *) user, 0xA5, size < 4096 ? size : 4096); // uninitialised memory is not zero
    set_dead(user + ((size + 7) & ~7ull), 16, 0xf2);
    g_live_blocks++;
    g_live_bytes += size;
    if (repo) g_live_repo++;
    if (g_sh) g_sh->allocs++;
    return (void *) user;
}
static inline bool in_arena(const void *p) { return ((uintptr_t) p >> 40) == 0x20 && (uintptr_t) p < STACK_BASE; }
static void arena_free(void *p, void *pc, bool repo) {
    Hdr *h = (Hdr *) ((uintptr_t) p - 16);
    if (h->magic != LIVE) {
        if (!g_active) return;
        char b[160]; addr_name((uintptr_t) pc, b, sizeof b);
        violation("memory-error", "%s at %s", h->magic == DEAD ? "double free" : "free of a pointer that is no block", b);
    }
    h->magic = DEAD;
    g_live_blocks--;
    g_live_bytes -= h->size;
    if (h->repo) g_live_repo--;
    size_t size = h->size;
    if (!g_active) return;
    if (repo && g_track && g_cfg.races && size) race_access((uintptr_t) p, size, true, false, pc);
    sync_forget((uintptr_t) p, size);
    set_dead((uintptr_t) p, size ? size : 1, 0xfd);
    memset(p, 0xDD, size < 4096 ? size : 4096);
    (*g_free)[((size + 15) & ~15ull) + 32].push_back((uintptr_t) h);
}
void special_access(uintptr_t a, size_t n, bool w, void *pc) {
    if ((a >> 40) == 0x21) { map_access(a, n, w, pc); return; }
    if (a >= STACK_BASE || !g_cfg.bounds) return;
    // first and last byte, plus the middle for long ranges
    uintptr_t last = a + n - 1;
    for (uintptr_t x = a;; x = (x & ~7ull) + 8) {
        if (x > last) break;
        uint8_t s = g_shadow[shadow_idx(x)];
        if (s) {
            uintptr_t end = (x | 7) < last ? (x | 7) : last;
            if (s >= 8 || (end & 7) >= s) {
                char b[160]; addr_name((uintptr_t) pc, b, sizeof b);
                violation("memory-error", "%s of %zu bytes at %s touches %s", w ? "write" : "read", n, b,
                          s == 0xfd ? "freed memory" : "memory outside the allocated block");
            }
        }
    }
}

struct ModRange { uintptr_t lo, hi; };
static ModRange g_stdcxx{0, 0};
static int find_stdcxx(struct dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++.so")) {
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
                g_stdcxx.lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                g_stdcxx.hi = g_stdcxx.lo + i->dlpi_phdr[k].p_memsz;
            }
    }
    return 0;
}
static ModRange g_rt{0, 0};
static int find_rt(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
            if ((uintptr_t) &find_rt >= lo && (uintptr_t) &find_rt < hi) { g_rt.lo = lo; g_rt.hi = hi; return 1; }
        }
    return 0;
}
static inline bool from_rt(void *pc) { return (uintptr_t) pc >= g_rt.lo && (uintptr_t) pc < g_rt.hi; }
static bool from_stdcxx(void *pc) {
    if (!g_stdcxx.lo) dl_iterate_phdr(find_stdcxx, nullptr);
    return (uintptr_t) pc >= g_stdcxx.lo && (uintptr_t) pc < g_stdcxx.hi;
}
static void init_ranges() { if (!g_rt.lo) dl_iterate_phdr(find_rt, nullptr); from_stdcxx(nullptr); }
struct SiteRec { uint64_t leaf, count, seen; };
static std::unordered_map<uint64_t, SiteRec> *g_sites;
static std::unordered_map<uint64_t, uint64_t> *g_leaf_seen;
static bool g_rec_sites;
static uint64_t g_site_hash, g_site_leaf, g_site_left; // g_site_left: requests of the chosen site until the failing one
static uint64_t norm_pc(uintptr_t pc) { // the same in every process
    static std::unordered_map<uintptr_t, uint64_t> *cache = new std::unordered_map<uintptr_t, uint64_t>();
    auto it = cache->find(pc);
    if (it != cache->end()) return it->second;
    Dl_info di;
    uint64_t v = 1;
    if (dladdr((void *) pc, &di) && di.dli_fbase) v = pc - (uintptr_t) di.dli_fbase;
    (*cache)[pc] = v;
    return v;
}
struct Walk { uint64_t h; int n, skip; };
static _Unwind_Reason_Code walk_step(struct _Unwind_Context *c, void *p) {
    Walk *w = (Walk *) p;
    uintptr_t pc = _Unwind_GetIP(c);
    if (from_rt((void *) pc)) return w->n ? _URC_END_OF_STACK : _URC_NO_REASON; // the allocator's own frames, or the bottom of a team thread
    w->h = mix(w->h, norm_pc(pc));
    return ++w->n >= 5 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
static uint64_t site_hash() { Walk w{77, 0, 0}; RtScope rt; _Unwind_Backtrace(walk_step, &w); return w.h; }
void alloc_sites_record() {
    g_sites = new std::unordered_map<uint64_t, SiteRec>();
    g_leaf_seen = new std::unordered_map<uint64_t, uint64_t>();
    g_rec_sites = true;
}
std::vector<AllocSite> alloc_sites() {
    std::vector<AllocSite> v;
    if (g_sites) for (auto &s : *g_sites) v.push_back({s.first, s.second.leaf, s.second.count});
    std::sort(v.begin(), v.end(), [](const AllocSite &a, const AllocSite &b) { return a.hash < b.hash; });
    return v;
}
static bool should_fail(void *pc) {
    g_allocs++;
    if (!g_armed) return false;
    ++g_arm_count;
    if (g_rec_sites) {
        uint64_t leaf = norm_pc((uintptr_t) pc), n = ++(*g_leaf_seen)[leaf];
        if (n < 300 || n % 32 == 0) { auto &s = (*g_sites)[site_hash()]; s.leaf = leaf; s.count++; }
    }
    if (g_site_left && norm_pc((uintptr_t) pc) == g_site_leaf && site_hash() == g_site_hash && --g_site_left == 0) {
        if (g_sh) { g_sh->fault_fired[FK_ALLOC]++; g_sh->fault_fired[FK_ALLOC_SITE]++; }
        inter_fold(mix(g_arm_count, 78));
        return true;
    }
    if (g_arm_count >= g_fail_from || g_fail->count(g_arm_count)) {
        if (g_sh) g_sh->fault_fired[FK_ALLOC]++;
        inter_fold(mix(g_arm_count, 77));
        return true;
    }
    return false;
}
uint64_t alloc_count() { return g_allocs; }
void alloc_fault_arm(const std::vector<uint64_t> &nth, uint64_t from) {
    arena_init();
    g_fail->clear(); g_fail->insert(nth.begin(), nth.end()); g_fail_from = from; g_arm_count = 0; g_armed = true;
}
void alloc_fault_site(const AllocSite &s, uint64_t nth) { alloc_fault_arm({}, ~0ull); g_site_hash = s.hash; g_site_leaf = s.leaf; g_site_left = nth; }
void alloc_fault_disarm() { g_armed = false; g_rec_sites = false; g_site_left = 0; }
uint64_t allocs_since_arm() { return g_arm_count; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t live_blocks() { return g_live_blocks; }
uint64_t live_repo_blocks() { return g_live_repo; }
uint64_t biggest_alloc() { return g_biggest; }
void reset_biggest_alloc() { g_biggest = 0; }

static void *do_new(size_t n, size_t align, bool repo, bool eligible, bool nothrow, void *pc = nullptr) {
    if (g_active && (repo || !(pc && (g_rt_depth || from_rt(pc))))) {
        if (repo) sync_point();
        if (eligible && should_fail(pc)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        void *p = arena_alloc(n, align, repo || eligible);
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        return p;
    }
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_delete(void *p, void *pc, bool repo = false) {
    if (!p) return;
    if (in_arena(p)) arena_free(p, pc, repo);
    else free(p);
}
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)

SIM_EXPORT void *sim_new(size_t n) { return do_new(n, 16, true, true, false, PC); }
SIM_EXPORT void *sim_new_nt(size_t n, const std::nothrow_t &) { return do_new(n, 16, true, true, true, PC); }
SIM_EXPORT void *sim_new_al(size_t n, size_t al) { return do_new(n, al, true, true, false, PC); }
SIM_EXPORT void *sim_new_al_nt(size_t n, size_t al, const std::nothrow_t &) { return do_new(n, al, true, true, true, PC); }
SIM_EXPORT void *sim_malloc(size_t n) {
    if (g_active) { sync_point(); if (should_fail(PC)) { errno = ENOMEM; return nullptr; } }
    return malloc(n);
}

SIM_EXPORT void sim_delete(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_free(void *p) { free(p); }

void *operator new(size_t n) { return do_new(n, 16, false, g_active && g_armed && from_stdcxx(PC), false, PC); }
void *operator new[](size_t n) { return do_new(n, 16, false, g_active && g_armed && from_stdcxx(PC), false, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, false, false, true, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, false, false, true, PC); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t) a, false, false, false, PC); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t) a, false, false, false, PC); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new(n, (size_t) a, false, false, true, PC); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new(n, (size_t) a, false, false, true, PC); }
void operator delete(void *p) noexcept { do_delete(p, PC); }
void operator delete[](void *p) noexcept { do_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }

// objcopy wants one target per renamed symbol
SIM_EXPORT void *sim_new_2(size_t n) { return do_new(n, 16, true, true, false, PC); }
SIM_EXPORT void *sim_new_nt_2(size_t n, const std::nothrow_t &) { return do_new(n, 16, true, true, true, PC); }
SIM_EXPORT void *sim_new_al_2(size_t n, size_t al) { return do_new(n, al, true, true, false, PC); }
SIM_EXPORT void sim_delete_2(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_delete_3(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_delete_4(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_delete_5(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_delete_6(void *p) { do_delete(p, PC, true); }
SIM_EXPORT void sim_delete_7(void *p) { do_delete(p, PC, true); }
