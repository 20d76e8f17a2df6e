#pragma once
#include "sim.h"
#include <atomic>
#include <functional>
#include <pthread.h>
#include <vector>

#define SIM_EXPORT extern "C" __attribute__((visibility("default")))

namespace sim {
constexpr int MAXT = 96;
constexpr uintptr_t ARENA_BASE = 0x200000000000ull; // heap zones and stacks: (a >> 40) == 0x20
constexpr uintptr_t MAPS_BASE = 0x210000000000ull;  // mapped simulated files: (a >> 40) == 0x21
constexpr uintptr_t STACK_BASE = 0x208000000000ull; // upper half of the arena: stacks
constexpr size_t STACK_SIZE = 4u << 20;

struct VC {
    uint32_t c[MAXT];
    void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { ST_FREE, ST_IDLE, ST_RUN, ST_BLOCKED, ST_DONE };
struct Team;
struct Task;
struct Group;
struct T {
    int id;
    int state;
    std::atomic<int> go;
    pthread_t pt;
    bool has_pthread, pool;
    uint64_t ls, ls_in, trig;
    VC vc;
    const void *block_on;
    const char *block_what;
    uint64_t wake_at; // 0: none
    bool timed_out;
    uint64_t prio;
    bool newly;
    void (*fn)(void *);
    void *arg;
    bool detached;
    const std::vector<Switch> *sw;
    size_t sw_pos;
    Team *team;
    int team_tid, ws_idx;
    Task *task;
    Group *group;
    bool in_single;
    struct Dtor { void (*f)(void *); void *a; };
    std::vector<Dtor> *tls;
};
// The runtime's own work: no allocation fault hits it.
extern thread_local int g_rt_depth;
struct RtScope { RtScope() { ++g_rt_depth; } ~RtScope() { --g_rt_depth; } };
extern T *g_cur;
extern bool g_active;
extern Config g_cfg;
extern int g_live;
extern bool g_track; // race tracking currently meaningful

void slow_point(bool sync);
static inline void mem_point() { if (++g_cur->ls >= g_cur->trig) slow_point(false); }
void sync_point();                       // a scheduling point at a synchronisation / I/O operation
void block(const void *on, const char *what);                 // until wake(on)
bool block_until(const void *on, const char *what, uint64_t t_ns); // false: timed out
void wake(const void *on);
T *new_thread(void (*fn)(void *), void *arg, bool pool);
int pool_room(); // pool threads that can still be had
void start_thread(T *t);
void hb_release_to(VC &vc);              // publish the current thread's past into vc (merge) and tick
void hb_acquire_from(const VC &vc);
void tick();

void steer_reset(uint64_t seed);
void hand_over_soon(uint64_t d); // the current thread is made to give way d steps from now
void race_clear(uintptr_t a, size_t n);
void race_access(uintptr_t a, size_t n, bool w, bool atomic, void *pc);
void special_access(uintptr_t a, size_t n, bool w, void *pc);
void map_access(uintptr_t a, size_t n, bool w, void *pc); // io.cpp
void access(uintptr_t a, size_t n, bool w, void *pc);
void access_bulk(uintptr_t a, size_t n, bool w, void *pc);
void sync_forget(uintptr_t a, size_t n);
void arena_init();
void rt_io_begin();
void addr_name(uintptr_t pc, char *buf, size_t n);
void inter_fold(uint64_t v);
void vviolation(const char *kind, const char *fmt, va_list ap);
bool chance_spurious(double p);
} // namespace sim
