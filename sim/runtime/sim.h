// Deterministic simulator runtime: interface used by the scenarios and by the runtime itself.
// One simulated run happens in one (forked) process.  Every thread of the code under test is a real
// pthread, but exactly one of them holds the baton at any time and only the seeded scheduler decides
// who gets it next.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- deterministic PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567887654321ull) { next(); next(); }
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    uint64_t geometric(double p); // >=1
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- configuration of one run
struct Switch { int tid; uint64_t ls; int to; };
enum Policy { POL_NONE = 0, POL_RANDOM = 1, POL_PCT = 2, POL_REPLAY = 3 };
struct Config {
    uint64_t sched_seed = 1, alloc_seed = 1, clock_seed = 1;
    int alloc_mode = 0;            // 0 bump up, 1 random zones, 2 descending, 3 immediate reuse
    int policy = POL_NONE;
    double p_sync = 0.0, p_mem = 0.0;
    int pct_depth = 0; uint64_t pct_len = 100000;
    std::vector<Switch> switches;  // replay
    std::vector<int> teams{4};     // team size of successive parallel regions (cyclic)
    int max_threads = 0;           // omp_get_max_threads() says at least this (a region may get fewer threads than the maximum)
    uint64_t max_steps = 500000000ull;
    int races = 0;                 // 1: report data races, 2: only steer the schedule towards them (hand over after a racing access)
    bool bounds = true;            // report out-of-bounds / use-after-free heap accesses
    int clock_mode = 0;            // 0 steady progress, 1 jumps (system clock may go back), 2 frozen
    int tty_width = 80;            // answer of the terminal size query (-1: not a terminal)
    uint64_t alloc_cap = 128ull << 20; // larger requests fail (and are reported by biggest_alloc)
};

// ---------------------------------------------------------------- result block shared with the parent
struct Shared {
    int violation;                 // 0 none, 1 violation, 2 harness error
    int crashed;                   // simulated crash happened
    char kind[64];
    char text[4000];
    volatile uint64_t beat;      // changes while simulated code runs
    uint64_t most_steps; // of one simulated process
    uint64_t steps, switches, forced, threads, regions;
    uint64_t trace_hash, inter_hash, obs_hash;
    uint64_t sim_time_ns;
    uint64_t n_sw;                 // recorded scheduling decisions
    Switch sw[2000000];
    uint64_t probes[64];           // rare-condition probes
    uint64_t fault_fired[64];      // per fault kind
    uint64_t io_ops, map_stores, allocs;
    uint64_t biggest_alloc;
    int phase;                     // scenario progress (free use)
    int op_done;                   // last finished scenario op
    uint64_t user[64];
    char blob[8 << 20];            // free use (results)
    uint64_t blob_len;
};
extern Shared *g_sh;
Shared *make_shared_block();

void configure(const Config &c);        // before begin()
void begin();                           // calling thread becomes simulated thread 0
void end();                             // leave simulated mode
bool active();
void run_on_sim_stack(void (*fn)(void *), void *arg); // runs fn on a pthread whose stack lies in the arena

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void observe(uint64_t v);               // folds an observation in the run's observation hash
void observe_str(const std::string &s);
void probe(int i, uint64_t n = 1);
uint64_t seq();                         // global event sequence number (strictly increasing)
uint64_t steps();
int current_tid();
void yield_point();                     // a scheduling point

// threads for scenarios (client threads)
void run_on_pool(void (*fn)(void *), void *const *args, int n); // by threads that are used again; returns when all have returned
int spawn(void (*fn)(void *), void *arg);
void join(int tid);

// ---------------------------------------------------------------- memory
uint64_t alloc_count();                 // allocations requested by the code under test so far
void alloc_fault_arm(const std::vector<uint64_t> &nth, uint64_t from = ~0ull); // fail these (1-based from now) / all from
void alloc_fault_disarm();
// Call sites (a hash over the innermost frames): which asked for memory since arming, and failing one request of one of them.
struct AllocSite { uint64_t hash, leaf, count; };
void alloc_sites_record();              // from now until alloc_fault_disarm
std::vector<AllocSite> alloc_sites();   // in a fixed order
void alloc_fault_site(const AllocSite &s, uint64_t nth); // arms
uint64_t allocs_since_arm();
uint64_t live_bytes();                  // in live arena blocks
uint64_t live_blocks();                 // live arena blocks
uint64_t live_repo_blocks();
uint64_t biggest_alloc();
void reset_biggest_alloc();
bool holds_locks(std::string *what);    // any simulated lock currently held by anyone?

// ---------------------------------------------------------------- I/O
enum IoKind { IO_OPEN, IO_CLOSE, IO_TRUNC, IO_FALLOC, IO_MMAP, IO_MUNMAP, IO_MSYNC, IO_FSYNC, IO_RENAME, IO_UNLINK,
              IO_READ, IO_WRITE, IO_STAT, IO_MKDIR, IO_LSEEK, IO_KINDS };
const char *io_kind_name(int k);
struct IoOpRec { int kind; std::string what; };
void io_scratch(const std::string &dir);         // tracked directory
struct IoFault { uint64_t nth; int err; int mode; }; // nth tracked op (1-based since arm); err errno; mode 1: short; mode 2: every op of kind nth
void io_arm(const std::vector<IoFault> &f);
void io_disarm();
uint64_t io_ops_since_arm();
const std::vector<IoOpRec> &io_log();            // ops since arm
void io_crash_at_op(uint64_t nth, bool after);   // since arm
void io_crash_at_store(uint64_t nth);            // since arm
uint64_t io_stores_since_arm();
void io_quota(int64_t bytes, bool inodes = false); // bytes that may still be allocated; -1 unlimited
int64_t io_used();
void io_powerloss(uint64_t seed, int mode);      // what a crash leaves: mode 0 process crash only, 1 power loss
int io_open_fds();                               // descriptors open on tracked files
int io_open_maps();
std::string io_leaks();
void io_reset_tracking();
void rt_io_begin_public();                        // start tracking the scratch directory now
extern void (*g_before_crash)();                 // called in the dying process
void io_power_cut_now();                         // apply power loss to the scratch directory now (all files), for idle crashes
int fault_kind_id(int iokind, int err);          // index into fault_fired
const char *fault_kind_name(int id);

enum { FK_ALLOC = 0, FK_CRASH_OP = 1, FK_CRASH_STORE = 2, FK_POWER = 3, FK_QUOTA = 4, FK_SHORT = 5, FK_TORN = 6,
       FK_EIO = 8, FK_ENOSPC, FK_EMFILE, FK_ENOMEM, FK_EINTR, FK_EACCES, FK_OTHER, FK_CLOCK_JUMP, FK_SPURIOUS, FK_STDOUT,
       FK_DROP_DIRENT, FK_LOST_PAGE, FK_PARTIAL_TEAM, FK_DATA_CORRUPT, FK_WORKER_CRASH, FK_BADINPUT, FK_ALLOC_SITE, FK_MAX };

// ---------------------------------------------------------------- clock
uint64_t now_ns();
void advance_ns(uint64_t d);

} // namespace sim
