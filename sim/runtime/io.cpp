// Simulated storage: files below the scratch directory keep a durable image next to their current content;
// every call can fail, the disk can be full, and a crash keeps only what a real disk could keep.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <stdio_ext.h>
#include <unordered_map>
#include <fcntl.h>
#include <list>
#include <map>
#include <set>
#include <string>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <termios.h>
#include <unistd.h>

namespace sim {
static const size_t PG = 4096;
struct Inode {
    int id;
    bool dir = false;
    std::string link;             // target, for a symbolic link
    std::string durable;          // bytes that surely survive power loss
    std::set<size_t> lost;        // pages whose write-back failed: clean in memory, but not on the disk
    std::set<size_t> alloc;       // allocated pages (disk space)
    int opens = 0, maps = 0, links = 0;
};
struct Ent { std::string name; Inode *ino; };
struct DirOp { int kind; std::string a, b; Inode *ino; bool durable; }; // 0 create 1 unlink 2 rename 3 mkdir 4 rmdir 5 link
struct Fd { Inode *ino; std::string path; };
struct Map { uintptr_t a; size_t len, maplen; Inode *ino; std::string path; size_t off; bool shared, writable; int fdsnap; };

static std::string g_dir;
static std::map<std::string, Inode *> g_cur_ns, g_dur_ns;
static std::vector<DirOp> g_journal;
static std::map<int, Fd> g_fds;
static std::list<Map> g_maps; // op_begin may hand over: what is held across it must stay in place
static uintptr_t g_next_map = MAPS_BASE;
static int g_next_ino = 1;
static bool g_armed = false;
static uint64_t g_ops = 0, g_stores = 0;
static std::vector<IoFault> g_faults;
static std::vector<IoOpRec> g_log;
static uint64_t g_crash_op = 0, g_crash_store = 0;
static bool g_crash_after = false;
static int64_t g_quota = -1, g_used = 0;
static uint64_t g_power_seed = 0;
static int g_power_mode = 0;
void (*g_before_crash)() = nullptr;

const char *io_kind_name(int k) {
    static const char *n[] = {"open", "close", "ftruncate", "fallocate", "mmap", "munmap", "msync", "fsync", "rename", "unlink", "read", "write", "stat", "mkdir", "lseek"};
    return n[k];
}
static int errno_fk(int e) {
    switch (e) {
    case EIO: return FK_EIO;
    case ENOSPC: return FK_ENOSPC;
    case EMFILE: case ENFILE: return FK_EMFILE;
    case ENOMEM: return FK_ENOMEM;
    case EINTR: return FK_EINTR;
    case EACCES: case EPERM: case EROFS: return FK_EACCES;
    default: return FK_OTHER;
    }
}
int fault_kind_id(int, int err) { return errno_fk(err); }
const char *fault_kind_name(int id) {
    static const char *n[FK_MAX] = {"alloc_failure", "crash_at_io_call", "crash_at_mapped_store", "power_loss", "disk_full_quota", "short_transfer", "torn_page", "",
                                    "EIO", "ENOSPC", "EMFILE", "ENOMEM", "EINTR", "EACCES", "other_errno", "clock_jump", "spurious_wakeup", "stdout_failure",
                                    "lost_directory_update", "lost_page", "partial_team", "corrupt_data", "worker_crash", "invalid_input", "failing_allocation_of_a_call_site"};
    return id < FK_MAX && n[id] ? n[id] : "";
}

static bool under(const std::string &p) { return !g_dir.empty() && p.size() >= g_dir.size() && p.compare(0, g_dir.size(), g_dir) == 0 && (p.size() == g_dir.size() || p[g_dir.size()] == '/'); }
static std::string norm(const char *p) {
    RtScope rt_;
    std::string s(p ? p : "");
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '/' && !o.empty() && o.back() == '/') continue;
        o += s[i];
    }
    for (;;) { size_t k = o.find("/./"); if (k == std::string::npos) break; o.erase(k, 2); }
    while (o.size() > 1 && o.back() == '/') o.pop_back();
    if (o.size() > 2 && o.compare(o.size() - 2, 2, "/.") == 0) o.resize(o.size() - 2);
    return o;
}
static std::string parent(const std::string &p) { auto k = p.rfind('/'); return p.substr(0, k); }
// The name below the scratch directory that a path leads to through "..", and through symbolic links but for the last part
// (followed() takes that step too).
static std::string followed(std::string p, int depth = 0);
static std::string walked(const std::string &p, int depth = 0) {
    std::string o;
    for (size_t i = 1; i <= p.size();) {
        size_t k = std::min(p.find('/', i), p.size());
        auto c = p.substr(i, k - i);
        if (c == "..") o = o.empty() ? o : parent(o);
        else if (!c.empty()) o += "/" + c;
        if (k < p.size() && depth < 8) o = followed(o, depth + 1);
        i = k + 1;
    }
    return o.empty() ? "/" : o;
}
static std::string followed(std::string p, int depth) {
    for (int i = depth; i < 8; ++i) {
        auto it = g_cur_ns.find(p);
        if (it == g_cur_ns.end() || it->second->link.empty()) return p;
        auto &l = it->second->link;
        p = walked(norm((l[0] == '/' ? l : parent(p) + "/" + l).c_str()), i + 1);
    }
    return p;
}
static bool tracked(const char *p, std::string &out) {
    RtScope rt_;
    if (!g_active || !p || !p[0] || g_dir.empty()) return false;
    if (p[0] == '/') out = norm(p);
    else {
        char cwd[4096];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return false;
        out = norm((std::string(cwd) + "/" + p).c_str());
    }
    if (out.compare(0, g_dir.size(), g_dir) != 0) return false;
    out = walked(out);
    return under(out);
}
static std::string slurp(const std::string &path) {
    RtScope rt_;
    std::string s;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char b[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd);
    return s;
}
static void scan(const std::string &d) {
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    std::vector<std::string> names;
    while (auto *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(dp);
    std::sort(names.begin(), names.end());
    for (auto &nm : names) {
        std::string p = d + "/" + nm;
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) != 0) continue;
        Inode *i = new Inode();
        i->id = g_next_ino++;
        i->links = 1;
        g_cur_ns[p] = i; g_dur_ns[p] = i;
        if (S_ISDIR(st.st_mode)) { i->dir = true; scan(p); }
        else if (S_ISLNK(st.st_mode)) {
            char b[4096];
            ssize_t n = syscall(SYS_readlink, p.c_str(), b, sizeof b);
            i->link.assign(b, n > 0 ? n : 0);
        } else {
            i->durable = slurp(p);
            for (size_t k = 0; k < (i->durable.size() + PG - 1) / PG; ++k) { i->alloc.insert(k); g_used += PG; }
        }
    }
}
void io_scratch(const std::string &dir) { g_dir = norm(dir.c_str()); }
void io_reset_tracking() {
    g_cur_ns.clear(); g_dur_ns.clear(); g_journal.clear(); g_used = 0;
    if (!g_dir.empty()) scan(g_dir);
}
void rt_io_begin_public() { io_reset_tracking(); }
void rt_io_begin() { if (!g_dir.empty() && g_fds.empty()) io_reset_tracking(); }
void io_arm(const std::vector<IoFault> &f) { g_faults = f; g_ops = 0; g_stores = 0; g_log.clear(); g_armed = true; g_crash_op = g_crash_store = 0; }
void io_disarm() { g_armed = false; g_faults.clear(); g_crash_op = g_crash_store = 0; g_quota = -1; }
uint64_t io_ops_since_arm() { return g_ops; }
uint64_t io_stores_since_arm() { return g_stores; }
const std::vector<IoOpRec> &io_log() { return g_log; }
void io_crash_at_op(uint64_t n, bool after) { g_crash_op = n; g_crash_after = after; }
void io_crash_at_store(uint64_t n) { g_crash_store = n; }
static bool g_inodes; // a full disk still has room for a new name
void io_quota(int64_t b, bool inodes) { g_quota = b; g_inodes = inodes; }
int64_t io_used() { return g_used; }
void io_powerloss(uint64_t seed, int mode) { g_power_seed = seed; g_power_mode = mode; }
int io_open_fds() { return (int) g_fds.size(); }
int io_open_maps() { return (int) g_maps.size(); }
std::string io_leaks() {
    std::string s;
    for (auto &f : g_fds) s += " descriptor of " + f.second.path.substr(g_dir.size());
    for (auto &m : g_maps) s += " mapping of " + m.path.substr(g_dir.size());
    return s;
}

static void release_space(Inode *i) {
    if (i->links <= 0 && i->opens == 0 && i->maps == 0) { if (g_quota >= 0) g_quota += (int64_t) (i->alloc.size() * PG); g_used -= (int64_t) (i->alloc.size() * PG); i->alloc.clear(); }
}
// true: room for page k of inode i exists (and is taken)
static bool take_page(Inode *i, size_t k) {
    if (i->alloc.count(k)) return true;
    if (g_quota >= 0 && (int64_t) PG > g_quota) { if (g_sh) g_sh->fault_fired[FK_QUOTA]++; return false; }
    if (g_quota >= 0) g_quota -= PG;
    i->alloc.insert(k);
    g_used += PG;
    return true;
}

// ------------------------------------------------------------------ crash
static void wipe(const std::string &d) {
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    std::vector<std::string> names;
    while (auto *e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(dp);
    for (auto &nm : names) {
        std::string p = d + "/" + nm;
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) { wipe(p); syscall(SYS_rmdir, p.c_str()); }
        else syscall(SYS_unlink, p.c_str());
    }
}
static std::map<Inode *, std::string> current_contents() {
    std::map<Inode *, std::string> m;
    for (auto &kv : g_cur_ns) if (!kv.second->dir && kv.second->link.empty() && !m.count(kv.second)) m[kv.second] = slurp(kv.first);
    for (auto &f : g_fds) if (f.second.ino && !f.second.ino->dir && !m.count(f.second.ino)) m[f.second.ino] = slurp("/proc/self/fd/" + std::to_string(f.first));
    for (auto &mp : g_maps) if (!m.count(mp.ino)) {
        std::string s((const char *) mp.a, mp.len);
        m[mp.ino] = s;
    }
    return m;
}
static void apply_op(std::map<std::string, Inode *> &ns, const DirOp &o) {
    switch (o.kind) {
    case 0: case 3: case 5: ns[o.a] = o.ino; break;
    case 1: case 4: ns.erase(o.a); break;
    case 2: {
        std::vector<std::pair<std::string, Inode *>> mv;
        auto it = ns.find(o.a);
        if (it == ns.end()) { ns[o.b] = o.ino; break; }
        ns[o.b] = it->second;
        ns.erase(it);
        for (auto k = ns.begin(); k != ns.end();)
            if (k->first.compare(0, o.a.size() + 1, o.a + "/") == 0) { mv.push_back({o.b + k->first.substr(o.a.size()), k->second}); k = ns.erase(k); } else ++k;
        for (auto &x : mv) ns[x.first] = x.second;
        break;
    }
    }
}
static void power_loss(uint64_t seed) {
    Rng r(mix(seed, 31));
    if (g_sh) g_sh->fault_fired[FK_POWER]++;
    auto cur = current_contents();
    // directory updates reach the disk in order; the flushed ones surely did
    size_t must = 0;
    for (size_t i = 0; i < g_journal.size(); ++i) if (g_journal[i].durable && g_journal[i].kind != 0) must = i + 1;
    size_t k = must + (r.chance(0.3) ? g_journal.size() - must : r.chance(0.4) ? 0 : r.below(g_journal.size() - must + 1));
    auto ns = g_dur_ns;
    for (size_t i = 0; i < g_journal.size(); ++i) {
        if (i < k || g_journal[i].durable) apply_op(ns, g_journal[i]);
        else if (g_sh) g_sh->fault_fired[FK_DROP_DIRENT]++;
    }
    int style = (int) r.below(4); // 0 mixed pages, 1 nothing unsynced survived, 2 everything survived, 3 size without data
    std::map<std::string, std::string> out;
    std::vector<std::string> dirs;
    std::map<Inode *, std::string> content;
    std::map<std::string, std::string> links;
    for (auto &kv : ns) {
        Inode *i = kv.second;
        if (i->dir) { dirs.push_back(kv.first); continue; }
        if (!i->link.empty()) { links[kv.first] = i->link; continue; }
        if (!content.count(i)) {
            const std::string &oldb = i->durable;
            std::string newb = cur.count(i) ? cur[i] : oldb;
            std::string res;
            if (newb == oldb) res = newb;
            else {
                size_t size = style == 2 || style == 3 ? newb.size() : style == 1 ? oldb.size() : r.chance(0.6) ? newb.size() : oldb.size();
                res.assign(size, '\0');
                for (size_t p = 0; p < size; p += PG) {
                    size_t n = std::min(PG, size - p);
                    double keep = style == 2 ? 1.0 : style == 1 || style == 3 ? 0.0 : 0.5;
                    size_t upto = r.chance(keep) ? n : 0;
                    if (i->lost.count(p / PG)) { upto = 0; if (g_sh) g_sh->fault_fired[FK_LOST_PAGE]++; }
                    else if (style == 0 && r.chance(0.3)) { upto = std::min(n, (size_t) (r.below(9) * 512)); if (upto && upto < n && g_sh) g_sh->fault_fired[FK_TORN]++; }
                    if (upto == 0 && g_sh) g_sh->fault_fired[FK_LOST_PAGE]++;
                    for (size_t b = 0; b < n; ++b) {
                        const std::string &src = b < upto ? newb : oldb;
                        res[p + b] = p + b < src.size() ? src[p + b] : '\0';
                    }
                }
            }
            content[i] = res;
        }
        out[kv.first] = content[i];
    }
    wipe(g_dir);
    std::sort(dirs.begin(), dirs.end());
    for (auto &d : dirs) syscall(SYS_mkdir, d.c_str(), 0755);
    for (auto &l : links) syscall(SYS_symlink, l.second.c_str(), l.first.c_str());
    for (auto &kv : out) {
        int fd = (int) syscall(SYS_openat, AT_FDCWD, kv.first.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd < 0) continue; // parent directory did not survive
        size_t o = 0;
        while (o < kv.second.size()) { ssize_t n = syscall(SYS_write, fd, kv.second.data() + o, kv.second.size() - o); if (n <= 0) break; o += n; }
        syscall(SYS_close, fd);
    }
}
void io_power_cut_now() { power_loss(g_power_seed); io_reset_tracking(); }
[[noreturn]] static void crash_now(int fk) {
    if (g_sh) { g_sh->fault_fired[fk]++; g_sh->crashed = 1; }
    inter_fold(mix(mix(g_ops, g_stores), fk * 8 + g_crash_after * 4 + g_power_mode * 2));
    end();
    if (g_before_crash) g_before_crash();
    if (g_power_mode == 1) power_loss(g_power_seed);
    syscall(SYS_exit_group, 68);
    __builtin_unreachable();
}

// ------------------------------------------------------------------ operation bookkeeping
static int g_op_fault_mode;
// returns errno to inject (0: none); *is_short set for short transfers
static int op_begin(int kind, const std::string &what) {
    RtScope rt_;
    sync_point();
    g_op_fault_mode = 0;
    if (g_sh) g_sh->io_ops++;
    if (!g_armed) return 0;
    g_ops++;
    g_log.push_back({kind, what.size() > g_dir.size() ? what.substr(g_dir.size()) : what});
    if (g_crash_op && g_ops == g_crash_op && !g_crash_after) crash_now(FK_CRASH_OP);
    for (auto &f : g_faults)
        if (f.mode == 2 ? f.nth == (uint64_t) kind : f.nth == g_ops) { // mode 2: every call of a kind
            if (f.mode == 1) { if (kind == IO_READ || kind == IO_WRITE) { g_op_fault_mode = 1; if (g_sh) g_sh->fault_fired[FK_SHORT]++; } return 0; }
            int e = f.err;
            static const std::map<int, std::set<int>> legal = {
                {IO_OPEN, {EMFILE, ENFILE, ENOSPC, EIO, EACCES, EINTR, ENOMEM, EROFS}},
                {IO_CLOSE, {EIO, EINTR, ENOSPC}},
                {IO_TRUNC, {EIO, EINTR, ENOSPC, EPERM, EFBIG}},
                {IO_FALLOC, {ENOSPC, EIO, EINTR, EFBIG, EOPNOTSUPP, EINVAL}},
                {IO_MMAP, {ENOMEM, ENFILE, EACCES}},
                {IO_MSYNC, {EIO, ENOMEM}},
                {IO_FSYNC, {EIO, ENOSPC}},
                {IO_RENAME, {EIO, ENOSPC, EACCES, ENOMEM}},
                {IO_UNLINK, {EIO, EACCES, ENOMEM}},
                {IO_READ, {EIO, EINTR}},
                {IO_WRITE, {EIO, EINTR, ENOSPC}},
                {IO_STAT, {EIO, ENOMEM, EACCES}},
                {IO_MKDIR, {EIO, ENOSPC, EACCES, ENOMEM}},
                {IO_MUNMAP, {}}, {IO_LSEEK, {}}};
            auto &l = legal.at(kind);
            if (l.empty()) return 0;
            if (!l.count(e)) { std::vector<int> v(l.begin(), l.end()); e = v[f.nth % v.size()]; }
            if (g_sh) g_sh->fault_fired[errno_fk(e)]++;
            inter_fold(mix(mix(g_ops, kind), e));
            return e;
        }
    return 0;
}
static void op_end() {
    if (g_armed && g_crash_op && g_ops == g_crash_op && g_crash_after) crash_now(FK_CRASH_OP);
}
static void journal(int kind, const std::string &a, const std::string &b, Inode *i) {
    RtScope rt_;
    DirOp o{kind, a, b, i, false};
    g_journal.push_back(o);
    apply_op(g_cur_ns, o);
}
static void dir_sync(const std::string &d) {
    RtScope rt_;
    for (auto &o : g_journal)
        if (parent(o.a) == d || (!o.b.empty() && parent(o.b) == d)) o.durable = true;
}
// everything of the file, or one range of pages, reaches the disk (except pages whose write-back failed before: those are clean)
static void file_durable(Inode *i, const std::string &bytes, size_t lo = 0, size_t hi = ~(size_t) 0) {
    RtScope rt_;
    std::string d = i->durable;
    d.resize(bytes.size(), '\0');
    for (size_t p = lo; p < hi && p < bytes.size(); p += PG)
        if (!i->lost.count(p / PG)) for (size_t b = p; b < std::min({p + PG, hi, bytes.size()}); ++b) d[b] = bytes[b];
    i->durable = d;
    for (auto &o : g_journal) if (o.kind == 0 && o.ino == i) o.durable = true; // flushing a new file makes its entry durable
}
// A failed write-back: the pages that were not on the disk are clean now and will not be written again unless they are
// stored to again; the error is reported once.
static void write_back_failed(Inode *i, const std::string &bytes, size_t lo, size_t hi) {
    RtScope rt_;
    for (size_t p = lo; p < hi && p < bytes.size(); p += PG) {
        size_t n = std::min(PG, bytes.size() - p);
        if (p + n > i->durable.size() || memcmp(&bytes[p], &i->durable[p], n) != 0) i->lost.insert(p / PG);
    }
}
static int real_open(const char *p, int fl, int mode) { return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
static int sim_open(const std::string &path0, int flags, int mode) {
    RtScope rt_;
    const std::string path = flags & O_NOFOLLOW || (flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL) ? path0 : followed(path0);
    if (!under(path)) return real_open(path.c_str(), flags, mode);
    int e = op_begin(IO_OPEN, path);
    if (e) { errno = e; return -1; }
    if ((flags & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; } // as on many file systems
    bool existed = g_cur_ns.count(path) || path == g_dir;
    if (!existed && (flags & O_CREAT) && g_quota == 0 && !g_inodes) { if (g_sh) g_sh->fault_fired[FK_QUOTA]++; errno = ENOSPC; return -1; }
    int fd = real_open(path.c_str(), flags, mode);
    if (fd < 0) { int s = errno; op_end(); errno = s; return -1; }
    Inode *i = nullptr;
    if (path != g_dir) {
        auto it = g_cur_ns.find(path);
        if (it == g_cur_ns.end()) {
            i = new Inode();
            i->id = g_next_ino++; i->links = 1;
            struct stat st;
            syscall(SYS_fstat, fd, &st);
            i->dir = S_ISDIR(st.st_mode);
            journal(i->dir ? 3 : 0, path, "", i);
        } else i = it->second;
        if ((flags & O_TRUNC) && !i->dir) {
            if (g_quota >= 0) g_quota += (int64_t) (i->alloc.size() * PG);
            g_used -= (int64_t) (i->alloc.size() * PG);
            i->alloc.clear();
        }
        i->opens++;
    }
    g_fds[fd] = Fd{i, path};
    op_end();
    return fd;
}
static int sim_close(int fd) {
    RtScope rt_;
    auto it = g_fds.find(fd);
    int e = op_begin(IO_CLOSE, it->second.path);
    if (it->second.ino) { it->second.ino->opens--; release_space(it->second.ino); }
    g_fds.erase(it);
    int r = (int) syscall(SYS_close, fd);
    op_end();
    if (e) { errno = e; return -1; }
    return r;
}
static Fd *fd_of(int fd) {
    if (g_fds.empty()) return nullptr;
    auto it = g_fds.find(fd);
    return it == g_fds.end() ? nullptr : &it->second;
}
void map_access(uintptr_t a, size_t n, bool w, void *pc) {
    for (auto &m : g_maps)
        if (a >= m.a && a < m.a + m.maplen) {
            if (a + n > m.a + m.len && g_cfg.bounds) {
                char b[160]; addr_name((uintptr_t) pc, b, sizeof b);
                violation("memory-error", "%s at %s lies outside the mapped file (offset %zu of %zu bytes)", w ? "write" : "read", b, (size_t) (a - m.a), m.len);
            }
            if (w && m.shared) {
                if (g_sh) g_sh->map_stores++;
                if (g_armed) {
                    ++g_stores;
                    if (g_crash_store && g_stores == g_crash_store) crash_now(FK_CRASH_STORE);
                }
                for (size_t k = (a - m.a + m.off) / PG; k <= (a - m.a + m.off + n - 1) / PG; ++k) {
                    if (!m.ino->lost.empty()) m.ino->lost.erase(k);
                    if (!take_page(m.ino, k))
                        violation("process-death", "SIGBUS: a store into a mapped page finds no room on the full disk (offset %zu)", (size_t) (a - m.a));
                }
            }
            return;
        }
    char b[160]; addr_name((uintptr_t) pc, b, sizeof b);
    violation("memory-error", "%s at %s touches no mapping (unmapped or out of bounds)", w ? "write" : "read", b);
}
static void *sim_mmap(void *hint, size_t len, int prot, int flags, int fd, off_t off) {
    RtScope rt_;
    Fd *f = fd_of(fd);
    int e = op_begin(IO_MMAP, f->path);
    if (e) { errno = e; return MAP_FAILED; }
    struct stat st;
    syscall(SYS_fstat, fd, &st);
    (void) hint;
    uintptr_t at = g_next_map;
    size_t ml = (len + PG - 1) / PG * PG;
    void *p = (void *) syscall(SYS_mmap, at, len, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
    if (p == MAP_FAILED) { int s = errno; op_end(); errno = s; return p; }
    g_next_map += ml + (1u << 20);
    size_t avail = (size_t) st.st_size > (size_t) off ? (size_t) st.st_size - off : 0;
    g_maps.push_back(Map{at, std::min(len, avail), ml, f->ino, f->path, (size_t) off, (flags & MAP_SHARED) != 0, (prot & PROT_WRITE) != 0, fd});
    f->ino->maps++;
    op_end();
    return p;
}
static ssize_t do_write(Fd *f, int fd, const void *b, size_t n, off_t at, bool pw) {
    RtScope rt_;
    int e = op_begin(IO_WRITE, f->path);
    if (e) { errno = e; return -1; }
    if (g_op_fault_mode == 1 && n > 1) n = 1 + n / 3;
    off_t pos = at;
    if (!pw) {
        pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        int fl = fcntl(fd, F_GETFL);
        if (fl & O_APPEND) { struct stat st; syscall(SYS_fstat, fd, &st); pos = st.st_size; }
    }
    if (n && f->ino) {
        size_t ok = 0;
        for (size_t k = pos / PG; k <= (pos + n - 1) / PG; ++k) {
            if (!take_page(f->ino, k)) break;
            f->ino->lost.erase(k);
            ok = std::min((size_t) n, (size_t) ((k + 1) * PG - pos));
        }
        if (ok == 0) { errno = ENOSPC; op_end(); errno = ENOSPC; return -1; }
        n = ok;
    }
    ssize_t r = pw ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
    int s = errno;
    op_end();
    errno = s;
    return r;
}
static ssize_t do_read(Fd *f, int fd, void *b, size_t n, off_t at, bool pr) {
    RtScope rt_;
    int e = op_begin(IO_READ, f->path);
    if (e) { errno = e; return -1; }
    if (g_op_fault_mode == 1 && n > 1) n = 1 + n / 3;
    ssize_t r = pr ? syscall(SYS_pread64, fd, b, n, at) : syscall(SYS_read, fd, b, n);
    int s = errno;
    op_end();
    errno = s;
    return r;
}
static int do_trunc(Fd *f, int fd, off_t len) {
    RtScope rt_;
    int e = op_begin(IO_TRUNC, f->path);
    if (e) { errno = e; return -1; }
    int r = (int) syscall(SYS_ftruncate, fd, len);
    if (r == 0 && f->ino) {
        size_t keep = (len + PG - 1) / PG;
        for (auto it = f->ino->alloc.lower_bound(keep); it != f->ino->alloc.end();) { it = f->ino->alloc.erase(it); g_used -= PG; if (g_quota >= 0) g_quota += PG; }
        for (auto &m : g_maps) if (m.ino == f->ino) m.len = std::min(m.len, (size_t) len);
    }
    int s = errno;
    op_end();
    errno = s;
    return r;
}
// returns an errno value
static int do_falloc(Fd *f, int fd, off_t off, off_t len, bool grow) {
    RtScope rt_;
    int e = op_begin(IO_FALLOC, f->path);
    if (e) return e;
    if (len <= 0 || off < 0) return EINVAL;
    for (size_t k = off / PG; k <= (size_t) (off + len - 1) / PG; ++k)
        if (!take_page(f->ino, k)) { op_end(); return ENOSPC; }
    struct stat st;
    syscall(SYS_fstat, fd, &st);
    if (grow && st.st_size < off + len) syscall(SYS_ftruncate, fd, off + len);
    op_end();
    return 0;
}
static int do_fsync(Fd *f, int fd) {
    RtScope rt_;
    int e = op_begin(IO_FSYNC, f->path);
    if (e) {
        if (f->ino && !f->ino->dir) write_back_failed(f->ino, slurp("/proc/self/fd/" + std::to_string(fd)), 0, ~(size_t) 0);
        errno = e;
        return -1;
    }
    if (!f->ino || f->ino->dir) dir_sync(f->path);
    else file_durable(f->ino, slurp("/proc/self/fd/" + std::to_string(fd)));
    op_end();
    return 0;
}
static int do_msync(Map *m, uintptr_t a, size_t n, int flags) {
    RtScope rt_;
    int e = op_begin(IO_MSYNC, m->path);
    std::string cur;
    for (auto &kv : g_cur_ns) if (kv.second == m->ino) cur = slurp(kv.first);
    if (cur.empty()) cur.assign((const char *) m->a, m->len);
    // only the synchronised range becomes durable (whole pages)
    size_t lo = (a - m->a + m->off) / PG * PG, hi = (a - m->a + m->off + n + PG - 1) / PG * PG;
    if (e) {
        if (e != ENOMEM) write_back_failed(m->ino, cur, lo, hi);
        errno = e;
        return -1;
    }
    if (flags & MS_SYNC) file_durable(m->ino, cur, lo, hi);
    op_end();
    return 0;
}
static int do_munmap(std::list<Map>::iterator it, size_t len) {
    RtScope rt_;
    Map &m = *it;
    op_begin(IO_MUNMAP, m.path);
    uintptr_t a = m.a;
    m.ino->maps--;
    release_space(m.ino);
    g_maps.erase(it);
    int r = (int) syscall(SYS_munmap, a, len);
    op_end();
    return r;
}
static int do_rename(const std::string &a, const std::string &b) {
    RtScope rt_;
    int e = op_begin(IO_RENAME, a + " -> " + (b.size() > g_dir.size() ? b.substr(g_dir.size()) : b));
    if (e) { errno = e; return -1; }
    int r = (int) syscall(SYS_rename, a.c_str(), b.c_str());
    int s = errno;
    if (r == 0) {
        Inode *old = g_cur_ns.count(b) ? g_cur_ns[b] : nullptr;
        Inode *i = g_cur_ns.count(a) ? g_cur_ns[a] : nullptr;
        if (i && a != b) {
            journal(2, a, b, i);
            if (old && old != i) {
                old->links--;
                release_space(old);
            }
        }
    }
    op_end();
    errno = s;
    return r;
}
static int do_unlink(const std::string &p, bool rmdir_) {
    RtScope rt_;
    int e = op_begin(IO_UNLINK, p);
    if (e) { errno = e; return -1; }
    int r = (int) syscall(rmdir_ ? SYS_rmdir : SYS_unlink, p.c_str());
    int s = errno;
    if (r == 0 && g_cur_ns.count(p)) {
        Inode *i = g_cur_ns[p];
        journal(rmdir_ ? 4 : 1, p, "", i);
        i->links--;
        release_space(i);
    }
    op_end();
    errno = s;
    return r;
}
static int do_mkdir(const std::string &p, mode_t mode) {
    RtScope rt_;
    int e = op_begin(IO_MKDIR, p);
    if (e) { errno = e; return -1; }
    int r = (int) syscall(SYS_mkdir, p.c_str(), mode);
    int s = errno;
    if (r == 0) {
        Inode *i = new Inode();
        i->id = g_next_ino++; i->dir = true; i->links = 1;
        journal(3, p, "", i);
    }
    op_end();
    errno = s;
    return r;
}
} // namespace sim
using namespace sim;

static int any_open(const char *p, int fl, mode_t mode) {
    std::string t;
    if (tracked(p, t)) return sim_open(t, fl, mode);
    return real_open(p, fl, mode);
}
#define OPEN_BODY                                                                     \
    mode_t mode = 0;                                                                  \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); }
SIM_EXPORT int open(const char *p, int fl, ...) { OPEN_BODY return any_open(p, fl, mode); }
SIM_EXPORT int open64(const char *p, int fl, ...) { OPEN_BODY return any_open(p, fl | O_LARGEFILE, mode); }
SIM_EXPORT int __open_2(const char *p, int fl) { return any_open(p, fl, 0); }
SIM_EXPORT int __open64_2(const char *p, int fl) { return any_open(p, fl, 0); }
static int any_openat(int d, const char *p, int fl, mode_t mode) {
    RtScope rt_;
    std::string t;
    if (p && p[0] == '/' && tracked(p, t)) return sim_open(t, fl, mode);
    if (d != AT_FDCWD && p && p[0] != '/' && g_active) {
        Fd *f = fd_of(d);
        if (f) { t = norm((f->path + "/" + p).c_str()); if (under(t)) return sim_open(t, fl, mode); }
    }
    return (int) syscall(SYS_openat, d, p, fl, mode);
}
SIM_EXPORT int openat(int d, const char *p, int fl, ...) { OPEN_BODY return any_openat(d, p, fl, mode); }
SIM_EXPORT int openat64(int d, const char *p, int fl, ...) { OPEN_BODY return any_openat(d, p, fl, mode); }
SIM_EXPORT int creat(const char *p, mode_t m) { return any_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int sim_dup(int fd, int r) {
    RtScope rt_;
    if (r < 0) return r;
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (f) { if (f->ino) f->ino->opens++; Fd c = *f; g_fds[r] = c; }
    return r;
}
SIM_EXPORT int dup(int fd) { return sim_dup(fd, (int) syscall(SYS_dup, fd)); }
SIM_EXPORT int close(int fd);
SIM_EXPORT int dup3(int fd, int to, int fl) {
    if (fd == to) return (int) syscall(SYS_dup3, fd, to, fl);
    if (g_active && fd_of(to)) close(to);
    return sim_dup(fd, (int) syscall(SYS_dup3, fd, to, fl));
}
SIM_EXPORT int dup2(int fd, int to) { return fd == to ? (int) syscall(SYS_dup2, fd, to) : dup3(fd, to, 0); }
SIM_EXPORT int close(int fd) {
    if (g_active && fd_of(fd)) return sim_close(fd);
    if (!g_fds.empty()) g_fds.erase(fd);
    return (int) syscall(SYS_close, fd);
}
SIM_EXPORT int ftruncate(int fd, off_t len) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_trunc(f, fd, len) : (int) syscall(SYS_ftruncate, fd, len); }
SIM_EXPORT int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
SIM_EXPORT int truncate(const char *p, off_t len) {
    std::string t;
    if (tracked(p, t)) { int fd = sim_open(t, O_RDWR, 0); if (fd < 0) return -1; int r = ftruncate(fd, len); int s = errno; sim_close(fd); errno = s; return r; }
    return (int) syscall(SYS_truncate, p, len);
}
SIM_EXPORT int truncate64(const char *p, off_t len) { return truncate(p, len); }
SIM_EXPORT int posix_fallocate(int fd, off_t off, off_t len) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (f) return do_falloc(f, fd, off, len, true);
    return syscall(SYS_fallocate, fd, 0, off, len) == 0 ? 0 : errno;
}
SIM_EXPORT int posix_fallocate64(int fd, off_t off, off_t len) { return posix_fallocate(fd, off, len); }
SIM_EXPORT int fallocate(int fd, int mode, off_t off, off_t len) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (f) { int e = do_falloc(f, fd, off, len, !(mode & 1)); if (e) { errno = e; return -1; } return 0; }
    return (int) syscall(SYS_fallocate, fd, mode, off, len);
}
SIM_EXPORT int fallocate64(int fd, int mode, off_t off, off_t len) { return fallocate(fd, mode, off, len); }
SIM_EXPORT ssize_t read(int fd, void *b, size_t n) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_read(f, fd, b, n, 0, false) : syscall(SYS_read, fd, b, n); }
SIM_EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_read(f, fd, b, n, o, true) : syscall(SYS_pread64, fd, b, n, o); }
SIM_EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
SIM_EXPORT ssize_t write(int fd, const void *b, size_t n) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_write(f, fd, b, n, 0, false) : syscall(SYS_write, fd, b, n); }
SIM_EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_write(f, fd, b, n, o, true) : syscall(SYS_pwrite64, fd, b, n, o); }
SIM_EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
SIM_EXPORT ssize_t writev(int fd, const struct iovec *iov, int c) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (!f) return syscall(SYS_writev, fd, iov, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!iov[i].iov_len) continue;
        ssize_t r = do_write(f, fd, iov[i].iov_base, iov[i].iov_len, 0, false);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t) r < iov[i].iov_len) break;
    }
    return tot;
}
SIM_EXPORT ssize_t readv(int fd, const struct iovec *iov, int c) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (!f) return syscall(SYS_readv, fd, iov, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!iov[i].iov_len) continue;
        ssize_t r = do_read(f, fd, iov[i].iov_base, iov[i].iov_len, 0, false);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t) r < iov[i].iov_len) break;
    }
    return tot;
}
SIM_EXPORT ssize_t pwritev(int fd, const struct iovec *iov, int c, off_t o) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (!f) return syscall(SYS_pwritev, fd, iov, c, o, 0);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!iov[i].iov_len) continue;
        ssize_t r = do_write(f, fd, iov[i].iov_base, iov[i].iov_len, o + tot, true);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t) r < iov[i].iov_len) break;
    }
    return tot;
}
SIM_EXPORT void *mmap(void *h, size_t len, int prot, int flags, int fd, off_t off) {
    if (g_active && fd >= 0 && !(flags & MAP_ANONYMOUS) && fd_of(fd) && fd_of(fd)->ino) return sim_mmap(h, len, prot, flags, fd, off);
    return (void *) syscall(SYS_mmap, h, len, prot, flags, fd, off);
}
SIM_EXPORT void *mmap64(void *h, size_t len, int prot, int flags, int fd, off_t off) { return mmap(h, len, prot, flags, fd, off); }
SIM_EXPORT int munmap(void *a, size_t len) {
    if (((uintptr_t) a >> 40) == 0x21)
        for (auto it = g_maps.begin(); it != g_maps.end(); ++it)
            if (it->a == (uintptr_t) a) {
                if (g_active) return do_munmap(it, len);
                g_maps.erase(it);
                break;
            }
    return (int) syscall(SYS_munmap, a, len);
}
SIM_EXPORT int msync(void *a, size_t n, int flags) {
    if (g_active)
        for (auto &m : g_maps)
            if ((uintptr_t) a >= m.a && (uintptr_t) a < m.a + m.maplen) return do_msync(&m, (uintptr_t) a, n, flags);
    return (int) syscall(SYS_msync, a, n, flags);
}
SIM_EXPORT int fsync(int fd) { Fd *f = g_active ? fd_of(fd) : nullptr; return f ? do_fsync(f, fd) : (int) syscall(SYS_fsync, fd); }
SIM_EXPORT int fdatasync(int fd) { return fsync(fd); }
SIM_EXPORT int syncfs(int fd) {
    RtScope rt_;
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (!f) return 0;
    int e = op_begin(IO_FSYNC, f->path);
    if (e) { errno = e; return -1; }
    for (auto &kv : current_contents()) file_durable(kv.first, kv.second);
    for (auto &o : g_journal) o.durable = true;
    return 0;
}
SIM_EXPORT void sync() {
    RtScope rt_;
    if (!g_active || g_dir.empty()) return;
    op_begin(IO_FSYNC, g_dir);
    for (auto &kv : current_contents()) file_durable(kv.first, kv.second);
    for (auto &o : g_journal) o.durable = true;
}
SIM_EXPORT int rename(const char *a, const char *b) {
    std::string x, y;
    if (tracked(a, x) && tracked(b, y)) return do_rename(x, y);
    return (int) syscall(SYS_rename, a, b);
}
SIM_EXPORT int renameat(int d1, const char *a, int d2, const char *b) {
    std::string x, y;
    if (tracked(a, x) && tracked(b, y)) return do_rename(x, y);
    return (int) syscall(SYS_renameat, d1, a, d2, b);
}
SIM_EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) {
    std::string x, y;
    if (fl == 0 && tracked(a, x) && tracked(b, y)) return do_rename(x, y);
    return (int) syscall(SYS_renameat2, d1, a, d2, b, fl);
}
static int do_link(const std::string &a, const std::string &b, bool symbolic) {
    RtScope rt_;
    int e = op_begin(IO_RENAME, b);
    if (e) { errno = e; return -1; }
    int r = (int) (symbolic ? syscall(SYS_symlink, a.c_str(), b.c_str()) : syscall(SYS_link, a.c_str(), b.c_str()));
    int s = errno;
    if (r == 0) {
        Inode *i = nullptr;
        if (!symbolic && g_cur_ns.count(a)) { i = g_cur_ns[a]; i->links++; }
        else { i = new Inode(); i->id = g_next_ino++; i->links = 1; i->link = a; }
        DirOp o{5, b, "", i, false}; // like a creation, but flushing the file does not make this entry durable
        g_journal.push_back(o);
        g_cur_ns[b] = i;
    }
    op_end();
    errno = s;
    return r;
}
SIM_EXPORT int link(const char *a, const char *b) {
    std::string x, y;
    if (tracked(a, x) && tracked(b, y)) return do_link(x, y, false);
    return (int) syscall(SYS_link, a, b);
}
SIM_EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) {
    std::string x, y;
    if (a && b && (a[0] == '/' || d1 == AT_FDCWD) && (b[0] == '/' || d2 == AT_FDCWD) && tracked(a, x) && tracked(b, y)) return do_link(x, y, false);
    return (int) syscall(SYS_linkat, d1, a, d2, b, fl);
}
SIM_EXPORT int symlink(const char *a, const char *b) {
    std::string y;
    if (tracked(b, y)) return do_link(a, y, true);
    return (int) syscall(SYS_symlink, a, b);
}
// callers fall back to reading and writing
SIM_EXPORT ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
    if (g_active && (fd_of(i) || fd_of(o))) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, i, oi, o, oo, n, fl);
}
SIM_EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (g_active && (fd_of(i) || fd_of(o))) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
SIM_EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *) off, n); }
SIM_EXPORT int unlink(const char *p) { std::string t; return tracked(p, t) ? do_unlink(t, false) : (int) syscall(SYS_unlink, p); }
SIM_EXPORT int rmdir(const char *p) { std::string t; return tracked(p, t) ? do_unlink(t, true) : (int) syscall(SYS_rmdir, p); }
SIM_EXPORT int unlinkat(int d, const char *p, int fl) {
    RtScope rt_;
    std::string t;
    if (p && p[0] == '/') { if (tracked(p, t)) return do_unlink(t, fl & AT_REMOVEDIR); }
    else if (g_active) { Fd *f = fd_of(d); if (f) { t = norm((f->path + "/" + p).c_str()); if (under(t)) return do_unlink(t, fl & AT_REMOVEDIR); } }
    return (int) syscall(SYS_unlinkat, d, p, fl);
}
SIM_EXPORT int remove(const char *p) {
    std::string t;
    if (tracked(p, t)) { bool d = g_cur_ns.count(t) && g_cur_ns[t]->dir; return do_unlink(t, d); }
    int r = (int) syscall(SYS_unlink, p);
    if (r != 0 && errno == EISDIR) r = (int) syscall(SYS_rmdir, p);
    return r;
}
SIM_EXPORT int mkdir(const char *p, mode_t m) { std::string t; return tracked(p, t) ? do_mkdir(t, m) : (int) syscall(SYS_mkdir, p, m); }
SIM_EXPORT int mkdirat(int d, const char *p, mode_t m) { std::string t; return tracked(p, t) ? do_mkdir(t, m) : (int) syscall(SYS_mkdirat, d, p, m); }
SIM_EXPORT int fstat(int fd, struct stat *st) {
    Fd *f = g_active ? fd_of(fd) : nullptr;
    if (f) { int e = op_begin(IO_STAT, f->path); if (e) { errno = e; return -1; } }
    return (int) syscall(SYS_fstat, fd, st);
}
SIM_EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *) st); }
SIM_EXPORT int stat(const char *p, struct stat *st) {
    std::string t;
    if (tracked(p, t)) { int e = op_begin(IO_STAT, t); if (e) { errno = e; return -1; } }
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
SIM_EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *) st); }
SIM_EXPORT int lstat(const char *p, struct stat *st) {
    std::string t;
    if (tracked(p, t)) { int e = op_begin(IO_STAT, t); if (e) { errno = e; return -1; } }
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
SIM_EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *) st); }
// Streams: the C library's buffering over simulated reads and writes.
struct Stream { int fd; };
static std::unordered_map<FILE *, int> g_streams;
static ssize_t stream_read(void *c, char *b, size_t n) { return read(((Stream *) c)->fd, b, n); }
static ssize_t stream_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t r = write(((Stream *) c)->fd, b + done, n - done);
        if (r < 0) { if (!done) return 0; break; }
        done += r;
    }
    return (ssize_t) done;
}
static int stream_seek(void *c, off64_t *o, int whence) {
    off_t r = (off_t) syscall(SYS_lseek, ((Stream *) c)->fd, *o, whence);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int stream_close(void *c) {
    int fd = ((Stream *) c)->fd;
    free(c);
    return close(fd);
}
static FILE *stream_over(int fd, const char *m) {
    RtScope rt_;
    Stream *c = (Stream *) malloc(sizeof(Stream));
    c->fd = fd;
    FILE *f = fopencookie(c, m, {stream_read, stream_write, stream_seek, stream_close});
    if (!f) { free(c); return nullptr; }
    __fsetlocking(f, FSETLOCKING_BYCALLER); // only one simulated thread runs at a time
    setvbuf(f, nullptr, _IOFBF, 4096);
    g_streams[f] = fd;
    return f;
}
SIM_EXPORT FILE *fopen(const char *p, const char *m) {
    RtScope rt_;
    typedef FILE *(*F)(const char *, const char *);
    static F real = (F) dlsym(RTLD_NEXT, "fopen");
    std::string t;
    if (!tracked(p, t)) return real(p, m);
    int fl = 0;
    bool plus = strchr(m, '+') != nullptr;
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = sim_open(t, fl, 0666);
    return fd < 0 ? nullptr : stream_over(fd, m);
}
SIM_EXPORT FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
SIM_EXPORT FILE *fdopen(int fd, const char *m) {
    typedef FILE *(*F)(int, const char *);
    static F real = (F) dlsym(RTLD_NEXT, "fdopen");
    return g_active && fd_of(fd) ? stream_over(fd, m) : real(fd, m);
}
SIM_EXPORT int fileno(FILE *f) {
    typedef int (*F)(FILE *);
    static F real = (F) dlsym(RTLD_NEXT, "fileno");
    if (!g_streams.empty()) { auto it = g_streams.find(f); if (it != g_streams.end()) return it->second; }
    return real(f);
}
SIM_EXPORT int fileno_unlocked(FILE *f) { return fileno(f); }
SIM_EXPORT int fclose(FILE *f) {
    typedef int (*F)(FILE *);
    static F real = (F) dlsym(RTLD_NEXT, "fclose");
    if (!g_streams.empty()) g_streams.erase(f);
    return real(f);
}
// A new file with a name of its own.
static int any_mkstemp(char *p, int suffix, int fl) {
    size_t n = strlen(p);
    std::string t;
    if (n < 6 + (size_t) suffix || strncmp(p + n - suffix - 6, "XXXXXX", 6) != 0) { errno = EINVAL; return -1; }
    static const char *cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    static uint64_t calls;
    for (int tries = 0; tries < 100; ++tries) {
        uint64_t v = mix(g_active ? g_cfg.alloc_seed : (uint64_t) time(nullptr) * 1000003 + (uint64_t) getpid(), ++calls);
        for (int i = 0; i < 6; ++i) { p[n - suffix - 6 + i] = cs[v % 62]; v /= 62; }
        int fd = open(p, (fl & ~O_ACCMODE) | O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
SIM_EXPORT int mkstemp(char *p) { return any_mkstemp(p, 0, 0); }
SIM_EXPORT int mkstemp64(char *p) { return any_mkstemp(p, 0, 0); }
SIM_EXPORT int mkostemp(char *p, int fl) { return any_mkstemp(p, 0, fl); }
SIM_EXPORT int mkostemp64(char *p, int fl) { return any_mkstemp(p, 0, fl); }
SIM_EXPORT int mkstemps(char *p, int n) { return any_mkstemp(p, n, 0); }
SIM_EXPORT int mkostemps(char *p, int n, int fl) { return any_mkstemp(p, n, fl); }
SIM_EXPORT int sim_ioctl(int fd, unsigned long req, void *arg) {
    if (req == TIOCGWINSZ) {
        if (g_cfg.tty_width < 0) { errno = ENOTTY; return -1; }
        auto *w = (struct winsize *) arg;
        memset(w, 0, sizeof *w);
        w->ws_col = g_cfg.tty_width; w->ws_row = 24;
        return 0;
    }
    return (int) syscall(SYS_ioctl, fd, req, arg);
}
SIM_EXPORT int sim_isatty(int) { return g_cfg.tty_width >= 0; }
