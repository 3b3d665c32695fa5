// Monitor and fault injector at the system-call boundary. The harness is linked with
// --wrap for every call below; calls on files under the watched directory are recorded
// (an ordered log of changes) and can be made to fail.
#pragma once
#include "common.h"
#include <sys/mman.h>

struct IoEv { enum K { CREATE, TRUNC, WRITE, REMOVE, RENAME } k; string a, b; long off = 0; string data; long lo = 0, hi = 0; };
typedef map<string, string> Files;

struct IoMon {
    bool armed = false, rec = false;
    string dir;                                   // watched directory
    struct Fd { string name; long pos; };
    map<int, Fd> fds;
    vector<IoEv> log;
    long lo = 0, hi = 0;
    long calls = 0;                               // calls seen while armed
    map<string, long> kinds;
    // faults
    long fail_at = -1; int persistent = 0; bool lock_stuck = false; int mode = 0; bool fired = false; string what; string only;
    vector<string> names;                         // call log for the dry run
    bool watch(const char *p, string *name) const {
        if (!armed || dir.empty()) return false;
        if (strncmp(p, dir.c_str(), dir.size()) != 0) return false;
        if (p[dir.size()] == 0) { *name = ""; return true; }
        if (p[dir.size()] != '/') return false;
        *name = p + dir.size() + 1; return true;
    }
    // true when this call has to fail
    bool tick(const char *op, const string &name) {
        if (!armed) return false;
        long n = calls++;
        kinds[op]++;
        if (names.size() < 20000) names.push_back(string(op) + " " + name);
        if (fail_at < 0) return false;
        if (n == fail_at || (fired && later(op))) {
            if (!fired) what = fmt("call %ld %s %s", n, op, name.c_str());
            fired = true; return true;
        }
        return false;
    }
    static bool mutating(const char *op) { return strcmp(op, "read") && strcmp(op, "lseek") && strcmp(op, "fstat") && strcmp(op, "stat") && strcmp(op, "opendir") && strcmp(op, "open") && strcmp(op, "close"); }
    // which later calls fail too: 1 every change, 2 whatever needs space, 3 every call
    bool later(const char *op) const { return persistent == 3 || (persistent == 1 && mutating(op)) || (persistent == 2 && (!strcmp(op, "write") || !strcmp(op, "create"))); }
    void ev(IoEv e) { if (rec) { e.lo = lo; e.hi = hi; log.push_back(std::move(e)); } }
    void arm(const string &d) { dir = d; armed = true; calls = 0; fds.clear(); names.clear(); fired = false; lock_stuck = false; what.clear(); }
    void disarm() { armed = false; rec = false; fail_at = -1; }
};
static IoMon IO;

static inline void io_apply(Files &f, const IoEv &e, long part = -1) {
    switch (e.k) {
        case IoEv::CREATE: f[e.a]; break;
        case IoEv::TRUNC: { string &s = f[e.a]; s.resize(e.off, 0); break; }
        case IoEv::WRITE: { string &s = f[e.a]; size_t n = part < 0 ? e.data.size() : (size_t)part; if (s.size() < e.off + n) s.resize(e.off + n, 0); memcpy(&s[e.off], e.data.data(), n); break; }
        case IoEv::REMOVE: f.erase(e.a); break;
        case IoEv::RENAME: { auto it = f.find(e.a); if (it != f.end()) { string s = it->second; f.erase(it); f[e.b] = s; } break; }
    }
}
static inline string io_name(const IoEv &e) {
    static const char *n[] = {"create", "truncate", "write", "remove", "rename"};
    return fmt("%s %s%s%s", n[e.k], e.a.c_str(), e.k == IoEv::RENAME ? (" to " + e.b).c_str() : "", e.k == IoEv::WRITE ? fmt(" %zu bytes at %ld", e.data.size(), e.off).c_str() : "");
}
static inline Files read_files(const string &d) { Files f; for (auto &n : list_dir(d)) { struct stat st; if (stat((d + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) continue; string s; read_file(d + "/" + n, s); f[n] = s; } return f; }
static inline bool is_lock_name(const string &n) { return n.size() > 4 && n.substr(n.size() - 4) == ".lck"; }
static inline void write_files(const string &d, const Files &f) { for (auto &kv : f) if (!is_lock_name(kv.first)) write_file(d + "/" + kv.first, kv.second); }
static inline uint64_t files_hash(const Files &f) { uint64_t h = 11; for (auto &kv : f) if (!is_lock_name(kv.first)) h = fnv(kv.second, fnv(kv.first, h)) * 31; return h; }

extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, open, const char *, int, ...); REAL(int, open64, const char *, int, ...);
REAL(int, creat, const char *, mode_t); REAL(int, creat64, const char *, mode_t);
REAL(ssize_t, write, int, const void *, size_t); REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread, int, void *, size_t, off_t); REAL(ssize_t, pread64, int, void *, size_t, off_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t); REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
REAL(int, close, int); REAL(off_t, lseek, int, off_t, int); REAL(off_t, lseek64, int, off_t, int);
REAL(int, stat, const char *, struct stat *); REAL(int, stat64, const char *, struct stat64 *);
REAL(int, fstat, int, struct stat *); REAL(int, fstat64, int, struct stat64 *);
REAL(int, remove, const char *); REAL(int, unlink, const char *); REAL(int, rename, const char *, const char *);
REAL(int, ftruncate, int, off_t); REAL(int, ftruncate64, int, off_t);
REAL(DIR *, opendir, const char *);
REAL(void, frt_micro_sleep, int);

static int io_err(int e) { errno = e; return -1; }
static int io_open(const char *p, int flags, mode_t mode, int (*real)(const char *, int, ...)) {
    string n; if (!IO.watch(p, &n)) return real(p, flags, mode);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (IO.tick(wr ? "create" : "open", n)) return io_err(IO.mode % 2 ? EMFILE : EIO);
    bool was = access(p, F_OK) == 0;
    int fd = real(p, flags, mode);
    if (fd < 0) { int e = errno; errno = e; return fd; }
    IO.fds[fd] = {n, 0};
    if (wr && !was) IO.ev({IoEv::CREATE, n}); else if (wr && (flags & O_TRUNC)) IO.ev({IoEv::TRUNC, n});
    return fd;
}
int __wrap_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return io_open(p, flags, m, __real_open); }
int __wrap_open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return io_open(p, flags, m, __real_open64); }
int __wrap_creat(const char *p, mode_t m) { return io_open(p, O_WRONLY | O_CREAT | O_TRUNC, m, __real_open); }
int __wrap_creat64(const char *p, mode_t m) { return io_open(p, O_WRONLY | O_CREAT | O_TRUNC, m, __real_open64); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_write(fd, b, n);
    size_t len = n; int err = 0;
    if (IO.tick("write", it->second.name)) { if (IO.mode % 3 == 2 && n > 1) { len = n / 2; err = -2; } else return io_err(IO.mode % 3 ? ENOSPC : EIO); }
    long pos = (long)__real_lseek64(fd, 0, SEEK_CUR);
    ssize_t r = __real_write(fd, b, len);
    if (r > 0) IO.ev({IoEv::WRITE, it->second.name, "", pos, string((const char *)b, (size_t)r)});
    if (err == -2) errno = ENOSPC;
    return r;
}
static ssize_t io_pwrite(int fd, const void *b, size_t n, off_t off) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_pwrite64(fd, b, n, off);
    if (IO.tick("write", it->second.name)) return io_err(IO.mode % 2 ? ENOSPC : EIO);
    ssize_t r = __real_pwrite64(fd, b, n, off);
    if (r > 0) IO.ev({IoEv::WRITE, it->second.name, "", (long)off, string((const char *)b, (size_t)r)});
    return r;
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t off) { return io_pwrite(fd, b, n, off); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t off) { return io_pwrite(fd, b, n, off); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_read(fd, b, n);
    if (IO.tick("read", it->second.name)) { if (IO.mode % 3 == 2 && n > 1) return __real_read(fd, b, n / 2); return io_err(EIO); }
    return __real_read(fd, b, n);
}
static ssize_t io_pread(int fd, void *b, size_t n, off_t off) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_pread64(fd, b, n, off);
    if (IO.tick("read", it->second.name)) { if (IO.mode % 3 == 2 && n > 1) return __real_pread64(fd, b, n / 2, off); return io_err(EIO); }
    return __real_pread64(fd, b, n, off);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t off) { return io_pread(fd, b, n, off); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t off) { return io_pread(fd, b, n, off); }
int __wrap_close(int fd) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_close(fd);
    string n = it->second.name; IO.fds.erase(it);
    bool f = IO.tick("close", n);
    // a close that fails may have lost what was written (a full quota, a server that is gone)
    if (f && IO.mode % 2 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) { long half = (long)__real_lseek64(fd, 0, SEEK_END) / 2; if (__real_ftruncate(fd, half) == 0) IO.ev({IoEv::TRUNC, n, "", half}); }
    int r = __real_close(fd);
    return f ? io_err(EIO) : r;
}
static off_t io_lseek(int fd, off_t o, int w) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_lseek64(fd, o, w);
    if (IO.tick("lseek", it->second.name)) return io_err(EIO);
    return __real_lseek64(fd, o, w);
}
off_t __wrap_lseek(int fd, off_t o, int w) { return io_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return io_lseek(fd, o, w); }
int __wrap_stat(const char *p, struct stat *s) { string n; if (IO.watch(p, &n) && IO.tick("stat", n)) return io_err(EIO); return __real_stat(p, s); }
int __wrap_stat64(const char *p, struct stat64 *s) { string n; if (IO.watch(p, &n) && IO.tick("stat", n)) return io_err(EIO); return __real_stat64(p, s); }
int __wrap_fstat(int fd, struct stat *s) { auto it = IO.fds.find(fd); if (it != IO.fds.end() && IO.tick("fstat", it->second.name)) return io_err(EIO); return __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat64 *s) { auto it = IO.fds.find(fd); if (it != IO.fds.end() && IO.tick("fstat", it->second.name)) return io_err(EIO); return __real_fstat64(fd, s); }
static int io_remove(const char *p, int (*real)(const char *)) {
    string n; if (!IO.watch(p, &n)) return real(p);
    if (IO.tick("remove", n)) { if (is_lock_name(n)) IO.lock_stuck = true; return io_err(EACCES); }
    int r = real(p);
    if (r == 0) IO.ev({IoEv::REMOVE, n});
    return r;
}
int __wrap_remove(const char *p) { return io_remove(p, __real_remove); }
int __wrap_unlink(const char *p) { return io_remove(p, __real_unlink); }
int __wrap_rename(const char *a, const char *b) {
    string n, m; if (!IO.watch(a, &n) || !IO.watch(b, &m)) return __real_rename(a, b);
    if (IO.tick("rename", n)) return io_err(EACCES);
    int r = __real_rename(a, b);
    if (r == 0) IO.ev({IoEv::RENAME, n, m});
    return r;
}
static int io_ftrunc(int fd, off_t o) {
    auto it = IO.fds.find(fd); if (it == IO.fds.end()) return __real_ftruncate64(fd, o);
    if (IO.tick("ftruncate", it->second.name)) return io_err(EIO);
    int r = __real_ftruncate64(fd, o);
    if (r == 0) IO.ev({IoEv::TRUNC, it->second.name, "", (long)o});
    return r;
}
int __wrap_ftruncate(int fd, off_t o) { return io_ftrunc(fd, o); }
int __wrap_ftruncate64(int fd, off_t o) { return io_ftrunc(fd, o); }
DIR *__wrap_opendir(const char *p) { string n; if (IO.watch(p, &n) && IO.tick("opendir", n)) { errno = EMFILE; return NULL; } return __real_opendir(p); }
static bool g_sleep = false;
void __wrap_frt_micro_sleep(int us) { if (g_sleep) __real_frt_micro_sleep(us); }
}
