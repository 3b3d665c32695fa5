// Shared harness runtime: seeded cases, failure reporting, observation counters.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>

#include "ferret.h"

using std::string;
using std::vector;
using std::map;
using std::set;
using std::pair;

// ------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> const T &pick(const vector<T> &v) { return v[below((uint32_t)v.size())]; }
    // skewed size: mostly small, sometimes large
    int skew(int max) {
        int r = below(10);
        if (r < 6) return below(std::min(max, 4) + 1);
        if (r < 9) return below(std::min(max, 16) + 1);
        return below(max + 1);
    }
};

static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static inline uint64_t fnv(const string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ------------------------------------------------------------------ strings
static inline string vfmt(const char *f, va_list ap) {
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf, f, ap);
    if (n < 0) return "";
    return string(buf, std::min((size_t)n, sizeof buf - 1));
}
__attribute__((format(printf, 1, 2)))
static inline string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap); return s;
}
static inline string esc(const string &s, size_t max = 120) {
    string o = "'";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c >= 0x20 && c < 0x7f && c != '\\' && c != '\'') o += (char)c;
        else o += fmt("\\x%02x", c);
    }
    o += "'";
    if (s.size() > max) o += fmt("..(%zu bytes)", s.size());
    return o;
}
static inline string jesc(const string &s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}

// ------------------------------------------------------------------ failures
struct Fail { string key, msg; };
[[noreturn]] __attribute__((format(printf, 2, 3)))
static inline void fail(const char *key, const char *f, ...) {
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
    throw Fail{key, s};
}
#define CHECK(cond, key, ...) do { if (!(cond)) fail(key, __VA_ARGS__); } while (0)

struct Skip { string why; };

// ------------------------------------------------------------------ run state
struct Run {
    uint64_t seed = 1;
    bool thorough = false;
    bool verbose = false;
    string mode, scratch = ".", out;
    long case_no = 0;
    // observations
    long evals = 0;
    std::unordered_set<uint64_t> distinct;
    map<string, long> counters;
    vector<string> samples;
    vector<string> trace;          // per case
    uint64_t case_sig = 0;
    bool case_nontrivial = false;
    FILE *fo = nullptr;
};
static Run R;

__attribute__((format(printf, 1, 2)))
static inline void note(const char *f, ...) {
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
    if (R.verbose) { fprintf(stderr, "  | %s\n", s.c_str()); }
    if (R.trace.size() < 400) R.trace.push_back(s);
}
static inline void count(const string &k, long n = 1) { R.counters[k] += n; }
static inline void sig(uint64_t h) { R.case_sig = (R.case_sig ^ h) * 1099511628211ull + 0x9E37; }
static inline void sig(const string &s) { sig(fnv(s)); }
static inline void nontrivial(bool b = true) { if (b) R.case_nontrivial = true; }
static inline void sample(const string &s) { if (R.samples.size() < 3) R.samples.push_back(s.substr(0, 700)); }

// Runs f under the library's exception framework. f must not own C++ objects
// when it raises (a longjmp skips destructors): pass data in by reference.
// Returns 0 or the exception code.
template <class F> __attribute__((noinline)) static int guarded(F f, string *msg = nullptr) {
    volatile int code = 0;
    static thread_local std::exception_ptr ep_slot[8];
    static thread_local int depth = 0;
    const int my = depth++;
    ep_slot[my & 7] = nullptr;
    FRT_TRY
        try { f(); } catch (...) { ep_slot[my & 7] = std::current_exception(); }
        break;
    default:
        code = xcontext.excode;
        if (msg) *msg = xcontext.msg ? xcontext.msg : "";
        FRT_HANDLED();
        break;
    case FRT_FINALLY:
        break;
    FRT_ENDTRY
    depth = my;
    if (ep_slot[my & 7]) { std::exception_ptr e = ep_slot[my & 7]; ep_slot[my & 7] = nullptr; std::rethrow_exception(e); }
    return code;
}

// ------------------------------------------------------------------ scratch
static inline void rm_rf(const string &d) {
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (struct dirent *e = readdir(dp)) {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
        else unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}
static inline string fresh_dir(const char *tag) {
    static long n = 0;
    string d = R.scratch + fmt("/%s_%ld_%d_%ld", tag, R.case_no, (int)getpid(), n++);
    mkdir(d.c_str(), 0755);
    return d;
}
struct DirGuard { string d; explicit DirGuard(const char *tag) : d(fresh_dir(tag)) {} ~DirGuard() { rm_rf(d); } };
static inline vector<string> list_dir(const string &d) {
    vector<string> v;
    DIR *dp = opendir(d.c_str());
    if (!dp) return v;
    while (struct dirent *e = readdir(dp)) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    closedir(dp);
    std::sort(v.begin(), v.end());
    return v;
}
static inline bool read_file(const string &p, string &out) {
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return false;
    out.clear(); char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
    fclose(f); return true;
}
static inline void write_file(const string &p, const string &s) {
    FILE *f = fopen(p.c_str(), "wb");
    if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
// Descriptors of files and directories: a sanitizer that has reported keeps pipes to its symbolizer.
static inline int open_fds() {
    int n = 0; DIR *dp = opendir("/proc/self/fd"); char p[64], l[512];
    if (!dp) return -1;
    while (struct dirent *e = readdir(dp)) if (e->d_name[0] != '.' && atoi(e->d_name) != dirfd(dp)) {
        snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); ssize_t k = readlink(p, l, sizeof l - 1); if (k < 0) continue; l[k] = 0; if (l[0] == '/') n++;
    }
    closedir(dp);
    return n;
}

// ------------------------------------------------------------------ main
typedef void (*case_fn)(Rng &);
static map<string, case_fn> MODES;
struct Mode { Mode(const char *n, case_fn f) { MODES[n] = f; } };
#define MODE(name) static void case_##name(Rng &rng); static Mode mode_##name(#name, case_##name); static void case_##name(Rng &rng)

static void (*g_after_case)() = nullptr;
static void (*g_at_start)() = nullptr;

static inline void emit_violation(const string &key, const string &msg) {
    string t = "[";
    size_t from = R.trace.size() > 60 ? R.trace.size() - 60 : 0;
    for (size_t i = from; i < R.trace.size(); i++) { if (i > from) t += ","; t += jesc(R.trace[i].substr(0, 400)); }
    t += "]";
    fprintf(R.fo, "{\"t\":\"violation\",\"case\":%ld,\"key\":%s,\"msg\":%s,\"trace\":%s}\n", R.case_no,
            jesc(key).c_str(), jesc(msg).c_str(), t.c_str());
    fflush(R.fo);
}

// ---- with VERIF_MEM set, nothing a case allocated or opened may be left when it is over
extern "C" { int __lsan_do_recoverable_leak_check(void) __attribute__((weak)); void __sanitizer_set_report_path(const char *) __attribute__((weak)); }
static bool leaks_checked() { return getenv("VERIF_MEM") && __lsan_do_recoverable_leak_check && __sanitizer_set_report_path; }
// The report of what leaked since, with its key: the library function that allocated it. Leaks of the harness itself are not counted.
static bool leaked(string *key, string *msg) {
    string path = R.scratch + "/leak"; __sanitizer_set_report_path(path.c_str());
    int r = __lsan_do_recoverable_leak_check(); __sanitizer_set_report_path("stderr");
    path += "." + std::to_string(getpid()); string t; if (FILE *f = fopen(path.c_str(), "r")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); unlink(path.c_str()); }
    if (!r) return false;
    for (size_t i = 0; (i = t.find("Direct leak", i)) != string::npos; i++) {
        size_t e = t.find("\n\n", i); string b = t.substr(i, e - i), fn; std::istringstream is(b); string l; bool lib = false;
        while (std::getline(is, l)) {
            size_t in = l.find(" in "); if (in == string::npos) continue;
            if (l.find("/h/") != string::npos && l.find("/c/src/") == string::npos) break;         // the harness called for it before any library frame
            if (l.find("/c/src/") == string::npos && l.find("/c/lib/") == string::npos && l.find("/c/include/") == string::npos) continue;
            fn = l.substr(in + 4); fn = fn.substr(0, fn.find(' '));
            if (fn == "frt_emalloc" || fn == "frt_ecalloc" || fn == "frt_erealloc" || fn == "frt_estrdup") continue;
            lib = true; break;
        }
        if (lib) { *key = "leak:" + fn; *msg = b.substr(0, 3000); return true; }
    }
    return false;
}

int main(int argc, char **argv) {
    long from = 0, to = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--mode") R.mode = v;
        else if (a == "--seed") R.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = atol(v.c_str());
        else if (a == "--to") to = atol(v.c_str());
        else if (a == "--out") R.out = v;
        else if (a == "--scratch") R.scratch = v;
        else if (a == "--tier") R.thorough = v == "thorough";
        else if (a == "--verbose") R.verbose = v == "1";
    }
    if (!MODES.count(R.mode)) { fprintf(stderr, "unknown mode %s\n", R.mode.c_str()); return 4; }
    R.fo = R.out.empty() ? stdout : fopen(R.out.c_str(), "a");
    if (!R.fo) { perror(R.out.c_str()); return 4; }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    {   // the library installs its own crash handlers: keep the sanitizer's
        const int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}; struct sigaction old[5];
        for (int i = 0; i < 5; i++) sigaction(sg[i], nullptr, &old[i]);
        const char *av[] = {"harness"}; frt_init(1, av);
        for (int i = 0; i < 5; i++) sigaction(sg[i], &old[i], nullptr);
    }
    if (g_at_start) g_at_start();
    case_fn fn = MODES[R.mode]; const bool mem = leaks_checked(); const int fds = open_fds();
    for (R.case_no = from; R.case_no < to; R.case_no++) {
        fprintf(R.fo, "{\"t\":\"start\",\"case\":%ld}\n", R.case_no);
        fflush(R.fo);
        R.trace.clear(); R.case_sig = 7; R.case_nontrivial = false;
        Rng rng(R.seed * 1000003ull + (uint64_t)R.case_no * 7919ull + fnv(R.mode));
        try {
            string why; int code = guarded([&] { fn(rng); }, &why);
            if (code) fail(fmt("raised-%d", code).c_str(), "the library raised error %d: %s", code, why.c_str());
            if (g_after_case) g_after_case();
            if (mem) {
                CHECK(open_fds() == fds, "fd-leak", "%d file descriptors are open after the case, %d before it", open_fds(), fds);
                string k, m; if (leaked(&k, &m)) { emit_violation(k, m); R.evals++; break; }          // the leaked stay: no case after this one can be judged
                count("leak_checks");
            }
        }
        catch (Fail &f) { emit_violation(f.key, f.msg); if (mem) { R.evals++; break; } }           // the harness left its own things behind
        catch (Skip &) { count("skipped"); continue; }
        R.evals++;
        if (R.case_nontrivial) R.distinct.insert(R.case_sig);
    }
    fprintf(R.fo, "{\"t\":\"done\",\"evals\":%ld,\"counters\":{", R.evals);
    bool first = true;
    for (auto &kv : R.counters) { fprintf(R.fo, "%s%s:%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(R.fo, "},\"samples\":[");
    for (size_t i = 0; i < R.samples.size(); i++) fprintf(R.fo, "%s%s", i ? "," : "", jesc(R.samples[i]).c_str());
    fprintf(R.fo, "],\"distinct\":[");
    first = true;
    for (uint64_t h : R.distinct) { fprintf(R.fo, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(R.fo, "]}\n");
    fclose(R.fo);
    return 0;
}
