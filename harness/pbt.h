// Choice-sequence based property-testing engine (generation, isolation in child
// processes, shrinking, replay, statistics).  A case is a pure function of the
// sequence of bounded choices drawn from Src; a failing sequence is shrunk and
// becomes the replay file.
#pragma once
#include <sys/fsuid.h>
#include <sys/prctl.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <poll.h>
#include <time.h>

namespace pbt {

typedef unsigned long long u64;

// ---------------------------------------------------------------- utilities
inline std::string vfmt(const char* f, va_list ap) {
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
    std::string s; if (n <= 0) return s;
    s.resize(n + 1); vsnprintf(&s[0], n + 1, f, ap); s.resize(n); return s;
}
__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

inline std::string esc(const std::string& s, size_t limit = 200) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (o.size() >= limit) { o += fmt("...(%zu bytes)", s.size()); break; }
        unsigned char c = (unsigned char)s[i];
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c == '\\') o += "\\\\"; else if (c == '"') o += "\\\"";
        else if (c < 32 || c >= 127) o += fmt("\\x%02x", c); else o += (char)c;
    }
    return o;
}
inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += (char)c;
    }
    return o + "\"";
}
inline u64 mono_ms() {   // real monotonic clock by raw syscall: harnesses may replace the libc clock
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
inline void real_sleep_ms(int ms) { poll(nullptr, 0, ms); }
inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ULL) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

inline bool read_file(const std::string& path, std::string& out) {
    out.clear();
    int fd = ::open(path.c_str(), O_RDONLY | O_NONBLOCK); if (fd < 0) return false;
    char buf[65536]; ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0) out.append(buf, n);
    ::close(fd); return true;
}
inline bool write_file(const std::string& path, const std::string& data) {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return false;
    size_t o = 0; while (o < data.size()) { ssize_t n = ::write(fd, data.data() + o, data.size() - o); if (n <= 0) { ::close(fd); return false; } o += n; }
    ::close(fd); return true;
}
inline std::vector<std::string> list_dir(const std::string& p) {
    std::vector<std::string> v; DIR* d = opendir(p.c_str()); if (!d) return v;
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
    closedir(d); std::sort(v.begin(), v.end()); return v;
}
inline int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
inline int open_cb(const char* p, const struct stat* st, int, struct FTW*) { if (S_ISDIR(st->st_mode)) chmod(p, 0700); return 0; }
inline void wipe_dir(const std::string& d) {   // removes the contents of d (d itself stays)
    if (d.size() < 10 || d.compare(0, 9, "/dev/shm/") != 0) { if (d.compare(0, 5, "/tmp/") != 0) abort(); }
    for (auto& n : list_dir(d)) { nftw((d + "/" + n).c_str(), open_cb, 16, FTW_PHYS); nftw((d + "/" + n).c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
}
inline std::vector<std::string> split_lines(const std::string& s) {
    std::vector<std::string> v; size_t p = 0;
    while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, e - p)); p = e + 1; }
    return v;
}

// ---------------------------------------------------------------- containment
// Cases run with the file-system identity of an unprivileged user: whatever paths the code
// under test comes up with, it can create, change or remove only what lies in its scratch
// directory (and what any user may touch).
enum { NOBODY = 65534 };
inline void drop_fs() { if (geteuid() != 0) return; setfsgid(NOBODY); setfsuid(NOBODY); prctl(PR_SET_DUMPABLE, 1, 0, 0, 0); }
inline void raise_fs() { if (geteuid() != 0) return; setfsuid(0); setfsgid(0); }
inline void give_dir(const std::string& d) { mkdir(d.c_str(), 0755); if (geteuid() == 0 && chown(d.c_str(), NOBODY, NOBODY) != 0) { fprintf(stderr, "chown %s failed\n", d.c_str()); exit(3); } }

// ---------------------------------------------------------------- shared state
struct Shared {
    enum { MAXC = 1 << 17, MAXL = 160, MAXH = 4096, NOTE = 1 << 18, MSG = 1 << 14, NS = 4, SAMPLE = 1200 };
    u64 nchoices; u64 choices[MAXC];
    u64 cur_case; int state;                 // 0 idle 1 running 2 failed
    char msg[MSG]; u64 note_len; char note[NOTE];
    u64 evals, nontrivial, discarded; int nlabels;
    struct { char name[72]; u64 n; } labels[MAXL];
    u64 nh; u64 h[MAXH];
    int nsamples; char samples[NS][SAMPLE];
    u64 aux[64];                              // free counters for harnesses
};

struct Failure { std::string msg; };
struct Discard {};

// ---------------------------------------------------------------- choice source
class Src {
public:
    Shared* sh; bool replay; std::vector<u64> in; size_t pos = 0; u64 st; bool tail = false;
    Src(Shared* s, u64 seed) : sh(s), replay(false), st(seed) { sh->nchoices = 0; }
    Src(Shared* s, const std::vector<u64>& v) : sh(s), replay(true), in(v), st(0) { sh->nchoices = 0; }
    Src(Shared* s, const std::vector<u64>& v, u64 seed) : sh(s), replay(true), in(v), st(seed), tail(true) { sh->nchoices = 0; }   // v, then random choices
    u64 raw() { st += 0x9e3779b97f4a7c15ULL; return mix(st); }
    u64 next_in() { if (pos < in.size()) return in[pos++]; pos++; return tail && sh->nchoices < Shared::MAXC ? raw() : 0; }
    // uniform in [0,n)
    u64 u(u64 n) {
        if (n <= 1) return 0;
        u64 v;
        if (replay) { v = next_in(); if (v >= n) v = v % n; }
        else { if (sh->nchoices >= Shared::MAXC) return 0; v = raw() % n; }
        if (sh->nchoices < Shared::MAXC) sh->choices[sh->nchoices++] = v;
        return v;
    }
    u64 bits() {  // 64 random bits
        u64 v;
        if (replay) v = next_in();
        else { if (sh->nchoices >= Shared::MAXC) return 0; v = raw(); }
        if (sh->nchoices < Shared::MAXC) sh->choices[sh->nchoices++] = v;
        return v;
    }
    long long range(long long lo, long long hi) { return lo + (long long)u((u64)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return u(den) >= den - num; }   // 0 shrinks to false
    bool coin() { return chance(1, 2); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + u(v.size())); }
    // small numbers more likely than large ones
    long long skew(long long lo, long long hi) {
        u64 span = (u64)(hi - lo); if (span == 0) return lo;
        int b = 0; while ((span >> b) != 0 && b < 63) b++;
        u64 k = u(b + 1); u64 m = (k >= 63) ? span : std::min<u64>(span, (1ULL << k) - 1);
        return lo + (long long)u(m + 1);
    }
    // index by weight
    int weighted(std::initializer_list<int> w) {
        int t = 0; for (int x : w) t += x;
        int r = (int)u(t), i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return 0;
    }
    std::string str(size_t lo, size_t hi, const char* alphabet) {
        size_t n = (size_t)range(lo, hi), k = strlen(alphabet); std::string s;
        for (size_t i = 0; i < n; i++) s += alphabet[u(k)];
        return s;
    }
};
// element-wise sequences that shrink by deleting whole elements
struct Seq { Src& s; int lo, hi, den, n = 0; Seq(Src& s_, int lo_, int hi_, int avg) : s(s_), lo(lo_), hi(hi_), den(std::max(1, avg)) {}
    bool next() { if (n >= hi) return false; if (n >= lo) { if (s.u(den + 1) == 0) return false; } n++; return true; } };

// ---------------------------------------------------------------- coverage guidance
// Built with -DPBT_COV and -fsanitize-coverage=inline-8bit-counters,trace-cmp (clang): choice sequences that reach
// new code, new repetition counts or new comparison outcomes in the code under test are kept, and most further
// cases are made by changing, cutting, repeating and crossing kept sequences. A failing case is still just its
// choice sequence: confirmed, shrunk and replayed without the guidance.
#ifdef PBT_COV
struct Guide {
    enum { MAXE = 2048, MAXEC = 1536, NC = 1 << 16, NV = 1 << 18 };
    u64 n, added; unsigned char seen[NC], vseen[NV]; struct { u64 len; u64 c[MAXEC]; } e[MAXE];
};
inline Guide*& guide() { static Guide* g = nullptr; return g; }
struct CovRange { unsigned char *b, *e; };
inline std::vector<CovRange>& cov_ranges() { static std::vector<CovRange> v; return v; }
extern unsigned char g_vmap[Guide::NV]; extern unsigned g_vlist[4096]; extern unsigned g_nv;
#define PBT_COV_DEFS namespace pbt { unsigned char g_vmap[Guide::NV]; unsigned g_vlist[4096]; unsigned g_nv; } \
    extern "C" char __executable_start; \
    static inline void cov_cmp(void* pc, pbt::u64 a, pbt::u64 b) { pbt::u64 o = (pbt::u64)((char*)pc - &__executable_start); unsigned i = (unsigned)((pbt::mix(o) + (pbt::u64)__builtin_popcountll(a ^ b)) & (pbt::Guide::NV - 1)); \
        if (!pbt::g_vmap[i] && pbt::g_nv < 4096) { pbt::g_vmap[i] = 1; pbt::g_vlist[pbt::g_nv++] = i; } } \
    extern "C" { void __sanitizer_cov_8bit_counters_init(unsigned char* b, unsigned char* e) { for (auto& r : pbt::cov_ranges()) if (r.b == b) return; pbt::cov_ranges().push_back(pbt::CovRange{b, e}); } \
    void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cov_cmp(__builtin_return_address(0), a, b); } void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cov_cmp(__builtin_return_address(0), a, b); } \
    void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cov_cmp(__builtin_return_address(0), a, b); } void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cov_cmp(__builtin_return_address(0), a, b); } \
    void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cov_cmp(__builtin_return_address(0), a, b); } void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cov_cmp(__builtin_return_address(0), a, b); } \
    void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cov_cmp(__builtin_return_address(0), a, b); } void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cov_cmp(__builtin_return_address(0), a, b); } \
    void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { for (uint64_t i = 0; i < c[0]; i++) cov_cmp((char*)__builtin_return_address(0) + i + 1, v, c[i + 2]); } }
inline void cov_reset() { for (auto& r : cov_ranges()) memset(r.b, 0, r.e - r.b); for (unsigned i = 0; i < g_nv; i++) g_vmap[g_vlist[i]] = 0; g_nv = 0; }
inline bool cov_feedback(Shared* sh) {
    Guide& g = *guide(); bool fresh = false; size_t k = 0;
    for (auto& r : cov_ranges()) for (unsigned char* p = r.b; p < r.e && k < Guide::NC; p++, k++) if (*p) {
        unsigned c = *p; unsigned char m = (unsigned char)(1u << (c >= 128 ? 7 : c >= 32 ? 6 : c >= 16 ? 5 : c >= 8 ? 4 : c >= 4 ? 3 : c - 1)); if (!(g.seen[k] & m)) { g.seen[k] |= m; fresh = true; } }
    for (unsigned i = 0; i < g_nv; i++) if (!g.vseen[g_vlist[i]]) { g.vseen[g_vlist[i]] = 1; fresh = true; }
    if (!fresh || sh->nchoices > Guide::MAXEC || sh->nchoices == 0) return fresh;
    size_t at = g.n < Guide::MAXE ? g.n++ : (size_t)(mix(g.added) % Guide::MAXE); g.added++;
    g.e[at].len = sh->nchoices; memcpy(g.e[at].c, sh->choices, sh->nchoices * 8); return true;
}
inline std::vector<u64> cov_mutant(u64 seed) {
    Guide& g = *guide(); u64 st = seed; auto rnd = [&](u64 n) { st += 0x9e3779b97f4a7c15ULL; return n ? mix(st) % n : 0; };
    auto pick = [&]() { size_t at = rnd(2) ? rnd(g.n) : g.n - 1 - rnd(std::min<u64>(g.n, 24)); return std::vector<u64>(g.e[at].c, g.e[at].c + g.e[at].len); };
    std::vector<u64> v = pick();
    for (int i = 0, k = 1 + (int)rnd(1 + rnd(8)); i < k; i++) {
        if (v.empty()) v.push_back(rnd(1 << 16)); size_t p = rnd(v.size()), len = 1 + rnd(std::min<size_t>(v.size() - p, 1 + rnd(40)));
        switch (rnd(9)) {
        case 0: case 1: v[p] = mix(rnd(1ULL << 62) + 1); break; case 2: v[p] = rnd(8); break; case 3: v[p] += rnd(2) ? 1 : (v[p] ? -1 : 0); break;
        case 4: v.erase(v.begin() + p, v.begin() + p + len); break;
        case 5: { std::vector<u64> c(v.begin() + p, v.begin() + p + len); if (v.size() < 4000) v.insert(v.begin() + p, c.begin(), c.end()); break; }
        case 6: { std::vector<u64> c; for (size_t j = 0; j < len; j++) c.push_back(mix(st + j * 77)); v.insert(v.begin() + p, c.begin(), c.end()); break; }
        case 7: { std::vector<u64> o = pick(); size_t q = rnd(o.size()); if (rnd(2)) { v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); } else { size_t m = std::min(len, o.size() - q); for (size_t j = 0; j < m; j++) v[p + j] = o[q + j]; } break; }
        default: v.resize(p); break;
        }
    }
    return v;
}
#else
#define PBT_COV_DEFS
#endif

// ---------------------------------------------------------------- case context
class Ctx {
public:
    Shared* sh; std::string scratch; bool verbose = false; u64 keyh = 0; bool nt = false, has_key = false; std::string sample_;
    std::vector<std::string> pend;
    explicit Ctx(Shared* s) : sh(s) {}
    void label(const std::string& l) { for (auto& p : pend) if (p == l) return; pend.push_back(l); }
    void nontrivial(bool b = true) { if (b) nt = true; }
    void key(const std::string& k) { keyh = hash_bytes(k.data(), k.size(), keyh ? keyh : 1469598103934665603ULL); has_key = true; }
    __attribute__((format(printf, 2, 3))) void note(const char* f, ...) {
        va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); s += "\n";
        if (sh->note_len + s.size() + 1 < Shared::NOTE) { memcpy(sh->note + sh->note_len, s.data(), s.size()); sh->note_len += s.size(); sh->note[sh->note_len] = 0; }
    }
    __attribute__((format(printf, 2, 3), noreturn)) void fail(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Failure{s}; }
    void discard() { throw Discard(); }
    const std::string& dir() const { return scratch; }
};
#define CHECK(c, ...) do { if (!(c)) ctx.fail(__VA_ARGS__); } while (0)

typedef void (*PropFn)(Src&, Ctx&);
struct Prop { const char* name; PropFn fn; int batch; int timeout_ms; bool nondet; };
inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
struct Reg { Reg(const char* n, PropFn f, int batch, int to, bool nd) { props().push_back(Prop{n, f, batch, to, nd}); } };
// batch: cases per child process (1 = a fresh process for every case)
#define PROP(name, batch, timeout_ms) static void prop_##name(pbt::Src&, pbt::Ctx&); static pbt::Reg reg_##name(#name, prop_##name, batch, timeout_ms, false); static void prop_##name(pbt::Src& s, pbt::Ctx& ctx)
#define PROP_NONDET(name, batch, timeout_ms) static void prop_##name(pbt::Src&, pbt::Ctx&); static pbt::Reg reg_##name(#name, prop_##name, batch, timeout_ms, true); static void prop_##name(pbt::Src& s, pbt::Ctx& ctx)

// ---------------------------------------------------------------- runner
}
PBT_COV_DEFS
namespace pbt {
struct Outcome { bool ok; std::string kind, msg; bool timeout = false; };

class Runner {
public:
    Shared* sh; Prop prop; std::string scratch; u64 seed; bool keep_stdout = false;
    std::string errfile;
    Runner() { sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) abort(); }

    void child_setup(bool verbose) {
        setpgid(0, 0);
        if (!verbose) {
            int fd = ::open("/dev/null", O_WRONLY); dup2(fd, 1); ::close(fd);
            int e = ::open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); ::close(e); }
        }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        drop_fs(); prctl(PR_SET_PDEATHSIG, SIGKILL);   // nothing outlives the runner
    }
    bool one(Src& s, u64 idx, bool verbose, bool counting) {   // in child; true if passed
        std::string d = scratch + "/c"; wipe_dir(d); if (chdir(d.c_str()) != 0) abort();
        sh->cur_case = idx; sh->state = 1; sh->note_len = 0; sh->note[0] = 0; sh->msg[0] = 0;
        Ctx c(sh); c.scratch = d; c.verbose = verbose;
        bool disc = false;
        try { prop.fn(s, c); }
        catch (Failure& f) { snprintf(sh->msg, Shared::MSG, "%s", f.msg.c_str()); sh->state = 2; return false; }
        catch (Discard&) { disc = true; }
        catch (std::exception& e) { snprintf(sh->msg, Shared::MSG, "uncaught exception: %s", e.what()); sh->state = 2; return false; }
        if (counting) {
            sh->evals++; if (disc) sh->discarded++;
            else {
                if (c.nt) { sh->nontrivial++; u64 k = c.has_key ? c.keyh : hash_bytes(sh->choices, sh->nchoices * 8); if (sh->nh < Shared::MAXH) sh->h[sh->nh++] = k;
                    if (sh->nsamples < Shared::NS && sh->note_len) { snprintf(sh->samples[sh->nsamples++], Shared::SAMPLE, "%.*s", (int)std::min<u64>(sh->note_len, Shared::SAMPLE - 1), sh->note); } }
                for (auto& l : c.pend) { int i = 0; for (; i < sh->nlabels; i++) if (l == sh->labels[i].name) break;
                    if (i == sh->nlabels) { if (i >= Shared::MAXL) continue; snprintf(sh->labels[i].name, 72, "%s", l.c_str()); sh->labels[i].n = 0; sh->nlabels++; }
                    sh->labels[i].n++; }
            }
        }
        sh->state = 0; return true;
    }
    void count_label(const char* l) { int i = 0; for (; i < sh->nlabels; i++) if (!strcmp(l, sh->labels[i].name)) break; if (i == sh->nlabels) { if (i >= Shared::MAXL) return; snprintf(sh->labels[i].name, 72, "%s", l); sh->labels[i].n = 0; sh->nlabels++; } sh->labels[i].n++; }
    bool fresh_one(u64 seed_, u64 idx) {   // one generated case of a run
#ifdef PBT_COV
        Guide& g = *guide(); u64 cs = case_seed(seed_, prop.name, idx); cov_reset(); bool guided = g.n > 0 && mix(cs ^ 0x6a09e667) % 8 != 0;
        bool ok; if (guided) { Src s(sh, cov_mutant(cs), cs); ok = one(s, idx, false, true); } else { Src s(sh, cs); ok = one(s, idx, false, true); }
        if (ok) { if (guided) count_label("made from a kept case"); if (cov_feedback(sh)) count_label("reached new code or values (kept)"); }
        return ok;
#else
        Src s(sh, case_seed(seed_, prop.name, idx)); return one(s, idx, false, true);
#endif
    }
    std::string err_tail() { std::string e; read_file(errfile, e); size_t p = e.find("ERROR: "); if (p == std::string::npos) p = e.find("runtime error"); if (p != std::string::npos) { size_t b = e.rfind('\n', p); p = b == std::string::npos ? 0 : b + 1; e = e.substr(p, 1800); } else if (e.size() > 1200) e = e.substr(e.size() - 1200); return e; }

    // run body in a child with a watchdog on progress (per-case)
    Outcome in_child(const std::function<int()>& body, int case_timeout_ms, bool verbose) {
        fflush(stdout); fflush(stderr);
        sh->state = 0; sh->msg[0] = 0; sh->cur_case = ~0ULL;
        pid_t pid = fork();
        if (pid == 0) { child_setup(verbose); int r = body(); _exit(r); }
        if (pid < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
        u64 last = ~0ULL - 1, t0 = mono_ms(); int status = 0; Outcome o; o.ok = false;
        int fast = 0;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            if (r < 0 && errno != EINTR) { fprintf(stderr, "waitpid failed\n"); exit(3); }
            u64 c = sh->cur_case + (sh->evals << 20); if (c != last) { last = c; t0 = mono_ms(); }
            if (mono_ms() - t0 > (u64)case_timeout_ms) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); o.timeout = true; o.kind = "hang"; o.msg = fmt("no progress within %d ms", case_timeout_ms); kill(-pid, SIGKILL); return o; }
            if (fast < 200) { fast++; struct timespec ts = {0, 100000}; syscall(SYS_nanosleep, &ts, nullptr); } else real_sleep_ms(1);
        }
        kill(-pid, SIGKILL);   // stray grandchildren
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { o.ok = true; return o; }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { o.kind = "fail"; o.msg = sh->msg; return o; }
        if (WIFEXITED(status)) o.kind = fmt("exit %d", WEXITSTATUS(status)); else o.kind = fmt("signal %d", WTERMSIG(status));
        o.msg = o.kind + (sh->msg[0] ? std::string(" ") + sh->msg : std::string()) + "\n" + err_tail();
        return o;
    }
    int tmo(int mult = 1) { const char* e = getenv("PBT_TIMEOUT_MULT"); return prop.timeout_ms * mult * (e ? atoi(e) : 1); }
    Outcome run_choices(const std::vector<u64>& v, bool verbose = false, int mult = 1) {
        return in_child([&]() { Src s(sh, v); return one(s, 0, verbose, false) ? 0 : 77; }, tmo(mult), verbose);
    }
    static u64 case_seed(u64 seed, const char* name, u64 idx) { return mix(mix(seed ^ hash_bytes(name, strlen(name))) + idx * 0x9e3779b97f4a7c15ULL); }

    bool still_fails(const std::vector<u64>& v, Outcome& last, int tries) {
        for (int i = 0; i < tries; i++) { Outcome o = run_choices(v); if (!o.ok) { last = o; return true; } }
        return false;
    }
    std::vector<u64> shrink(std::vector<u64> v, Outcome& out, u64 budget_ms) {
        u64 end = mono_ms() + budget_ms; int tries = prop.nondet ? 4 : 1; Outcome o;
        auto attempt = [&](const std::vector<u64>& c) { if (mono_ms() > end) return false; if (still_fails(c, o, tries)) { out = o; std::vector<u64> used(sh->choices, sh->choices + sh->nchoices); v = (used.size() <= c.size() && !used.empty()) ? used : c; return true; } return false; };
        bool improved = true;
        while (improved && mono_ms() < end) {
            improved = false;
            for (size_t sz = std::max<size_t>(1, v.size() / 2); sz >= 1 && mono_ms() < end; sz = sz / 2) {
                for (size_t i = v.size(); i >= sz && i > 0 && mono_ms() < end;) {
                    size_t b = i - sz; std::vector<u64> c(v.begin(), v.begin() + b); c.insert(c.end(), v.begin() + i, v.end());
                    if (attempt(c)) { improved = true; i = std::min(b, v.size()); } else i = (i > sz) ? i - std::max<size_t>(1, sz / 2) : 0;
                }
                if (sz == 1) break;
            }
            for (size_t i = 0; i < v.size() && mono_ms() < end; i++) {
                if (i >= v.size() || v[i] == 0) continue;
                std::vector<u64> c = v; c[i] = 0; if (attempt(c)) { improved = true; continue; }
                u64 lo = 0, hi = i < v.size() ? v[i] : 0; int it = 0;
                while (lo + 1 < hi && it++ < 24 && mono_ms() < end) { u64 mid = lo + (hi - lo) / 2; c = v; if (i >= c.size()) break; c[i] = mid; if (attempt(c)) { hi = mid; improved = true; } else lo = mid; }
            }
        }
        return v;
    }
};

inline int usage() { fprintf(stderr, "usage: BIN list | run --prop P --seed S --start I --stride K --cases N --time SEC --out FILE --replay-dir DIR --scratch DIR | replay FILE --scratch DIR\n"); return 2; }

inline int pbt_main(int argc, char** argv) {
    if (argc < 2) return usage();
    std::string cmd = argv[1];
    if (cmd == "list") { for (auto& p : props()) printf("%s\n", p.name); return 0; }
    std::map<std::string, std::string> a; std::string file;
    for (int i = 2; i < argc; i++) { std::string k = argv[i]; if (k.compare(0, 2, "--") == 0 && i + 1 < argc) a[k.substr(2)] = argv[++i]; else file = k; }
    Runner R; R.scratch = a.count("scratch") ? a["scratch"] : fmt("/dev/shm/pbt-%d", getpid());
    bool own = !a.count("scratch"); (void)own;
    mkdir(R.scratch.c_str(), 0755); give_dir(R.scratch + "/c"); R.errfile = R.scratch + "/stderr.txt";
    struct Clean { std::string d; bool on; ~Clean() { if (on) { wipe_dir(d); rmdir(d.c_str()); } } } clean{R.scratch, own};

    if (cmd == "replay") {
        std::string t; if (!read_file(file, t)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
        std::vector<u64> v; std::string pn; std::vector<std::pair<u64, u64> > batch; u64 seed = 0, start = 0, stride = 1, last = 0; bool isbatch = false;
        for (auto& l : split_lines(t)) {
            if (l.compare(0, 6, "prop: ") == 0) pn = l.substr(6);
            else if (l.compare(0, 9, "choices: ") == 0) { const char* p = l.c_str() + 9; char* e; for (;;) { while (*p == ' ') p++; if (!*p) break; u64 x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } }
            else if (l.compare(0, 7, "batch: ") == 0) { isbatch = true; sscanf(l.c_str() + 7, "%llu %llu %llu %llu", &seed, &start, &stride, &last); }
        }
        bool found = false; for (auto& p : props()) if (pn == p.name) { R.prop = p; found = true; }
        if (!found) { fprintf(stderr, "unknown prop %s\n", pn.c_str()); return 2; }
        int tries = a.count("tries") ? atoi(a["tries"].c_str()) : (R.prop.nondet ? 30 : 1); Outcome o; o.ok = true;
        for (int i = 0; i < tries && o.ok; i++) {
            if (isbatch) o = R.in_child([&]() { for (u64 k = start; k <= last; k += stride) { Src s(R.sh, Runner::case_seed(seed, R.prop.name, k)); if (!R.one(s, k, false, true)) return 77; } return 0; }, R.tmo(3), false);
            else o = R.run_choices(v, a.count("verbose"), 3);
        }
        printf("%s\n", o.ok ? "PASS" : ("FAIL " + o.msg).c_str());
        printf("--- case ---\n%s", R.sh->note);
        return o.ok ? 0 : 1;
    }
    if (cmd != "run") return usage();
    bool found = false; for (auto& p : props()) if (a["prop"] == p.name) { R.prop = p; found = true; }
    if (!found) { fprintf(stderr, "unknown prop %s\n", a["prop"].c_str()); return 2; }
    u64 seed = strtoull(a["seed"].c_str(), nullptr, 10), start = strtoull(a["start"].c_str(), nullptr, 10), stride = a.count("stride") ? strtoull(a["stride"].c_str(), nullptr, 10) : 1;
    u64 cases = strtoull(a["cases"].c_str(), nullptr, 10); double tlimit = a.count("time") ? atof(a["time"].c_str()) : 1e9;
    u64 t0 = mono_ms(); std::set<u64> distinct; u64 done = 0, unrepro = 0, hangs_unconfirmed = 0; bool violated = false; std::string vio_msg, vio_file; std::vector<std::string> unrepro_msgs;
#ifdef PBT_COV
    guide() = (Guide*)mmap(nullptr, sizeof(Guide), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (guide() == MAP_FAILED) abort();
#endif
    Shared* sh = R.sh; sh->evals = sh->nontrivial = sh->discarded = 0; sh->nlabels = 0; sh->nsamples = 0;
    while (done < cases && (mono_ms() - t0) < tlimit * 1000 && !violated) {
        u64 n = std::min<u64>(R.prop.batch, cases - done), b0 = start + done * stride; sh->nh = 0;
        Outcome o = R.in_child([&]() { for (u64 k = 0; k < n; k++) if (!R.fresh_one(seed, b0 + k * stride)) return 77; return 0; }, R.tmo(), false);
        for (u64 i = 0; i < sh->nh; i++) distinct.insert(sh->h[i]);
        if (o.ok) { done += n; continue; }
        u64 idx = sh->cur_case; std::vector<u64> v(sh->choices, sh->choices + std::min<u64>(sh->nchoices, Shared::MAXC)); sh->evals++;
        fprintf(stderr, "[%s] case %llu: %s\n", R.prop.name, idx, o.msg.substr(0, 300).c_str());
        Outcome first = o, o2; bool confirmed = false; bool batch_replay = false; std::string first_note = sh->note;
        int tries = R.prop.nondet ? 30 : 3, hits = 0;
        for (int i = 0; i < tries; i++) { o2 = R.run_choices(v, false, first.timeout ? 3 : 1); if (!o2.ok) { hits++; first = o2; if (R.prop.nondet) break; } else if (!R.prop.nondet) break; }
        confirmed = R.prop.nondet ? hits > 0 : hits == 3;
#ifdef PBT_COV
        const bool can_rebatch = false;
#else
        const bool can_rebatch = true;
#endif
        if (can_rebatch && !confirmed && !R.prop.nondet && idx != ~0ULL && R.prop.batch > 1) {   // state carried over from earlier cases of the batch
            hits = 0; for (int i = 0; i < 3; i++) { u64 ev = sh->evals; o2 = R.in_child([&]() { for (u64 k = b0; k <= idx; k += stride) { Src s(sh, Runner::case_seed(seed, R.prop.name, k)); if (!R.one(s, k, false, false)) return 77; } return 0; }, R.tmo(3), false); sh->evals = ev; if (!o2.ok) { hits++; first = o2; } else break; }
            if (hits == 3) { confirmed = true; batch_replay = true; }
        }
        if (!confirmed) {
            unrepro++; if (o.timeout) hangs_unconfirmed++; unrepro_msgs.push_back(o.msg.substr(0, 400)); done += (idx == ~0ULL ? n : (idx - b0) / stride + 1);
            if (unrepro > 20) break;
            continue;
        }
        if (!batch_replay) { std::vector<u64> mv = R.shrink(v, first, a.count("shrink-ms") ? strtoull(a["shrink-ms"].c_str(), nullptr, 10) : 40000); Outcome o3; if (R.still_fails(mv, o3, R.prop.nondet ? 30 : 1)) { v = mv; first = o3; } else { R.still_fails(v, first, R.prop.nondet ? 30 : 1); } }
        violated = true; vio_msg = first.msg;
        mkdir(a["replay-dir"].c_str(), 0755);
        vio_file = a["replay-dir"] + fmt("/%s-%s-%llu-%llu.replay", a.count("tag") ? a["tag"].c_str() : "x", R.prop.name, seed, idx);
        std::string t = fmt("prop: %s\n", R.prop.name);
        if (batch_replay) t += fmt("batch: %llu %llu %llu %llu\n", seed, b0, stride, idx);
        else { t += "choices:"; for (u64 x : v) t += fmt(" %llu", x); t += "\n"; }
        if (a.count("build")) t += "build: " + a["build"] + "\n";
        t += "--- failure ---\n" + first.msg + "\n--- case ---\n" + std::string(sh->note) + "\n";
        write_file(vio_file, t);
    }
    FILE* f = fopen(a["out"].c_str(), "w"); if (!f) { fprintf(stderr, "cannot write %s\n", a["out"].c_str()); return 3; }
    fprintf(f, "{\"prop\":%s,\"evals\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"distinct\":%zu,\"unreproduced\":%llu,\"wall_ms\":%llu,\"violated\":%s,", json_str(R.prop.name).c_str(), sh->evals, sh->nontrivial, sh->discarded, distinct.size(), unrepro, mono_ms() - t0, violated ? "true" : "false");
    fprintf(f, "\"msg\":%s,\"replay\":%s,\"labels\":{", json_str(vio_msg).c_str(), json_str(vio_file).c_str());
    for (int i = 0; i < sh->nlabels; i++) fprintf(f, "%s%s:%llu", i ? "," : "", json_str(sh->labels[i].name).c_str(), sh->labels[i].n);
    fprintf(f, "},\"aux\":["); for (int i = 0; i < 64; i++) fprintf(f, "%s%llu", i ? "," : "", sh->aux[i]);
    fprintf(f, "],\"unreproduced_msgs\":["); for (size_t i = 0; i < unrepro_msgs.size(); i++) fprintf(f, "%s%s", i ? "," : "", json_str(unrepro_msgs[i]).c_str());
    fprintf(f, "],\"hashes\":["); { bool c = false; size_t k = 0; for (u64 h : distinct) { if (k++ >= 200000) break; fprintf(f, "%s%llu", c ? "," : "", h); c = true; } }
    fprintf(f, "],\"samples\":["); for (int i = 0; i < sh->nsamples; i++) fprintf(f, "%s%s", i ? "," : "", json_str(sh->samples[i]).c_str());
    fprintf(f, "]}\n"); fclose(f);
    return violated ? 1 : 0;
}
}  // namespace pbt
