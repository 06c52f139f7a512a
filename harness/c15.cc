// C15: chains of processes that share the queues' memory and die at generated points.
#include "conc.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <dlfcn.h>
using namespace FNLog; using namespace conc;
// System V memory emulated over a mapping inherited by the successive processes
struct Seg { int exists, key, id, attached; size_t size; int made; alignas(64) char data[sizeof(SHMLogger)]; };
static std::atomic<long long>* g_writes = nullptr; static Seg* g_seg = nullptr; static bool g_realshm = false;
template <class F> static F real_fn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int shmget(key_t key, size_t size, int flag) __THROW {
    if (g_realshm || !g_seg) return real_fn<int (*)(key_t, size_t, int)>("shmget")(key, size, flag);
    if (g_seg->exists && g_seg->key == (int)key) { if ((flag & IPC_CREAT) && (flag & IPC_EXCL)) { errno = EEXIST; return -1; } if (size > g_seg->size) { errno = EINVAL; return -1; } return g_seg->id; }
    if (!(flag & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (size > sizeof(g_seg->data)) { errno = EINVAL; return -1; }
    memset(g_seg->data, 0, sizeof(g_seg->data)); g_seg->key = (int)key; g_seg->size = size; g_seg->id = 100 + g_seg->made++; g_seg->attached = 0; g_seg->exists = 1; return g_seg->id;
}
void* shmat(int id, const void* a, int f) __THROW { if (g_realshm || !g_seg) return real_fn<void* (*)(int, const void*, int)>("shmat")(id, a, f); if (!g_seg->exists || g_seg->id != id) { errno = EINVAL; return (void*)-1; } g_seg->attached++; return g_seg->data; }
int shmdt(const void* p) __THROW { if (g_realshm || !g_seg) return real_fn<int (*)(const void*)>("shmdt")(p); g_seg->attached--; return 0; }
int shmctl(int id, int cmd, struct shmid_ds* b) __THROW {
    if (g_realshm || !g_seg) return real_fn<int (*)(int, int, struct shmid_ds*)>("shmctl")(id, cmd, b);
    if (!g_seg->exists || g_seg->id != id) { errno = EINVAL; return -1; }
    if (cmd == IPC_RMID) { g_seg->exists = 0; return 0; }
    if (cmd == IPC_STAT) { memset(b, 0, sizeof(*b)); b->shm_segsz = g_seg->size; b->shm_nattch = 1; return 0; }
    errno = EINVAL; return -1;
}
#ifndef USE_SCHED
static pthread_mutex_t g_wr = PTHREAD_MUTEX_INITIALIZER;   // not killed inside a write: a torn write is the file system's
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) { static auto r = real_fn<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); if (f == stdout || f == stderr) return r(p, a, b, f); pthread_mutex_lock(&g_wr); size_t n = r(p, a, b, f); fflush(f); if (g_writes) ++*g_writes; pthread_mutex_unlock(&g_wr); return n; }
#endif
}
static const char MARKER[] = "!!!core recover!!!";
struct Mark { ll b, e; };
struct Shared15 { std::atomic<long long> clock; Mark m[8 * 8 * 64]; };
static const int MAXK = 64;
enum { END_CLEAN, END_DEAD_STMT, END_DEAD_START, END_DEAD_STOP, END_DEAD_IDLE };
static const char* const END_NAMES[] = {"ends cleanly", "dies while logging", "dies while starting", "dies while stopping", "dies idle"};
struct Proc { int end = 0; int nt = 0; int dt = 0, dk = 0; ll steps = 0; int first = 0; bool dead = false; };
struct Item { int t, k; bool marked; std::string text; };

// whether lines reach their file by fwrite, which is made to pass them on at once
static bool uses_fwrite() {
    static int known = -1; if (known >= 0) return known; std::atomic<long long> n(0);
#ifdef USE_SCHED
    sched::writes_seen = &n;
#else
    g_writes = &n;
#endif
    { LoggerPtr lg = mk_logger(); if (ParseAndStartLogger(*lg, " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        path: \"./\"\n        file: \"probe\"\n") == 0) { put(*lg, 0, 6, 0, 0, "probe"); StopLogger(*lg); } }
#ifdef USE_SCHED
    sched::writes_seen = nullptr;
#else
    g_writes = nullptr;
#endif
    unlink("probe.log"); return known = n > 0;
}
static void run(Src& s, Ctx& ctx, bool real, bool realshm) {
    vclock::set(1700000000); const bool direct_writes = uses_fwrite();
    int nch = (int)s.range(1, 2); std::vector<Chan> chs(nch); bool filters = s.chance(1, 4);
    for (int c = 0; c < nch; c++) { chs[c].sync = s.chance(1, 3); if (filters && s.coin()) chs[c].pri = (int)s.range(0, 4); int nd = (int)s.range(1, 2); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, c, d, filters); chs[c].devs.push_back(v); } }
    int key = realshm ? 0x5f000000 + (int)(getpid() & 0xffffff) : 77; std::string text = config(chs, fmt(" - shm_key: %d\n", key)); ctx.note("%s", text.c_str());
    int np = (int)s.range(2, realshm ? 3 : 5); std::vector<Proc> ps(np); Load ld; std::vector<std::vector<int> > who;   // who: process of a thread
    std::vector<int> owner_proc;
    for (int p = 0; p < np; p++) {
        Proc& P = ps[p]; P.end = p + 1 == np ? (int)END_CLEAN : s.weighted({2, 12, 4, 3, 2}); P.nt = (int)s.range(p ? 0 : 1, 3); P.first = (int)ld.size(); P.dt = P.nt ? (int)s.u(P.nt) : 0;
        for (int t = 0; t < P.nt; t++) { std::vector<Stmt> v; Seq q(s, 0, MAXK, s.pick({4, 12, 30})); while (q.next()) { Stmt x; x.ch = (int)s.u(nch); x.pri = (int)s.range(0, 5); x.cat = (int)s.range(0, 4); x.len = s.chance(1, 12) ? LOGMAX - 2 : (int)s.range(8, 60); x.pieces = (int)s.range(1, 4); v.push_back(x); } ld.push_back(v); owner_proc.push_back(p); }
        if (P.end == END_DEAD_STMT) { if (P.nt == 0 || ld[P.first + P.dt].empty()) P.end = END_DEAD_START; else P.dk = (int)s.u(ld[P.first + P.dt].size()); }
        P.steps = s.pick({0, 0, 3, 10, 30, 100, 300, 1000, 3000}) + s.u(20); if (P.end == END_DEAD_START) P.steps = s.pick({0, 10, 30, 60, 100, 200, 400, 800}) + s.u(40);
        ctx.note("process %d: %d threads from T%d, %s%s", p, P.nt, P.first, END_NAMES[P.end], P.end == END_DEAD_STMT ? fmt(" at statement %d.%d + %lld steps", P.first + P.dt, P.dk, P.steps).c_str() : P.end ? fmt(" after %lld steps", P.steps).c_str() : ""); ctx.key(fmt("%d %d", P.end, P.nt));
        for (int t = P.first; t < (int)ld.size(); t++) { std::string l; for (auto& x : ld[t]) l += fmt(" c%d/%d/%d/%db", x.ch, x.pri, x.cat, x.len); ctx.note(" T%d:%s", t, l.c_str()); }
    }
    Shared15* sh = (Shared15*)mmap(nullptr, sizeof(Shared15), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (auto& m : sh->m) m.b = m.e = -1; sh->clock = 0;
    g_realshm = realshm; if (!realshm) { g_seg = (Seg*)mmap(nullptr, sizeof(Seg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    else { int id = shmget(key, 0, 0); if (id >= 0) shmctl(id, IPC_RMID, nullptr); }
    struct Cleanup { int key; bool on; ~Cleanup() { if (on) { int id = real_fn<int (*)(key_t, size_t, int)>("shmget")(key, 0, 0); if (id >= 0) real_fn<int (*)(int, int, struct shmid_ds*)>("shmctl")(id, IPC_RMID, nullptr); } } } cleanup{key, realshm};
    auto seg_there = [&]() { return realshm ? shmget(key, 0, 0) >= 0 : g_seg->exists != 0; };
    struct D { int c, d; std::string path; std::vector<size_t> cut; }; std::vector<D> devs; for (int c = 0; c < nch; c++) for (size_t d = 0; d < chs[c].devs.size(); d++) { D x; x.c = c; x.d = (int)d; x.path = chs[c].devs[d].file + ".log"; devs.push_back(x); }
    auto parse = [&](D& x, std::vector<Item>& out) {
        std::string txt = file_text(x.path); size_t p = 0;
        while (p < txt.size()) {
            size_t e = txt.find('\n', p); if (e == std::string::npos) ctx.fail("%s: the last line has no newline: \"%s\"", x.path.c_str(), esc(txt.substr(p), 80).c_str());
            Item it; it.text = txt.substr(p, e - p); it.t = it.k = -1; it.marked = false; p = e + 1; std::string l = it.text; size_t ml = sizeof(MARKER) - 1;
            while (l.size() >= ml && l.compare(l.size() - ml, ml, MARKER) == 0) { it.marked = true; l.resize(l.size() - ml); }
            int t = -1, k = -1; char c = 0; bool full = sscanf(l.c_str(), "%d.%d%c", &t, &k, &c) == 3 && c == ':' && t >= 0 && t < (int)ld.size() && k >= 0 && k < (int)ld[t].size();
            if (full) { std::string b = body(t, k, ld[t][k].len); if (it.marked) b.resize(std::min(b.size(), (size_t)LOGMAX)); if (it.marked ? b.compare(0, l.size(), l) == 0 : b == l) { it.t = t; it.k = k; } }
            if (it.t < 0 && !(it.marked && !full)) ctx.fail("%s: line %zu is not a statement's text: \"%s\" (%zu bytes)", x.path.c_str(), out.size(), esc(it.text, 100).c_str(), it.text.size());
            if (it.t < 0) { bool some = false; for (size_t a = 0; a < ld.size() && !some; a++) for (size_t b = 0; b < ld[a].size() && !some; b++) some = ld[a][b].ch == x.c && body((int)a, (int)b, ld[a][b].len).compare(0, l.size(), l) == 0; if (!some) ctx.fail("%s: line %zu is not the beginning of a statement's text: \"%s\"", x.path.c_str(), out.size(), esc(it.text, 100).c_str()); }
            it.text = l; out.push_back(it);
        }
    };
    int deaths = 0; ll wrap = s.chance(1, 4) ? s.range(1, 40) : 0;
    for (int p = 0; p < np; p++) {
        Proc& P = ps[p]; bool coarse = s.chance(1, 3); (void)coarse; ll delay_us = s.pick({0, 100, 500, 2000, 6000}) + s.u(300); (void)delay_us;
#ifdef USE_SCHED
        sched::Plan plan = gen_plan(s, P.nt + 5); if (plan.tick_ns > 10000) plan.tick_ns = 10000;
#endif
        fflush(stdout); pid_t pid = fork(); CHECK(pid >= 0, "fork");
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); vclock::set(1700000000 + p * 10); int rc = 0;
            auto bad = [&](const std::string& m) { snprintf(ctx.sh->msg, Shared::MSG, "process %d: %s", p, m.c_str()); ctx.sh->state = 2; _exit(77); };
            LoggerPtr lg = mk_logger();
#ifdef USE_SCHED
            g_ctx = &ctx; sched::begin(plan, on_fail); sched::write_through = true;
            { SHMLogger* m = (SHMLogger*)g_seg->data; sched::watch(m, (char*)&m->channels_ - (char*)m); for (int c = 0; c < nch; c++) { sched::watch(&m->ring_buffers_[c], sizeof(RingBuffer)); sched::watch(&m->channels_[c].channel_state_, sizeof(m->channels_[c].channel_state_)); for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) { LogData& l = m->ring_buffers_[c].buffer_[i]; sched::ignore(l.content_ + 8, sizeof(l.content_) - 8); } } g_dump = lg.get(); }
            if (P.end == END_DEAD_START) sched::die_after(P.steps);
#else
            std::thread killer; std::atomic<bool> armed(false); std::mutex wake; std::atomic<bool> over(false);
            if (P.end != END_CLEAN) { if (P.end == END_DEAD_START) armed = true; killer = std::thread([&]() { while (!armed && !over) { struct timespec ts = {0, 20000}; syscall(SYS_nanosleep, &ts, nullptr); } struct timespec ts = {0, (long)delay_us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); pthread_mutex_lock(&g_wr); if (!over) { kill(getpid(), SIGKILL); pause(); } pthread_mutex_unlock(&g_wr); }); }
#endif
            int r = ParseAndStartLogger(*lg, text); if (r != 0) bad(fmt("the start returned %d (%s)", r, DebugErrno(r).c_str()));
            { std::vector<std::thread> th;
              for (int t = P.first; t < P.first + P.nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) {
                  Stmt& st = ld[t][k]; std::string b = body(t, (int)k, st.len); Mark& m = sh->m[t * MAXK + k];
#ifdef USE_SCHED
                  if (P.end == END_DEAD_STMT && t == P.first + P.dt && (int)k == P.dk) sched::die_after(P.steps);
#else
                  if (P.end == END_DEAD_STMT && t == P.first + P.dt && (int)k == P.dk) armed = true;
#endif
                  m.b = sh->clock++;
                  { auto st_ = LOG_STREAM_ORIGIN(*lg, st.ch, st.pri, st.cat, 0, LOG_PREFIX_NULL); size_t n = b.size(), q = 0; for (int i = 0; i < st.pieces; i++) { size_t e = i + 1 == st.pieces ? n : n * (i + 1) / st.pieces; st_.write_buffer(b.data() + q, (int)(e - q)); q = e;
#ifdef USE_SCHED
                      sched::yield();
#endif
                  } }
                  m.e = sh->clock++;
              } });
              for (auto& t : th) t.join(); }
            if (P.end == END_DEAD_IDLE) { usleep(30000); _exit(66); }
#ifdef USE_SCHED
            if (P.end == END_DEAD_STOP) sched::die_after(P.steps);
#else
            if (P.end == END_DEAD_STOP) armed = true;
#endif
            rc = StopLogger(*lg); if (rc != 0) bad(fmt("StopLogger returned %d", rc)); lg.reset();
#ifdef USE_SCHED
            sched::end();
#else
            over = true; if (killer.joinable()) killer.detach();
#endif
            _exit(0);
        }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
        P.dead = (WIFEXITED(st) && WEXITSTATUS(st) == 66) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && P.end != END_CLEAN);
        CHECK(P.dead || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "process %d ended with status 0x%x", p, st); ctx.note("process %d %s", p, P.dead ? "died" : "ended");
        ll at = sh->clock++; for (int t = P.first; t < P.first + P.nt; t++) for (size_t k = 0; k < ld[t].size(); k++) { Mark& m = sh->m[t * MAXK + k]; Stmt& x = ld[t][k]; x.b = m.b; x.logged = m.e >= 0; x.e = m.e >= 0 ? (ll)m.e : at; if (x.b >= 0 && !x.logged) ctx.note("  statement %d.%zu was in progress", t, k); }
        if (P.dead) { deaths++; ctx.label(END_NAMES[P.end]);
            for (auto& x : devs) { std::string txt = file_text(x.path); x.cut.push_back(std::count(txt.begin(), txt.end(), '\n')); if (!txt.empty() && txt.back() != '\n') ctx.fail("%s: a torn line at the death of process %d", x.path.c_str(), p); }
            if (wrap && !realshm && g_seg->exists && p + 1 < np) { SHMLogger* m = (SHMLogger*)g_seg->data; for (int c = 0; c < nch; c++) { RingBuffer& r = m->ring_buffers_[c]; if (r.write_idx_ == r.read_idx_ && r.hold_idx_ == r.read_idx_ && r.read_idx_ < 100000) { int v = RingBuffer::INDEX_CYCLE - (int)wrap; v -= (v - r.read_idx_) % RingBuffer::BUFFER_LEN; r.write_idx_ = r.hold_idx_ = r.read_idx_ = r.proc_idx_ = v; ctx.label("index wrap"); ctx.note("indices of channel %d moved to %d", c, v); } } }
        } else CHECK(!seg_there(), "the segment is still there after a clean end of process %d", p);
    }
    // where lines do not reach the file by fwrite, one that the writer has taken may be on its way when the process dies
    bool direct = direct_writes; if (!direct) ctx.label("writes not seen"); size_t lines = 0, recovered = 0;
    for (auto& x : devs) {
        std::vector<Item> got; parse(x, got); Chan& c = chs[x.c]; Dev& d = c.devs[x.d]; lines += got.size();
        // output again: the record being written at a death (any of those being written on a sync channel used by several threads)
        bool multi = false; if (c.sync) for (auto& P : ps) { int users = 0; for (int t = P.first; t < P.first + P.nt; t++) for (auto& q : ld[t]) if (q.ch == x.c) { users++; break; } multi |= users > 1; }
        std::vector<bool> drop(got.size(), false);
        if (!multi) { for (size_t n : x.cut) if (n > 0 && n < got.size() && got[n].t == got[n - 1].t && got[n].k == got[n - 1].k && got[n].text == got[n - 1].text) drop[n] = true; }
        else { std::set<std::pair<int, int> > had; size_t lo = 0; for (size_t n : x.cut) { for (size_t i = lo; i < n && i < got.size(); i++) had.insert({got[i].t, got[i].k}); size_t hi = got.size(); std::set<std::pair<int, int> > now; for (size_t m : x.cut) if (m > n) { hi = std::min(hi, m); } for (size_t i = n; i < hi; i++) if (had.count({got[i].t, got[i].k}) && now.insert({got[i].t, got[i].k}).second) drop[i] = true; lo = n; } }
        std::vector<Item> u; for (size_t i = 0; i < got.size(); i++) if (!drop[i]) u.push_back(got[i]);
        std::map<std::pair<int, int>, int> n, nm; size_t anon = 0; std::vector<std::pair<int, int> > seq; for (auto& it : u) { if (it.t < 0) { anon++; continue; } n[{it.t, it.k}]++; if (it.marked) nm[{it.t, it.k}]++; seq.push_back({it.t, it.k}); }
        size_t open_left = 0;
        for (size_t t = 0; t < ld.size(); t++) for (size_t k = 0; k < ld[t].size(); k++) {
            const Stmt& st = ld[t][k]; int g = n[{(int)t, (int)k}], gm = nm[{(int)t, (int)k}]; bool acc = st.ch == x.c && accepts(c, d, st), held = st.ch == x.c && st.pri >= c.pri;
            if (st.b < 0) { CHECK(g == 0, "%s: statement %zu.%zu was never made but appears %d times", x.path.c_str(), t, k, g); continue; }
            if (st.logged) { CHECK(gm == 0, "%s: statement %zu.%zu was complete but is marked as recovered", x.path.c_str(), t, k); if (!direct && (!c.sync || multi) && acc && g == 0 && ps[owner_proc[t]].dead) continue; CHECK(g == (acc ? 1 : 0), "%s: statement %zu.%zu, complete, appears %d times, expected %d", x.path.c_str(), t, k, g, acc ? 1 : 0); if (g && ps[owner_proc[t]].dead) recovered++; }
            else { CHECK(g <= (held ? 1 : 0), "%s: statement %zu.%zu, in progress at the death of process %d, appears %d times", x.path.c_str(), t, k, owner_proc[t], g); CHECK(g == 0 || gm || acc, "%s: statement %zu.%zu in progress at the death appears but is not accepted by the device", x.path.c_str(), t, k); if (held && g == 0) open_left++; if (gm) { recovered++; ctx.label("marked line"); } }
        }
        CHECK(anon <= open_left, "%s: %zu recovered fragments for %zu statements in progress", x.path.c_str(), anon, open_left); if (anon) ctx.label("marked line");
        if (!multi) { std::string e = check_order(x.path, ld, seq); CHECK(e.empty(), "%s", e.c_str()); }
    }
    { // nothing is replayed after a clean end
        std::vector<std::string> before; for (auto& x : devs) before.push_back(file_text(x.path));
        if (s.chance(1, 4)) { pid_t pid = fork(); if (pid == 0) { vclock::set(1700000100); LoggerPtr lg = mk_logger(); int r = ParseAndStartLogger(*lg, text); if (r) _exit(3); usleep(2000); r = StopLogger(*lg); if (r) _exit(4); lg.reset(); _exit(0); } int st = 0; waitpid(pid, &st, 0); CHECK(st == 0, "a further process ended with status 0x%x", st); for (size_t i = 0; i < devs.size(); i++) CHECK(file_text(devs[i].path) == before[i], "%s changed in a process that logged nothing", devs[i].path.c_str()); ctx.label("further process"); }
    }
    if (recovered) ctx.label("recovered lines"); if (deaths > 1) ctx.label("several deaths"); ctx.nontrivial(deaths >= 1 && lines >= 1 && recovered >= 1);
}
#ifdef USE_SCHED
PROP(chain, 40, 20000) { run(s, ctx, false, false); }
#else
PROP_NONDET(chain_real, 20, 30000) { run(s, ctx, true, false); }
PROP_NONDET(chain_sysv, 10, 30000) { run(s, ctx, true, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
