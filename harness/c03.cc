// C03: start/stop/restart histories against a two-state model; Stop drains.
#include "contain.h"
#include "conc.h"
using namespace FNLog; using namespace conc;
struct Cfg { std::vector<Chan> chs; std::string text; bool ok; std::string name; };
#include <dlfcn.h>
#include <dirent.h>
#include <utime.h>
// what the process holds: descriptors, threads, memory of operator new
static int entries(const char* dir) { int n = 0; if (DIR* d = opendir(dir)) { while (readdir(d)) n++; closedir(d); } return n; }
static int held_fds() { return entries("/proc/self/fd"); }
static int held_threads(int want) { int n = 0; for (int i = 0; i < 200; i++) { n = entries("/proc/self/task"); if (n <= want) break; struct timespec ts = {0, 5000000}; syscall(SYS_nanosleep, &ts, nullptr); } return n; }   // a joined thread may take a moment to vanish
#if !defined(__SANITIZE_ADDRESS__)
static std::atomic<ll> g_blocks{0};
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_blocks++; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { g_blocks--; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static ll held_blocks() { return g_blocks; }
#else
static ll held_blocks() { return 0; }
#endif
// the creation of a thread fails once g_spare of them have been made (-1: never)
static int g_spare = -1;
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (g_spare == 0) return EAGAIN; if (g_spare > 0) g_spare--; return real(t, at, fn, arg); }
static bool g_def_init = false;      // the process-wide default logger has had a configuration
struct Lg { LoggerPtr lg; bool def = false; bool running = false, ever = false; int cur = -1; bool init = false, dirty = false;   // init: has a configuration; dirty: it was changed while stopped
    std::set<std::pair<int, int> > off;
    int start_text(const std::string& t) { return def ? FastStartDefaultLogger(t) : ParseAndStartLogger(*lg, t); }
    int start_file(const std::string& f) { return def ? LoadAndStartDefaultLogger(f) : LoadAndStartLogger(*lg, f); }
    ~Lg() { if (def && lg) { if (running) StopLogger(*lg); g_def_init |= init; lg.release(); } } Lg() = default; Lg(const Lg&) = delete; };   // off: devices of sync channels disabled at run time
static const char* const BAD[] = {"", " - channel: 1\n    sync: async\n", "nonsense\n", " - channel: 0\n    -device: 1\n        out_type: file\n", "# nothing\n", " - channel: 0\n    priority: info\n    - device: 0\n        disable: false\n  - channel: 0\n"};
PROP(history, 40, 20000) {
    vclock::set(1700000000); ll now = 1700000000; int nl = s.chance(1, 5) ? 2 : 1; std::vector<Cfg> cfgs(s.range(1, 4)); std::vector<Lg> ls(nl); std::map<std::string, std::string> want; long serial = 0; int starts = 0, stmts = 0, offs = 0;
    for (size_t i = 0; i < cfgs.size(); i++) { Cfg& c = cfgs[i]; c.chs.resize(s.range(1, 3)); std::string extra; if (s.chance(1, 5)) extra = fmt(" - shm_key: %d\n", (int)s.pick({0x55, 0x77, 0})); if (s.chance(1, 6)) extra += " - hot_update: true\n";
        for (size_t k = 0; k < c.chs.size(); k++) { Chan& ch = c.chs[k]; ch.sync = s.coin(); if (s.chance(1, 5)) ch.pri = (int)s.range(0, 4); int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)k, d, s.coin()); if (s.coin()) v.file = fmt("g%zu%s", i, v.file.c_str()); ch.devs.push_back(v); } }
        c.text = config(c.chs, extra); ctx.note("configuration %zu:\n%s", i, c.text.c_str()); }
    // two loggers never share a file
    auto fname = [&](int l, const std::string& f) { return (l ? "L2" : "") + f; };
    auto text_of = [&](int l, int i) { std::string t = cfgs[i].text; if (l) { std::string k = "file: \"", o; size_t p = 0, q; while ((q = t.find(k, p)) != std::string::npos) { o += t.substr(p, q + k.size() - p) + "L2"; p = q + k.size(); } t = o + t.substr(p); size_t sk = t.find("shm_key: "); if (sk != std::string::npos) t.insert(sk + 9, "9"); } if (ls[l].def) { size_t sk = t.find(" - shm_key: "); if (sk != std::string::npos) t.erase(sk, t.find('\n', sk) + 1 - sk); /* it outlives the case, the stand-in segments do not */ } return t; };
    auto check_files = [&](const char* when) { for (auto& f : want) { std::string g = file_text(f.first + ".log"); CHECK(g == f.second, "%s: %s.log has %zu bytes, expected %zu: \"%s\", expected \"%s\"", when, f.first.c_str(), g.size(), f.second.size(), esc(g, 120).c_str(), esc(f.second, 120).c_str()); } for (auto& n : list_dir(ctx.dir())) if (n.size() > 4 && n.substr(n.size() - 4) == ".log") CHECK(want.count(n.substr(0, n.size() - 4)) || file_text(n).empty(), "%s: unexpected output in %s", when, n.c_str()); };
    for (auto& l : ls) l.lg = mk_logger();
    if (s.chance(1, 4)) { Lg& l = ls[0]; l.def = true; l.lg.reset(&GetDefaultLogger()); l.ever = l.init = l.dirty = g_def_init; ctx.label("default logger"); ctx.note("logger 0 is the default logger"); }
    int step = 0; Seq q(s, 1, 60, 25);
    while (q.next()) {
        int li = (int)s.u(nl); Lg& L = ls[li]; int op = s.weighted({8, 7, 30, 4, 3, 4, 2, 3, 3, 3, 3}); ctx.key(fmt("%d", op));
        std::string cfg_file = fmt("cfg%d.yml", step++);   // never one a running logger watches
        if (s.chance(1, 6)) { now += s.range(0, 20); vclock::set(now); }
        if (op == 0) {            // start with a valid configuration (text, file or two steps)
            int i = (int)s.u(cfgs.size()), how = (int)s.u(3); std::string t = text_of(li, i); int r; if (how == 1) write_file(cfg_file, t);
            r = how == 0 ? L.start_text(t) : how == 1 ? L.start_file(cfg_file) : InitFromYMAL(*L.lg, t, ""); if (how == 2 && r == 0) r = StartLogger(*L.lg);
            ctx.note("start %d with configuration %d -> %d", li, i, r);
            if (L.running) CHECK(r == E_LOGGER_IN_USE, "starting a running logger returned %d, expected in-use", r); else { CHECK(r == 0, "starting a stopped logger with a valid configuration returned %d", r); L.running = L.ever = L.init = true; L.dirty = false; L.cur = i; L.off.clear(); starts++; }
        } else if (op == 1) {     // stop
            int r = StopLogger(*L.lg); ctx.note("stop %d -> %d", li, r);
            if (L.running) { CHECK(r == 0, "stopping a running logger returned %d", r); L.running = false; bool any = false; for (auto& o : ls) any |= o.running; if (!any) check_files("after StopLogger"); }
            else { CHECK(r == E_LOGGER_NOT_RUNNING, "stopping a stopped logger%s returned %d, expected not-running", L.ever ? "" : " that was never started", r); offs++; }
        } else if (op == 2) {     // statements on existing and missing channels
            int n = (int)s.range(1, 6); for (int k = 0; k < n; k++) {
                Stmt st; st.ch = s.chance(1, 10) ? (int)s.range(-1, 4) : (int)s.u(3); st.pri = (int)s.range(0, 5); st.cat = (int)s.range(0, 4); std::string b = body((int)++serial, li, s.chance(1, 12) ? LOGMAX - 2 : (int)s.range(5, 40)); stmts++;
                put(*L.lg, st.ch, st.pri, st.cat, 0, b);
                if (!L.running) { offs++; continue; }
                Cfg& c = cfgs[L.cur]; if (st.ch < 0 || st.ch >= (int)c.chs.size()) continue;
                for (size_t di = 0; di < c.chs[st.ch].devs.size(); di++) { auto& d = c.chs[st.ch].devs[di]; if (accepts(c.chs[st.ch], d, st) && !L.off.count({st.ch, (int)di})) want[fname(li, d.file)] += b + "\n"; }
            }
            ctx.note("%d statements on %d", n, li);
        } else if (op == 3) {     // start with something invalid
            int k = (int)s.u(sizeof(BAD) / sizeof(BAD[0]) + 5), nb = sizeof(BAD) / sizeof(BAD[0]); if (k == nb + 2) { write_file("closed.yml", cfgs[0].text); chmod("closed.yml", 0); } int r = k < nb ? L.start_text(BAD[k]) : k == nb ? L.start_file("missing.yml") : k == nb + 2 ? L.start_file("closed.yml") : k == nb + 3 ? L.start_file(".") : k == nb + 4 ? L.start_file("") : (write_file("bad.yml", BAD[3]), L.start_file("bad.yml"));
            ctx.note("invalid start %d of %d -> %d", k, li, r);
            if (L.running) CHECK(r == E_LOGGER_IN_USE, "starting a running logger with an invalid text returned %d, expected in-use", r); else { CHECK(r != 0, "an invalid configuration (%d) was accepted", k); L.dirty = true; }
            ctx.label("invalid start");
        } else if (op == 4) {     // destroy and recreate
            if (L.def) { if (L.running) { int r = StopLogger(*L.lg); CHECK(r == 0, "stopping the default logger returned %d", r); L.running = false; } continue; }
            bool was = L.running; L.lg.reset(); ctx.note("destroy %d", li); bool any = false; L.running = L.ever = L.init = false; L.off.clear(); for (auto& o : ls) any |= o.running; if (!any) check_files("after the destructor"); L.lg = mk_logger(); if (was) ctx.label("destroyed while running");
        } else if (op == 5) {     // setters and getters in every state; on a stopped logger they must not matter later
            if (L.running) {      // a device of a sync channel is switched off or on again
                Cfg& c = cfgs[L.cur]; int k = (int)s.u(c.chs.size()), d = (int)s.u(c.chs[k].devs.size()); if (!c.chs[k].sync || !c.chs[k].devs[d].on) continue;
                bool on = L.off.count({k, d}); SetDeviceConfig(*L.lg, k, d, DEVICE_CFG_ABLE, on); if (on) L.off.erase({k, d}); else L.off.insert({k, d}); ctx.note("device %d of channel %d of %d switched %s", d, k, li, on ? "on" : "off"); ctx.label("device switched"); continue; }
            L.dirty = true; int c = (int)s.range(-1, 3), d = (int)s.range(-1, 3); ctx.note("getters and setters on stopped %d", li); ctx.label(L.ever ? "setters while stopped" : "setters before the first start");
            GetChannelLog(*L.lg, c, CHANNEL_LOG_PUSH); GetDeviceLog(*L.lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE); GetDeviceConfig(*L.lg, c, d, DEVICE_CFG_PRIORITY);
            SetChannelConfig(*L.lg, c, CHANNEL_CFG_PRIORITY, 5); SetDeviceConfig(*L.lg, c, d, DEVICE_CFG_ABLE, 0); if (s.coin()) BatchSetChannelConfig(*L.lg, CHANNEL_CFG_PRIORITY, 6); if (s.coin()) BatchSetDeviceConfig(*L.lg, DEVICE_OUT_FILE, DEVICE_CFG_ABLE, 0);
        } else if (op == 6) {     // a configuration whose file cannot be opened, corrected by a restart
            if (L.running) continue; std::string t = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        path: \"blocked/x\"\n        file: \"f\"\n"; write_file("blocked", "");
            int r = L.start_text(t); ctx.note("start %d with a blocked path -> %d", li, r); CHECK(r == 0, "start with a blocked path returned %d", r); put(*L.lg, 0, 3, 0, 0, "lost"); r = StopLogger(*L.lg); CHECK(r == 0, "stop returned %d", r); L.ever = L.init = L.dirty = true; ctx.label("restart after a blocked path");
        } else if (op == 8) {     // a configuration is loaded, the logger is not started
            int i = (int)s.u(cfgs.size()); bool file = s.coin(); std::string t = text_of(li, i); if (file) write_file(cfg_file, t); int r = file ? InitFromYMALFile(*L.lg, cfg_file) : InitFromYMAL(*L.lg, t, ""); ctx.note("configuration %d loaded into %d -> %d", i, li, r); ctx.label("loaded only");
            if (L.running) CHECK(r == E_LOGGER_IN_USE, "loading a configuration into a running logger returned %d, expected in-use", r); else { CHECK(r == 0, "loading a valid configuration returned %d", r); L.init = true; L.dirty = false; L.cur = i; L.off.clear(); }
        } else if (op == 9) {     // start with what is loaded
            if (!L.running && L.init && L.dirty) continue; int r = StartLogger(*L.lg); ctx.note("bare start of %d -> %d", li, r); ctx.label("bare start");
            if (L.running) CHECK(r == E_LOGGER_IN_USE, "starting a running logger returned %d, expected in-use", r); else if (!L.init) CHECK(r != 0, "starting a logger without a configuration returned 0"); else { CHECK(r == 0, "starting a loaded logger returned %d", r); L.running = L.ever = true; starts++; }
        } else if (op == 10) {    // no more threads can be made during a start
            int i = (int)s.u(cfgs.size()), how = (int)s.u(2), spare = (int)s.u(3); std::string t = text_of(li, i); if (how) write_file(cfg_file, t); g_spare = spare; int r; try { r = how ? L.start_file(cfg_file) : L.start_text(t); } catch (const std::exception& e) { g_spare = -1; snprintf(ctx.sh->msg, Shared::MSG, "a start for which no thread could be made threw \"%s\"", e.what()); ctx.sh->state = 2; _exit(77); /* the destructor of such a logger need not return */ } g_spare = -1;
            ctx.note("start %d with configuration %d and %d threads to be had -> %d", li, i, spare, r); int need = 0; for (auto& k : cfgs[i].chs) need += !k.sync;
            if (L.running) { CHECK(r == E_LOGGER_IN_USE, "starting a running logger returned %d, expected in-use", r); continue; } L.cur = i; L.init = true; L.dirty = false; L.off.clear();
            if (need > spare) { CHECK(r != 0, "a start for which %d of %d threads could be made returned 0", spare, need); L.ever = true; ctx.label("no threads"); } else { CHECK(r == 0, "starting a stopped logger with a valid configuration returned %d", r); L.running = L.ever = true; starts++; }
        } else {                  // burst larger than the queue
            if (!L.running) continue; Cfg& c = cfgs[L.cur]; int n = (int)s.range(8, 40), chn = (int)s.u(c.chs.size()); Stmt st; st.ch = chn; st.pri = 5; st.cat = (int)s.u(3);
            for (int k = 0; k < n; k++) { std::string b = body((int)++serial, li, 20); put(*L.lg, chn, 5, st.cat, 0, b); for (size_t di = 0; di < c.chs[chn].devs.size(); di++) { auto& d = c.chs[chn].devs[di]; if (accepts(c.chs[chn], d, st) && !L.off.count({chn, (int)di})) want[fname(li, d.file)] += b + "\n"; } } ctx.note("burst of %d on channel %d of %d", n, chn, li); stmts += n; ctx.label("burst");
        }
    }
    for (auto& l : ls) if (!l.def) l.lg.reset(); else if (l.running) { int r = StopLogger(*l.lg); CHECK(r == 0, "stopping the default logger returned %d", r); l.running = false; }
    check_files("at the end");
    if (starts > 1) ctx.label("restarts"); if (offs) ctx.label("calls while stopped"); ctx.nontrivial(starts >= 1 && stmts >= 1);
}
// the same cycle of construction, use and destruction again and again: nothing stays behind
PROP(leaks, 20, 30000) {
    vclock::set(1700000000); int nch = (int)s.range(1, 3); std::vector<Chan> chs(nch); std::string extra; if (s.chance(1, 4)) extra = " - shm_key: 85\n"; bool hot = s.coin(); if (hot) extra += " - hot_update: true\n"; int size = s.chance(1, 3) ? (int)s.range(20, 200) : 0;
    for (int c = 0; c < nch; c++) { chs[c].sync = s.coin(); int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, c, d, s.chance(1, 3)); chs[c].devs.push_back(v); } }
    std::string text = config(chs, extra), more = text + "    -device: " + std::to_string(chs[nch - 1].devs.size()) + "\n        disable: false\n        out_type: file\n        path: \"./\"\n        file: \"added\"\n"; if (s.coin()) more += fmt("    -device: %zu\n        disable: false\n        out_type: udp\n        udp_addr: 127.0.0.1:9\n", chs[nch - 1].devs.size() + 1);
    struct O { int kind, n, ch, how; }; std::vector<O> ops; { Seq q(s, 2, 24, 10); while (q.next()) ops.push_back({s.weighted({6, 5, 8, 2, 3, 2, 1}), (int)s.range(1, 12), (int)s.u(nch), (int)s.u(8)}); }
    ctx.note("%s", text.c_str()); for (auto& o : ops) { const char* nm[] = {"start", "stop", "statements", "invalid start", "file changes", "a file cannot be opened", "no threads"}; ctx.note("%s %d %d %d", nm[o.kind], o.n, o.ch, o.how); ctx.key(fmt("%d%d", o.kind, o.how)); }
    std::string line(40, 'x'); int cycles = 5, starts = 0, stmts = 0; ll mt = 1600000000; struct Snap { int fd, th; ll bl; int segs; }; std::vector<Snap> snaps; snaps.reserve(cycles + 1); ll t = 1700000000; const std::string cp = "leak.yml", nm_new = "leak.yml.new"; int run_fd = 0;
    auto put_conf = [&](const std::string& x) { write_file(nm_new, x); struct utimbuf u; u.actime = u.modtime = ++mt; utime(nm_new.c_str(), &u); rename(nm_new.c_str(), cp.c_str()); };
    for (int k = 0; k < cycles; k++) {
        { LoggerPtr lg = mk_logger(); bool running = false; int fds0 = held_fds(); put_conf(text);
          for (auto& o : ops) { t += 7; vclock::set(t);
            if (o.kind == 0) { int r = o.how < 3 ? ParseAndStartLogger(*lg, text) : o.how < 6 ? LoadAndStartLogger(*lg, cp) : InitFromYMAL(*lg, text, ""); if (o.how >= 6 && r == 0) r = StartLogger(*lg); CHECK(r == (running ? E_LOGGER_IN_USE : 0), "start returned %d", r); running = true; starts++; if (size) { BatchSetDeviceConfig(*lg, DEVICE_OUT_FILE, DEVICE_CFG_FILE_LIMIT_SIZE, size); BatchSetDeviceConfig(*lg, DEVICE_OUT_FILE, DEVICE_CFG_FILE_ROLLBACK, 2); } }
            else if (o.kind == 1) { int r = StopLogger(*lg); CHECK(r == (running ? 0 : E_LOGGER_NOT_RUNNING), "stop returned %d", r); running = false; int f = held_fds(); CHECK(f == fds0, "%d descriptors are open after the stop, %d before the logger was first started", f, fds0); }
            else if (o.kind == 2) { for (int i = 0; i < o.n; i++) { LogStream(LOG_STREAM_ORIGIN(*lg, o.ch, 5, o.how & 1, 0, o.how & 2 ? LOG_PREFIX_DEFAULT : LOG_PREFIX_NULL)) << line << o.n << 1.5 << std::vector<int>(o.n, 3); } stmts += o.n; }
            else if (o.kind == 3) { const char* bad = BAD[o.how % 6]; int r = o.how < 5 ? ParseAndStartLogger(*lg, bad) : o.how == 5 ? LoadAndStartLogger(*lg, "missing.yml") : (write_file("bad.yml", bad), LoadAndStartLogger(*lg, "bad.yml")); CHECK(r != 0, "an invalid start returned 0"); }
            else if (o.kind == 4) { put_conf(o.how < 3 ? more : o.how < 6 ? text : text + "nonsense\n"); vclock::advance_ms(6000); t += 6; if (running) for (int c = 0; c < nch; c++) LogStream(LOG_STREAM_ORIGIN(*lg, c, 6, 0, 0, LOG_PREFIX_NULL)) << "poke"; put_conf(text); }
            else if (o.kind == 5) { if (running) { StopLogger(*lg); running = false; } mkdir("c0d0.log", 0755); rename("c0d0.log", "keep.d"); if (unlink("c0d0.log") == 0 || errno == ENOENT) mkdir("c0d0.log", 0755); if (ParseAndStartLogger(*lg, text) == 0) { for (int i = 0; i < 3; i++) { LogStream(LOG_STREAM_ORIGIN(*lg, 0, 6, 0, 0, LOG_PREFIX_NULL)) << "lost"; vclock::advance_ms(6000); t += 6; } StopLogger(*lg); } rmdir("c0d0.log"); rmdir("keep.d"); }
            else { if (running) continue; g_spare = o.how % 3; int r = ParseAndStartLogger(*lg, text); g_spare = -1; if (r == 0) running = true; } }
          size_t devs = 0; for (auto& c : chs) devs += c.devs.size();
          for (int i = 0; i < 200; i++) { run_fd = held_fds() - fds0; if (run_fd <= (int)devs + 2) break; real_sleep_ms(1); }   // a configuration file may be open just now
          CHECK(run_fd <= (int)devs + 2, "%d descriptors are open for %zu devices", run_fd, devs + 2);
          lg.reset(); }
        for (auto& n : list_dir(".")) unlink(n.c_str());
        snaps.push_back({held_fds(), held_threads(snaps.empty() ? 3 : snaps[0].th), held_blocks(), (int)contain::segs().size()});
        if (k) CHECK(snaps[k].fd == snaps[0].fd && snaps[k].th == snaps[0].th && snaps[k].segs == 0, "after cycle %d the process holds %d descriptors, %d threads, %d segments; after the first %d, %d", k + 1, snaps[k].fd, snaps[k].th, snaps[k].segs, snaps[0].fd, snaps[0].th);
        if (k >= 2) CHECK(snaps[k].bl <= snaps[1].bl, "after cycle %d %lld blocks of memory are held, after the second %lld", k + 1, snaps[k].bl, snaps[1].bl);
    }
    ctx.nontrivial(starts >= cycles && stmts >= cycles); if (hot) ctx.label("hot update"); if (size) ctx.label("size rolling");
}
int main(int c, char** v) { return pbt_main(c, v); }
