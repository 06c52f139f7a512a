// C19: what a screen device puts on standard output.
#ifdef USE_SCHED   // every call that writes to standard output is a scheduling point
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/stat.h>
#define VCLOCK_NO_DEFS
#include "ctlsched.h"
#include <stdarg.h>
static inline int y_printf(const char* f, ...) { sched::yield(); va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); sched::yield(); return r; }
static inline size_t y_fwrite(const void* p, size_t z, size_t n, FILE* f) { sched::yield(); return fwrite(p, z, n, f); }
static inline int y_fputs(const char* t, FILE* f) { sched::yield(); return fputs(t, f); }
static inline int y_putchar(int c) { sched::yield(); return putchar(c); }
namespace std { using ::y_printf; using ::y_fwrite; using ::y_fputs; using ::y_putchar; }
#undef putchar
#define printf y_printf
#define fwrite y_fwrite
#define fputs y_fputs
#define putchar y_putchar
#endif
#include "conc.h"
#include <fcntl.h>
using namespace FNLog; using namespace conc;
static const char* const COLOUR[] = {"", "", "\x1b[34m\x1b[1m", "\x1b[33m", "\x1b[31m", "\x1b[32m", "\x1b[35m"};
static std::string shown_as(int pri, const std::string& line) { return pri < PRIORITY_INFO ? line : COLOUR[pri] + line + "\x1b[0m"; }
static void nap(long us) { struct timespec ts = {0, us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); }
struct Screen { int keep; Screen() { fflush(stdout); keep = dup(1); int f = open("screen.out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(f, 1); close(f); } ~Screen() { fflush(stdout); dup2(keep, 1); close(keep); } size_t size() { fflush(stdout); struct stat st; fstat(1, &st); return st.st_size; } std::string from(size_t p) { fflush(stdout); return file_text("screen.out").substr(p); } };
static std::string text_of(Src& s, int n) { std::string o; unsigned x = (unsigned)s.bits(); int style = (int)s.u(4); for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; unsigned c = x >> 16; char ch = style == 0 ? (char)('a' + c % 26) : style == 1 ? "%sdn\n\t{}$\"\x1b[m01"[c % 16] : style == 2 ? "%snd"[c % 4] : (char)c; if (!ch) ch = '%'; o += ch; } return o; }
struct SDev { int pri = 0, catb = 0, cate = 0; bool on = true, screen = true; };
struct SChan { bool sync = true; int pri = 0; std::vector<SDev> devs; };
static std::string config_of(const std::vector<SChan>& chs) { std::string t; for (size_t c = 0; c < chs.size(); c++) { t += fmt(" - channel: %zu\n    sync: %s\n    priority: %s\n", c, chs[c].sync ? "sync" : "async", PRI_NAMES[chs[c].pri]); for (size_t d = 0; d < chs[c].devs.size(); d++) { auto& v = chs[c].devs[d]; t += fmt("    -device: %zu\n        disable: %s\n        out_type: %s\n        priority: %s\n        category: %d\n        category_extend: %d\n", d, v.on ? "false" : "true", v.screen ? "screen" : "empty", PRI_NAMES[v.pri], v.catb, v.cate); } } return t; }
static bool takes(const SChan& c, const SDev& d, int pri, int cat) { return d.on && d.screen && pri >= c.pri && pri >= d.pri && (d.cate == 0 || (cat >= d.catb && cat < d.catb + d.cate)); }
#ifndef USE_SCHED
PROP(screen, 40, 20000) {
    vclock::set(1700000000); Screen scr; int nch = (int)s.range(1, 3), async_ch = s.coin() ? (int)s.u(nch) : -1; std::vector<SChan> chs(nch);
    for (int c = 0; c < nch; c++) { auto& k = chs[c]; k.sync = c != async_ch; if (s.chance(1, 4)) k.pri = (int)s.range(0, 4); int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { SDev v; v.screen = !s.chance(1, 5); v.on = !s.chance(1, 8); if (s.chance(1, 3)) v.pri = (int)s.range(0, 6); if (s.chance(1, 4)) { v.catb = (int)s.range(0, 2); v.cate = (int)s.range(1, 3); } k.devs.push_back(v); } }
    ctx.note("%s", config_of(chs).c_str()); LoggerPtr lg = mk_logger(); int r = ParseAndStartLogger(*lg, config_of(chs)); CHECK(r == 0, "start returned %d", r); int shown = 0; Seq q(s, 2, 40, 16);
    while (q.next()) {
        int op = s.weighted({20, 1, 2}); ctx.key(fmt("%d", op));
        if (op == 0) { size_t p = scr.size(); int c = (int)s.u(nch), n = (int)s.range(1, 6); std::string want; for (int i = 0; i < n; i++) { int pri = (int)s.range(0, 6), cat = (int)s.range(0, 4), len = s.weighted({1, 8, 2, 1}); std::string b = len == 0 ? "" : text_of(s, len == 1 ? (int)s.range(1, 50) : len == 2 ? (int)s.range(1, LOGMAX - 2) : LOGMAX - 4 + (int)s.range(0, 40)); put(*lg, c, pri, cat, 0, b); if ((int)b.size() > LOGMAX - 2) b.resize(LOGMAX - 2); for (auto& v : chs[c].devs) if (takes(chs[c], v, pri, cat)) { want += shown_as(pri, b + "\n"); shown++; } }
            ctx.note("%d statements on channel %d", n, c); if (c == async_ch) vclock::wait_idle();
            std::string g = scr.from(p); if (g != want) { size_t i = 0; while (i < g.size() && i < want.size() && g[i] == want[i]) i++; CHECK(0, "the screen differs from the lines accepted at byte %zu (%zu bytes, %zu expected): \"%s\", expected \"%s\"", i, g.size(), want.size(), esc(g.substr(i > 20 ? i - 20 : 0, 80), 120).c_str(), esc(want.substr(i > 20 ? i - 20 : 0, 80), 120).c_str()); } }
        else if (op == 1) { r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); for (auto& k : chs) for (auto& v : k.devs) v.on = !s.chance(1, 8); r = ParseAndStartLogger(*lg, config_of(chs)); CHECK(r == 0, "start returned %d", r); ctx.note("restart with\n%s", config_of(chs).c_str()); }
        else { int c = (int)s.u(nch), d = (int)s.u(chs[c].devs.size()); auto& v = chs[c].devs[d]; if (s.coin()) { v.on = !v.on; SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, v.on); } else { v.pri = (int)s.range(0, 6); SetDeviceConfig(*lg, c, d, DEVICE_CFG_PRIORITY, v.pri); } ctx.note("device %d of channel %d: %s, %s", d, c, v.on ? "enabled" : "disabled", PRI_NAMES[v.pri]); }
    }
    r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); ctx.nontrivial(shown >= 2);
}
#endif
static void threads(Src& s, Ctx& ctx, bool real) {
    Screen scr; int nch = (int)s.range(1, real ? 4 : 2), nt = (int)s.range(2, real ? 6 : 4); std::vector<SChan> chs(nch); for (auto& k : chs) { k.sync = s.chance(2, 3); int nd = (int)s.range(1, 2); for (int d = 0; d < nd; d++) { SDev v; if (d) v.pri = (int)s.range(0, 6); k.devs.push_back(v); } } std::string cfg = config_of(chs); ctx.note("%s", cfg.c_str());
    Load ld(nt); for (int t = 0; t < nt; t++) { Seq q(s, 1, real ? 300 : 30, real ? 150 : 10); while (q.next()) { Stmt x; x.ch = (int)s.u(nch); x.pri = (int)s.range(0, 6); x.len = (int)s.range(6, 60); ld[t].push_back(x); } ctx.note("T%d: %zu statements", t, ld[t].size()); ctx.key(fmt("%zu", ld[t].size())); }
    vclock::set(1700000000); LoggerPtr lg = mk_logger(); int r; size_t from = scr.size();
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 3); g_ctx = &ctx; r = InitFromYMAL(*lg, cfg, ""); CHECK(r == 0, "init %d", r); from = scr.size(); sched::begin(plan, on_fail); watch_logger(*lg, s.coin()); sched::watch(stdout, sizeof *stdout);
    r = StartLogger(*lg);
#else
    r = ParseAndStartLogger(*lg, cfg);
#endif
    CHECK(r == 0, "start %d", r);
    { std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) emit(*lg, body(t, (int)k, ld[t][k].len) + "%s%n%d", ld[t][k]); }); for (auto& t : th) t.join(); }
    r = StopLogger(*lg);
#ifdef USE_SCHED
    unsigned long long sw = sched::switches(); sched::end();
#else
    unsigned long long sw = 9;
#endif
    CHECK(r == 0, "stop %d", r); std::string g = scr.from(from); std::map<std::pair<int, int>, int> n; std::vector<std::vector<int> > last(nch, std::vector<int>(nt, -1)); size_t p = 0;
    while (p < g.size()) {
        int t = -1, k = -1; char c = 0; size_t b = p; if (g[p] == '\x1b') { b = g.find('m', p); if (b != std::string::npos && g.compare(b + 1, 2, "\x1b[") == 0) b = g.find('m', b + 1); if (b == std::string::npos) b = p; else b++; }
        bool ok = sscanf(g.c_str() + b, "%d.%d%c", &t, &k, &c) == 3 && c == ':' && t >= 0 && t < nt && k >= 0 && k < (int)ld[t].size(); std::string w = ok ? shown_as(ld[t][k].pri, body(t, k, ld[t][k].len) + "%s%n%d\n") : "";
        CHECK(ok && g.compare(p, w.size(), w) == 0, "no statement's line at byte %zu of the screen: \"%s\"%s%s", p, esc(g.substr(p > 30 ? p - 30 : 0, 120), 160).c_str(), ok ? ", expected " : "", esc(w, 80).c_str());
        n[std::make_pair(t, k)]++; int ch = ld[t][k].ch; CHECK(chs[ch].sync || k >= last[ch][t], "statement %d.%d is shown after %d.%d of the same thread and channel", t, k, t, last[ch][t]); last[ch][t] = k; p += w.size(); }
    for (int t = 0; t < nt; t++) for (int k = 0; k < (int)ld[t].size(); k++) { int w = 0; for (auto& v : chs[ld[t][k].ch].devs) w += takes(chs[ld[t][k].ch], v, ld[t][k].pri, 0); int gn = n[std::make_pair(t, k)]; CHECK(gn == w, "statement %d.%d is shown %d times, expected %d", t, k, gn, w); }
    ctx.nontrivial(sw >= 4);
}
#ifdef USE_SCHED
PROP(screensched, 40, 20000) { threads(s, ctx, false); }
#else
PROP_NONDET(stress_screen, 20, 30000) { threads(s, ctx, true); }
#endif
int main(int c, char** v) { conc::g_bytes = false; return pbt_main(c, v); }   // a screen shows C strings
