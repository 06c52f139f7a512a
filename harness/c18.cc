// C18: UDP output and input devices over loopback.
#include "conc.h"
#include <deque>
#include <utime.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/resource.h>
using namespace FNLog; using namespace conc;
// an address of this process alone: no other case running beside this one can take its ports
static std::string own_ip(int k) { unsigned p = (unsigned)getpid(); return fmt("127.%u.%u.%u", 100 + ((p >> 16) & 63) + (k ? 64 : 0), (p >> 8) & 255, p & 255); }
struct Sock { int f = -1; std::string ip; int port = 0; ~Sock() { if (f >= 0) close(f); }
    // ports the kernel gives to nobody by itself: a sender without an address (of another process) holds its port on every address
    static int next_port() { static int n = 0; return 10000 + n++ % 20000; }
    bool draw(const std::string& addr) { for (int i = 0; i < 100; i++) { if (open(addr, next_port())) return true; if (f >= 0) close(f); f = -1; } return false; }
    bool open(const std::string& addr, int want = 0) { ip = addr; f = socket(AF_INET, SOCK_DGRAM, 0); if (f < 0) return false; struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(ip.c_str()); a.sin_port = htons(want); if (::bind(f, (struct sockaddr*)&a, sizeof a) != 0) return false; socklen_t l = sizeof a; getsockname(f, (struct sockaddr*)&a, &l); port = ntohs(a.sin_port); int z = 4 << 20; setsockopt(f, SOL_SOCKET, SO_RCVBUF, &z, sizeof z); fcntl(f, F_SETFL, O_NONBLOCK); return true; }
    bool send(const std::string& d, const std::string& ip_, int port_) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(ip_.c_str()); a.sin_port = htons(port_); for (int i = 0; i < 3; i++) { ssize_t n = sendto(f, d.data(), d.size(), 0, (struct sockaddr*)&a, sizeof a); if (n == (ssize_t)d.size()) return true; if (errno != ECONNREFUSED) return false; } return false; }
    bool recv(std::string& out, int wait_ms) { static char b[70000]; struct pollfd p = {f, POLLIN, 0}; if (poll(&p, 1, wait_ms) <= 0) return false; ssize_t n = ::recv(f, b, sizeof b, 0); if (n < 0) return false; out.assign(b, n); return true; } };
static void nap(long us) { struct timespec ts = {0, us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); }
static void idle() { vclock::wait_idle(); }
static std::string bytes(Src& s, int n, bool nul) { std::string o; unsigned x = (unsigned)s.bits(); int style = (int)s.u(3); for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; unsigned c = x >> 16; char ch = style == 0 ? (char)('a' + c % 26) : style == 1 ? "%sn\n\t{}\"\x1b[m 01"[c % 13] : (char)c; if (!ch && !nul) ch = '%'; o += ch; } return o; }
#ifndef USE_SCHED
// ---- output ----
struct ODev { int out = 0; /*0 udp 1 file*/ int pri = 0; bool on = true; int to = 0; };
struct OChan { bool sync = true; std::vector<ODev> devs; };
PROP(udp_out, 30, 30000) {
    vclock::set(1700000000 + (ll)s.u(3)); Sock rx[3]; CHECK(rx[0].open(own_ip(0)) && rx[1].open(own_ip(1)) && rx[2].open(own_ip(0)), "receiver");
    int ncfg = (int)s.range(1, 2), async_ch = s.coin() ? (int)s.u(2) : -1; std::vector<std::vector<OChan> > cfgs(ncfg);
    for (auto& g : cfgs) { g.resize(s.range(1, 2)); for (size_t c = 0; c < g.size(); c++) { g[c].sync = (int)c != async_ch; int nd = (int)s.range(1, 4); for (int d = 0; d < nd; d++) { ODev v; v.out = d && s.chance(1, 4); v.pri = s.chance(1, 3) ? (int)s.range(0, 4) : 0; v.on = !s.chance(1, 8); v.to = (int)s.u(3); g[c].devs.push_back(v); } } }
    auto text = [&](std::vector<OChan>& g) { std::string t; for (size_t c = 0; c < g.size(); c++) { t += fmt(" - channel: %zu\n    sync: %s\n", c, g[c].sync ? "sync" : "async"); for (size_t d = 0; d < g[c].devs.size(); d++) { auto& v = g[c].devs[d]; t += fmt("    -device: %zu\n        disable: %s\n        priority: %s\n        out_type: %s\n", d, v.on ? "false" : "true", PRI_NAMES[v.pri], v.out ? "file" : "udp"); t += v.out ? fmt("        path: \"./\"\n        file: \"c%zud%zu\"\n", c, d) : fmt("        udp_addr: %s:%d\n", rx[v.to].ip.c_str(), rx[v.to].port); } } return t; };
    for (auto& g : cfgs) ctx.note("%s", text(g).c_str());
    LoggerPtr lg = mk_logger(); std::vector<OChan> cur; bool running = false; std::map<std::pair<int, int>, std::deque<std::string> > want; size_t total[3] = {0, 0, 0}, got[3] = {0, 0, 0}; int stmts = 0, restarts = 0, moved = 0, starved = 0; size_t sent = 0; std::set<std::pair<int, int> > open_; std::map<std::pair<int, int>, ll> lost; bool nofd = false;
    auto check = [&]() {
        if (running) for (size_t c = 0; c < cur.size(); c++) if (!cur[c].sync) idle();
        if (running) for (size_t c = 0; c < cur.size(); c++) for (size_t d = 0; d < cur[c].devs.size(); d++) if (!cur[c].devs[d].out) { ll l = GetDeviceLog(*lg, (int)c, (int)d, DEVICE_LOG_TOTAL_LOSE_LINE), w = lost[std::make_pair((int)c, (int)d)]; CHECK(l == w, "device %zu of channel %zu counts %lld lost lines, %lld found no socket", d, c, l, w); }
        for (int r = 0; r < 3; r++) for (;;) { std::string d; bool have = rx[r].recv(d, got[r] < total[r] ? 3000 : 0); if (!have) { CHECK(got[r] == total[r], "receiver %d got %zu datagrams, %zu lines were accepted for it", r, got[r], total[r]); break; }
            got[r]++; int c = -1; sscanf(d.c_str(), "%d.", &c); auto& wq = want[std::make_pair(r, c)]; CHECK(got[r] <= total[r] && !wq.empty(), "receiver %d got a datagram more than the lines accepted for it: \"%s\"", r, esc(d, 80).c_str()); std::string& w = wq.front();
            CHECK(d == w, "receiver %d got \"%s\" (%zu bytes), the next line of channel %d is \"%s\" (%zu bytes)", r, esc(d, 60).c_str(), d.size(), c, esc(w, 60).c_str(), w.size()); wq.pop_front(); } };
    ll mt = 1600000000; bool hot = false; int updates = 0; const std::string cp = ctx.dir() + "/u.yml"; auto put_conf = [&]() { write_file(cp + ".new", " - hot_update: true\n" + text(cur)); struct utimbuf u; u.actime = u.modtime = ++mt; utime((cp + ".new").c_str(), &u); rename((cp + ".new").c_str(), cp.c_str()); };
    auto start = [&]() { cur = cfgs[s.u(ncfg)]; open_.clear(); hot = s.coin(); int r; if (hot) { put_conf(); r = LoadAndStartLogger(*lg, cp); } else r = ParseAndStartLogger(*lg, text(cur)); CHECK(r == 0, "start returned %d", r); running = true; };
    auto say = [&](int c, int p, const std::string& b) { put(*lg, c, p, 0, 0, b); if (!running || c >= (int)cur.size()) return; for (size_t d = 0; d < cur[c].devs.size(); d++) { auto& v = cur[c].devs[d]; if (!v.on || v.out || p < v.pri) continue; if (nofd && !open_.count({c, (int)d})) { lost[{c, (int)d}]++; continue; } open_.insert({c, (int)d}); want[{v.to, c}].push_back(b + "\n"); total[v.to]++; sent++; } };
    start(); Seq q(s, 2, 40, 14);
    while (q.next()) {
        int op = s.weighted({20, 3, 3, 3, 3, 2, 2, 3}); ctx.key(fmt("%d", op));
        if (op == 7 && running && hot) { // other addresses, filters and new devices through the file
            check(); for (size_t c = 0; c < cur.size(); c++) { bool any = false; for (auto& v : cur[c].devs) any |= v.on; if (!any) { cur[c].devs[0].on = true; SetDeviceConfig(*lg, (int)c, 0, DEVICE_CFG_ABLE, 1); } }
            auto old = cur; for (auto& C : cur) { for (auto& v : C.devs) { if (s.coin()) v.to = (int)s.u(3); if (s.chance(1, 4)) v.on = !v.on; if (s.chance(1, 4)) v.pri = (int)s.range(0, 4); } while (C.devs.size() < 6 && s.chance(1, 3)) { ODev v; v.to = (int)s.u(3); v.on = !s.chance(1, 8); v.out = s.chance(1, 5); C.devs.push_back(v); ctx.label("device appended"); } }
            put_conf(); ctx.note("the file is now\n%s", text(cur).c_str()); auto next = cur; cur = old; vclock::advance_ms(10000);
            for (size_t c = 0; c < cur.size(); c++) if (cur[c].sync) say((int)c, PRIORITY_FATAL, fmt("%zu.%d:", c, stmts++)); else { idle(); idle(); } cur = next; updates++; check(); }
        struct rlimit full; if (op == 6) { check(); getrlimit(RLIMIT_NOFILE, &full); struct rlimit none = full; none.rlim_cur = 1; setrlimit(RLIMIT_NOFILE, &none); nofd = true; starved++; ctx.note("no descriptors"); }
        if (op == 0 || op == 6) { int n = (int)s.range(1, 12); for (int i = 0; i < n; i++) { int c = (int)s.u(2), p = (int)s.range(0, 6); std::string b = fmt("%d.%d:", c, stmts++); int len = s.weighted({6, 2, 2}) ; b += bytes(s, len == 0 ? (int)s.range(0, 60) : len == 1 ? (int)s.range(0, LOGMAX) : LOGMAX - 2 - (int)b.size() - (int)s.range(0, 3), true); if ((int)b.size() > LOGMAX - 2) b.resize(LOGMAX - 2); say(c, p, b); } ctx.note("%d statements", n); check(); if (op == 6) { setrlimit(RLIMIT_NOFILE, &full); nofd = false; if (s.chance(1, 3)) { vclock::advance_ms(-86400000); ctx.note("the clock was set back by a day"); ctx.label("clock set back"); } vclock::advance_ms(10000); ctx.note("descriptors again"); } }
        else if (op == 1) { if (running) { check(); int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; ctx.note("stop"); } else { start(); restarts++; ctx.note("start"); } check(); }
        else if (op == 2) { if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); } start(); restarts++; ctx.note("restart"); }
        else if (op == 3 && running) { check(); int c = (int)s.u(cur.size()), d = (int)s.u(cur[c].devs.size()); cur[c].devs[d].on = !cur[c].devs[d].on; SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, cur[c].devs[d].on); ctx.note("device %d of channel %d %s", d, c, cur[c].devs[d].on ? "enabled" : "disabled"); }
        else if (op == 4 && running) { check(); int c = (int)s.u(cur.size()), d = (int)s.u(cur[c].devs.size()); auto& v = cur[c].devs[d]; if (v.out) continue; v.to = (int)s.u(3); SetDeviceConfig(*lg, c, d, DEVICE_CFG_UDP_IP, inet_addr(rx[v.to].ip.c_str())); SetDeviceConfig(*lg, c, d, DEVICE_CFG_UDP_PORT, htons(rx[v.to].port)); moved++; ctx.note("device %d of channel %d now sends to receiver %d", d, c, v.to); }
        else if (op == 5) vclock::advance_ms(s.pick({1, 500, 1000, 3000, 100000, -50000}));
    }
    check(); if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; } nap(200); check(); lg.reset();
    if (restarts) ctx.label("restarts"); if (starved) ctx.label("no descriptors"); if (moved) ctx.label("address changed"); if (updates) ctx.label("updated through the file"); ctx.nontrivial(sent >= 2);
}
// ---- input ----
struct IDev { int out = 0; /*0 file 1 screen 2 empty 3 udp*/ bool input = true; bool on = true; int port = 0, pri = 0; };
PROP(udp_in, 30, 30000) {
    vclock::set(1700000000); vclock::sleep_cap_us() = 100;
    fflush(stdout); int keep = dup(1), scr = open("screen.out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(scr, 1); close(scr); struct Back { int k; ~Back() { fflush(stdout); dup2(k, 1); close(k); } } back{keep};
    Sock tx[2], rx; CHECK(tx[0].open(own_ip(1)) && tx[1].open(own_ip(1)) && rx.open(own_ip(1)), "socket");
    int nch = (int)s.range(1, 2); std::vector<bool> sync(nch); std::vector<std::vector<IDev> > devs(nch); std::string ip = own_ip(0); bool screen = false; int inputs = 0;
    std::vector<std::unique_ptr<Sock> > drawn; // open until all are drawn: no port is drawn twice
    for (int c = 0; c < nch; c++) { sync[c] = s.chance(1, 3) || (c && !sync[0]); /* idle() follows one thread */ int nd = (int)s.range(1, 4); for (int d = 0; d < nd; d++) { IDev v; v.input = d == 0 || s.chance(2, 3); v.out = s.weighted({5, 2, 1, 1}); if (v.out == 1 && (screen || !v.input)) v.out = 0; screen |= v.out == 1; if (v.out == 3 && !v.input) v.out = 2; if (v.input && v.out == 3) v.out = 0; v.on = !s.chance(1, 6); if (s.chance(1, 4)) v.pri = (int)s.range(0, 4); if (v.input) { drawn.emplace_back(new Sock); CHECK(drawn.back()->draw(ip), "port"); v.port = drawn.back()->port; inputs++; } devs[c].push_back(v); } IDev e; e.input = false; e.out = 2; devs[c].push_back(e); }
    drawn.clear();
    std::string text; for (int c = 0; c < nch; c++) { text += fmt(" - channel: %d\n    sync: %s\n", c, sync[c] ? "sync" : "async"); for (size_t d = 0; d < devs[c].size(); d++) { auto& v = devs[c][d]; text += fmt("    -device: %zu\n        disable: %s\n        priority: %s\n        out_type: %s\n", d, v.on ? "false" : "true", PRI_NAMES[v.pri], v.out == 0 ? "file" : v.out == 1 ? "screen" : "empty"); if (v.out == 0) text += fmt("        path: \"./\"\n        file: \"c%dd%zu\"\n", c, d); if (v.input) text += fmt("        in_type: udp\n        udp_addr: %s:%d\n", ip.c_str(), v.port); } }
    ctx.note("%s", text.c_str()); LoggerPtr lg = mk_logger(); bool running = false; std::map<std::pair<int, int>, std::string> file; std::map<std::pair<int, int>, ll> lines, bytes_; std::string shown; int stmts = 0, sent = 0, toggles = 0, restarts = 0, edge = 0; std::map<std::pair<int, int>, bool> open_; std::map<std::pair<int, int>, std::unique_ptr<Sock> > taken; int busy = 0;
    auto poke = [&](int c) { // a statement everyone's empty device accepts; a sync channel reads its sockets then
        std::string b = fmt("%d.%d:", c, stmts++); put(*lg, c, PRIORITY_FATAL, 0, 0, b); if (!running) return; for (size_t d = 0; d < devs[c].size(); d++) { auto& v = devs[c][d]; if (v.input || !v.on) continue; lines[{c, (int)d}]++; bytes_[{c, (int)d}] += (ll)b.size() + 1; if (v.out == 0) file[{c, (int)d}] += b + "\n"; } };
    auto turn = [&](int c) { if (!running) return; if (sync[c]) poke(c); else idle(); for (size_t d = 0; d < devs[c].size(); d++) open_[{c, (int)d}] = devs[c][d].input && devs[c][d].on && !taken[{c, (int)d}]; };
    auto check = [&](const char* when) {
        for (int c = 0; c < nch; c++) { for (int i = 0; i < 600; i++) { turn(c); if (!running) break; bool all = true; for (size_t d = 0; d < devs[c].size(); d++) all &= GetDeviceLog(*lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE) >= lines[{c, (int)d}]; if (all) break; nap(5000); } turn(c); }
        for (int c = 0; c < nch; c++) for (size_t d = 0; d < devs[c].size(); d++) { ll l = GetDeviceLog(*lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE), b = GetDeviceLog(*lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_BYTE); ll wl = lines[std::make_pair(c, (int)d)], wb = bytes_[std::make_pair(c, (int)d)]; CHECK(l == wl && b == wb, "%s: device %zu of channel %d (%s) output %lld lines of %lld bytes, expected %lld of %lld", when, d, c, devs[c][d].input ? "input" : "records", l, b, wl, wb);
            if (devs[c][d].out == 0 && !running) { std::string g = file_text(fmt("c%dd%zu.log", c, d)), &w = file[{c, (int)d}]; if (g != w) { size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) i++; CHECK(0, "%s: c%dd%zu.log differs from what was received at byte %zu (%zu bytes, %zu expected): \"%s\", expected \"%s\"", when, c, d, i, g.size(), w.size(), esc(g.substr(i > 20 ? i - 20 : 0, 80), 120).c_str(), esc(w.substr(i > 20 ? i - 20 : 0, 80), 120).c_str()); } } }
        fflush(stdout); std::string g = file_text("screen.out"); if (g != shown) { size_t i = 0; while (i < g.size() && i < shown.size() && g[i] == shown[i]) i++; CHECK(0, "%s: the screen differs from what was received at byte %zu (%zu bytes, %zu expected): \"%s\", expected \"%s\"", when, i, g.size(), shown.size(), esc(g.substr(i > 20 ? i - 20 : 0, 80), 120).c_str(), esc(shown.substr(i > 20 ? i - 20 : 0, 80), 120).c_str()); } };
    auto start = [&]() { for (int c = 0; c < nch; c++) for (auto& v : devs[c]) v.on = true; std::string t = text; int r = ParseAndStartLogger(*lg, t); CHECK(r == 0, "start returned %d", r); running = true; for (int c = 0; c < nch; c++) for (size_t d = 0; d < devs[c].size(); d++) { devs[c][d].on = GetDeviceConfig(*lg, c, (int)d, DEVICE_CFG_ABLE) != 0; } for (int c = 0; c < nch; c++) turn(c); };
    start(); Seq q(s, 2, 40, 14);
    while (q.next()) {
        int op = s.weighted({20, 6, 3, 4, 2, 2}); ctx.key(fmt("%d", op));
        if (op == 0) { int n = (int)s.range(1, 12), c = (int)s.u(nch); std::vector<int> in; for (size_t d = 0; d < devs[c].size(); d++) if (devs[c][d].input) in.push_back((int)d); bool one = s.coin(); int d = in[s.u(in.size())];
            for (int i = 0; i < n; i++) { if (!one) d = in[s.u(in.size())]; auto& v = devs[c][d]; int len = s.weighted({8, 1, 3}); len = len == 0 ? (int)s.range(1, 60) : len == 1 ? (int)s.range(1, LOGMAX + 50) : LOGMAX - 4 + (int)s.range(0, 8); std::string b = bytes(s, len, v.out != 1); CHECK(tx[s.u(2)].send(b, ip, v.port), "send: %s", strerror(errno)); sent++; if (!running || !open_[{c, d}]) continue;
                if (len >= LOGMAX) { b = b.substr(0, LOGMAX - 2) + "\n"; edge++; } lines[{c, d}]++; bytes_[{c, d}] += (ll)b.size(); if (v.out == 0) file[{c, d}] += b; if (v.out == 1) shown += std::string(PRIORITY_RENDER[PRIORITY_INFO].scolor_) + b + "\x1b[0m"; }
            ctx.note("%d datagrams to channel %d", n, c); if (s.chance(2, 3)) check("after datagrams"); else if (s.coin()) { for (int k = 0; k < nch; k++) turn(k); } }
        else if (op == 1) { int c = (int)s.u(nch); poke(c); if (sync[c] && running) turn(c); ctx.note("statement on channel %d", c); }
        else if (op == 2) { if (running) { check("before the stop"); int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; open_.clear(); ctx.note("stop"); check("after the stop"); if (s.coin()) continue; } start(); restarts++; ctx.note("start"); }
        else if (op == 3 && running) { check("before a change"); int c = (int)s.u(nch), d = (int)s.u(devs[c].size() - 1); auto& v = devs[c][d]; v.on = !v.on; SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, v.on); turn(c); toggles++; ctx.note("device %d of channel %d %s", d, c, v.on ? "enabled" : "disabled"); if (s.coin()) { turn(c); } }
        else if (op == 4) vclock::advance_ms(s.pick({1, 500, 1000, 3000, 100000, -50000}));
        else if (op == 5) { int c = (int)s.u(nch), d = (int)s.u(devs[c].size() - 1); if (!devs[c][d].input) continue; auto& k = taken[{c, d}]; if (k) { k.reset(); if (running) { if (s.chance(1, 3)) { vclock::advance_ms(-86400000); ctx.label("clock set back"); } vclock::advance_ms(4000); turn(c); } ctx.note("the port of device %d of channel %d is free again", d, c); } else { if (running) { check("before a change"); if (open_[{c, d}]) continue; } k.reset(new Sock); CHECK(k->open(ip, devs[c][d].port), "the port of the closed device %d of channel %d is in use: %s", d, c, strerror(errno)); busy++; ctx.note("the port of device %d of channel %d is taken", d, c); } }
    }
    check("at the end"); if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; } check("after the last stop"); lg.reset();
    if (restarts) ctx.label("restarts"); if (toggles) ctx.label("enabled/disabled"); if (busy) ctx.label("port in use"); if (edge) ctx.label("datagrams beyond the record size"); ctx.nontrivial(sent >= 2);
}
#endif

// ---- several threads ----
static void threads(Src& s, Ctx& ctx, bool real) {
    std::string ip = own_ip(0); Sock tx; CHECK(tx.open(own_ip(1)), "socket"); std::vector<std::unique_ptr<Sock> > drawn; int nin = (int)s.range(1, 2), nt = (int)s.range(1, 3), port[2]; bool async = s.chance(1, 3);
    std::string text = fmt(" - channel: 0\n    sync: %s\n", async ? "async" : "sync"); for (int d = 0; d < nin; d++) { drawn.emplace_back(new Sock); CHECK(drawn.back()->draw(ip), "port"); port[d] = drawn.back()->port; text += fmt("    -device: %d\n        disable: false\n        out_type: file\n        path: \"./\"\n        file: \"in%d\"\n        in_type: udp\n        udp_addr: %s:%d\n", d, d, ip.c_str(), port[d]); }
    text += fmt("    -device: %d\n        disable: false\n        out_type: file\n        path: \"./\"\n        file: \"rec\"\n", nin); drawn.clear(); ctx.note("%s", text.c_str());
    std::vector<std::pair<int, std::string> > dg; { Seq q(s, 1, real ? 120 : 12, real ? 60 : 5); while (q.next()) { int d = (int)s.u(nin); dg.push_back({d, fmt("%zu@%s\n", dg.size(), std::string(s.range(0, 60), (char)('a' + dg.size() % 26)).c_str())}); } }
    Load ld(nt); for (int t = 0; t < nt; t++) { Seq q(s, 1, real ? 200 : 20, real ? 100 : 8); while (q.next()) { Stmt x; x.len = (int)s.range(6, 60); ld[t].push_back(x); } ctx.note("T%d: %zu statements", t, ld[t].size()); ctx.key(fmt("%zu", ld[t].size())); } ctx.note("%zu datagrams", dg.size());
    vclock::set(1700000000); LoggerPtr lg = mk_logger(); int r;
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 4); bool coarse = s.chance(1, 4); g_ctx = &ctx; r = InitFromYMAL(*lg, text, ""); CHECK(r == 0, "init %d", r); sched::begin(plan, on_fail); watch_logger(*lg, coarse);
    LogData& u = lg->shm_->ring_buffers_[0].udp_buffer_; sched::watch(&u, sizeof u); sched::ignore(u.content_ + 8, sizeof u.content_ - 8);
    r = StartLogger(*lg);
#else
    r = ParseAndStartLogger(*lg, text);
#endif
    CHECK(r == 0, "start %d", r); ll total = (ll)dg.size(); auto seen = [&]() { ll n = 0; for (int d = 0; d < nin; d++) n += GetDeviceLog(*lg, 0, d, DEVICE_LOG_TOTAL_WRITE_LINE); return n; };
    put(*lg, 0, PRIORITY_FATAL, 0, 0, "first"); if (async) for (int i = 0; i < 5; i++) std::this_thread::sleep_for(std::chrono::milliseconds(real ? 20 : 10));
    { std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) emit(*lg, body(t, (int)k, ld[t][k].len), ld[t][k]); });
      th.emplace_back([&]() { for (auto& d : dg) { tx.send(d.second, ip, port[d.first]);
#ifdef USE_SCHED
            sched::yield();
#endif
        } }); for (auto& t : th) t.join(); }
    for (int i = 0; i < 300 && seen() < total; i++) { if (!async) put(*lg, 0, PRIORITY_FATAL, 0, 0, "more"); std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
    r = StopLogger(*lg);
#ifdef USE_SCHED
    unsigned long long sw = sched::switches(); sched::end();
#else
    unsigned long long sw = 9;
#endif
    CHECK(r == 0, "stop %d", r); for (int d = 0; d < nin; d++) { std::string w, g = file_text(fmt("in%d.log", d)); for (auto& x : dg) if (x.first == d) w += x.second; if (g != w) { size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) i++; CHECK(0, "in%d.log differs from what was received at byte %zu (%zu bytes, %zu expected): \"%s\", expected \"%s\"", d, i, g.size(), w.size(), esc(g.substr(i > 20 ? i - 20 : 0, 80), 120).c_str(), esc(w.substr(i > 20 ? i - 20 : 0, 80), 120).c_str()); } }
    std::string rec = file_text("rec.log"); CHECK(rec.find('@') == std::string::npos, "a datagram is in the file of the records: \"%s\"", esc(rec.substr(rec.find('@') > 20 ? rec.find('@') - 20 : 0, 60), 100).c_str());
    ctx.label(async ? "async" : "sync"); ctx.nontrivial(sw >= 4 && dg.size() >= 2);
}
#ifdef USE_SCHED
PROP(udpsched, 40, 20000) { threads(s, ctx, false); }
#else
PROP_NONDET(stress_udp, 20, 30000) { threads(s, ctx, true); }
#endif
int main(int c, char** v) { conc::g_bytes = false; return pbt_main(c, v); }   // '@' tells datagrams from records
