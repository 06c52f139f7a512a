// C17: counters against what was output, on quiescent loggers.
#include "conc.h"
#include <fcntl.h>
#include <climits>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace FNLog; using namespace conc;
enum Out { O_FILE, O_EMPTY, O_SCREEN, O_UDP, O_UDPDEAD, O_VM };
static const char* const OUT_NAMES[] = {"file", "empty", "screen", "udp", "udp", "vm"};
struct SDev { int out = 0; bool on = true; int pri = 0, catb = 0, cate = 0; ll limit = 0; std::string file; };
struct SChan { bool sync = true; int pri = 0, catb = 0, cate = 0; std::vector<SDev> devs; };
struct Cnt { ll line = 0, byte = 0, pri[PRIORITY_MAX] = {0}, lose = 0; };
struct CCnt { ll n = 0, byte = 0, pri[PRIORITY_MAX] = {0}, que = 0, delay = 0; };
static ll g_hook_n = 0, g_hook_b = 0; static void hook(const LogData& d) { g_hook_n++; g_hook_b += d.content_len_; }
static std::string text_of(const std::vector<SChan>& chs, int port) {
    std::string t; for (size_t c = 0; c < chs.size(); c++) { auto& k = chs[c]; t += fmt(" - channel: %zu\n    sync: %s\n    priority: %s\n    category: %d\n    category_extend: %d\n", c, k.sync ? "sync" : "async", PRI_NAMES[k.pri], k.catb, k.cate);
        for (size_t d = 0; d < k.devs.size(); d++) { auto& v = k.devs[d]; t += fmt("    -device: %zu\n        disable: %s\n        out_type: %s\n        priority: %s\n        category: %d\n        category_extend: %d\n", d, v.on ? "false" : "true", OUT_NAMES[v.out], PRI_NAMES[v.pri], v.catb, v.cate); if (v.out == O_FILE) { t += fmt("        file: \"%s\"\n        path: \"./\"\n", v.file.c_str()); if (v.limit) t += "        rollback: 90\n"; } if (v.out == O_UDP) t += fmt("        udp_addr: 127.0.0.1:%d\n", port); if (v.out == O_UDPDEAD) t += "        udp_addr: 255.255.255.255:9\n"; } }
    return t;
}
static ll total_size(const std::string& base, ll* cur) { ll n = 0; *cur = -1; for (auto& f : list_dir(".")) { if (f.compare(0, base.size() + 4, base + ".log") != 0) continue; ll z = (ll)file_text(f).size(); n += z; if (f == base + ".log") *cur = z; } return n; }
static ll total_lines(const std::string& base) { ll n = 0; for (auto& f : list_dir(".")) { if (f.compare(0, base.size() + 4, base + ".log") != 0) continue; std::string t = file_text(f); n += std::count(t.begin(), t.end(), '\n'); } return n; }
#ifndef USE_SCHED
// Makes a sum counter start from a large value, as after a long history; without effect when the fields are laid out differently.
template <class L> static auto preload(L& lg, int c, int f, ll v, int) -> decltype(lg.shm_->channels_[c].channel_log_fields_[f].fetch_add(v), bool()) { lg.shm_->channels_[c].channel_log_fields_[f].fetch_add(v); return true; }
template <class L> static bool preload(L&, int, int, ll, long) { return false; }
template <class L> static auto preload_dev(L& lg, int c, int d, int f, ll v, int) -> decltype(lg.shm_->channels_[c].device_log_fields_[d][f].fetch_add(v), bool()) { lg.shm_->channels_[c].device_log_fields_[d][f].fetch_add(v); return true; }
template <class L> static bool preload_dev(L&, int, int, int, ll, long) { return false; }
PROP(counters, 40, 20000) {
    ll now = 1700000000; vclock::set(now); SetVirtualDevice(nullptr); g_hook_n = g_hook_b = 0; bool hooked = false;
    int rx = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); CHECK(bind(rx, (struct sockaddr*)&a, sizeof a) == 0, "bind"); socklen_t al = sizeof a; getsockname(rx, (struct sockaddr*)&a, &al); int port = ntohs(a.sin_port); int big = 4 << 20; setsockopt(rx, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); fcntl(rx, F_SETFL, O_NONBLOCK);
    struct Fd { int f; ~Fd() { close(f); } } closer{rx};
    fflush(stdout); int keep = dup(1), scr = open("screen.out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(scr, 1); close(scr); struct Back { int k; ~Back() { fflush(stdout); dup2(k, 1); close(k); } } back{keep};
    int ncfg = (int)s.range(1, 3); std::vector<std::vector<SChan> > cfgs(ncfg); int async_ch = s.coin() ? (int)s.u(3) : -1;
    for (int g = 0; g < ncfg; g++) { cfgs[g].resize(s.range(1, 3)); for (size_t c = 0; c < cfgs[g].size(); c++) { SChan& k = cfgs[g][c]; k.sync = (int)c != async_ch; if (s.chance(1, 3)) k.pri = (int)s.range(0, 4); if (s.chance(1, 4)) { k.catb = (int)s.range(0, 2); k.cate = (int)s.range(1, 3); } int nd = (int)s.range(1, 4); for (int d = 0; d < nd; d++) { SDev v; v.out = s.weighted({6, 3, 2, 2, 1, 2}); if (v.out == O_VM) { bool have = false; for (auto& o : k.devs) have |= o.out == O_VM; if (have) v.out = O_EMPTY; } if (s.coin()) v.pri = (int)s.range(0, 4); if (s.chance(1, 4)) { v.catb = (int)s.range(0, 2); v.cate = (int)s.range(1, 3); } v.on = !s.chance(1, 8); v.file = fmt("%sc%zud%d", s.chance(1, 3) ? fmt("g%d", g).c_str() : "", c, d); v.limit = s.chance(1, 4) ? s.range(30, 300) : 0; k.devs.push_back(v); } } ctx.note("configuration %d:\n%s", g, text_of(cfgs[g], port).c_str()); }
    std::vector<std::string> pre; if (s.chance(1, 3)) { int n = (int)s.range(1, 3); for (int i = 0; i < n; i++) { std::string f = fmt("c%dd%d", (int)s.u(3), (int)s.u(4)); write_file(f + ".log", std::string(s.range(1, 200), 'p') + "\n"); pre.push_back(f); } }
    struct BaseF { ll lines = 0, bytes = 0; }; std::map<std::string, ll> base_bytes, base_lines; for (auto& f : pre) { ll c; base_bytes[f] = total_size(f, &c); base_lines[f] = total_lines(f); }
    std::map<std::pair<int, int>, Cnt> dw; std::map<int, CCnt> cw; std::map<std::string, ll> fl, fb; std::map<std::pair<int, int>, bool> opened; ll udp_l = 0, udp_b = 0, got_l = 0, got_b = 0, scr_b = 0, vm_n = 0, vm_b = 0; bool running = false; int cur = -1, stmts = 0, refused = 0, restarts = 0; LoggerPtr lg = mk_logger();
    std::map<std::pair<int, int>, ll> cbase; std::map<std::tuple<int, int, int>, ll> dbase;      // what the counters started from
    auto settle = [&]() { if (!running || async_ch < 0 || async_ch >= (int)cfgs[cur].size()) return; vclock::wait_idle(); };
    auto check = [&](const char* when) {
        settle(); fflush(stdout); char buf[4096]; for (;;) { ssize_t n = recv(rx, buf, sizeof buf, 0); if (n < 0) break; got_l++; got_b += n; }
        CHECK(got_l == udp_l && got_b == udp_b, "%s: %lld datagrams of %lld bytes arrived, %lld of %lld expected", when, got_l, got_b, udp_l, udp_b); CHECK(g_hook_n == vm_n && g_hook_b == vm_b, "%s: the hook saw %lld statements of %lld bytes, %lld of %lld expected", when, g_hook_n, g_hook_b, vm_n, vm_b);
        for (auto& f : fl) { ll c; ll z = total_size(f.first, &c) - base_bytes[f.first], n = total_lines(f.first) - base_lines[f.first]; CHECK(z == fb[f.first] && n == f.second, "%s: %s.log and its backups gained %lld lines of %lld bytes, expected %lld of %lld", when, f.first.c_str(), n, z, f.second, fb[f.first]); }
        if (cur < 0) return; auto& chs = cfgs[cur];
        // what does not exist counts nothing, and setting it changes nothing
        { int nch = (int)chs.size(), ids[] = {-1, -7, 100000, INT_MIN, INT_MAX}; for (int id : ids) {
            for (int f = 0; f < CHANNEL_LOG_MAX_ID; f++) CHECK(GetChannelLog(*lg, id, (ChannelLogEnum)f) == 0, "%s: channel %d, which does not exist, counts %lld in field %d", when, id, GetChannelLog(*lg, id, (ChannelLogEnum)f), f);
            SetChannelConfig(*lg, id, CHANNEL_CFG_PRIORITY, 6);
            for (int c = -1; c <= nch; c++) { if (c < 0 || c == nch) { CHECK(GetDeviceLog(*lg, c, 0, DEVICE_LOG_TOTAL_WRITE_LINE) == 0 && GetDeviceConfig(*lg, c, 0, DEVICE_CFG_PRIORITY) == 0 && GetChannelLog(*lg, c, CHANNEL_LOG_HOLD) == 0, "%s: channel %d of %d has values", when, c, nch); SetDeviceConfig(*lg, c, 0, DEVICE_CFG_PRIORITY, 6); SetDeviceConfig(*lg, c, id, DEVICE_CFG_PRIORITY, 6); continue; }
                int nd = (int)chs[c].devs.size(), ds[] = {id, nd}; for (int d : ds) { for (int f = 0; f < DEVICE_LOG_MAX_ID; f++) CHECK(GetDeviceLog(*lg, c, d, (DeviceLogEnum)f) == 0, "%s: device %d of channel %d, which does not exist, counts %lld in field %d", when, d, c, GetDeviceLog(*lg, c, d, (DeviceLogEnum)f), f); CHECK(GetDeviceConfig(*lg, c, d, DEVICE_CFG_PRIORITY) == 0, "%s: device %d of channel %d, which does not exist, has a priority", when, d, c); if (d == id) SetDeviceConfig(*lg, c, d, DEVICE_CFG_PRIORITY, 6); } } }
          CHECK(GetChannelLog(*lg, 0, CHANNEL_LOG_MAX_ID) == 0 && GetDeviceLog(*lg, 0, 0, DEVICE_LOG_MAX_ID) == 0 && GetDeviceConfig(*lg, 0, 0, DEVICE_CFG_MAX_ID) == 0, "%s: a field that does not exist has a value", when); SetDeviceConfig(*lg, 0, 0, DEVICE_CFG_MAX_ID, 6); SetChannelConfig(*lg, 0, CHANNEL_CFG_MAX_ID, 6);
          for (size_t c = 0; c < chs.size(); c++) for (size_t d = 0; d < chs[c].devs.size(); d++) { SDev& v = chs[c].devs[d]; auto g = [&](DeviceConfigEnum f) { return GetDeviceConfig(*lg, (int)c, (int)d, f); }; CHECK(g(DEVICE_CFG_PRIORITY) == v.pri && g(DEVICE_CFG_CATEGORY) == v.catb && g(DEVICE_CFG_CATEGORY_EXTEND) == v.cate && !!g(DEVICE_CFG_ABLE) == v.on, "%s: device %zu of channel %zu: able %lld, priority %lld, categories %lld and %lld more", when, d, c, g(DEVICE_CFG_ABLE), g(DEVICE_CFG_PRIORITY), g(DEVICE_CFG_CATEGORY), g(DEVICE_CFG_CATEGORY_EXTEND)); } }
        for (size_t c = 0; c < chs.size(); c++) { CCnt& k = cw[(int)c]; auto cl = [&](int f) -> ll { auto it = cbase.find({(int)c, f}); return GetChannelLog(*lg, (int)c, (ChannelLogEnum)f) - (it == cbase.end() ? 0 : it->second); };
            CHECK(cl(CHANNEL_LOG_HOLD) == k.n && cl(CHANNEL_LOG_PUSH) == k.n && cl(CHANNEL_LOG_PROCESSED) == k.n, "%s: channel %zu counts %lld held, %lld pushed, %lld processed, %lld were accepted", when, c, cl(CHANNEL_LOG_HOLD), cl(CHANNEL_LOG_PUSH), cl(CHANNEL_LOG_PROCESSED), k.n);
            CHECK(cl(CHANNEL_LOG_PROCESSED_BYTES) == k.byte, "%s: channel %zu counts %lld bytes, %lld were accepted", when, c, cl(CHANNEL_LOG_PROCESSED_BYTES), k.byte);
            for (int p = 0; p < PRIORITY_MAX; p++) CHECK(cl(CHANNEL_LOG_PRIORITY + p) == k.pri[p], "%s: channel %zu counts %lld bytes of %s, %lld were accepted", when, c, cl(CHANNEL_LOG_PRIORITY + p), PRI_NAMES[p], k.pri[p]);
            ll mq = cl(CHANNEL_LOG_MAX_PROC_QUE_SIZE), md = cl(CHANNEL_LOG_MAX_DELAY_TIME_S);
            if (async_ch != (int)c) CHECK(mq == k.que && md == k.delay, "%s: channel %zu counts a longest queue of %lld and a longest delay of %lld s, they were %lld and %lld", when, c, mq, md, k.que, k.delay);
            else CHECK(mq >= (k.n > 0) && mq <= std::min(k.n, (ll)RingBuffer::BUFFER_LEN) && md >= 0, "%s: channel %zu counts a longest queue of %lld and a longest delay of %lld s after %lld statements", when, c, mq, md, k.n);
            for (size_t d = 0; d < chs[c].devs.size(); d++) { Cnt& w = dw[{(int)c, (int)d}]; auto dl = [&](int f) -> ll { auto it = dbase.find(std::make_tuple((int)c, (int)d, f)); return GetDeviceLog(*lg, (int)c, (int)d, (DeviceLogEnum)f) - (it == dbase.end() ? 0 : it->second); };
                CHECK(dl(DEVICE_LOG_TOTAL_WRITE_LINE) == w.line && dl(DEVICE_LOG_TOTAL_WRITE_BYTE) == w.byte, "%s: device %zu of channel %zu (%s) counts %lld lines of %lld bytes, %lld of %lld were output", when, d, c, OUT_NAMES[chs[c].devs[d].out], dl(DEVICE_LOG_TOTAL_WRITE_LINE), dl(DEVICE_LOG_TOTAL_WRITE_BYTE), w.line, w.byte);
                CHECK(dl(DEVICE_LOG_TOTAL_LOSE_LINE) == w.lose, "%s: device %zu of channel %zu (%s) counts %lld lost lines, %lld were", when, d, c, OUT_NAMES[chs[c].devs[d].out], dl(DEVICE_LOG_TOTAL_LOSE_LINE), w.lose);
                for (int p = 0; p < PRIORITY_MAX; p++) CHECK(dl(DEVICE_LOG_PRIORITY + p) == w.pri[p], "%s: device %zu of channel %zu counts %lld bytes of %s, %lld were output", when, d, c, dl(DEVICE_LOG_PRIORITY + p), PRI_NAMES[p], w.pri[p]);
                if (chs[c].devs[d].out == O_FILE && opened[{(int)c, (int)d}]) { ll z; total_size(chs[c].devs[d].file, &z); CHECK(dl(DEVICE_LOG_CUR_FILE_SIZE) == z, "%s: device %zu of channel %zu counts a file size of %lld, the file has %lld bytes", when, d, c, dl(DEVICE_LOG_CUR_FILE_SIZE), z); } } } };
    auto start = [&](int g) { now += 10; vclock::set(now); int r = ParseAndStartLogger(*lg, text_of(cfgs[g], port)); CHECK(r == 0, "start returned %d", r); running = true; cur = g; opened.clear(); for (size_t c = 0; c < cfgs[g].size(); c++) for (size_t d = 0; d < cfgs[g][c].devs.size(); d++) if (cfgs[g][c].devs[d].limit) SetDeviceConfig(*lg, (int)c, (int)d, DEVICE_CFG_FILE_LIMIT_SIZE, cfgs[g][c].devs[d].limit); ctx.note("start with configuration %d", g); };
    // accounts for a statement; whether it was accepted
    auto account = [&](int c, int p, int cat, ll len) -> bool {
        if (!running || c >= (int)cfgs[cur].size()) { refused++; return false; } SChan& k = cfgs[cur][c]; auto in = [](int x, int b0, int e) { return e == 0 || (x >= b0 && x < b0 + e); };
        if (p < k.pri || !in(cat, k.catb, k.cate)) { refused++; return false; } bool any = false; for (auto& v : k.devs) any |= v.on && p >= v.pri && in(cat, v.catb, v.cate); if (!any) { refused++; return false; }
        ll full = len + 1; CCnt& cc = cw[c]; cc.n++; cc.byte += full; cc.pri[p] += full;
        for (size_t d = 0; d < k.devs.size(); d++) { SDev& v = k.devs[d]; if (!v.on || p < v.pri || !in(cat, v.catb, v.cate)) continue; Cnt& w = dw[{c, (int)d}]; ll by = full;
            if (v.out == O_UDPDEAD) { w.lose++; continue; } if (v.out == O_VM) { if (!hooked) continue; by = len; vm_n++; vm_b += by; } if (v.out == O_UDP) { udp_l++; udp_b += by; } if (v.out == O_FILE) { fl[v.file]++; fb[v.file] += by; opened[{c, (int)d}] = true; } w.line++; w.byte += by; w.pri[p] += by; }
        return true; };
    start(0); Seq q(s, 3, 60, 25);
    if (s.chance(1, 3)) {                                  // a long history: the sums are close to or beyond what 31, 32 or 40 bits hold
        bool did = false; auto base = [&]() -> ll { return s.pick({0LL, 2147483647LL, 4294967295LL, 1LL << 40, 1000000000000LL}) - (s.coin() ? s.range(0, 400) : 0); }; int np = PRIORITY_MAX;
        for (size_t c = 0; c < cfgs[0].size(); c++) { std::vector<int> fs{CHANNEL_LOG_HOLD, CHANNEL_LOG_PUSH, CHANNEL_LOG_PROCESSED, CHANNEL_LOG_PROCESSED_BYTES}; for (int p = 0; p < np; p++) fs.push_back(CHANNEL_LOG_PRIORITY + p); for (int f : fs) { ll v = std::max(0LL, base()); if (v && preload(*lg, (int)c, f, v, 0)) { cbase[{(int)c, f}] = v; did = true; } }
            for (size_t d = 0; d < cfgs[0][c].devs.size(); d++) { std::vector<int> gs{DEVICE_LOG_TOTAL_WRITE_LINE, DEVICE_LOG_TOTAL_WRITE_BYTE, DEVICE_LOG_TOTAL_LOSE_LINE}; for (int p = 0; p < np; p++) gs.push_back(DEVICE_LOG_PRIORITY + p); for (int f : gs) { ll v = std::max(0LL, base()); if (v && preload_dev(*lg, (int)c, (int)d, f, v, 0)) { dbase[std::make_tuple((int)c, (int)d, f)] = v; did = true; } } } }
        if (did) { ctx.label("long history"); ctx.note("the counters start from large values"); }
    }
    while (q.next()) {
        int op = s.weighted({30, 3, 3, 2, 4, 4}); ctx.key(fmt("%d", op));
        if (op == 0) {
            int n = (int)s.range(1, 6); for (int i = 0; i < n; i++) { int c = (int)s.u(3), p = (int)s.range(0, 6), cat = (int)s.range(0, 4); std::string b = body(stmts, i, s.chance(1, 10) ? LOGMAX : (int)s.range(0, 60)); if (s.chance(1, 12)) b = ""; stmts++; put(*lg, c, p, cat, 0, b);
                if (account(c, p, cat, (ll)b.size())) { CCnt& cc = cw[c]; cc.que = std::max(cc.que, 1LL); } }
            ctx.note("%d statements", n); if (s.chance(1, 3)) check("while running");
        } else if (op == 1) { if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; ctx.note("stop"); check("after the stop"); } else { start((int)s.u(ncfg)); restarts++; check("after a restart"); } }
        else if (op == 2) { if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); } start((int)s.u(ncfg)); restarts++; check("after a restart"); }
        else if (op == 3) { settle(); hooked = !hooked; SetVirtualDevice(hooked ? &hook : nullptr); ctx.note("hook %s", hooked ? "installed" : "removed"); }
        else if (op == 4) { now += s.range(0, 100000); vclock::set(now); }
        else {                                             // several statements of a sync channel open at once, time passing
            int c = (int)s.u(3), n = (int)s.range(1, 5); if (!running || c >= (int)cfgs[cur].size() || !cfgs[cur][c].sync) continue;
            struct Open { std::unique_ptr<LogStream> st; ll at; bool done; }; std::vector<Open> os; std::vector<std::pair<std::unique_ptr<LogStream>, size_t> > todo;
            for (int i = 0; i < n; i++) { int p = (int)s.range(0, 6), cat = (int)s.range(0, 4); std::string b = body(stmts++, i, (int)s.range(0, 60)); std::unique_ptr<LogStream> st(new LogStream(*lg, c, p, cat, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL)); st->write_buffer(b.data(), (int)b.size());
                if (account(c, p, cat, (ll)b.size())) { Open o; o.st = std::move(st); o.at = now; o.done = false; os.push_back(std::move(o)); } now += s.pick({0, 0, 0, 1, 7}); vclock::set(now); }
            now += s.pick({0, 1, 2, 3, 40}); vclock::set(now); ctx.note("%zu statements open on channel %d", os.size(), c); if (os.size() > 1) ctx.label("several open"); size_t pub = 0, left = os.size(); CCnt& cc = cw[c];
            while (left) { size_t i = s.u(os.size()); while (os[i].done) i = (i + 1) % os.size(); os[i].st.reset(); os[i].done = true; left--; size_t first = pub; while (pub < os.size() && os[pub].done) { cc.delay = std::max(cc.delay, now - 1 - os[pub].at); pub++; } cc.que = std::max(cc.que, (ll)(pub - first)); now += s.pick({0, 0, 0, 2}); vclock::set(now); }
            if (s.chance(1, 2)) check("after statements were open at once");
        }
    }
    check("at the end"); if (running) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; } check("after the last stop"); SetVirtualDevice(nullptr); lg.reset();
    if (refused) ctx.label("refused statements"); if (restarts) ctx.label("restarts"); ctx.nontrivial(stmts >= 3 && stmts > refused);
}
#endif
static void quiet_hook(const LogData&) {}
static void threads(Src& s, Ctx& ctx, bool real) {
    int nch = (int)s.range(1, 2), nt = (int)s.range(2, real ? 5 : 4); std::vector<SChan> chs(nch); for (auto& k : chs) { k.sync = s.chance(2, 3); int nd = (int)s.range(1, 2); for (int d = 0; d < nd; d++) { SDev v; v.out = s.weighted({4, 4, 0}) ? O_EMPTY : O_FILE; if (d == 1 && s.chance(1, 3)) v.out = O_VM; v.pri = s.coin() ? (int)s.range(0, 4) : 0; v.file = fmt("c%dd%d", (int)(&k - &chs[0]), d); k.devs.push_back(v); } }
    std::string text = text_of(chs, 9); ctx.note("%s", text.c_str()); Load ld(nt); for (int t = 0; t < nt; t++) { Seq q(s, 1, real ? 300 : 40, real ? 150 : 15); while (q.next()) { Stmt x; x.ch = (int)s.u(nch); x.pri = (int)s.range(0, 6); x.len = (int)s.range(6, 80); ld[t].push_back(x); } ctx.note("T%d: %zu statements", t, ld[t].size()); ctx.key(fmt("%zu", ld[t].size())); }
    vclock::set(1700000000); LoggerPtr lg = mk_logger(); int r; SetVirtualDevice(&quiet_hook); struct Unhook { ~Unhook() { SetVirtualDevice(nullptr); } } unhook;
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 3); bool coarse = s.chance(1, 3); g_ctx = &ctx; r = InitFromYMAL(*lg, text, ""); CHECK(r == 0, "init %d", r); sched::begin(plan, on_fail); watch_logger(*lg, coarse); if (s.coin()) for (int c = 0; c < nch; c++) { Channel& ch = lg->shm_->channels_[c]; sched::watch(&ch.channel_log_fields_, sizeof ch.channel_log_fields_ + sizeof ch.device_log_fields_); }
    r = StartLogger(*lg);
#else
    r = ParseAndStartLogger(*lg, text);
#endif
    CHECK(r == 0, "start %d", r);
    { std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) emit(*lg, body(t, (int)k, ld[t][k].len), ld[t][k]); }); for (auto& t : th) t.join(); }
    r = StopLogger(*lg);
#ifdef USE_SCHED
    unsigned long long sw = sched::switches(); sched::end();
#else
    unsigned long long sw = 9;
#endif
    CHECK(r == 0, "stop %d", r); size_t lines = 0;
    for (int c = 0; c < nch; c++) { CCnt k; std::vector<Cnt> w(chs[c].devs.size()); for (int t = 0; t < nt; t++) for (size_t i = 0; i < ld[t].size(); i++) { Stmt& x = ld[t][i]; if (x.ch != c) continue; ll full = (ll)body(t, (int)i, x.len).size() + 1; bool any = false; for (size_t d = 0; d < w.size(); d++) if (x.pri >= chs[c].devs[d].pri) { any = true; ll by = full - (chs[c].devs[d].out == O_VM); w[d].line++; w[d].byte += by; w[d].pri[x.pri] += by; } if (any) { k.n++; k.byte += full; k.pri[x.pri] += full; lines++; } }
        auto cl = [&](int f) { return GetChannelLog(*lg, c, (ChannelLogEnum)f); };
        CHECK(cl(CHANNEL_LOG_HOLD) == k.n && cl(CHANNEL_LOG_PUSH) == k.n && cl(CHANNEL_LOG_PROCESSED) == k.n, "channel %d counts %lld held, %lld pushed, %lld processed, %lld were accepted", c, cl(CHANNEL_LOG_HOLD), cl(CHANNEL_LOG_PUSH), cl(CHANNEL_LOG_PROCESSED), k.n);
        CHECK(cl(CHANNEL_LOG_PROCESSED_BYTES) == k.byte, "channel %d counts %lld bytes processed, %lld were accepted", c, cl(CHANNEL_LOG_PROCESSED_BYTES), k.byte);
        for (int p = 0; p < PRIORITY_MAX; p++) CHECK(cl(CHANNEL_LOG_PRIORITY + p) == k.pri[p], "channel %d counts %lld bytes of %s, %lld were accepted", c, cl(CHANNEL_LOG_PRIORITY + p), PRI_NAMES[p], k.pri[p]);
        for (size_t d = 0; d < w.size(); d++) { auto dl = [&](int f) { return GetDeviceLog(*lg, c, (int)d, (DeviceLogEnum)f); };
            CHECK(dl(DEVICE_LOG_TOTAL_WRITE_LINE) == w[d].line && dl(DEVICE_LOG_TOTAL_WRITE_BYTE) == w[d].byte, "device %zu of channel %d counts %lld lines of %lld bytes, %lld of %lld were output", d, c, dl(DEVICE_LOG_TOTAL_WRITE_LINE), dl(DEVICE_LOG_TOTAL_WRITE_BYTE), w[d].line, w[d].byte);
            for (int p = 0; p < PRIORITY_MAX; p++) CHECK(dl(DEVICE_LOG_PRIORITY + p) == w[d].pri[p], "device %zu of channel %d counts %lld bytes of %s, %lld were output", d, c, dl(DEVICE_LOG_PRIORITY + p), PRI_NAMES[p], w[d].pri[p]);
            if (chs[c].devs[d].out == O_FILE) { ll z; ll tot = total_size(chs[c].devs[d].file, &z); CHECK(tot == w[d].byte, "device %zu of channel %d: the file has %lld bytes, %lld expected", d, c, tot, w[d].byte); if (z >= 0) CHECK(dl(DEVICE_LOG_CUR_FILE_SIZE) == z, "device %zu of channel %d counts a file size of %lld, the file has %lld", d, c, dl(DEVICE_LOG_CUR_FILE_SIZE), z); } } }
    ctx.nontrivial(lines >= 3 && sw >= 6); lg.reset();
}
#ifdef USE_SCHED
PROP(countsched, 40, 20000) { threads(s, ctx, false); }
#else
PROP_NONDET(stress_count, 20, 30000) { threads(s, ctx, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
