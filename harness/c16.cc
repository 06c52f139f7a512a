// C16: hot update takes valid settings, ignores bad ones, never disturbs logging.
#include "conc.h"
#include <utime.h>
using namespace FNLog; using namespace conc;
namespace {
struct MDev { bool able = true; int pri = 0; ll catb = 0, cate = 0, idb = 0, ide = 0; unsigned long long cm = 0, im = 0; ll limit = 0, roll = 0; int stuff = 0, daily = 0, hourly = 0; std::string out = "file", file; };
struct MChan { bool sync = true; int pri = 0; ll catb = 0, cate = 0; unsigned long long im = 0; std::vector<MDev> devs; };
struct MConf { bool hot = true; std::vector<MChan> ch; };
std::string bits(unsigned long long m) { std::string o; for (int i = 0; i < 64; i++) if (m >> i & 1) o += (o.empty() ? "" : ",") + fmt("%d", i); return o; }
void filt(std::string& t, const char* ind, int pri, ll catb, ll cate, ll idb, ll ide, unsigned long long cm, unsigned long long im) {
    if (pri) t += fmt("%spriority: %s\n", ind, PRI_NAMES[pri]); if (catb) t += fmt("%scategory: %lld\n", ind, catb); if (cate) t += fmt("%scategory_extend: %lld\n", ind, cate);
    if (idb) t += fmt("%sidentify: %lld\n", ind, idb); if (ide) t += fmt("%sidentify_extend: %lld\n", ind, ide); if (cm) t += fmt("%scategory_wlist: %s\n", ind, bits(cm).c_str()); if (im) t += fmt("%sidentify_wlist: %s\n", ind, bits(im).c_str());
}
std::string text(const MConf& c) {
    std::string t = c.hot ? " - hot_update: true\n" : " - hot_update: false\n";
    for (size_t i = 0; i < c.ch.size(); i++) { const MChan& C = c.ch[i]; t += fmt(" - channel: %zu\n    sync: %s\n", i, C.sync ? "sync" : "async"); filt(t, "    ", C.pri, C.catb, C.cate, 0, 0, 0, C.im);
        for (size_t d = 0; d < C.devs.size(); d++) { const MDev& D = C.devs[d]; t += fmt("    -device: %zu\n        disable: %s\n        out_type: %s\n        path: \"./\"\n        file: \"%s\"\n", d, D.able ? "false" : "true", D.out.c_str(), D.file.c_str()); filt(t, "        ", D.pri, D.catb, D.cate, D.idb, D.ide, D.cm, D.im);
            if (D.limit) t += fmt("        limit_size: %lld\n", D.limit); if (D.roll) t += fmt("        rollback: %lld\n", D.roll); if (D.stuff) t += "        stuff_up: true\n"; if (D.daily) t += "        rolldaily: true\n"; if (D.hourly) t += "        rollhourly: true\n"; } }
    return t;
}
void gen_fields(Src& s, MDev& D) {
    D.able = !s.chance(1, 5); D.pri = s.chance(1, 3) ? (int)s.range(0, 5) : 0; D.catb = D.cate = 0; if (s.chance(1, 3)) { D.catb = s.range(0, 4); D.cate = s.range(1, 5); } D.idb = D.ide = 0; if (s.chance(1, 5)) { D.idb = s.range(0, 4); D.ide = s.range(1, 5); }
    D.cm = s.chance(1, 5) ? s.u(256) : 0; D.im = s.chance(1, 5) ? s.u(256) : 0; D.limit = s.chance(1, 3) ? s.range(1, 500) : 0; D.roll = s.chance(1, 3) ? s.range(1, 9) : 0; D.stuff = s.chance(1, 4); D.daily = D.hourly = 0; }
void gen_chan(Src& s, MChan& C) { C.pri = s.chance(1, 5) ? (int)s.range(0, 4) : 0; C.catb = C.cate = 0; if (s.chance(1, 6)) { C.catb = s.range(0, 2); C.cate = s.range(2, 7); } C.im = s.chance(1, 8) ? s.u(255) + 1 : 0; }
bool passes(int pri, ll cat, ll id, int p, ll cb, ll ce, ll ib, ll ie, unsigned long long cm, unsigned long long im) { return pri >= p && (ce == 0 || (cat >= cb && cat < cb + ce)) && (ie == 0 || (id >= ib && id < ib + ie)) && (!cm || cm >> cat & 1) && (!im || im >> id & 1); }
bool takes(const MChan& C, const MDev& D, int pri, ll cat, ll id) { return D.able && passes(pri, cat, id, C.pri, C.catb, C.cate, 0, 0, 0, C.im) && passes(pri, cat, id, D.pri, D.catb, D.cate, D.idb, D.ide, D.cm, D.im); }
void put_file(const std::string& p, const std::string& t, ll mtime) { std::string n = p + ".new"; write_file(n, t); struct utimbuf u; u.actime = u.modtime = mtime; utime(n.c_str(), &u); rename(n.c_str(), p.c_str()); }
const char* const BAD[] = {" - channel: 0\n    -device: 1\n        out_type: file\n", " - channel: 1\n", "    -device: 0\n", " - channel: 0\n    sync: sync\n    nonsense: 3\n    -device: 0\n", "", "}{\n", " - channel: 0\n    sync: sync\n    -device: 0\n        out_type: file\n    -device: 0\n"};
}
#ifndef USE_SCHED
static int g_hooked; static void hook(const LogData&) { g_hooked++; }
// single thread: exact model of what each channel must be using, after every statement
PROP(hotupdate, 30, 20000) {
    vclock::set(1700000000); std::string cp = ctx.dir() + "/log.yaml"; int nc = (int)s.range(1, 3); bool async_ok = s.chance(1, 4);
    // at most one virtual device per channel
    auto out_of = [&](MChan& C, bool first) -> std::string { const char* o = first ? s.pick({"file", "file", "file", "file", "empty", "vm"}) : s.pick({"file", "file", "empty", "vm", "vm"}); if (o[0] == 'v') { for (auto& D : C.devs) if (D.out == "vm") return "file"; if (!first) ctx.label("a virtual device appended"); } return o; };
    auto fresh = [&]() { MConf c; c.hot = !s.chance(1, 8); c.ch.resize(nc); for (int i = 0; i < nc; i++) { MChan& C = c.ch[i]; C.sync = !(async_ok && s.coin()); gen_chan(s, C); int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { MDev D; gen_fields(s, D); D.out = out_of(C, true); D.file = fmt("c%dd%d", i, d); C.devs.push_back(D); } } return c; };
    MConf base = fresh(); ll mtime = 1600000000; put_file(cp, text(base), mtime); ctx.note("file at %lld:\n%s", mtime, text(base).c_str()); ctx.key(text(base));
    LoggerPtr lg = mk_logger(); int r = LoadAndStartLogger(*lg, cp); CHECK(r == 0, "start: %d", r); SetVirtualDevice(&hook); g_hooked = 0; int hooked = 0;
    struct Run { MChan c; ll check = 0, mt; }; std::vector<Run> run(nc); for (int i = 0; i < nc; i++) { run[i].c = base.ch[i]; run[i].mt = mtime; }
    bool hot = base.hot; ll off_mt = -1;   // off_mt: the version that switched hot_update off, still to be taken by the other channels
    int fkind = 0; MConf cur = base;       // 0 valid, 1 broken, 2 missing, 3 directory
    std::map<std::string, std::string> files; int taken = 0, kept = 0, n = 0, applied_wait = 0;
    auto stmt_model = [&](int c, int pri, ll cat, ll id, const std::string& l) { MChan& C = run[c].c; bool any = false; for (auto& D : C.devs) if (takes(C, D, pri, cat, id)) { any = true; } if (any) for (auto& D : C.devs) if (takes(C, D, pri, cat, id)) { if (D.out == "vm") hooked++; if (D.out == "file") files[D.file + ".log"] += l + "\n"; }
        return any; };
    auto check_model = [&](int c, ll now) { if (now >= run[c].check && now - run[c].check < 5) return 0; if (!hot && off_mt < 0) return 0; run[c].check = now; if (fkind >= 2 || mtime == run[c].mt) return 0; if (fkind == 1) { kept++; return 0; } if (!hot && mtime != off_mt) return 0;
        if (c >= (int)cur.ch.size()) { kept++; return 0; }   // this channel is missing in the new text
        run[c].mt = mtime; if (cur.hot) { hot = true; off_mt = -1; } else { hot = false; off_mt = mtime; } MChan& C = run[c].c; MChan& N = cur.ch[c]; C.pri = N.pri; C.catb = N.catb; C.cate = N.cate; C.im = N.im;
        for (size_t d = 0; d < N.devs.size(); d++) { if (d < C.devs.size()) { std::string o = C.devs[d].out, f = C.devs[d].file; C.devs[d] = N.devs[d]; C.devs[d].out = o; C.devs[d].file = f; } else { C.devs.push_back(N.devs[d]); ctx.label("device appended"); } } taken++; return 1; };
    auto verify = [&](const char* when) {
        for (int c = 0; c < nc; c++) { MChan& C = run[c].c; Channel& L = lg->shm_->channels_[c]; CHECK(L.device_size_ == (int)C.devs.size(), "%s: channel %d has %d devices, expected %zu", when, c, L.device_size_, C.devs.size());
            auto cc = [&](ChannelConfigEnum f, ll w, const char* nm) { ll g = AtomicLoadC(L, f); CHECK(g == w, "%s: channel %d %s is %lld, expected %lld", when, c, nm, g, w); };
            cc(CHANNEL_CFG_PRIORITY, C.pri, "priority"); cc(CHANNEL_CFG_CATEGORY, C.catb, "category"); cc(CHANNEL_CFG_CATEGORY_EXTEND, C.cate, "category_extend"); cc(CHANNEL_CFG_IDENTIFY_MASK, (ll)C.im, "identify_filter");
            for (size_t d = 0; d < C.devs.size(); d++) { MDev& D = C.devs[d]; auto dc = [&](DeviceConfigEnum f, ll w, const char* nm) { ll g = GetDeviceConfig(*lg, c, (int)d, f); CHECK(g == w, "%s: channel %d device %zu %s is %lld, expected %lld", when, c, d, nm, g, w); };
                dc(DEVICE_CFG_ABLE, D.able, "able"); dc(DEVICE_CFG_PRIORITY, D.pri, "priority"); dc(DEVICE_CFG_CATEGORY, D.catb, "category"); dc(DEVICE_CFG_CATEGORY_EXTEND, D.cate, "category_extend"); dc(DEVICE_CFG_CATEGORY_MASK, (ll)D.cm, "category_filter"); dc(DEVICE_CFG_IDENTIFY, D.idb, "identify"); dc(DEVICE_CFG_IDENTIFY_EXTEND, D.ide, "identify_extend"); dc(DEVICE_CFG_IDENTIFY_MASK, (ll)D.im, "identify_filter");
                dc(DEVICE_CFG_FILE_LIMIT_SIZE, D.limit * 1000000, "limit_size"); dc(DEVICE_CFG_FILE_ROLLBACK, D.roll, "rollback"); dc(DEVICE_CFG_FILE_STUFF_UP, D.stuff, "stuff_up"); } }
        CHECK(lg->hot_update_ == hot, "%s: hot_update is %d, expected %d", when, (int)lg->hot_update_, (int)hot);
        CHECK(g_hooked == hooked, "%s: the hook was called %d times, expected %d", when, g_hooked, hooked);
    };
    auto files_now = [&](const char* when) { for (auto& n : list_dir(ctx.dir())) if (n.size() > 4 && n.substr(n.size() - 4) == ".log") CHECK(files.count(n), "%s: unexpected file %s", when, n.c_str()); for (auto& f : files) { std::string g = file_text(ctx.dir() + "/" + f.first); CHECK(g == f.second, "%s: %s is \"%s\", expected \"%s\"", when, f.first.c_str(), esc(g, 300).c_str(), esc(f.second, 300).c_str()); } };
    auto drain = [&](int c) { for (int i = 0; i < 20000 && lg->shm_->ring_buffers_[c].read_idx_ != lg->shm_->ring_buffers_[c].write_idx_; i++) usleep(100); };
    // an asynchronous channel checks by itself: let every one of them finish two rounds of checks
    auto settle = [&]() {
        bool any = false; for (int c = 0; c < nc; c++) if (!run[c].c.sync) any = true; if (!any) return;
        for (int round = 0; round < 2; round++) { std::vector<ll> before(nc); for (int c = 0; c < nc; c++) before[c] = GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHECK); vclock::advance_ms(6000);
            for (int c = 0; c < nc; c++) if (!run[c].c.sync) { bool must = hot || off_mt >= 0; for (int i = 0; i < 20000 && must && GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHECK) == before[c]; i++) usleep(100); if (!must) usleep(2000); else CHECK(GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHECK) != before[c], "asynchronous channel %d did not look at the file within the interval", c); } }
        // the model: asynchronous channels take the version in any order
        bool again = true; while (again) { again = false; for (int c = 0; c < nc; c++) if (!run[c].c.sync) { run[c].check = 0; if (check_model(c, vclock::now())) again = true; } } for (int c = 0; c < nc; c++) if (!run[c].c.sync) run[c].check = vclock::now();
    };
    settle();
    Seq q(s, 1, 60, 16);
    while (q.next()) {
        int op = s.weighted({10, 4, 4, 1, 1});
        if (op == 0) { int c = (int)s.u(nc), pri = (int)s.range(0, 6); ll cat = s.range(0, 7), id = s.range(0, 7); if (s.coin()) { pri = 6; MChan& C = run[c].c; cat = C.catb; id = 0; if (!C.devs.empty() && C.devs[0].cate) cat = std::max(cat, C.devs[0].catb); } std::string l = fmt("line %d", n++); put(*lg, c, pri, (int)cat, id, l); bool acc = stmt_model(c, pri, cat, id, l);
            if (acc) { if (run[c].c.sync) check_model(c, vclock::now()); else drain(c); } ctx.note("%s: channel %d %s cat %lld id %lld%s", l.c_str(), c, PRI_NAMES[pri], cat, id, acc ? "" : " (refused)"); verify(l.c_str()); }
        else if (op == 1) { ll ms = s.pick({1000, 4000, 5000, 6000, 60000, 4999, 5001, -3600000}); if (ms < 0) ctx.label("clock set back"); bool any = false; for (auto& R : run) if (!R.c.sync) any = true; if (any && ms < 0) vclock::advance_ms(ms); if (any) settle(); else vclock::advance_ms(ms); ctx.note("clock %lld ms on", ms); verify("clock moved"); }
        else if (op == 2) {
            mtime += s.chance(1, 6) ? -(ll)s.range(1, 50) : (ll)s.range(1, 50); for (bool again = true; again;) { again = false; for (auto& R : run) if (R.mt == mtime) { mtime++; again = true; } if (off_mt == mtime) { mtime++; again = true; } }
            int k = s.weighted({10, 3, 1, 1}); rmdir(cp.c_str()); fkind = k;
            if (k == 0) { MConf nw = cur; nw.ch.resize(nc); for (int c = 0; c < nc; c++) nw.ch[c] = run[c].c; nw.hot = !s.chance(1, 8); int what = (int)s.u(6);
                if (what == 0 && nc > 1) { nw.ch.resize(s.range(1, nc - 1)); ctx.label("a channel missing"); }
                else if (what == 1) { nw.ch.push_back(MChan()); nw.ch.back().devs.push_back(MDev()); nw.ch.back().devs[0].file = "extra"; ctx.label("a channel more"); }
                if (what == 2) { MChan& C = nw.ch[s.u(nw.ch.size())]; if (C.devs.size() > 1) { C.devs.pop_back(); ctx.label("a device missing"); } }
                else for (size_t c = 0; c < nw.ch.size() && (int)c < nc; c++) { if (s.coin()) gen_chan(s, nw.ch[c]); for (auto& D : nw.ch[c].devs) if (s.coin()) { std::string o = D.out, f = D.file; gen_fields(s, D); D.out = o; D.file = f; }
                    if (s.chance(1, 4)) for (int a = 0, na = (int)s.range(1, 3); a < na && (int)nw.ch[c].devs.size() < 10; a++) { MDev D; gen_fields(s, D); D.out = out_of(nw.ch[c], false); D.file = fmt("c%zud%zu", c, nw.ch[c].devs.size()); nw.ch[c].devs.push_back(D); } }
                cur = nw; put_file(cp, text(cur), mtime); ctx.note("file at %lld:\n%s", mtime, text(cur).c_str()); ctx.label("valid change"); }
            else if (k == 1) { std::string b = BAD[s.u(7)]; if (s.coin()) { MConf nw = cur; nw.hot = s.coin(); for (auto& C : nw.ch) { gen_chan(s, C); for (auto& D : C.devs) { D.able = s.coin(); D.pri = (int)s.range(0, 6); } } b = text(nw) + (s.coin() ? " - channel: 7\n" : "    -device: 19\n        disable: false\n"); } put_file(cp, b, mtime); ctx.note("broken file at %lld:\n%s", mtime, b.c_str()); ctx.label("broken change"); }
            else { unlink(cp.c_str()); if (k == 3) { mkdir(cp.c_str(), 0777); } ctx.note("file %s", k == 2 ? "removed" : "replaced by a directory"); ctx.label("file missing"); }
            bool any = false; for (auto& R : run) if (!R.c.sync) any = true; if (any) { settle(); verify("file changed"); }
        }
        else if (op == 3) { ctx.note("stop, start"); CHECK(StopLogger(*lg) == 0, "stop"); files_now("after stop"); if (fkind) { fkind = 0; rmdir(cp.c_str()); mtime += 100; for (auto& R : run) if (R.mt == mtime) mtime++; cur.ch.resize(nc); for (int c = 0; c < nc; c++) cur.ch[c] = run[c].c; put_file(cp, text(cur), mtime); }
            if ((int)cur.ch.size() != nc) { mtime += 100; cur.ch.resize(nc); for (int c = 0; c < nc; c++) cur.ch[c] = run[c].c; put_file(cp, text(cur), mtime); }
            // a backlog of rolled files is C12's business: start with empty file names
            for (auto& f : files) unlink((ctx.dir() + "/" + f.first).c_str()); files.clear(); for (auto& nme : list_dir(ctx.dir())) if (nme.find(".log.") != std::string::npos) unlink((ctx.dir() + "/" + nme).c_str());
            r = LoadAndStartLogger(*lg, cp); CHECK(r == 0, "restart: %d", r); hot = cur.hot; off_mt = -1; for (int c = 0; c < nc; c++) { run[c].c = cur.ch[c]; run[c].mt = mtime; run[c].check = 0; } settle(); verify("restarted"); }
        else { vclock::advance_ms(6000); for (int c = 0; c < nc; c++) { std::string l = fmt("line %d", n++); put(*lg, c, 6, 3, 3, l); if (stmt_model(c, 6, 3, 3, l)) { if (run[c].c.sync) check_model(c, vclock::now()); else drain(c); } } bool any = false; for (auto& R : run) if (!R.c.sync) any = true; if (any) settle(); verify("a line on every channel"); }
    }
    (void)applied_wait; CHECK(StopLogger(*lg) == 0, "stop"); files_now("at the end"); SetVirtualDevice(nullptr);
    if (taken) ctx.label("update taken"); if (kept) ctx.label("bad file ignored"); ctx.nontrivial(n > 0 && (taken || kept)); ctx.note("%d updates taken", taken);
}
#else
// generated schedules: loggers, writers, file changes and the stop interleave; HOTUPDATE interval 0: checked in every round
PROP(hotsched, 20, 20000) {
    g_ctx = &ctx; int nc = (int)s.range(1, 2), nt = (int)s.range(1, 3); std::string cp = ctx.dir() + "/log.yaml"; vclock::set(1700000000);
    MConf base; base.ch.resize(nc); for (int c = 0; c < nc; c++) { base.ch[c].sync = s.chance(1, 3); int nd = (int)s.range(1, 2); for (int d = 0; d < nd; d++) { MDev D; D.file = fmt("c%dd%d", c, d); if (d && s.coin()) D.pri = 3; base.ch[c].devs.push_back(D); } }
    int nv = (int)s.range(1, 4); std::vector<MConf> ver; std::vector<std::string> bad(nv); std::vector<int> delay;
    for (int v = 0; v < nv; v++) { MConf m = v ? ver.back() : base; for (auto& C : m.ch) { for (size_t d = 1; d < C.devs.size(); d++) { if (s.coin()) C.devs[d].able = s.coin(); if (s.coin()) C.devs[d].pri = (int)s.range(0, 5); } if (s.coin()) C.devs[0].limit = s.range(0, 9); while (C.devs.size() < 6 && s.chance(1, 3)) { MDev D; D.file = fmt("c%dd%zu", (int)(&C - &m.ch[0]), C.devs.size()); D.able = !s.chance(1, 6); D.pri = s.chance(1, 3) ? 3 : 0; C.devs.push_back(D); } } if (v + 1 == nv && s.chance(1, 5)) m.hot = false; ver.push_back(m); if (s.chance(1, 4)) bad[v] = BAD[s.u(7)]; delay.push_back((int)s.pick({0, 1, 3, 10, 30})); }
    Load ld(nt + 2); for (int t = 0; t < nt; t++) { Seq q(s, 0, 30, s.coin() ? 6 : 14); while (q.next()) { Stmt x; x.ch = (int)s.u(nc); x.pri = (int)s.range(0, 5); x.len = (int)s.range(8, 30); x.pieces = (int)s.range(1, 2); x.delay_us = s.chance(1, 6) ? (int)s.pick({100, 3000, 9000}) : 0; ld[t].push_back(x); } }
    for (int c = 0; c < nc; c++) for (int k = 0; k < 3; k++) { Stmt x; x.ch = c; x.pri = 1 + 2 * k; x.len = 16; ld[nt + 1].push_back(x); }   // statements after everything has settled
    bool quiet = s.coin(); sched::Plan plan = gen_plan(s, nt + 2 + nc); bool coarse = s.chance(1, 3);
    put_file(cp, text(base), 1600000000); ctx.note("%d threads, mode %d, %zu change points%s\n%s", nt, plan.mode, plan.change.size(), quiet ? "" : ", stop without waiting", text(base).c_str()); for (int v = 0; v < nv; v++) { ctx.note("version %d after %d ms%s:\n%s", v, delay[v], bad[v].empty() ? "" : " (preceded by a broken one)", text(ver[v]).c_str()); ctx.key(text(ver[v])); } for (int t = 0; t < nt; t++) { std::string l; for (auto& x : ld[t]) l += fmt(" %d/%d%s", x.ch, x.pri, x.delay_us ? "~" : ""); ctx.note("T%d:%s", t, l.c_str()); ctx.key(l); }
    LoggerPtr lg = mk_logger(); int r = InitFromYMALFile(*lg, cp); CHECK(r == 0, "init %d", r);
    sched::begin(plan, on_fail); watch_logger(*lg, coarse); if (!coarse) for (int c = 0; c < nc; c++) sched::watch(&lg->shm_->channels_[c], sizeof(Channel)); sched::watch(&lg->logger_state_, sizeof(int));
    r = StartLogger(*lg); int settled = 0; ll changes = 0;
    std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) { Stmt& x = ld[t][k]; if (x.delay_us) usleep(x.delay_us); emit(*lg, body(t, (int)k, x.len), x); } });
    ll mt = 1600000001; for (int v = 0; v < nv; v++) { if (delay[v]) usleep(delay[v] * 1000); sched::yield(); if (!bad[v].empty()) { put_file(cp, bad[v], mt++); usleep(3000); } put_file(cp, text(ver[v]), mt++); }
    if (quiet) {
        for (auto& t : th) t.join();
        // one accepted statement per synchronous channel, then time for the writers
        for (int c = 0; c < nc; c++) { Stmt x; x.ch = c; x.pri = 5; x.len = 12; ld[nt].push_back(x); emit(*lg, body(nt, c, 12), ld[nt][c]); }
        { std::vector<ll> k0(nc); for (int c = 0; c < nc; c++) k0[c] = GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHECK); for (int i = 0; i < 60; i++) { usleep(60000); bool all = i > 1; for (int c = 0; c < nc; c++) if (!base.ch[c].sync && GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHECK) < k0[c] + 3) all = false; if (all) break; } } settled = 1; for (int c = 0; c < nc; c++) changes += GetChannelLog(*lg, c, CHANNEL_LOG_HOTUPDATE_CHANGE);
        for (size_t k = 0; k < ld[nt + 1].size(); k++) emit(*lg, body(nt + 1, (int)k, 16), ld[nt + 1][k]);
    }
    int ret2 = -1;
    if (!quiet) { ret2 = StopLogger(*lg); for (auto& t : th) t.join(); } else ret2 = StopLogger(*lg);
    unsigned long long sw = sched::switches(); sched::end();
    CHECK(r == 0 && ret2 == 0, "start %d stop %d", r, ret2);
    // a statement that was running when the stop began may be kept back
    std::set<std::string> names; size_t lines = 0; MConf& fin = ver.back();
    for (int c = 0; c < nc; c++) for (size_t d = 0; d < fin.ch[c].devs.size(); d++) {
        const MDev& D = fin.ch[c].devs[d]; std::vector<std::pair<int, int> > got; std::string p = D.file + ".log", e = parse_file(p, ld, got); names.insert(p); CHECK(e.empty(), "%s", e.c_str()); std::map<std::pair<int, int>, int> cnt; for (auto& g : got) { cnt[g]++; CHECK(ld[g.first][g.second].ch == c, "%s holds statement %d.%d for channel %d", p.c_str(), g.first, g.second, ld[g.first][g.second].ch); } lines += got.size();
        for (size_t t = 0; t < ld.size(); t++) for (size_t k = 0; k < ld[t].size(); k++) { Stmt& x = ld[t][k]; if (x.ch != c) continue; int g = cnt[std::make_pair((int)t, (int)k)]; CHECK(g <= 1, "%s: statement %zu.%zu %d times", p.c_str(), t, k, g);
            if (!x.logged || (!quiet && (int)t < nt)) continue;   // racing the stop
            if (settled && (int)t == nt + 1) { int w = takes(fin.ch[c], D, x.pri, 0, 0); CHECK(g == w, "%s: statement %zu.%zu (%s), made after the update had to be taken, %d times, expected %d", p.c_str(), t, k, PRI_NAMES[x.pri], g, w); continue; }
            bool all = true, none = true; std::vector<const MConf*> vs; vs.push_back(&base); for (auto& v : ver) vs.push_back(&v); for (auto* v : vs) { bool w = d < v->ch[c].devs.size() && takes(v->ch[c], v->ch[c].devs[d], x.pri, 0, 0); all = all && w; none = none && !w; }
            CHECK(!all || g == 1, "%s: statement %zu.%zu, accepted before, during and after the updates, is missing", p.c_str(), t, k); CHECK(!none || g == 0, "%s: statement %zu.%zu, never accepted, was output", p.c_str(), t, k); }
    }
    for (auto& n : list_dir(ctx.dir())) if (n.find(".log") != std::string::npos) CHECK(names.count(n), "unexpected file %s", n.c_str());
    if (settled) ctx.label("settled"); if (changes) ctx.label("taken"); ctx.nontrivial(lines >= 3 && sw >= 6);
}
#endif
int main(int c, char** v) { return pbt_main(c, v); }
