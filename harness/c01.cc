// C01 exactly once / C02 order on asynchronous channels, under generated schedules.
#include "conc.h"
using namespace FNLog; using namespace conc;
// as if that many statements had gone before: all indices of an idle ring at the same place
static void after_long_use(Src& s, Ctx& ctx, Logger& lg, size_t nch) {
    if (!s.chance(1, 5)) return; ctx.label("indices near their end");
    for (size_t c = 0; c < nch; c++) { RingBuffer& r = lg.shm_->ring_buffers_[c]; int v = RingBuffer::INDEX_CYCLE - 1 - (int)s.skew(0, 40); r.hold_idx_ = v; r.write_idx_ = v; r.proc_idx_ = v; r.read_idx_ = v; ctx.note("channel %zu: indices at %d", c, v); }
}
#ifdef USE_SCHED
static void run(Src& s, Ctx& ctx, bool c02) {
    g_ctx = &ctx; std::vector<Chan> chs(s.chance(1, 5) ? 2 : 1); int nt = (int)s.range(1, 4);
    for (size_t c = 0; c < chs.size(); c++) { int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)c, d, d > 0 || s.chance(1, 4)); chs[c].devs.push_back(v); } if (s.chance(1, 8)) chs[c].pri = (int)s.range(0, 3); }
    if (s.chance(1, 4)) for (auto& c : chs) for (auto& d : c.devs) d.dir = s.pick({"x/", "x/y/", "x/y/z/"});
    bool roll = s.chance(1, 6); int pmax = s.coin() ? 0 : 5;
    Load ld(nt + 1);
    for (int t = 0; t <= nt; t++) { Seq q(s, 0, t == nt ? 10 : 40, t == nt ? 1 : s.chance(1, 3) ? 25 : 5); while (q.next()) { Stmt x; x.ch = (int)s.u(chs.size()); x.pri = (int)s.range(0, pmax); x.cat = pmax ? (int)s.range(0, 5) : 0; x.len = s.chance(1, 10) ? (int)s.range(60, LOGMAX + 10) : (int)s.range(5, 40); x.pieces = (int)s.range(1, 2); x.delay_us = s.chance(1, 12) ? (int)s.pick({100, 4000, 9000, 30000}) : 0; ld[t].push_back(x); } }
    sched::Plan plan = gen_plan(s, nt + 1 + (int)chs.size()); bool coarse = s.coin();
    (void)roll; LoggerPtr lg = mk_logger(); std::string cfg = config(chs);
    ctx.note("%d threads, plan mode %d, %zu change points, tick %lld ns, %s\n%s", nt, plan.mode, plan.change.size(), plan.tick_ns, coarse ? "indices" : "all fields", cfg.c_str());
    for (int t = 0; t <= nt; t++) { std::string l; for (auto& x : ld[t]) l += fmt(" %d/%d/%d/%d%s", x.ch, x.pri, x.cat, x.len, x.delay_us ? "~" : ""); ctx.note("T%d:%s", t, l.c_str()); ctx.key(l); }
    int ret = 0, ret2 = 0; size_t total = 0; for (auto& l : ld) total += l.size();
    ret = InitFromYMAL(*lg, cfg, ""); CHECK(ret == 0, "init %d", ret); after_long_use(s, ctx, *lg, chs.size());
    sched::begin(plan, on_fail); watch_logger(*lg, coarse);
    {
        ret = StartLogger(*lg);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { for (size_t k = 0; k < ld[t].size(); k++) { Stmt& x = ld[t][k]; if (x.delay_us) usleep(x.delay_us); emit(*lg, body(t, (int)k, x.len), x); } });
        for (size_t k = 0; k < ld[nt].size(); k++) { Stmt& x = ld[nt][k]; if (x.delay_us) usleep(x.delay_us); emit(*lg, body(nt, (int)k, x.len), x); }
        for (auto& t : th) t.join();
        ret2 = StopLogger(*lg);
    }
    unsigned long long steps = sched::step(), sw = sched::switches();
    sched::end();
    CHECK(ret == 0 && ret2 == 0, "start %d, stop %d", ret, ret2);
    ll wait = 0; for (size_t c = 0; c < chs.size(); c++) wait += GetChannelLog(*lg, (int)c, CHANNEL_LOG_WAIT_COUNT);
    ctx.note("%llu steps, %llu switches, %lld waits for room", steps, sw, wait);
    if (wait) ctx.label("queue was full"); if ((int)total > RingBuffer::BUFFER_LEN) ctx.label("wrapped"); ctx.label(coarse ? "indices" : "all fields"); ctx.label(plan.mode ? "random walk" : "priorities");
    size_t exp = 0;
    for (size_t c = 0; c < chs.size(); c++) {
        std::vector<std::vector<std::pair<int, int> > > all; std::vector<std::string> names;
        for (auto& d : chs[c].devs) {
            std::vector<std::pair<int, int> > got; std::string p = ctx.dir() + "/" + d.dir + d.file + ".log", e = parse_file(p, ld, got); CHECK(e.empty(), "%s", e.c_str());
            e = c02 ? "" : check_once(p, chs[c], d, (int)c, ld, got); CHECK(e.empty(), "%s", e.c_str());
            if (c02) { e = check_order(p, ld, got); CHECK(e.empty(), "%s", e.c_str()); for (size_t i = 0; i < all.size(); i++) { e = check_same(names[i], p, all[i], got); CHECK(e.empty(), "%s", e.c_str()); } }
            exp += got.size(); all.push_back(got); names.push_back(p);
        }
    }
    ctx.nontrivial(exp >= 3 && sw >= 6 && nt >= 1);
}
PROP(once, 20, 15000) { run(s, ctx, false); }
PROP(order, 20, 15000) { run(s, ctx, true); }
#else
// real threads: compiler and hardware reorderings, long laps
#include <thread>
static void stress(Src& s, Ctx& ctx, bool c02) {
    std::vector<Chan> chs(s.chance(1, 4) ? 2 : 1); int nt = (int)s.range(2, 6);
    for (size_t c = 0; c < chs.size(); c++) { int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)c, d, d > 0); chs[c].devs.push_back(v); } }
    if (s.chance(1, 3)) for (auto& c : chs) for (auto& d : c.devs) d.dir = s.pick({"x/", "x/y/", "x/y/z/"});
    int per = (int)s.range(50, 600), pmax = s.coin() ? 0 : 5; unsigned long long seed = s.bits(); int slow = s.chance(1, 4) ? (int)s.range(1, 20) : 0;
    Load ld(nt); for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) { unsigned long long r = mix(seed + t * 1000003ULL + k); Stmt x; x.ch = (int)(r % chs.size()); r >>= 8; x.pri = (int)(r % (pmax + 1)); r >>= 8; x.cat = (int)(r % 5); r >>= 8; x.len = 5 + (int)(r % ((r >> 8) % 16 == 0 ? LOGMAX : 60)); r >>= 20; x.pieces = 1 + (int)(r % 2); ld[t].push_back(x); }
    LoggerPtr lg = mk_logger(); std::string cfg = config(chs); ctx.note("%d threads x %d statements\n%s", nt, per, cfg.c_str()); ctx.key(fmt("%llu %d %d", seed, nt, per));
    int ret = InitFromYMAL(*lg, cfg, ""); CHECK(ret == 0, "init %d", ret); after_long_use(s, ctx, *lg, chs.size()); ret = StartLogger(*lg); CHECK(ret == 0, "start %d", ret);
    std::atomic<int> go{0}; std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { go++; while (go < nt) {} for (size_t k = 0; k < ld[t].size(); k++) { emit(*lg, body(t, (int)k, ld[t][k].len), ld[t][k]); if (slow && k % 50 == 0) ::syscall(SYS_sched_yield); } });
    for (auto& t : th) t.join();
    ret = StopLogger(*lg); CHECK(ret == 0, "stop %d", ret);
    for (size_t c = 0; c < chs.size(); c++) {
        std::vector<std::vector<std::pair<int, int> > > all; std::vector<std::string> names;
        for (auto& d : chs[c].devs) {
            std::vector<std::pair<int, int> > got; std::string p = ctx.dir() + "/" + d.dir + d.file + ".log", e = parse_file(p, ld, got); CHECK(e.empty(), "%s", e.c_str());
            e = c02 ? "" : check_once(p, chs[c], d, (int)c, ld, got); CHECK(e.empty(), "%s", e.c_str());
            if (c02) { e = check_order(p, ld, got); CHECK(e.empty(), "%s", e.c_str()); for (size_t i = 0; i < all.size(); i++) { e = check_same(names[i], p, all[i], got); CHECK(e.empty(), "%s", e.c_str()); } }
            all.push_back(got); names.push_back(p);
        }
    }
    ctx.nontrivial(true);
}
PROP_NONDET(stress_once, 10, 30000) { stress(s, ctx, false); }
PROP_NONDET(stress_order, 10, 30000) { stress(s, ctx, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
