// C21: any threads start, stop and log concurrently.
#include "conc.h"
#include <thread>
using namespace FNLog; using namespace conc;
struct Op { int kind; int cfg; int idx; int ms; bool file; };              // 0 statement, 1 start, 2 stop, 3 sleep, 4 open a stream, 5 close it
struct Ev { bool start; int cfg, ret; ll b, e; };
static void run(Src& s, Ctx& ctx, bool real) {
    int nt = (int)s.range(2, real ? 5 : 4), ncfg = (int)s.range(1, 3), nch = (int)s.range(1, 2); std::vector<std::vector<Chan> > cfgs(ncfg); std::vector<std::string> text(ncfg); bool own = s.coin();
    for (int i = 0; i < ncfg; i++) { cfgs[i].resize(s.chance(1, 6) ? 1 : nch); for (size_t c = 0; c < cfgs[i].size(); c++) { Chan& ch = cfgs[i][c]; ch.sync = s.coin(); int nd = (int)s.range(1, 2); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)c, d, s.chance(1, 6)); if (own) v.file = fmt("g%d", i) + v.file; ch.devs.push_back(v); } } text[i] = config(cfgs[i], s.chance(1, 6) ? " - hot_update: true\n" : ""); ctx.note("configuration %d:\n%s", i, text[i].c_str()); }
    Load ld(nt + 1); std::vector<std::vector<Op> > ops(nt); std::vector<std::vector<Ev> > ev(nt + 1);
    for (int t = 0; t < nt; t++) {
        std::string l; bool ctl = t < 2 || s.coin(); bool held = false; Seq q(s, 1, real ? 60 : 30, real ? 25 : 8);
        while (q.next()) { Op o; o.kind = ctl ? s.weighted({6, 4, 4, 1, 2, 2}) : s.weighted({16, 0, 0, 2, 2, 2}); o.cfg = (int)s.u(ncfg); o.idx = (int)ld[t].size(); o.ms = (int)s.pick({1, 5, 20, 60}); o.file = s.chance(1, 3); if (o.kind == 4 && held) o.kind = 5; else if (o.kind == 5 && !held) o.kind = 4; else if (o.kind == 0 && held) o.kind = 5;   // a bounded queue: who keeps a statement open must not wait for room
            if (o.kind == 4) held = true; if (o.kind == 5) held = false;
            if (o.kind == 0 || o.kind == 4) { Stmt x; x.ch = (int)s.u(nch); x.pri = 3; x.len = s.chance(1, 8) ? 200 : (int)s.range(8, 30); x.pieces = (int)s.range(1, 3); ld[t].push_back(x); }
            ops[t].push_back(o); l += fmt(" %s%d", (const char*[]){"log", "start", "stop", "sleep", "open", "close", "load+start"}[o.kind == 1 && o.file ? 6 : o.kind], o.kind == 1 ? o.cfg : o.kind == 3 ? o.ms : o.kind == 5 ? 0 : o.idx); }
        ctx.note("T%d:%s", t, l.c_str()); ctx.key(l);
    }
    bool late = false; (void)late; bool first = s.coin(); vclock::set(1700000000); LoggerPtr lg = mk_logger();
    for (int i = 0; i < ncfg; i++) write_file(fmt("cfg%d.yml", i), text[i]);
    auto start = [&](int t, int c, bool file) { Ev e; e.start = true; e.cfg = c; e.b = ticket(); e.ret = file ? LoadAndStartLogger(*lg, fmt("cfg%d.yml", c)) : ParseAndStartLogger(*lg, text[c]); e.e = ticket(); ev[t].push_back(e); };
    auto stop = [&](int t) { Ev e; e.start = false; e.cfg = 0; e.b = ticket(); e.ret = StopLogger(*lg); e.e = ticket(); ev[t].push_back(e); };
    auto work = [&](int t) {
        std::unique_ptr<LogStream> held; int hk = -1; std::string hb;
        auto close = [&]() { if (!held) return; size_t n = hb.size() / 2; held->write_buffer(hb.data() + n, (int)(hb.size() - n)); held.reset(); ld[t][hk].e = ticket(); ld[t][hk].logged = true; };
        for (auto& o : ops[t]) {
            if (o.kind == 0) emit(*lg, body(t, o.idx, ld[t][o.idx].len), ld[t][o.idx]);
            else if (o.kind == 1) start(t, o.cfg, o.file);
            else if (o.kind == 2) stop(t);
            else if (o.kind == 3) usleep(real ? o.ms * 10 : o.ms * 1000);
            else if (o.kind == 4) { hk = o.idx; hb = body(t, hk, ld[t][hk].len); ld[t][hk].b = ticket(); held.reset(new LogStream(LOG_STREAM_ORIGIN(*lg, ld[t][hk].ch, 3, 0, 0, LOG_PREFIX_NULL))); held->write_buffer(hb.data(), (int)(hb.size() / 2)); }
            else close();
        }
        close();
    };
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 6); if (plan.tick_ns > 1000) plan.tick_ns = 1000; bool coarse = s.coin(); g_ctx = &ctx; if (s.chance(1, 10)) { for (int i = 0; i < nt + 12; i++) plan.late_ns.push_back(s.chance(1, 3) ? s.range(1, 3000) * 1000000LL : 0); late = true; ctx.label("late threads"); } ctx.note("plan mode %d, %zu change points, %s%s", plan.mode, plan.change.size(), coarse ? "indices" : "all fields", first ? ", started beforehand" : "");
    // allocate the memory first so that it can be watched
    { int r = InitFromYMAL(*lg, text[0], ""); CHECK(r == 0, "init %d", r); }
    int all = (int)sizeof(*lg->shm_); (void)all; sched::begin(plan, on_fail); { int keep = lg->shm_->channel_size_; lg->shm_->channel_size_ = nch; watch_logger(*lg, coarse); lg->shm_->channel_size_ = keep; } if (!coarse) { sched::watch(&lg->file_handles_, sizeof(lg->file_handles_)); for (int c = 0; c < nch; c++) sched::watch(&lg->shm_->channels_[c], 32); }
#endif
    if (first) start(nt, 0, false);
    { std::atomic<int> go{0}; std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { if (real) { go++; while (go < nt) {} } work(t); }); for (auto& t : th) t.join(); }
    int good = 0, ng = 0, nx = 0; for (auto& v : ev) for (auto& e : v) if (e.ret == 0) { good += e.start ? 1 : -1; (e.start ? ng : nx)++; }
    int fin = StopLogger(*lg), again = ParseAndStartLogger(*lg, text[0]); ctx.note("finally: stop %d start %d", fin, again); Stmt probe; probe.ch = 0; probe.pri = 3; probe.len = 20; ld[nt].push_back(probe);
    ll again_at = ticket(); if (again == 0) emit(*lg, body(nt, 0, 20), ld[nt][0]); int last = StopLogger(*lg);
#ifdef USE_SCHED
    unsigned long long sw = sched::switches(); sched::end();
#else
    unsigned long long sw = 9;
#endif
    std::vector<Ev> all_ev; for (auto& v : ev) for (auto& e : v) { all_ev.push_back(e); CHECK(e.ret == 0 || e.ret == (e.start ? E_LOGGER_IN_USE : E_LOGGER_NOT_RUNNING) || (late && e.start && e.ret == E_CHANNEL_THREAD_FAILED), "a concurrent %s returned %d (%s)", e.start ? "start" : "stop", e.ret, DebugErrno(e.ret).c_str()); }
    CHECK(good == 0 || good == 1, "%d starts and %d stops succeeded", ng, nx);
    CHECK(fin == (good ? 0 : E_LOGGER_NOT_RUNNING), "after %d successful starts and %d successful stops StopLogger returned %d", ng, nx, fin);
    if (late && again == E_CHANNEL_THREAD_FAILED) { ctx.discard(); } CHECK(again == 0 && last == 0, "afterwards the logger cannot be started and stopped again: %d, %d", again, last);
    for (auto& a : all_ev) for (auto& b : all_ev) if (a.start == b.start && a.ret == 0 && b.ret == 0 && a.e < b.b) { bool between = false; for (auto& x : all_ev) if (x.start != a.start && x.ret == 0 && x.b < b.e && x.e > a.b) between = true; CHECK(between, "two %s succeeded in a row", a.start ? "starts" : "stops"); }
    Ev fe; fe.start = true; fe.cfg = 0; fe.ret = 0; fe.b = fe.e = again_at; std::vector<Ev> st_ev = all_ev; st_ev.push_back(fe);
    for (auto& e : st_ev) ctx.note("  %s of configuration %d: [%lld,%lld] returned %d", e.start ? "start" : "stop", e.cfg, e.b, e.e, e.ret);
    for (int t = 0; t <= nt; t++) for (size_t k = 0; k < ld[t].size(); k++) ctx.note("  statement %d.%zu on channel %d: [%lld,%lld]", t, k, ld[t][k].ch, ld[t][k].b, ld[t][k].e);
    // what reached the files
    std::map<std::string, std::map<std::pair<int, int>, int> > cnt; std::set<std::string> seen; size_t lines = 0, must = 0;
    for (auto& cf : cfgs) for (auto& c : cf) for (auto& d : c.devs) { if (!seen.insert(d.file).second) continue; std::vector<std::pair<int, int> > got; std::string e = parse_file(d.file + ".log", ld, got); CHECK(e.empty(), "%s", e.c_str()); for (auto& g : got) cnt[d.file][g]++; lines += got.size(); }
    for (int t = 0; t <= nt; t++) for (size_t k = 0; k < ld[t].size(); k++) {
        Stmt& x = ld[t][k]; std::pair<int, int> id(t, (int)k); int force = -1; ll mb = -1;
        ll done = x.e; for (auto& l : ld) for (auto& y : l) if (y.logged && y.ch == x.ch && y.b < x.e) done = std::max(done, y.e);   // everything that may be ahead of it in the queue
        for (auto& S : st_ev) if (S.start && S.ret == 0 && S.e < x.b) { bool ok = true; if (t != nt) for (auto& X : all_ev) if (!X.start && X.e > S.b && X.b < done) ok = false; if (ok && S.e > mb) { force = S.cfg; mb = S.e; } }
        std::map<std::string, int> per;   // device position -> occurrences
        for (int i = 0; i < ncfg; i++) for (size_t c = 0; c < cfgs[i].size(); c++) for (size_t d = 0; d < cfgs[i][c].devs.size(); d++) {
            const Dev& v = cfgs[i][c].devs[d]; int n = cnt[v.file][id]; bool shared = false; for (int j = 0; j < i; j++) if (c < cfgs[j].size() && d < cfgs[j][c].devs.size() && cfgs[j][c].devs[d].file == v.file) shared = true;
            if (!shared) per[fmt("%zu.%zu", c, d)] += n;
            CHECK(n == 0 || (int)c == x.ch, "statement %d.%zu for channel %d is in %s.log", t, k, x.ch, v.file.c_str());
            if (force == i && (int)c == x.ch) { int want = accepts(cfgs[i][c], v, x) ? 1 : 0; must += want; CHECK(n == want, "statement %d.%zu, made while the logger was running with configuration %d, is %d times in %s.log, expected %d", t, k, i, n, v.file.c_str(), want); }
        }
        for (auto& p : per) CHECK(p.second <= 1, "statement %d.%zu was output %d times on device %s", t, k, p.second, p.first.c_str());
    }
    ctx.note("%d starts, %d stops, %zu lines, %zu of them guaranteed", ng, nx, lines, must); if (nx > 1) ctx.label("restarted"); if (must > 1) ctx.label("guaranteed lines"); if (lines > must) ctx.label("lines racing a stop");
    ctx.nontrivial(ng + nx >= 1 && lines >= 1 && sw >= 4);
}
#ifdef USE_SCHED
PROP(startstop, 20, 15000) { run(s, ctx, false); }
#else
PROP_NONDET(stress_startstop, 10, 30000) { run(s, ctx, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
