// C04: on a synchronous channel the line is in the file when the statement returns.
#include "conc.h"
#include <thread>
using namespace FNLog; using namespace conc;
// backups .N .. .1, then the live file
static std::string concat(const std::string& p) { std::string o; int n = 0; struct stat st; while (stat(fmt("%s.%d", p.c_str(), n + 1).c_str(), &st) == 0) n++; for (; n >= 1; n--) o += file_text(fmt("%s.%d", p.c_str(), n)); return o + file_text(p); }
#ifndef USE_SCHED
struct S1 { std::vector<Chan> chs; struct Rec { int ch; Stmt st; std::string text; bool closed; }; std::vector<Rec> rec; int open = 0; LoggerPtr lg; Ctx* ctx; int checks = 0, maxdepth = 0, outer = 0; bool rolls = false; std::vector<int> opench; };
static void verify(S1& w, const char* when) {
    for (size_t c = 0; c < w.chs.size(); c++) {
        if (!w.chs[c].sync) continue;
        for (auto& d : w.chs[c].devs) {
            std::string want; for (auto& r : w.rec) if (r.ch == (int)c) { if (!r.closed) break; if (accepts(w.chs[c], d, r.st)) want += r.text + "\n"; }
            std::string got = concat(d.file + ".log"); w.checks++;
            if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; w.ctx->fail("%s: %s.log has %zu bytes, expected %zu; they differ at %zu: \"%s\", expected \"%s\"", when, d.file.c_str(), got.size(), want.size(), i, esc(got.substr(i), 60).c_str(), esc(want.substr(i), 60).c_str()); }
        }
    }
}
static int begin_rec(S1& w, Stmt st, const std::string& text) { bool acc = st.pri >= w.chs[st.ch].pri; bool any = false; for (auto& d : w.chs[st.ch].devs) { Dev e = d; e.empty = false; if (accepts(w.chs[st.ch], e, st)) any = true; } if (!acc || !any) return -1; S1::Rec r; r.ch = st.ch; r.st = st; r.text = text; r.closed = false; w.rec.push_back(r); return (int)w.rec.size() - 1; }
static Stmt gen_stmt(Src& s, S1& w) { Stmt x; x.ch = (int)s.u(w.chs.size()); x.pri = (int)s.range(0, 5); x.cat = (int)s.range(0, 5); x.len = s.chance(1, 8) ? (int)s.range(80, LOGMAX - 2) : (int)s.range(1, 40); return x; }
static const std::string& nested(Src& s, S1& w, int depth, const std::string& val);
// records a channel's queue still holds because an earlier statement is open
static bool room(S1& w) { for (size_t c = 0; c < w.chs.size(); c++) { int n = 0; bool blocked = false; for (auto& r : w.rec) if (r.ch == (int)c) { if (!r.closed) blocked = true; if (blocked) n++; } if (n >= 8) return false; } return true; }
static void statement(Src& s, S1& w, int depth) {
    Stmt st = gen_stmt(s, w); int id = (int)w.rec.size(); std::string b = body(id, depth, st.len); w.maxdepth = std::max(w.maxdepth, depth); if (depth == 0) w.outer++;
    w.ctx->note("%*s%d: channel %d priority %d category %d, %zu bytes", 2 + 2 * depth, "", id, st.ch, st.pri, st.cat, b.size());
    w.ctx->key(fmt("%d %d %d %d %zu", depth, st.ch, st.pri, st.cat, b.size()));
    int r = begin_rec(w, st, b); size_t cut = b.size() / 2; int nest = depth < 3 && room(w) && s.chance(1, depth ? 5 : 3) ? (int)s.range(1, 2) : 0; std::string h1 = b.substr(0, cut), h2 = b.substr(cut); w.open++;
    // the nested statement runs while the outer one is open, as an operand of it
    if (nest == 0) LOG_STREAM_ORIGIN(*w.lg, st.ch, st.pri, st.cat, 0, LOG_PREFIX_NULL).self() << b;
    else if (nest == 1) LOG_STREAM_ORIGIN(*w.lg, st.ch, st.pri, st.cat, 0, LOG_PREFIX_NULL).self() << h1 << nested(s, w, depth, h2);
    else { LogStream ls(LOG_STREAM_ORIGIN(*w.lg, st.ch, st.pri, st.cat, 0, LOG_PREFIX_NULL)); ls << h1; nested(s, w, depth, h2); ls << nested(s, w, depth, h2); }
    w.open--;
    if (r >= 0) w.rec[r].closed = true;
    verify(w, fmt("after statement %d returned", id).c_str());
}
static const std::string& nested(Src& s, S1& w, int depth, const std::string& val) { if (room(w)) statement(s, w, depth + 1); return val; }
PROP(nestedsync, 50, 10000) {
    S1 w; w.ctx = &ctx; w.chs.resize(s.range(1, 3)); std::string extra;
    for (size_t c = 0; c < w.chs.size(); c++) { w.chs[c].sync = c == 0 || s.chance(3, 4); if (s.chance(1, 5)) w.chs[c].pri = (int)s.range(0, 3); int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)c, d, d > 0 || s.chance(1, 3)); w.chs[c].devs.push_back(v); } }
    w.lg = mk_logger(); std::string cfg = config(w.chs); w.rolls = s.chance(1, 3);
    vclock::set(1700000000); ctx.note("%s%s", cfg.c_str(), w.rolls ? "limits\n" : "");
    int ret = InitFromYMAL(*w.lg, cfg, ""); CHECK(ret == 0, "init %d", ret);
    if (w.rolls) for (size_t c = 0; c < w.chs.size(); c++) for (size_t d = 0; d < w.chs[c].devs.size(); d++) { SetDeviceConfig(*w.lg, (int)c, (int)d, DEVICE_CFG_FILE_LIMIT_SIZE, s.range(40, 400)); SetDeviceConfig(*w.lg, (int)c, (int)d, DEVICE_CFG_FILE_ROLLBACK, 500); }
    ret = StartLogger(*w.lg); CHECK(ret == 0, "start %d", ret);
    std::vector<std::pair<std::unique_ptr<LogStream>, int> > held;
    Seq q(s, 1, 30, 10); while (q.next()) {
        if (s.chance(1, 8) && held.size() < 3 && room(w)) {   // a stream object kept open across statements
            Stmt st = gen_stmt(s, w); std::string b = body((int)w.rec.size(), 9, st.len); ctx.note("  hold %zu: channel %d priority %d category %d, %zu bytes", w.rec.size(), st.ch, st.pri, st.cat, b.size()); int r = begin_rec(w, st, b); w.open++;
            held.emplace_back(std::unique_ptr<LogStream>(new LogStream(LOG_STREAM_ORIGIN(*w.lg, st.ch, st.pri, st.cat, 0, LOG_PREFIX_NULL))), r); *held.back().first << b; ctx.label("held streams"); continue;
        }
        if (!held.empty() && (!room(w) || s.chance(1, 3))) { size_t i = s.u(held.size()); int r = held[i].second; held.erase(held.begin() + i); w.open--; if (r >= 0) w.rec[r].closed = true; ctx.note("  close %d", r); verify(w, "after a held stream was closed"); continue; }
        statement(s, w, 0);
    }
    while (!held.empty()) { int r = held[0].second; held.erase(held.begin()); if (r >= 0) w.rec[r].closed = true; }
    verify(w, "at the end");
    ret = StopLogger(*w.lg); CHECK(ret == 0, "stop %d", ret);
    for (auto& c : w.chs) c.sync = true;
    for (auto& r : w.rec) r.closed = true;
    // after Stop the asynchronous channels' lines are there too
    verify(w, "after StopLogger");
    if (w.maxdepth) ctx.label(fmt("nesting %d", w.maxdepth)); if (w.rolls) ctx.label("size rolling");
    ctx.nontrivial(w.rec.size() >= 2);
}
#endif
static void mt(Src& s, Ctx& ctx, bool real) {
    std::vector<Chan> chs(s.chance(1, 4) ? 2 : 1); int nt = (int)s.range(2, real ? 6 : 4);
    for (size_t c = 0; c < chs.size(); c++) { chs[c].sync = true; int nd = (int)s.range(1, 3); for (int d = 0; d < nd; d++) { Dev v; gen_dev(s, v, (int)c, d, d > 0); chs[c].devs.push_back(v); } }
    Load ld(nt); int per = real ? (int)s.range(20, 120) : 0; unsigned long long seed = s.bits();
    for (int t = 0; t < nt; t++) { Seq q(s, 0, 20, 6); for (int k = 0; real ? k < per : q.next(); k++) { unsigned long long r = mix(seed + t * 1000003ULL + k); Stmt x; x.ch = (int)(r % chs.size()); r >>= 8; x.pri = (int)(r % 4); r >>= 8; x.cat = (int)(r % 4); r >>= 8; x.len = 5 + (int)(r % 40); x.pieces = 1 + (int)(r >> 30) % 2; ld[t].push_back(x); } }
    bool rolls = s.chance(1, 2); int limit = (int)s.range(60, 300);
    LoggerPtr lg = mk_logger(); std::string cfg = config(chs); ctx.note("%d threads%s\n%s", nt, rolls ? fmt(", limit %d bytes", limit).c_str() : "", cfg.c_str()); for (auto& l : ld) ctx.note("%zu statements", l.size());
    ctx.key(fmt("%llu %d", seed, nt)); vclock::set(1700000000);
    int ret = InitFromYMAL(*lg, cfg, ""); CHECK(ret == 0, "init %d", ret);
    if (rolls) for (size_t c = 0; c < chs.size(); c++) for (size_t d = 0; d < chs[c].devs.size(); d++) { SetDeviceConfig(*lg, (int)c, (int)d, DEVICE_CFG_FILE_LIMIT_SIZE, limit); SetDeviceConfig(*lg, (int)c, (int)d, DEVICE_CFG_FILE_ROLLBACK, 2000); }
    auto work = [&](int t) { for (size_t k = 0; k < ld[t].size(); k++) emit(*lg, body(t, (int)k, ld[t][k].len), ld[t][k]); };
    unsigned long long sw = 99;
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 1); g_ctx = &ctx; bool coarse = s.coin();
    ctx.note("plan mode %d, %zu change points, %s", plan.mode, plan.change.size(), coarse ? "indices" : "all fields");
    sched::begin(plan, on_fail); watch_logger(*lg, coarse); if (!coarse) sched::watch(&lg->file_handles_, sizeof(lg->file_handles_));
#endif
    ret = StartLogger(*lg); int ret2 = 0;
    std::atomic<int> go{0};
    { std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { if (real) { go++; while (go < nt) {} } work(t); }); for (auto& t : th) t.join(); }
    // the files as another process would see them now, before anything is stopped
    std::vector<std::string> seen; for (auto& c : chs) for (auto& d : c.devs) { std::string t = concat(d.file + ".log"); write_file("seen_" + d.file, t); }
#ifdef USE_SCHED
    sw = sched::switches();
#endif
    ret2 = StopLogger(*lg);
#ifdef USE_SCHED
    sched::end();
#endif
    CHECK(ret == 0 && ret2 == 0, "start %d, stop %d", ret, ret2); size_t lines = 0;
    for (size_t c = 0; c < chs.size(); c++) for (auto& d : chs[c].devs) {
        std::vector<std::pair<int, int> > got; std::string p = "seen_" + d.file, e = parse_file(p, ld, got); CHECK(e.empty(), "%s", e.c_str()); lines += got.size();
        e = check_once(p, chs[c], d, (int)c, ld, got); CHECK(e.empty(), "once all threads have returned: %s", e.c_str());
        std::string after = concat(d.file + ".log"); CHECK(after == file_text(p), "%s.log changed by StopLogger", d.file.c_str());
    }
    if (rolls) ctx.label("size rolling"); ctx.nontrivial(lines >= 2 && sw >= 3);
}
#ifdef USE_SCHED
PROP(syncthreads, 20, 15000) { mt(s, ctx, false); }
#else
PROP_NONDET(stress_sync, 10, 30000) { mt(s, ctx, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
