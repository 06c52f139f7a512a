// C20: the virtual device's hook, and records transmitted to other channels.
#include "conc.h"
using namespace FNLog; using namespace conc;
struct Filt { int pri = 0, cb = 0, ce = 0, ib = 0, ie = 0; unsigned cm = 0; bool ok(int p, int c, ll i) const { return p >= pri && (!ce || (c >= cb && c < cb + ce)) && (!ie || (i >= ib && i < ib + ie)) && (!cm || ((cm >> c) & 1)); } };
struct VDev { int out = 0; /*0 file 1 vm 2 empty*/ bool on = true; Filt f; };
struct VChan { bool sync = true; Filt f; std::vector<VDev> devs; int vm() const { for (size_t d = 0; d < devs.size(); d++) if (devs[d].out == 1) return (int)d; return -1; } };
struct Send { int to, cat; ll id; };
static std::string filt_text(const Filt& f, const char* ind) { std::string t = fmt("%spriority: %s\n%scategory: %d\n%scategory_extend: %d\n%sidentify: %d\n%sidentify_extend: %d\n", ind, PRI_NAMES[f.pri], ind, f.cb, ind, f.ce, ind, f.ib, ind, f.ie); if (f.cm) t += fmt("%scategory_wmask: %u\n", ind, f.cm); return t; }
static std::string config_of(const std::vector<VChan>& chs, int g) { std::string t; for (size_t c = 0; c < chs.size(); c++) { t += fmt(" - channel: %zu\n    sync: %s\n", c, chs[c].sync ? "sync" : "async") + filt_text(chs[c].f, "    "); for (size_t d = 0; d < chs[c].devs.size(); d++) { auto& v = chs[c].devs[d]; t += fmt("    -device: %zu\n        disable: %s\n        out_type: %s\n", d, v.on ? "false" : "true", v.out == 0 ? "file" : v.out == 1 ? "vm" : "empty") + filt_text(v.f, "        "); if (v.out == 0) t += fmt("        path: \"./\"\n        file: \"g%dc%zud%zu\"\n", g, c, d); } } return t; }
struct Call { int which, ch, pri, cat; ll id; std::string text; bool nul; unsigned thread; ll at; int plen; };
static std::vector<Call> g_calls; static std::map<int, std::vector<Send> > g_plan; static Logger* g_lg; static ll g_step; static unsigned tid() { return (unsigned)syscall(SYS_gettid); }
static void record(int which, const LogData& d) { Call c; c.which = which; c.ch = d.channel_id_; c.pri = d.priority_; c.cat = d.category_; c.id = d.identify_; int n = d.content_len_; bool in = n >= 0 && n < LogData::LOG_SIZE; c.nul = in && d.content_[n] == 0; c.text.assign(d.content_, in ? n : 0); c.thread = d.thread_; c.at = g_step; c.plen = d.prefix_len_; g_calls.push_back(c); auto it = g_plan.find(d.channel_id_); if (it != g_plan.end()) for (auto& x : it->second) TransmitChannel(*g_lg, x.to, x.cat, x.id, d); if (c.thread != tid()) g_calls.back().thread = 0; }
static void hook_a(const LogData& d) { record(0, d); }
static void hook_b(const LogData& d) { record(1, d); }
#ifndef USE_SCHED
static void gen_filt(Src& s, Filt& f, int w) { if (s.chance(1, w)) f.pri = (int)s.range(0, 5); if (s.chance(1, w * 2)) { f.cb = (int)s.range(0, 3); f.ce = (int)s.range(1, 4); } if (s.chance(1, w * 2)) { f.ib = (int)s.range(0, 3); f.ie = (int)s.range(1, 4); } if (s.chance(1, w * 3)) f.cm = 1 + (unsigned)s.u(31); }
PROP(hooks, 40, 20000) {
    vclock::set(1700000000); g_calls.clear(); g_plan.clear(); g_step = 0; SetVirtualDevice(nullptr); int ncfg = (int)s.range(1, 2), async_ch = s.coin() ? (int)s.u(4) : -1; std::vector<std::vector<VChan> > cfgs(ncfg);
    for (auto& g : cfgs) { g.resize(s.range(1, 4)); for (size_t c = 0; c < g.size(); c++) { VChan& k = g[c]; k.sync = (int)c != async_ch; gen_filt(s, k.f, 6); int nd = (int)s.range(0, 4), vm = s.chance(2, 3) ? (int)s.u(4) : -1; for (int d = 0; d < nd; d++) { VDev v; v.out = d == vm ? 1 : s.chance(1, 6) ? 2 : 0; v.on = !s.chance(1, 8); gen_filt(s, v.f, 4); k.devs.push_back(v); } } }
    for (int g = 0; g < ncfg; g++) ctx.note("configuration %d:\n%s", g, config_of(cfgs[g], g).c_str());
    for (int c = 0; c < 4; c++) if (s.coin()) { int n = (int)s.range(1, 3); for (int i = 0; i < n; i++) { Send x = {(int)s.range(-1, 5), (int)s.range(0, 6), s.range(0, 6)}; g_plan[c].push_back(x); ctx.note("the hook sends records of channel %d to channel %d as category %d identify %lld", c, x.to, x.cat, x.id); } }
    LoggerPtr lg = mk_logger(); g_lg = lg.get(); std::vector<VChan> cur; int gcur = 0, hooked = -1, stmts = 0; bool running = false; std::map<std::string, std::string> want; size_t calls = 0, sent = 0; std::set<int> dirty;
    auto settle = [&]() { if (!running || async_ch < 0 || async_ch >= (int)cur.size()) return; vclock::wait_idle(); };
    auto check = [&](const char* when) { settle(); for (int g = 0; g < ncfg; g++) for (size_t c = 0; c < cfgs[g].size(); c++) for (size_t d = 0; d < cfgs[g][c].devs.size(); d++) if (cfgs[g][c].devs[d].out == 0) { std::string f = fmt("g%dc%zud%zu.log", g, c, d), t = file_text(f), &w = want[f]; if (t != w) { size_t i = 0; while (i < t.size() && i < w.size() && t[i] == w[i]) i++; CHECK(0, "%s: %s differs at byte %zu (%zu bytes, %zu expected): \"%s\", expected \"%s\"", when, f.c_str(), i, t.size(), w.size(), esc(t.substr(i > 20 ? i - 20 : 0, 80), 120).c_str(), esc(w.substr(i > 20 ? i - 20 : 0, 80), 120).c_str()); } } };
    auto taken = [&](int c, int p, int cat, ll id) { if (!running || c < 0 || c >= (int)cur.size() || !cur[c].f.ok(p, cat, id)) return false; for (auto& v : cur[c].devs) if (v.on && v.f.ok(p, cat, id)) return true; return false; };
    auto output = [&](int c, int p, int cat, ll id, const std::string& line) { for (size_t d = 0; d < cur[c].devs.size(); d++) { auto& v = cur[c].devs[d]; if (v.out == 0 && v.on && v.f.ok(p, cat, id)) want[fmt("g%dc%dd%zu.log", gcur, c, d)] += line; } };
    auto start = [&]() { gcur = (int)s.u(ncfg); cur = cfgs[gcur]; int r = ParseAndStartLogger(*lg, config_of(cur, gcur)); CHECK(r == 0, "start returned %d", r); running = true; ctx.note("start with configuration %d", gcur); };
    start(); hooked = 0; SetVirtualDevice(&hook_a); Seq q(s, 2, 60, 20);
    while (q.next()) {
        int op = s.weighted({24, 3, 2, 3}); ctx.key(fmt("%d", op));
        if (op == 0) { int n = (int)s.range(1, 6); for (int i = 0; i < n; i++) {
                int c = s.chance(1, 20) ? (int)s.range(-1, 5) : (int)s.u(4), p = (int)s.range(0, 6), cat = (int)s.range(0, 6); ll id = s.range(0, 6); bool prefix = s.chance(1, 4); std::string b = body(7, stmts++, s.chance(1, 10) ? LOGMAX - 2 : (int)s.range(0, 60)); int lk = s.weighted({12, 1, 2}); if (lk == 1) b = ""; if (lk == 2) { b.resize(LOGMAX - 8 + (int)s.range(0, 30), 'q'); prefix = false; } if (prefix && (int)b.size() > LOGMAX / 2) b.resize(LOGMAX / 2);
                g_calls.clear(); g_step++; std::string bytes(b); if (s.chance(1, 6) && !bytes.empty()) bytes[bytes.size() / 2] = 0;
                { auto st = LOG_STREAM_ORIGIN(*lg, c, p, cat, id, prefix ? LOG_PREFIX_PRIORITY | LOG_PREFIX_THREAD : LOG_PREFIX_NULL); st.write_buffer(bytes.data(), (int)bytes.size()); CHECK(g_calls.empty(), "the hook was called before statement %d was complete", stmts - 1); }
                g_step++; std::string text = (prefix ? fmt("%s[%u] ", PRIORITY_RENDER[p].priority_name_, tid()) : std::string()) + bytes; bool acc = taken(c, p, cat, id); int vm = acc ? cur[c].vm() : -1; bool call = acc && hooked >= 0 && vm >= 0 && cur[c].devs[vm].on && cur[c].devs[vm].f.ok(p, cat, id);
                CHECK(g_calls.size() == (call ? 1u : 0u), "statement %d (channel %d, %s, category %d, identify %lld) called the hook %zu times, expected %d", stmts - 1, c, PRI_NAMES[p], cat, id, g_calls.size(), (int)call);
                std::string line = text.substr(0, LOGMAX - 2) + "\n";
                if (call) { calls++; Call& k = g_calls[0]; CHECK(k.which == hooked, "the hook that was replaced was called"); CHECK(k.ch == c && k.pri == p && k.cat == cat && k.id == id, "the hook got channel %d %d category %d identify %lld, the statement has %d %d %d %lld", k.ch, k.pri, k.cat, k.id, c, p, cat, id); CHECK(k.nul, "the text handed to the hook is not terminated"); CHECK(k.thread == tid(), "the hook was not called in the logging thread, or the record names another thread"); CHECK(k.at == g_step - 1, "the hook was called after the statement");
                    bool over = (int)text.size() > LOGMAX - 2; CHECK(over ? k.text.size() >= (size_t)LOGMAX - 2 && text.compare(0, k.text.size(), k.text) == 0 : k.text == text, "the hook got \"%s\" (%zu bytes), the statement's text is \"%s\" (%zu bytes)", esc(k.text, 80).c_str(), k.text.size(), esc(text, 80).c_str(), text.size());
                    auto it = g_plan.find(c); if (it != g_plan.end()) for (auto& x : it->second) if (x.to != c && taken(x.to, p, x.cat, x.id)) { output(x.to, p, x.cat, x.id, line); sent++; } }
                if (acc) output(c, p, cat, id, line); }
            ctx.note("%d statements", n); if (s.chance(1, 2)) check("while running"); }
        else if (op == 1) { settle(); hooked = (int)s.range(-1, 1); SetVirtualDevice(hooked < 0 ? nullptr : hooked ? &hook_b : &hook_a); ctx.note("hook %d", hooked); }
        else if (op == 2) { int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; ctx.note("stop"); g_calls.clear(); put(*lg, 0, PRIORITY_FATAL, 0, 0, "stopped"); CHECK(g_calls.empty(), "the hook was called on a stopped logger"); check("after the stop"); start(); }
        else { check("before a change"); if (cur.empty()) continue; int c = (int)s.u(cur.size()); if (cur[c].devs.empty()) continue; int d = cur[c].vm() >= 0 && s.coin() ? cur[c].vm() : (int)s.u(cur[c].devs.size()); auto& v = cur[c].devs[d]; switch (s.u(4)) { case 0: v.on = !v.on; SetDeviceConfig(*lg, c, d, DEVICE_CFG_ABLE, v.on); break; case 1: v.f.pri = (int)s.range(0, 6); SetDeviceConfig(*lg, c, d, DEVICE_CFG_PRIORITY, v.f.pri); break; case 2: v.f.cm = (unsigned)s.u(64); SetDeviceConfig(*lg, c, d, DEVICE_CFG_CATEGORY_MASK, v.f.cm); break; default: v.f.ie = (int)s.range(0, 4); SetDeviceConfig(*lg, c, d, DEVICE_CFG_IDENTIFY_EXTEND, v.f.ie); } ctx.note("device %d of channel %d changed", d, c); }
    }
    check("at the end"); int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); running = false; check("after the last stop"); SetVirtualDevice(nullptr); lg.reset(); if (sent) ctx.label("transmitted"); ctx.nontrivial(calls >= 1);
}
#endif
// ---- threads: every record of channel 0 (and 1) is transmitted on to a later channel ----
static std::mutex g_mu; static std::map<std::string, std::vector<unsigned> > g_seen; static int g_hops;
static void hook_t(const LogData& d) { std::string t(d.content_, d.content_len_ < LogData::LOG_SIZE ? d.content_len_ : 0);
    { std::lock_guard<std::mutex> l(g_mu); g_seen[fmt("%d/", d.channel_id_) + t].push_back(tid()); }
    if (d.channel_id_ == 0) for (int i = 1; i <= g_hops; i++) TransmitChannel(*g_lg, i, d.category_, d.identify_, d); TransmitChannel(*g_lg, d.channel_id_, 0, 0, d); }
static void threads(Src& s, Ctx& ctx, bool real) {
    int nt = (int)s.range(2, real ? 6 : 4); g_hops = (int)s.range(1, 2); std::vector<Chan> chs(1 + g_hops); std::string cfg; g_seen.clear(); bool vm1 = s.coin();
    for (size_t c = 0; c < chs.size(); c++) { chs[c].sync = s.coin(); Dev v; v.file = fmt("c%zu", c); if (c && s.chance(1, 3)) v.pri = (int)s.range(1, 4); chs[c].devs.push_back(v); cfg += config(std::vector<Chan>(1, chs[c])); size_t p = cfg.rfind("channel: 0"); cfg.replace(p, 10, fmt("channel: %zu", c)); if (c == 0 || vm1) cfg += "    -device: 1\n        disable: false\n        out_type: vm\n"; } ctx.note("%s", cfg.c_str());
    Load ld(nt); for (int t = 0; t < nt; t++) { Seq q(s, 1, real ? 200 : 24, real ? 100 : 9); while (q.next()) { Stmt x; x.ch = s.chance(1, 4) ? (int)s.u(chs.size()) : 0; x.pri = (int)s.range(0, 6); x.len = (int)s.range(6, 60); ld[t].push_back(x); } ctx.note("T%d: %zu statements", t, ld[t].size()); ctx.key(fmt("%zu", ld[t].size())); }
    std::vector<unsigned> ids(nt); vclock::set(1700000000); LoggerPtr lg = mk_logger(); g_lg = lg.get(); int r; SetVirtualDevice(&hook_t); struct Unhook { ~Unhook() { SetVirtualDevice(nullptr); } } unhook;
#ifdef USE_SCHED
    sched::Plan plan = gen_plan(s, nt + 4); bool coarse = s.chance(1, 3); g_ctx = &ctx; r = InitFromYMAL(*lg, cfg, ""); CHECK(r == 0, "init %d", r); sched::begin(plan, on_fail); watch_logger(*lg, coarse);
    r = StartLogger(*lg);
#else
    r = ParseAndStartLogger(*lg, cfg);
#endif
    CHECK(r == 0, "start %d", r);
    { std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { ids[t] = tid(); for (size_t k = 0; k < ld[t].size(); k++) emit(*lg, body(t, (int)k, ld[t][k].len), ld[t][k]); }); for (auto& t : th) t.join(); }
    r = StopLogger(*lg);
#ifdef USE_SCHED
    unsigned long long sw = sched::switches(); sched::end();
#else
    unsigned long long sw = 9;
#endif
    CHECK(r == 0, "stop %d", r); size_t expect_calls = 0, got_calls = 0; for (auto& x : g_seen) got_calls += x.second.size();
    for (size_t c = 0; c < chs.size(); c++) {
        std::vector<std::pair<int, int> > got; std::string e = parse_file(fmt("c%zu.log", c), ld, got); CHECK(e.empty(), "%s", e.c_str()); std::map<std::pair<int, int>, int> n; for (auto& x : got) n[x]++;
        for (int t = 0; t < nt; t++) for (int k = 0; k < (int)ld[t].size(); k++) { Stmt& x = ld[t][k]; bool pass = x.pri >= chs[c].devs[0].pri; int w = pass && (x.ch == (int)c || (c && x.ch == 0)); int gn = n[std::make_pair(t, k)]; CHECK(gn == w, "channel %zu: statement %d.%d of channel %d appears %d times, expected %d", c, t, k, x.ch, gn, w); }
        if (!chs[c].sync) for (int t = 0; t < nt; t++) { int last = -1; for (auto& x : got) if (x.first == t) { CHECK(x.second > last, "channel %zu: statement %d.%d comes after %d.%d of the same thread", c, t, x.second, t, last); last = x.second; } } }
    for (int t = 0; t < nt; t++) for (int k = 0; k < (int)ld[t].size(); k++) { Stmt& x = ld[t][k]; bool w = x.ch == 0 || vm1; expect_calls += w; auto it = g_seen.find(fmt("%d/", x.ch) + body(t, k, x.len)); size_t gn = it == g_seen.end() ? 0 : it->second.size(); CHECK(gn == (w ? 1u : 0u), "statement %d.%d of channel %d called the hook %zu times, expected %d", t, k, x.ch, gn, (int)w); if (w) CHECK(it->second[0] == ids[t], "the hook for statement %d.%d was called in another thread", t, k); }
    CHECK(got_calls == expect_calls, "the hook was called %zu times for %zu statements", got_calls, expect_calls); ctx.nontrivial(sw >= 4);
}
#ifdef USE_SCHED
PROP(transsched, 40, 20000) { threads(s, ctx, false); }
#else
PROP_NONDET(stress_trans, 20, 30000) { threads(s, ctx, true); }
#endif
int main(int c, char** v) { return pbt_main(c, v); }
