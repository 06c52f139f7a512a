// Concurrent workloads: generated statements on generated threads, per-line oracle.
#pragma once
#ifdef USE_SCHED
#define VCLOCK_NO_DEFS
#endif
#include "fx.h"
#include <thread>
#ifdef USE_SCHED
#include "ctlsched.h"
#endif
namespace conc {
struct Stmt { int ch = 0, pri = 0, cat = 0, len = 0, pieces = 1, delay_us = 0; ll b = -1, e = -1; bool logged = false; };
struct Dev { int pri = 0; int catb = 0, cate = 0; bool on = true; std::string file; bool empty = false; std::string dir; };
struct Chan { bool sync = false; int pri = 0; std::vector<Dev> devs; };
static bool g_bytes = true;
static inline std::string body(int t, int k, int len) {
    std::string s = fmt("%d.%d:", t, k); unsigned x = t * 7919 + k * 104729 + 17;
    bool any = g_bytes && (x >> 3) % 4 == 0;    // every byte but the newline: NUL, control, percent, above 127
    while ((int)s.size() < len) { x = x * 1103515245u + 12345u; char c = any ? (char)(x >> 16) : (char)('a' + (x >> 16) % 26); if (any && (x >> 24) % 4 == 0) c = 0; s += c == '\n' ? '%' : c; }
    if ((int)s.size() > LOGMAX - 2) s.resize(LOGMAX - 2);
    return s;
}
static inline std::string config(const std::vector<Chan>& chs, const std::string& extra = "") {
    std::string t = extra;
    for (size_t c = 0; c < chs.size(); c++) {
        t += fmt(" - channel: %zu\n    sync: %s\n    priority: %s\n", c, chs[c].sync ? "sync" : "async", PRI_NAMES[chs[c].pri]);
        for (size_t d = 0; d < chs[c].devs.size(); d++) { const Dev& v = chs[c].devs[d];
            t += fmt("    -device: %zu\n        disable: %s\n        out_type: %s\n        priority: %s\n        category: %d\n        category_extend: %d\n        path: \"./%s\"\n        file: \"%s\"\n", d, v.on ? "false" : "true", v.empty ? "empty" : "file", PRI_NAMES[v.pri], v.catb, v.cate, v.dir.c_str(), v.file.c_str()); }
    }
    return t;
}
static inline bool accepts(const Chan& c, const Dev& d, const Stmt& s) { return d.on && !d.empty && s.pri >= c.pri && s.pri >= d.pri && (d.cate == 0 || (s.cat >= d.catb && s.cat < d.catb + d.cate)); }
static inline void gen_dev(Src& s, Dev& d, int c, int i, bool filters) {
    d.file = fmt("c%dd%d", c, i); if (!filters) return;
    d.pri = s.chance(1, 3) ? (int)s.range(0, 4) : 0; if (s.chance(1, 4)) { d.catb = (int)s.range(0, 3); d.cate = (int)s.range(1, 3); } d.on = !s.chance(1, 10); d.empty = s.chance(1, 12);
}
static inline ll ticket() { static std::atomic<long long> t(0); return t++; }
#define CONC_ACC static inline
static inline void emit(FNLog::Logger& lg, const std::string& b, Stmt& st) {
    st.b = ticket();
    { auto st_ = LOG_STREAM_ORIGIN(lg, st.ch, st.pri, st.cat, 0, FNLog::LOG_PREFIX_NULL); size_t n = b.size(), p = 0;
      for (int i = 0; i < st.pieces; i++) { size_t e = i + 1 == st.pieces ? n : n * (i + 1) / st.pieces; st_.write_buffer(b.data() + p, (int)(e - p)); p = e;
#ifdef USE_SCHED
        if (i + 1 < st.pieces) sched::yield();
#endif
      } }
    st.e = ticket(); st.logged = true;
}
typedef std::vector<std::vector<Stmt> > Load;
// parses "t.k:" and checks the line against the statement that should have produced it
static inline std::string parse_file(const std::string& path, const Load& ld, std::vector<std::pair<int, int> >& out) {
    std::string txt = file_text(path); size_t p = 0;
    while (p < txt.size()) {
        size_t e = txt.find('\n', p); if (e == std::string::npos) return fmt("%s: the last line has no newline: \"%s\"", path.c_str(), esc(txt.substr(p), 80).c_str());
        std::string l = txt.substr(p, e - p); int t = -1, k = -1; char c = 0;
        if (sscanf(l.c_str(), "%d.%d%c", &t, &k, &c) != 3 || c != ':' || t < 0 || t >= (int)ld.size() || k < 0 || k >= (int)ld[t].size() || l != body(t, k, ld[t][k].len)) {
            std::string w = t >= 0 && t < (int)ld.size() && k >= 0 && k < (int)ld[t].size() ? fmt(", statement %d.%d is \"%s\"", t, k, esc(body(t, k, ld[t][k].len), 80).c_str()) : "";
            return fmt("%s: line %zu is not a statement's text: \"%s\" (%zu bytes)%s", path.c_str(), out.size(), esc(l, 80).c_str(), l.size(), w.c_str());
        }
        out.push_back(std::make_pair(t, k)); p = e + 1;
    }
    return "";
}
static inline std::string check_once(const std::string& path, const Chan& c, const Dev& d, int ch, const Load& ld, const std::vector<std::pair<int, int> >& got) {
    std::map<std::pair<int, int>, int> n; for (auto& g : got) n[g]++;
    for (size_t t = 0; t < ld.size(); t++) for (size_t k = 0; k < ld[t].size(); k++) {
        const Stmt& s = ld[t][k]; int want = s.logged && s.ch == ch && accepts(c, d, s) ? 1 : 0; auto it = n.find(std::make_pair((int)t, (int)k)); int g = it == n.end() ? 0 : it->second;
        if (g != want) return fmt("%s: statement %zu.%zu appears %d times, expected %d", path.c_str(), t, k, g, want);
    }
    return "";
}
static inline std::string check_order(const std::string& path, const Load& ld, const std::vector<std::pair<int, int> >& got) {
    ll mb = -1; std::pair<int, int> who;
    for (auto& g : got) { const Stmt& s = ld[g.first][g.second]; if (mb >= 0 && s.e < mb) return fmt("%s: statement %d.%d was finished before %d.%d began, but comes after it", path.c_str(), g.first, g.second, who.first, who.second); if (s.b > mb) { mb = s.b; who = g; } }
    return "";
}
static inline std::string check_same(const std::string& pa, const std::string& pb, const std::vector<std::pair<int, int> >& a, const std::vector<std::pair<int, int> >& b) {
    std::map<std::pair<int, int>, size_t> pos; for (size_t i = 0; i < a.size(); i++) pos[a[i]] = i;
    bool have = false; size_t last = 0; std::pair<int, int> lw;
    for (auto& x : b) { auto it = pos.find(x); if (it == pos.end()) continue; if (have && it->second < last) return fmt("%s has %d.%d before %d.%d, %s the other way round", pb.c_str(), lw.first, lw.second, x.first, x.second, pa.c_str()); have = true; last = it->second; lw = x; }
    return "";
}
#ifdef USE_SCHED
static Ctx* g_ctx = nullptr;
static FNLog::Logger* g_dump = nullptr;   // logger whose queues are described when the scheduler gives up
static inline void on_fail(const char* m) {
    using namespace FNLog;
    if (g_dump && g_dump->shm_) for (int c = 0; c < g_dump->shm_->channel_size_; c++) { RingBuffer& r = g_dump->shm_->ring_buffers_[c]; std::string k; for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) k += fmt("%d", (int)r.buffer_[i].data_mark_); g_ctx->note("channel %d state %d: hold %d write %d proc %d read %d marks %s", c, (int)g_dump->shm_->channels_[c].channel_state_, (int)r.hold_idx_, (int)r.write_idx_, (int)r.proc_idx_, (int)r.read_idx_, k.c_str()); }
    snprintf(g_ctx->sh->msg, Shared::MSG, "%s", m); g_ctx->sh->state = 2; _exit(77); }
static inline sched::Plan gen_plan(Src& s, int nthreads) {
    sched::Plan p; p.mode = s.chance(1, 3) ? 1 : 0; p.seed = s.u(1 << 20); p.walk_den = (int)s.pick({2, 4, 8, 20, 60});
    if (p.mode == 0) { for (int i = 0; i < nthreads; i++) p.prio.push_back((int)s.u(8)); ll hor = s.pick({200, 1000, 5000, 20000}); int n = (int)s.range(0, 6); for (int i = 0; i < n; i++) p.change.push_back(s.u(hor)); }
    p.tick_ns = s.pick({1000, 0, 10000, 50000}); p.max_steps = 600000; return p;
}
// every shared field except record contents; coarse: only the indices and channel states
static inline void watch_logger(FNLog::Logger& lg, bool coarse) {
    using namespace FNLog;
    g_dump = &lg; if (!lg.shm_) return;
    for (int c = 0; c < lg.shm_->channel_size_; c++) {
        RingBuffer& r = lg.shm_->ring_buffers_[c]; Channel& ch = lg.shm_->channels_[c];
        sched::watch(&r, (char*)&r.buffer_[0] - (char*)&r); sched::watch(&ch.channel_state_, sizeof(ch.channel_state_));
        if (!coarse) {
            sched::watch(&r.buffer_[0], sizeof(r.buffer_));
            for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) { LogData& l = r.buffer_[i]; sched::ignore(l.content_ + 8, sizeof(l.content_) - 8); }
        }
    }
    sched::watch(&lg.logger_state_, sizeof(lg.logger_state_));
}
#endif
}
