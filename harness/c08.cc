// C08: bounded messages.
#include "fx.h"
using namespace FNLog;

// A message is a list of pieces; the reference tracks the set of acceptable contents:
// text pieces are cut at the record size, numeric pieces are whole or (near the end) absent.
struct Model {
    std::set<std::string> st; Model() { st.insert(""); }
    void text(const std::string& t) { std::set<std::string> n; for (auto& x : st) { std::string y = x + t; if ((int)y.size() > LOGMAX) y.resize(std::max<size_t>(x.size(), LOGMAX)); n.insert(y); } st.swap(n); }
    void whole(const std::string& t) { std::set<std::string> n; for (auto& x : st) { int room = LOGMAX - (int)x.size(); if ((int)t.size() <= room) n.insert(x + t); if (room < 48) n.insert(x); } st.swap(n); }
    void align(int col) { std::set<std::string> n; for (auto& x : st) { if ((int)x.size() >= col) { n.insert(x); continue; } std::string y = x; y.resize(col, ' '); if ((int)x.size() + col < LOGMAX) n.insert(y); if ((int)x.size() + col + 48 >= LOGMAX) n.insert(x); } st.swap(n); }
    // a row of a hex dump: a prefix of the cells when the end is near
    void cells(const std::vector<std::string>& cs) { std::set<std::string> n; for (auto& x : st) { std::string y = x; bool full = true; for (size_t i = 0; i < cs.size(); i++) { int room = LOGMAX - (int)y.size(); if (room < 48) n.insert(y); if ((int)cs[i].size() > room) { if (room > 2) { } full = false; break; } y += cs[i]; } if (full) n.insert(y); } st.swap(n); }
    bool ok(const std::string& line) const { for (auto& x : st) { if (x.size() <= (size_t)LOGMAX - 2 ? line == x : line == x.substr(0, LOGMAX - 2)) return true; } return false; }
    bool over() const { for (auto& x : st) if ((int)x.size() > LOGMAX - 2) return true; return false; }
    size_t len() const { size_t m = 0; for (auto& x : st) m = std::max(m, x.size()); return m; }
};
static std::string hexp(const void* p) { return fmt("0x%llX", (u64)p); }
static std::string body(Src& s, int n) { std::string t; char c = "abcdefghijklmnopqrstuvwxyz"[s.u(26)]; for (int i = 0; i < n; i++) t += (char)(i % 7 == 0 ? '0' + (i / 7) % 10 : c); return t; }
static char g_bin[4096];

// lengths aimed at the limit
static int near_len(Src& s, int have) {
    int left = LOGMAX - have;
    switch (s.weighted({4, 4, 2, 1})) {
    case 0: return (int)s.range(0, 40);
    case 1: return std::max(0, left + (int)s.range(-45, 5));
    case 2: return (int)s.range(0, std::max(1, left));
    default: return (int)s.range(left > 0 ? left : 0, LOGMAX * 2 + 10);
    }
}
static void add_piece(Src& s, Ctx& ctx, LogStream& ls, Model& m, std::string& desc) {
    int k = s.weighted({6, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2});
    switch (k) {
    case 0: { std::string t = body(s, near_len(s, (int)m.len())); ls << t; m.text(t); desc += fmt(" str(%zu)", t.size()); break; }
    case 1: { std::string t = body(s, near_len(s, (int)m.len())); ls << t.c_str(); m.text(t); desc += fmt(" cstr(%zu)", t.size()); break; }
    case 2: { std::string t = body(s, near_len(s, (int)m.len())); ls.write_buffer(t.data(), (int)t.size()); m.text(t); desc += fmt(" buf(%zu)", t.size()); break; }
    case 3: { char c = (char)('A' + s.u(26)); ls << c; m.text(std::string(1, c)); desc += " ch"; break; }
    case 4: { ll v = (ll)s.bits() >> s.u(64); ls << v; m.whole(std::to_string(v)); desc += " int"; break; }
    case 5: { u64 v = s.bits() >> s.u(64); ls << v; m.whole(std::to_string(v)); desc += " uint"; break; }
    case 6: { void* p = (void*)(s.bits() >> s.u(63)); if (!p) p = (void*)1; ls << (const void*)p; m.whole(hexp(p)); desc += " ptr"; break; }
    case 7: { double v = (double)s.range(-1000000, 1000000) + 0.25; ls << v; std::string w = fmt("%.2f", v); m.whole(w); desc += " dbl"; break; }
    case 8: { ll t = s.range(0, 4000000000LL); ls << LogTimestamp(t, 123); char b[64]; time_t x = t; struct tm a; gmtime_r(&x, &a); m.whole(fmt("[%04d%02d%02d %02d:%02d:%02d.123]", a.tm_year + 1900, a.tm_mon + 1, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec)); desc += " ts"; break; }
    case 9: { int q = (int)s.range(1, 9); ls << LogPercent(0.125 * q); double v = 12.5 * q; m.whole(v == (int)v ? fmt("%d%%", (int)v) : fmt("%.2f%%", v)); desc += " pct"; break; }
    case 10: { std::vector<std::string> v; int n = (int)s.range(0, 7); for (int i = 0; i < n; i++) v.push_back(body(s, (int)s.range(0, 30))); ls << v;
        m.text("vector:"); m.text("("); m.whole(std::to_string(n)); m.text(")["); for (int i = 0; i < n; i++) { if (i == 5) { m.text("..., "); break; } if (i) m.text(", "); m.text(v[i]); } m.text("]"); desc += fmt(" vec(%d)", n); break; }
    case 11: { int n = (int)s.range(0, 200); ls.write_binary(g_bin, n); const std::string br = "\r\n\t["; m.text(br);
        for (int i = 0; i < n / 32 + 1; i++) { m.text(br); m.whole(hexp(g_bin + i * 32)); m.text(": ");
            for (int j = i * 32; j < n && j < i * 32 + 32; j++) { unsigned char c = (unsigned char)g_bin[j]; m.text(c >= 32 && c < 127 ? std::string(" ") + (char)c + " " : " . "); }
            m.text(br); m.whole(hexp(g_bin + i * 32)); m.text(": "); std::vector<std::string> cs; for (int j = i * 32; j < n && j < i * 32 + 32; j++) cs.push_back(fmt("%02X ", (unsigned char)g_bin[j])); m.cells(cs); }
        m.text("\r\n\t]\r\n\t"); desc += fmt(" bin(%d)", n); break; }
    default: switch (s.u(4)) { case 0: ls << LogBlankAlign<20>(); m.align(20); break; case 1: ls << LogBlankAlign<LOGMAX / 2>(); m.align(LOGMAX / 2); break; case 2: ls << LogBlankAlign<LOGMAX - 60>(); m.align(LOGMAX - 60); break; default: ls << LogBlankAlign<LOGMAX - 5>(); m.align(LOGMAX - 5); break; }
        desc += " align"; break;
    }
    if (m.st.size() > 400) ctx.discard();
}
static void hook_transmit(const LogData& d) { TransmitChannel(GetDefaultLogger(), 1, d.category_, d.identify_, d); }

// Lines can contain \r\n from dumps: compare the whole file against concatenations of models.
// Each message starts with a unique tag so that the file can be cut into lines.
static std::vector<std::string> cut(const std::string& f, Ctx& ctx, int nmsg) {
    std::vector<std::string> v; size_t p = 0;
    while (p < f.size()) { size_t e = f.find("\n\x01", p + 1); std::string l = e == std::string::npos ? f.substr(p) : f.substr(p, e + 1 - p); p = e == std::string::npos ? f.size() : e + 1; v.push_back(l); }
    return v;
}
PROP(bounded, 40, 30000) {
    for (int i = 0; i < (int)sizeof g_bin; i++) g_bin[i] = (char)((i * 7 + 13) & 0xff);
    g_bin[1] = 'q';
    Logger& lg = GetDefaultLogger(); if (lg.logger_state_ == LOGGER_STATE_RUNNING) StopLogger(lg);
    bool async = s.coin(), trans = s.chance(1, 3); SetVirtualDevice(nullptr);
    std::string cfg = fmt(" - channel: 0\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: file\n        file: a\n        path: %s\n", async ? "async" : "sync", ctx.dir().c_str());
    if (trans) cfg += "    -device: 1\n        disable: false\n        out_type: vm\n";
    cfg += fmt(" - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: b\n        path: %s\n", ctx.dir().c_str());
    int r = FastStartDefaultLogger(cfg); CHECK(r == 0, "start %d", r);
    if (trans) SetVirtualDevice(&hook_transmit);
    std::vector<Model> models; int nover = 0, nnear = 0, msgs = 0; std::string key;
    ctx.label(async ? "async" : "sync"); if (trans) ctx.label("transmit");
    for (Seq q(s, 1, 40, 9); q.next();) {
        int group = s.chance(1, 4) ? (int)s.range(2, 4) : 1;   // several statements open at the same time
        if (group > 1 && trans) group = 1;
        std::vector<std::unique_ptr<LogStream> > open; std::vector<Model> ms(group); std::vector<std::string> ds(group);
        bool fmt_style = group == 1 && s.chance(1, 4);
        if (fmt_style) {
            std::string tag = fmt("\x01%04d:", msgs); int have = (int)tag.size(); std::string t = body(s, near_len(s, have)); int style = (int)s.u(3); std::string d;
            ms[0].text(tag); std::string full;
            if (style == 0) { full = t; LOG_FORMAT(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL, "%s%s", tag.c_str(), t.c_str()); }
            else if (style == 1) { int w = near_len(s, have + (int)t.size()); full = t + fmt("%*d", w, 7); LOG_FORMAT(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL, "%s%s%*d", tag.c_str(), t.c_str(), w, 7); }
            else { full = t + fmt("%f", 1e300); LOG_FORMAT(0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL, "%s%s%f", tag.c_str(), t.c_str(), 1e300); }
            ms[0].text(full); ds[0] = fmt(" fmt#%d(%zu)", style, full.size()); ctx.label("printf style");
        } else {
            for (int i = 0; i < group; i++) { open.emplace_back(new LogStream(lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL)); std::string tag = fmt("\x01%04d:", msgs + i); *open[i] << tag; ms[i].text(tag); }
            int rounds = (int)s.range(1, 4);
            for (int k = 0; k < rounds; k++) for (int i = 0; i < group; i++) { int np = (int)s.range(0, 3); for (int j = 0; j < np; j++) {
                char* end = open[i]->log_data_ ? open[i]->log_data_->content_ + LOGMAX : nullptr; char guard[64]; if (end) memcpy(guard, end, sizeof guard);
                add_piece(s, ctx, *open[i], ms[i], ds[i]);
                // the bytes behind the record belong to its neighbour (nobody else runs when the channel is synchronous)
                if (end && !async) CHECK(memcmp(guard, end, sizeof guard) == 0, "message %d:%s wrote behind its record", msgs + i, ds[i].c_str());
            } }
            // closed in any order
            std::vector<int> ord; for (int i = 0; i < group; i++) ord.insert(ord.begin() + s.u(ord.size() + 1), i);
            for (int i : ord) open[i].reset();
            if (group > 1) ctx.label("overlapping statements");
        }
        for (int i = 0; i < group; i++) { nover += ms[i].over(); nnear += (int)ms[i].len() > LOGMAX - 60; models.push_back(ms[i]); ctx.note("message %d:%s%s", msgs + i, ds[i].c_str(), group > 1 ? " (overlapping)" : ""); key += ds[i] + ";"; }
        msgs += group;
    }
    SetVirtualDevice(nullptr); r = StopLogger(lg); CHECK(r == 0, "stop %d", r);
    if (nover) ctx.label("over-long"); if (nnear) ctx.label("near limit");
    ctx.nontrivial(nnear > 0 && msgs > 1); ctx.key(key);
    for (int f = 0; f < (trans ? 2 : 1); f++) {
        std::string text = file_text(ctx.dir() + (f ? "/b.log" : "/a.log")); auto lines = cut(text, ctx, msgs);
        CHECK((int)lines.size() == msgs, "%s file has %zu lines for %d messages", f ? "transmitted" : "original", lines.size(), msgs);
        for (int i = 0; i < msgs; i++) {
            std::string l = lines[i];
            CHECK((int)l.size() <= LOGMAX - 1, "line %d has %zu bytes, record size %d", i, l.size(), LOGMAX);
            CHECK(!l.empty() && l.back() == '\n', "line %d is not terminated: \"%s\"", i, esc(l.substr(l.size() > 40 ? l.size() - 40 : 0)).c_str());
            l.pop_back();
            CHECK(models[i].ok(l), "%s line %d (%zu bytes) is not an acceptable rendering: ends \"%s\"; model (%zu bytes) ends \"%s\"", f ? "transmitted" : "original", i, l.size(), esc(l.substr(l.size() > 80 ? l.size() - 80 : 0)).c_str(), models[i].len(), esc(models[i].st.rbegin()->substr(std::min(models[i].st.rbegin()->size(), l.size() > 80 ? l.size() - 80 : 0))).c_str());
        }
    }
}
int main(int c, char** v) { return pbt_main(c, v); }
