// C11: composite values, binary dumps, helpers and all front ends.
#include "hookfx.h"
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <thread>
using namespace FNLog;
using hookfx::render;

// ---------------- reference renderer (independent overload set)
static std::string R(int v) { return std::to_string(v); }
static std::string R(unsigned v) { return std::to_string(v); }
static std::string R(ll v) { return std::to_string(v); }
static std::string R(u64 v) { return std::to_string(v); }
static std::string R(long v) { return std::to_string(v); }
static std::string R(unsigned long v) { return std::to_string(v); }
static std::string R(short v) { return std::to_string(v); }
static std::string R(bool v) { return v ? "true" : "false"; }
static std::string R(char v) { return std::string(1, v); }
static std::string R(unsigned char v) { return std::to_string((unsigned)v); }
static std::string R(const std::string& v) { return v; }
static std::string R(const char* v) { return v ? v : "null"; }
template <class A, class B> std::string R(const std::pair<A, B>& p);
template <class C> std::string RC(const C& c, const char* name);
template <class T> std::string R(const std::vector<T>& c) { return RC(c, "vector:"); }
template <class T> std::string R(const std::list<T>& c) { return RC(c, "list:"); }
template <class T> std::string R(const std::deque<T>& c) { return RC(c, "deque:"); }
template <class T> std::string R(const std::set<T>& c) { return RC(c, "set:"); }
template <class K, class V> std::string R(const std::map<K, V>& c) { return RC(c, "map:"); }
template <class K, class V> std::string R(const std::unordered_map<K, V>& c) { return RC(c, "unordered_map:"); }
template <class T> std::string R(const std::unordered_set<T>& c) { return RC(c, "unordered_set:"); }
template <class A, class B> std::string R(const std::pair<A, B>& p) { return "<" + R(p.first) + ":" + R(p.second) + ">"; }
template <class C> std::string RC(const C& c, const char* name) {
    std::string o = name; o += "(" + std::to_string(c.size()) + ")["; int i = 0;
    for (auto it = c.begin(); it != c.end(); ++it) { if (i == 5) { o += "..., "; break; } if (i) o += ", "; const typename C::value_type& e = *it; o += R(e); i++; }
    return o + "]";
}
// ---------------- generators
static const char* TXT = "ab XYZ019,<>:[]()%\\\"'\t";
static void G(Src& s, int& v) { v = s.coin() ? (int)s.skew(0, 2000000000) : -(int)s.skew(0, 2000000000); }
static void G(Src& s, ll& v) { v = (ll)s.bits() >> s.u(64); }
static void G(Src& s, u64& v) { v = s.bits() >> s.u(64); }
static void G(Src& s, unsigned& v) { v = (unsigned)s.bits() >> s.u(32); }
static void G(Src& s, short& v) { v = (short)s.bits(); }
static void G(Src& s, bool& v) { v = s.coin(); }
static void G(Src& s, char& v) { v = TXT[s.u(strlen(TXT))]; }
static void G(Src& s, unsigned char& v) { v = (unsigned char)s.u(256); }
static void G(Src& s, std::string& v) { v = s.str(0, 12, TXT); }
static size_t gsize(Src& s) { return s.coin() ? (size_t)s.range(0, 4) : (size_t)s.range(4, 7); }
template <class T> void G(Src& s, std::vector<T>& c);
template <class T> void G(Src& s, std::list<T>& c);
template <class T> void G(Src& s, std::deque<T>& c);
template <class T> void G(Src& s, std::set<T>& c);
template <class T> void G(Src& s, std::unordered_set<T>& c);
template <class K, class V> void G(Src& s, std::map<K, V>& c);
template <class K, class V> void G(Src& s, std::unordered_map<K, V>& c);
template <class A, class B> void G(Src& s, std::pair<A, B>& p) { G(s, p.first); G(s, p.second); }
template <class C> void Gseq(Src& s, C& c) { size_t n = gsize(s); for (size_t i = 0; i < n; i++) { typename C::value_type e; G(s, e); c.push_back(e); } }
template <class T> void G(Src& s, std::vector<T>& c) { Gseq(s, c); }
template <class T> void G(Src& s, std::list<T>& c) { Gseq(s, c); }
template <class T> void G(Src& s, std::deque<T>& c) { Gseq(s, c); }
template <class T> void G(Src& s, std::set<T>& c) { size_t n = gsize(s); for (size_t i = 0; i < n; i++) { T e; G(s, e); c.insert(e); } }
template <class T> void G(Src& s, std::unordered_set<T>& c) { size_t n = gsize(s); for (size_t i = 0; i < n; i++) { T e; G(s, e); c.insert(e); } }
template <class K, class V> void G(Src& s, std::map<K, V>& c) { size_t n = gsize(s); for (size_t i = 0; i < n; i++) { K k; G(s, k); G(s, c[k]); } }
template <class K, class V> void G(Src& s, std::unordered_map<K, V>& c) { size_t n = gsize(s); for (size_t i = 0; i < n; i++) { K k; G(s, k); G(s, c[k]); } }

template <class T> void value_case(Src& s, Ctx& ctx, const char* tn) {
    T v{}; G(s, v); T v2{}; G(s, v2);
    std::string sep = s.str(0, 4, " |;x");
    std::string w = R(v) + sep + R(v2), g;
    bool pack = s.coin();
    if (pack) { Logger& l = hookfx::lg(); hookfx::got().clear(); LogTemplatePack(LOG_STREAM_ORIGIN_REF(l, 0, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL), v, sep, v2); CHECK(hookfx::got().size() == 1, "pack statement delivered %zu times", hookfx::got().size()); g = hookfx::got()[0].text; }
    else g = render([&](LogStream& l) { l << v << sep << v2; });
    ctx.label(tn); ctx.nontrivial(w.size() > sep.size() + 2); ctx.key(w + tn);
    ctx.note("%s via %s: %s", tn, pack ? "pack" : "stream", esc(g, 400).c_str());
    CHECK(g == w, "%s rendered \"%s\", expected \"%s\"", tn, esc(g, 1500).c_str(), esc(w, 1500).c_str());
}
PROP(values, 200, 20000) {
    typedef std::string S; 
#define V(...) value_case<__VA_ARGS__>(s, ctx, #__VA_ARGS__); break
    switch (s.u(34)) {
    case 0: V(S); case 1: V(char); case 2: V(std::pair<int, S>); case 3: V(std::pair<S, std::pair<ll, bool> >);
    case 4: V(std::vector<int>); case 5: V(std::vector<S>); case 6: V(std::vector<char>); case 7: V(std::vector<std::vector<int> >);
    case 8: V(std::list<ll>); case 9: V(std::list<S>); case 10: V(std::list<std::pair<int, int> >); case 11: V(std::deque<u64>);
    case 12: V(std::deque<S>); case 13: V(std::set<int>); case 14: V(std::set<S>); case 15: V(std::map<int, S>);
    case 16: V(std::map<S, int>); case 17: V(std::map<S, std::vector<int> >); case 18: V(std::unordered_map<int, int>); case 19: V(std::unordered_map<S, S>);
    case 20: V(std::unordered_set<int>); case 21: V(std::unordered_set<S>); case 22: V(std::vector<std::pair<S, std::set<int> > >); case 23: V(std::map<int, std::map<int, int> >);
    case 24: V(std::list<std::deque<S> >); case 25: V(unsigned); case 26: V(short); case 27: V(unsigned char); case 28: V(bool);
    case 29: V(std::deque<std::list<char> >); case 30: V(std::set<std::pair<int, int> >); case 31: V(std::vector<bool>); case 32: V(std::unordered_map<int, std::vector<S> >); default: V(std::vector<unsigned char>);
    }
}
static std::string hexp(const void* p) { std::string d; u64 v = (u64)p; do { d.insert(d.begin(), "0123456789ABCDEF"[v % 16]); v /= 16; } while (v); return "0x" + d; }
PROP(binary, 300, 20000) {
    int n = s.coin() ? (int)s.range(0, 40) : s.chance(1, 3) ? 32 * (int)s.range(0, 9) : (int)s.range(0, 300);
    std::string data; for (int i = 0; i < n; i++) data += s.chance(1, 8) ? '\0' : (char)s.u(256);
    char* heap = (char*)malloc(n ? n : 1); memcpy(heap, data.data(), n);
    std::string g = render([&](LogStream& l) { l << "x"; l.write_binary(heap, n); l << "y"; });
    const std::string br = "\r\n\t["; std::string w = "x" + br;
    for (int i = 0; i < n / 32 + 1; i++) {
        w += br + hexp(heap + i * 32) + ": ";
        for (int j = i * 32; j < n && j < i * 32 + 32; j++) { unsigned char c = (unsigned char)data[j]; w += c >= 32 && c < 127 ? std::string(" ") + (char)c + " " : " . "; }
        w += br + hexp(heap + i * 32) + ": ";
        for (int j = i * 32; j < n && j < i * 32 + 32; j++) w += fmt("%02X ", (unsigned char)data[j]);
    }
    w += "\r\n\t]\r\n\ty"; free(heap);
    ctx.nontrivial(n > 0); ctx.key(data); ctx.note("%d bytes: %s", n, esc(data, 60).c_str());
    CHECK(g == w, "binary dump of %d bytes:\n%s\nexpected:\n%s", n, esc(g, 3000).c_str(), esc(w, 3000).c_str());
}
template <int N> std::string align_case(const std::string& pre, const std::string& post) { return render([&](LogStream& l) { l << pre << LogBlankAlign<N>() << post; }); }
PROP(helpers, 300, 20000) {
    std::string pre = s.str(0, 90, "ab"), post = s.str(0, 3, "cd"), g, w; int n = 0;
    switch (s.u(7)) { case 0: n = 0; g = align_case<0>(pre, post); break; case 1: n = 1; g = align_case<1>(pre, post); break; case 2: n = 10; g = align_case<10>(pre, post); break; case 3: n = 40; g = align_case<40>(pre, post); break;
    case 4: n = 80; g = align_case<80>(pre, post); break; case 5: n = 200; g = align_case<200>(pre, post); break; default: n = 500; g = align_case<500>(pre, post); break; }
    w = pre; if ((int)w.size() < n) w.resize(n, ' '); w += post;
    ctx.nontrivial((int)pre.size() < n); ctx.key(pre + fmt("%d", n)); ctx.note("align %d after %zu -> \"%s\"", n, pre.size(), esc(g).c_str());
    CHECK(g == w, "align to %d gave \"%s\", expected \"%s\"", n, esc(g, 600).c_str(), esc(w, 600).c_str());
    // percent: the fraction times 100, as a number, followed by %
    double v = s.coin() ? (double)s.range(0, 20000) / 10000.0 : (double)s.range(-1000, 1000000) / (double)s.range(1, 100000);
    bool f = s.coin(); std::string pg = f ? render([&](LogStream& l) { l << LogPercent((float)v); }) : render([&](LogStream& l) { l << LogPercent(v); });
    ctx.note("percent %.9g -> %s", v, pg.c_str());
    float fv = (float)v;
    if (fv < 0.000001) { CHECK(pg == "00.00%", "percent of %.9g rendered \"%s\"", v, pg.c_str()); ctx.label("percent:zero"); }
    else {
        CHECK(!pg.empty() && pg.back() == '%', "percent of %.9g rendered \"%s\"", v, pg.c_str());
        char* e; double p = strtod(pg.c_str(), &e); CHECK(std::string(e) == "%", "percent text \"%s\"", pg.c_str());
        double x = (double)fv * 100.0; CHECK(p <= x + 1e-9 * x && x - p < 0.000101 + 1e-9 * x, "percent of %.9g rendered \"%s\", value %.9g", v, pg.c_str(), x);
    }
    const char* np = nullptr; CHECK(render([&](LogStream& l) { l << np; }) == "null", "null char*");
}
// ---------------- front ends on the default logger
PROP(frontends, 150, 20000) {
    static bool started = false; Logger& lg = GetDefaultLogger(); static std::thread::id me;
    if (!started) {
        std::string t; for (int c = 0; c < 3; c++) t += fmt(" - channel: %d\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: vm\n", c);
        int r = FastStartDefaultLogger(t); CHECK(r == 0, "start %d", r); SetVirtualDevice(&hookfx::hook); started = true;
    }
    int ch = (int)s.u(3), cat = (int)s.u(64), front = (int)s.u(4), pri = (int)s.u(7); ll id = (ll)s.u(64);
    std::string a = s.str(0, 20, "ab%dsn \\\"{}"), b = s.str(0, 20, "xyz%"); int n; G(s, n); bool def = s.coin();
    std::string want = a + std::to_string(n) + b; int ln = 0; hookfx::got().clear();
    ctx.label(fmt("front:%d pri:%d %s", front, pri, def ? "short" : "full")); if (def) { ch = 0; cat = 0; id = 0; }
    std::string fn = __FUNCTION__;
    vclock::set(1700000000 + (ll)s.u(1000000), (int)s.u(1000));
#define ALL(P, p, short_p) \
    case PRIORITY_##P: \
        if (front == 0) { if (def) { ln = __LINE__; Log##p() << a << n << b; } else { Log##p##Stream(ch, cat, id) << a << n << b; } } \
        else if (front == 1) { if (def) { Pack##p(a, n, b); } else { Log##p##Pack(ch, cat, id, a, n, b); } } \
        else if (front == 2) { if (def) { LOG##short_p(a << n << b); } else { LOG_##P(ch, cat, id, a << n << b); } } \
        else { if (def) { LOGFMT##short_p("%s%d%s", a.c_str(), n, b.c_str()); } else { LOGFMT_##P(ch, cat, id, "%s%d%s", a.c_str(), n, b.c_str()); } } break;
    switch (pri) { ALL(TRACE, Trace, T) ALL(DEBUG, Debug, D) ALL(INFO, Info, I) ALL(WARN, Warn, W) ALL(ERROR, Error, E) ALL(ALARM, Alarm, A) default: ALL(FATAL, Fatal, F) }
    ll now = vclock::now(); vclock::on() = false;
    ctx.nontrivial(); ctx.key(fmt("%d %d %d %d %lld ", front, pri, ch, cat, id) + want); ctx.note("front %d pri %d ch %d cat %d id %lld: %s", front, pri, ch, cat, id, esc(want).c_str());
    CHECK(hookfx::got().size() == 1, "statement delivered %zu times", hookfx::got().size());
    auto& g = hookfx::got()[0];
    CHECK(g.pri == pri && g.cat == cat && g.id == id, "statement arrived as priority %d category %d identify %lld, expected %d %d %lld", g.pri, g.cat, g.id, pri, cat, id);
    CHECK(g.prefix_len >= 0 && g.prefix_len <= (int)g.text.size() && g.text.substr(g.prefix_len) == want, "text \"%s\", expected \"%s\"", esc(g.text.substr(std::min<size_t>(g.prefix_len, g.text.size()))).c_str(), esc(want).c_str());
    static const char* PN[] = {"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"};
    std::string pre = g.text.substr(0, g.prefix_len);
    CHECK(pre.size() > 32 && pre.substr(23, 7) == PN[pri] && pre[30] == '[', "default prefix \"%s\" lacks %s", pre.c_str(), PN[pri]);
    CHECK(pre.find("c11.cc:") != std::string::npos && pre.find("(" + fn + ") ") != std::string::npos, "default prefix \"%s\" lacks the file or function", pre.c_str());
    CHECK(g.ts == now, "timestamp %lld, expected %lld", g.ts, now);
    // which channel: its virtual device is the only one that counted a line
    static ll cnt[3] = {0, 0, 0}; for (int c = 0; c < 3; c++) { ll k = GetDeviceLog(lg, c, 0, DEVICE_LOG_TOTAL_WRITE_LINE); ll d = k - cnt[c]; cnt[c] = k; CHECK(d == (c == ch ? 1 : 0), "channel %d received %lld lines for a statement on channel %d", c, d, ch); }
}
int main(int c, char** v) { return pbt_main(c, v); }
