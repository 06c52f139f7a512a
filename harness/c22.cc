// C22: the same history under builds with different options, compilers and optimisation.
#include "cfggen.h"
#include <fcntl.h>
#include <sys/wait.h>
typedef cfg::ull ull;
struct Build { std::string name, path; };
static std::vector<Build> builds() { std::vector<Build> v; const char* e = getenv("VERIF_BINS"); std::string t = e ? e : ""; size_t i = 0; while (i < t.size()) { size_t j = t.find(';', i), k = t.find('=', i); if (j == std::string::npos) j = t.size(); v.push_back({t.substr(i, k - i), t.substr(k + 1, j - k - 1)}); i = j + 1; } return v; }
static std::string hx(const std::string& s) { std::string o; for (unsigned char c : s) o += fmt("%02x", c); return o; }
// one piece of a message and the most it can add to the text
static std::string piece(Src& s, int& room) {
    auto ll_ = [&]() -> ll { switch (s.u(4)) { case 0: return (ll)s.range(-9, 120); case 1: return s.pick({2147483647LL, -2147483648LL, 4294967295LL, 9223372036854775807LL, -9223372036854775807LL - 1, 999999999999LL, 1000000000LL}); case 2: return (ll)(s.bits() >> s.u(64)); default: return -(ll)(s.bits() >> s.range(1, 63)); } };
    auto list = [&](int n) { std::string o; for (int i = 0; i < n; i++) o += (i ? "," : "") + fmt("%lld", ll_()); return o; };
    int k = s.weighted({8, 8, 3, 3, 3, 1, 1}); int cost = 0; std::string p;
    if (k == 0) { std::string t = s.str(0, 30, "abc XYZ019%$\\{}[]\"'\x01\x7f\xc3\xa4"); p = (s.coin() ? "s:" : "z:") + hx(t); cost = 30; }
    else if (k == 1) { p = s.pick({"i:", "I:", "u:", "h:", "H:", "n:", "w:", "W:", "y:", "c:", "b:", "p:", "o:", "O:"}) + fmt("%lld", ll_()); if (p[0] == 'c') p = "c:" + fmt("%d", (int)s.range(33, 126)); cost = 24; }
    else if (k == 2) { ull b; switch (s.u(4)) { case 0: b = s.bits(); break; case 1: { double d = (double)s.range(-1000000, 1000000) / 10000; memcpy(&b, &d, 8); } break; case 2: { double d = (double)ll_(); memcpy(&b, &d, 8); } break; default: b = s.pick({0x7ff0000000000000ULL, 0xfff0000000000000ULL, 0x7ff8000000000000ULL, 0ULL, 1ULL, 0x8000000000000000ULL, 0x3ff0000000000000ULL}); } p = "d:" + fmt("%llu", b); cost = 45; }
    else if (k == 3) { unsigned b; float f = (float)((double)s.range(-100000, 100000) / s.pick({1, 10, 100, 10000})); if (s.coin()) b = (unsigned)s.bits(); else memcpy(&b, &f, 4); p = "f:" + fmt("%u", b); cost = 45; }
    else if (k == 4) { int n = (int)s.range(0, 4); p = s.pick({"v:", "L:", "q:", "e:", "m:", "M:"}) + list(n); cost = 20 + 46 * n; }
    else if (k == 5) { p = s.pick({"<:", "P:", "t:", "T:", "k:"}); p += p[0] == 'k' ? fmt("%d", (int)s.u(64)) : p[0] == 't' ? fmt("%d", (int)s.range(0, 2000000000)) : p[0] == 'T' ? fmt("%lld", (ll)s.range(0, 2000000000) * 1000) : fmt("%d", (int)s.range(0, 200000)); cost = 46; }
    else { p = fmt("A:%d", (int)s.u(4)); cost = 90; }
    if (cost > room) return ""; room -= cost; return p;
}
static std::string pieces(Src& s, bool longtext) {
    std::string o; int room = 250; int n = (int)s.skew(0, 6); for (int i = 0; i < n; i++) { std::string p = piece(s, room); if (!p.empty()) o += " " + p; }
    if (longtext && s.chance(1, 2)) { std::string t((size_t)s.pick({400, 500, 611, 612, 640, 700, 800, 1999, 2000, 10000, 12000}) + s.range(0, 9) - 4, (char)('a' + s.u(26))); o += " s:" + hx(t); if (s.coin()) o += " i:12345 s:" + hx("tail"); }
    return o;
}
struct Step { std::string text, why; };
// a configuration with more channels or devices than the smallest build has
static bool beyond(const std::string& t) { for (auto k : {" channels ", " devices "}) { size_t p = 0; std::string s = k; while ((p = t.find(s, p)) != std::string::npos) { p += s.size(); if (atoi(t.c_str() + p) > (s == " channels " ? 2 : 3)) return true; } } return false; }
static bool run_all(Ctx& ctx, const std::string& script, int* ran, std::string& first_out) {
    auto bs = builds(); if (bs.size() < 2) ctx.fail("no builds to compare");
    std::string ref; *ran = 0;
    for (size_t i = 0; i < bs.size(); i++) {
        char cw[4096]; std::string d = std::string(getcwd(cw, sizeof cw)) + "/w"; wipe_dir(d); rmdir(d.c_str());
        mkdir(d.c_str(), 0755); write_file(d + "/script", script);
        fflush(stdout); pid_t p = fork();
        if (p == 0) { int e = open("w/err", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(e, 2); dup2(e, 1); raise_fs(); execl(bs[i].path.c_str(), bs[i].path.c_str(), "w", (char*)0); _exit(127); }
        int st = 0; bool done = false; for (int k = 0; k < 20000; k++) { if (waitpid(p, &st, WNOHANG) == p) { done = true; break; } struct timespec ts = {0, 1000000}; syscall(SYS_nanosleep, &ts, nullptr); }
        if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); ctx.fail("build %s does not finish the history; its transcript so far:\n%s", bs[i].name.c_str(), file_text("w/out").substr(0, 1500).c_str()); }
        std::string out = file_text("w/out");
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) ctx.fail("build %s ended with status %x\n%s\n... transcript:\n%s", bs[i].name.c_str(), st, file_text("w/err").substr(0, 1500).c_str(), out.size() > 800 ? out.substr(out.size() - 800).c_str() : out.c_str());
        ++*ran;
        if (i == 0) { ref = out; first_out = out; continue; }
        if (out == ref) continue;
        if (beyond(ref) || beyond(out)) { ctx.label("beyond a limit"); return true; }
        if (getenv("C22_SAVE")) write_file(fmt("%s/%d.script", getenv("C22_SAVE"), (int)getpid()), script + "#" + ref + "#" + out);
        // first differing line with the operation it belongs to
        std::stringstream a(ref), b(out); std::string la, lb, op; for (;;) { bool ga = (bool)std::getline(a, la), gb = (bool)std::getline(b, lb); if (!ga) la = "<end>"; if (!gb) lb = "<end>"; if (la != lb) break; if (!ga && !gb) break; if (!la.empty() && la[0] != ' ') op = la; }
        std::string opl; { std::stringstream sc(script); std::string l; int k = atoi(op.c_str()); for (int j = 0; j <= k && std::getline(sc, l); j++) opl = l; }
        size_t x = 0; while (x < la.size() && x < lb.size() && la[x] == lb[x]) x++; x = x > 60 ? x - 60 : 0;
        ctx.fail("builds %s and %s differ after operation %s (%s)\n %s: ...%s\n %s: ...%s", bs[0].name.c_str(), bs[i].name.c_str(), op.c_str(), opl.substr(0, 200).c_str(), bs[0].name.c_str(), la.substr(x, 400).c_str(), bs[i].name.c_str(), lb.substr(x, 400).c_str());
    }
    return true;
}
static void limit_conf(Src& s, cfg::Conf& c, int async_max, bool longtext) {
    int as = 0; for (auto& k : c.ch) { if (k.sync == 1) continue; if (k.sync < 0 && as >= async_max) k.sync = 1; else if (as >= async_max) k.sync = 1; else as++; }
    int only = (int)s.u(c.ch.size()); int vm_seen = 0;
    for (size_t i = 0; i < c.ch.size(); i++) { bool vm = false; if (c.ch[i].devs.empty()) { cfg::Dev d; c.ch[i].devs.push_back(d); } for (size_t d = 0; d < c.ch[i].devs.size(); d++) { auto& D = c.ch[i].devs[d];
        if ((D.out == 1 || D.out == 2) && as > 0 && (int)i != only) D.out = 0; if (D.out == 3) { if (vm) D.out = 0; vm = true; } if (s.chance(3, 4)) D.disable = 0; D.in_udp = false; D.dn = false;
        D.file = fmt("c%zud%zu", i, d) + (s.chance(1, 4) ? s.pick({"_$YEAR$MON$DAY", "_%F", "-$HOUR$MIN$SEC", "_$LOGNAME"}) : ""); D.path = s.pick({"./", "log/", "a/b/", "", "./$YEAR/$MON/"});
        if (D.out == 1) { D.ip = "127.0.0.1"; D.port = 45678; } else { D.ip = ""; D.port = 0; } if (longtext) D.limit_m = -1; if (D.daily == 1 && D.hourly == 1) D.hourly = 0; } if (vm) vm_seen++; }
    if (c.hot < 0 || !s.chance(1, 3)) c.hot = s.coin();
}
static std::string render(Src& s, const cfg::Conf& c) { cfg::Writer w(s, s.chance(1, 3)); return w.write(c); }
PROP(variants, 10, 120000) {
    bool longtext = s.chance(1, 4); std::string sc; if (longtext) sc += "Z 380\n"; int async_max = (int)s.u(3); bool dflt = s.chance(1, 4); if (dflt) sc += "G 1\n";
    cfg::Conf c = cfg::gen(s, 2, 3); limit_conf(s, c, async_max, longtext); bool running = false, from_file = false; int lines = 0, starts = 0, ups = 0; std::vector<int> open_; int since_open = 0; bool sync0 = c.ch[0].sync == 1;
    auto ch = [&]() { return s.chance(1, 12) ? (int)s.range(-1, 3) : (int)s.u(c.ch.size()); };
    auto lv = [&](int& cat, ll& id) { cat = s.coin() ? 0 : (int)s.u(64); id = s.coin() ? 0 : (ll)s.u(64); };
    auto close_all = [&]() { for (int o : open_) sc += fmt("K %d\n", o); open_.clear(); since_open = 0; };
    Seq q(s, 4, 60, 24);
    while (q.next()) {
        int op = running ? s.weighted({30, 4, 3, 2, 2, 4, 4, 3, 3, 2, 1, 3}) : s.weighted({2, 0, 0, 20, 1, 1, 0, 1, 1, 0, 1, 0});
        if (op == 0) { if (!open_.empty() && ++since_open > 5) close_all(); int cat; ll id; lv(cat, id); sc += fmt("%s %d %d %d %lld %u %d%s\n", open_.empty() && s.chance(1, 6) ? "l" : "L", ch(), (int)s.u(7), cat, id, s.coin() ? 0u : (unsigned)(s.u(256) & ~4u), (int)s.range(1, 99999), pieces(s, longtext).c_str()); lines++; }
        else if (op == 1) { if (!dflt) continue; if (!open_.empty() && ++since_open > 5) close_all(); int cat; ll id; lv(cat, id); sc += fmt("M %d %d %d %d %lld %d %s\n", (int)s.u(8), (int)s.u(7), (int)s.u(c.ch.size()), cat, id, (int)s.range(-99999, 99999), hx(s.str(0, 30, "abc %dxyz")).c_str()); lines++; }
        else if (op == 2) { if (open_.size() < 4 && since_open < 3) { int cat; ll id; lv(cat, id); int n = (int)s.u(4); bool had = false; for (int o : open_) had |= o == n; if (had) continue; sc += fmt("O %d %d %d %d %lld%s\n", n, (int)s.u(c.ch.size()), (int)s.u(7), cat, id, pieces(s, false).c_str()); open_.push_back(n); lines++; } else if (!open_.empty()) { int i = (int)s.u(open_.size()); if (s.coin()) { sc += fmt("Q %d s:%s\n", open_[i], hx(s.str(0, 20, "qrs")).c_str()); } else { sc += fmt("K %d\n", open_[i]); open_.erase(open_.begin() + i); } } }
        else if (op == 3) { close_all();
            if (running) { sc += "P\n"; running = false; }
            else { if (starts && s.coin()) { if (s.coin()) sc += "C 10 0\n"; if (s.chance(1, 4)) { cfg::Conf n = cfg::gen(s, 2, 3); limit_conf(s, n, async_max, longtext); c = n; } } bool f = s.coin(); int k = (int)s.u(10); if (k == 0 && starts) sc += "S\n"; else { std::string t = render(s, c); if (k == 1) t = s.pick({"", " - channel: 1\n", "garbage\n", " - channel: 0\n    sync: sync\n    -device: 1\n", "]]"}); sc += fmt("%s %s\n", f ? "F" : "T", hx(t).c_str()); from_file = f; if (k == 1) continue; } running = true; starts++; sync0 = c.ch[0].sync == 1; } }
        else if (op == 4) { close_all(); sc += fmt("%s\n", s.pick({"W", "W", "S", "T", "P"})); if (sc.size() > 2 && sc[sc.size() - 2] == 'P') running = false; if (sc.size() > 2 && sc[sc.size() - 2] == 'S' && starts) running = true; }
        else if (op == 5) { close_all(); sc += fmt("C %lld %d\n", s.pick({0LL, 1LL, 5LL, 59LL, 3600LL, 86400LL, 40000LL, 1000000LL}), (int)s.u(1000)); }
        else if (op == 6) { close_all(); int f = s.pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}); ll v = f == FNLog::DEVICE_CFG_ABLE ? s.coin() : f == 1 ? (ll)s.u(7) : f == 8 ? (ll)s.range(60, 600) : f == 9 ? (ll)s.range(0, 4) : f >= 10 ? (ll)s.coin() : (f == 4 || f == 7) ? (ll)s.bits() : (ll)s.range(0, 64); if (f == 8 && longtext) continue; if (f == 10 || f == 11) { if (s.coin()) v = 0; else continue; } sc += fmt("D %d %d %d %lld\n", ch(), (int)s.u(4), f, v); }
        else if (op == 7) { close_all(); int f = (int)s.u(7); ll v = f == 0 ? (ll)s.u(7) : (f == 3 || f == 6) ? (ll)s.bits() : (ll)s.range(0, 64); if (s.coin()) sc += fmt("E %d %d %lld\n", ch(), f, v); else if (s.coin()) sc += fmt("b %d %lld\n", f, v); else sc += fmt("B %d %d %lld\n", (int)s.range(1, 5), s.pick({0, 1, 2, 3}), (ll)s.u(2)); }
        else if (op == 8) { close_all(); sc += fmt("H %d\n", sync0 && s.chance(1, 3) ? 2 : (int)s.u(2)); }
        else if (op == 9) { if (!from_file) continue; close_all(); cfg::Conf n = c; for (auto& k : n.ch) { if (s.coin()) { k.f = cfg::Filt(); if (s.coin()) cfg::gen_filt(s, k.f); } for (auto& d : k.devs) { if (s.coin()) { d.f = cfg::Filt(); cfg::gen_filt(s, d.f); } if (s.coin()) d.disable = s.coin(); if (s.chance(1, 4)) d.rollback = s.range(0, 5); } } if (s.chance(1, 5)) n.hot = s.coin(); std::string t = render(s, n); sc += fmt("U %s\n", hx(t).c_str()); ups++; }
        else if (op == 10) { close_all(); { int k = (int)s.u(4); if (k == 3 && from_file) k = 2; sc += fmt("V %d\n", k); } }
        else { close_all(); if (s.chance(1, 3) && !dflt) { sc += "X\n"; running = false; starts = 0; from_file = false; } else sc += "W\n"; }
        ctx.key(fmt("%d", op));
    }
    close_all();
    int ran = 0; std::string out; ctx.note("%d statements, %d starts, %d updates; %zu bytes of script", lines, starts, ups, sc.size());
    { std::stringstream ss(sc); std::string l; int k = 0; while (std::getline(ss, l) && k++ < 60) ctx.note("%s", l.substr(0, 300).c_str()); }
    run_all(ctx, sc, &ran, out); ctx.label(longtext ? "long texts" : "texts in full"); if (dflt) ctx.label("default logger"); if (ups) ctx.label("hot update"); if (async_max) ctx.label("asynchronous");
    ctx.nontrivial(lines >= 3 && starts >= 1 && out.find("  | ") != std::string::npos); ctx.key(sc);
}
// configuration texts, most of them damaged: the same verdict and the same settings
PROP(texts, 10, 120000) {
    std::string sc = "N\n"; int n = (int)s.range(1, 8); int total = 0;
    for (int i = 0; i < n; i++) {
        cfg::Conf c = cfg::gen(s, 2, 3); cfg::Writer w(s, s.chance(1, 3)); std::string t = w.write(c);
        for (auto& k : c.ch) for (auto& d : k.devs) (void)d;
        if (s.chance(3, 4)) { int m = (int)s.range(1, 4); for (int j = 0; j < m && !t.empty(); j++) { size_t p = s.u(t.size()); switch (s.u(6)) { case 0: t[p] = s.pick({' ', ':', '-', '#', '\n', '"', '$', '=', '{', ']', '\t', 'x', '\x80', '0', '9', ','}); break; case 1: t.erase(p, (size_t)s.range(1, 5)); break; case 2: t.insert(p, s.pick({" ", ":", "-", "#", "\n", "\"", "${", "=", "}", "priority", "999999999999999999999", "-1", ": :"})); break; case 3: { size_t e = t.find('\n', p); if (e != std::string::npos) t.erase(p, e - p); } break; case 4: { size_t b = t.rfind('\n', p), e = t.find('\n', p); if (b != std::string::npos && e != std::string::npos) t.insert(b, t.substr(b, e - b)); } break; default: t.resize(p); } } ctx.label("damaged"); } else ctx.label("as generated");
        total += (int)t.size(); sc += fmt("T %s\nW\nP\nX\n", hx(t).c_str()); ctx.note("%s", esc(t, 1200).c_str());
    }
    int ran; std::string out; run_all(ctx, sc, &ran, out); ctx.key(sc); ctx.nontrivial(total > 60); size_t k = 0, ok = 0; while ((k = out.find("rc 0", k)) != std::string::npos) { ok++; k++; } ctx.label(ok ? "some accepted" : "none accepted");
}
int main(int c, char** v) { return pbt_main(c, v); }
