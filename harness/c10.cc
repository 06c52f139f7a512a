// C10: prefix fields and timestamps.
#include "hookfx.h"
#include "tz.h"
#include <thread>
using namespace FNLog;
static const long long MAXT = 253370764799LL;   // 9998-12-31: four-digit years in every zone
static const long long MAXC = 9223286399LL;      // the clock: 2262-04-10, as far as a nanosecond clock reaches

static std::string date_text(ll t, int ms) { struct tm a = ltm(t); return fmt("[%04d%02d%02d %02d:%02d:%02d.%03d]", a.tm_year + 1900, a.tm_mon + 1, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, ms); }
static std::string last3(const std::string& p) {
    int seen = 0;
    for (size_t i = p.size(); i-- > 0;) if (p[i] == '/' || p[i] == '\\') if (++seen == 3) return p.substr(i + 1);
    return p;
}
struct Stmt { ll ts; int ms; unsigned prefix; int pri; std::string file, func; bool nofile, nofunc; int line; int lt; ll lts; int lms; std::string msg; };
struct Res { std::string text; unsigned tid; int pl; size_t n; };

PROP(prefix, 60, 20000) {
    const char* zone = ZONES[s.u(sizeof ZONES / sizeof *ZONES)]; use_zone(zone);
    ctx.label(std::string("zone:") + zone);
    static const char* NCH = "abcXYZ019_-.";
    std::string name = s.chance(1, 8) ? s.str(249, 249, NCH) : s.str(1, 40, NCH), desc = s.chance(1, 8) ? s.str(49, 49, NCH) : s.str(1, 20, NCH);
    Logger& lg = hookfx::lg(); StopLogger(lg);
    int r = ParseAndStartLogger(lg, " logger_name: \"" + name + "\"\n logger_desc: \"" + desc + "\"\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: vm\n");
    CHECK(r == 0, "start failed %d", r);
    int nthreads = (int)s.range(1, 3); std::vector<std::vector<Stmt> > plan(nthreads);
    ll cur = gen_instant(s, ctx, MAXC); int total = 0; bool moved = false; std::string key = zone;
    std::vector<int> order;
    for (Seq q(s, 1, 24, 8); q.next();) {
        int th = (int)s.u(nthreads); Stmt x;
        switch (s.weighted({3, 4, 2})) {
        case 0: break;
        case 1: { ll d = s.pick({0LL, 1LL, -1LL, 59LL, 60LL, 3599LL, 3600LL, -3600LL, 7200LL, 43200LL, 86399LL, 86400LL, -86400LL, 82800LL, 90000LL, 172800LL}); cur += d; moved |= d != 0; break; }
        default: cur = gen_instant(s, ctx, MAXC); moved = true; break;
        }
        cur = std::max(0LL, std::min(MAXC, cur));
        x.ts = cur; x.ms = s.coin() ? (int)s.range(0, 999) : s.pick({0, 1, 9, 10, 99, 100, 999});
        x.prefix = s.chance(1, 4) ? (unsigned)LOG_PREFIX_ALL : s.chance(1, 3) ? (unsigned)LOG_PREFIX_DEFAULT : (unsigned)s.u(256);
        x.pri = (int)s.u(7); x.nofile = s.chance(1, 12); x.nofunc = s.chance(1, 12); x.line = (int)s.skew(0, 1000000);
        int comps = (int)s.range(0, 6); for (int i = 0; i < comps; i++) { x.file += s.str(s.coin() ? 1 : 0, 8, "abc.x_"); x.file += s.pick({"/", "\\", "/"}); }
        x.file += s.str(1, 30, "abcdefg._0"); if (x.file.size() > 250) x.file.resize(250);
        x.func = s.str(1, s.chance(1, 10) ? 200 : 20, "abcXYZ_:~<>(");
        x.lt = (int)s.u(4); x.lts = s.coin() ? gen_instant(s, ctx, MAXT) : std::min(MAXT, std::max(0LL, cur + s.range(-90000, 90000))); x.lms = (int)s.range(0, 999); x.msg = s.str(0, 10, "hello w%");
        plan[th].push_back(x); order.push_back(th); total++;
        key += fmt("|%d %lld.%d %x %d %lld", th, x.ts, x.ms, x.prefix, x.pri, x.lts);
        ctx.note("thread %d: at %lld.%03d (%s) prefix 0x%x pri %d file \"%s\":%d func \"%s\" + LogTimestamp#%d %lld.%03d", th, x.ts, x.ms, zone, x.prefix, x.pri, x.file.c_str(), x.line, x.func.c_str(), x.lt, x.lts, x.lms);
    }
    ctx.nontrivial(total >= 2 && moved); ctx.key(key);
    std::vector<std::vector<Res> > res(nthreads);
    std::vector<std::thread> ths;
    for (int t = 0; t < nthreads; t++) {
        // one thread after another: a fresh per-thread history each, no concurrency involved
        std::thread th([&, t]() {
            for (auto& x : plan[t]) {
                vclock::set(x.ts, x.ms); hookfx::got().clear();
                {
                    LogStream ls(lg, 0, x.pri, 0, 0, x.nofile ? nullptr : x.file.c_str(), x.nofile ? 0 : (int)x.file.size(), x.line, x.nofunc ? nullptr : x.func.c_str(), x.nofunc ? 0 : (int)x.func.size(), x.prefix);
                    if (x.lt == 1) ls << LogTimestamp(x.lts, x.lms); else if (x.lt == 2) ls << LogTimestamp(x.lts * 1000 + x.lms); else if (x.lt == 3) ls << LogTimestamp();
                    ls << x.msg;
                }
                Res rr; rr.n = hookfx::got().size(); rr.tid = (unsigned)syscall(SYS_gettid); if (rr.n) { rr.text = hookfx::got()[0].text; rr.pl = hookfx::got()[0].prefix_len; } res[t].push_back(rr);
            }
        });
        th.join();
    }
    vclock::on() = false;
    for (int t = 0; t < nthreads; t++) for (size_t i = 0; i < plan[t].size(); i++) {
        Stmt& x = plan[t][i]; Res& g = res[t][i]; std::string w;
        if (x.prefix & LOG_PREFIX_TIMESTAMP) w += date_text(x.ts, x.ms);
        if (x.prefix & LOG_PREFIX_PRIORITY) w += std::string(std::vector<const char*>{"[TRACE]", "[DEBUG]", "[INFO ]", "[WARN ]", "[ERROR]", "[ALARM]", "[FATAL]"}[x.pri]);
        if (x.prefix & LOG_PREFIX_THREAD) w += fmt("[%u]", g.tid);
        if (x.prefix & LOG_PREFIX_NAME) w += "[" + name + "]";
        if (x.prefix & LOG_PREFIX_DESC) w += "[" + desc + "]";
        if (x.prefix & LOG_PREFIX_FILE) w += "[" + (x.nofile ? std::string("nofile") : last3(x.file)) + ":" + std::to_string(x.line) + "]";
        if (x.prefix & LOG_PREFIX_FUNCTION) w += "(" + (x.nofunc ? std::string("null") : x.func) + ")";
        if (x.prefix) w += " ";
        size_t pl = w.size();
        if (x.lt == 1 || x.lt == 2) w += date_text(x.lts, x.lms); else if (x.lt == 3) w += date_text(x.ts, x.ms);
        w += x.msg;
        CHECK(g.n == 1, "statement not delivered (%zu)", g.n);
        CHECK(g.text == w, "zone %s, thread %d statement %zu at %lld.%03d: got \"%s\" expected \"%s\"", zone, t, i, x.ts, x.ms, esc(g.text, 900).c_str(), esc(w, 900).c_str());
        CHECK(g.pl == (int)pl, "prefix length %d, expected %zu", g.pl, pl);
    }
}
// the date helper alone, long histories
PROP(dates, 100, 20000) {
    const char* zone = ZONES[s.u(sizeof ZONES / sizeof *ZONES)]; use_zone(zone); std::string why, key = zone; int n = 0, days = 0;
    std::vector<std::pair<ll, int> > seq; ll cur = gen_instant(s, ctx, MAXT);
    for (Seq q(s, 1, 40, 12); q.next();) {
        if (s.chance(1, 5)) cur = gen_instant(s, ctx, MAXT); else cur += s.coin() ? s.range(-100000, 100000) : s.pick({0LL, 1LL, -1LL, 3600LL, -3600LL, 86400LL, -86400LL, 86399LL, 25200LL});
        cur = std::max(0LL, std::min(MAXT, cur)); seq.push_back({cur, (int)s.range(0, 999)}); key += fmt(" %lld", cur); n++;
    }
    for (size_t i = 1; i < seq.size(); i++) days += !same_day(seq[i].first, seq[i - 1].first);
    ctx.nontrivial(n >= 2 && days > 0); ctx.key(key); ctx.note("zone %s:%s", zone, key.c_str());
    std::thread th([&]() { for (auto& p : seq) { char b[120]; memset(b, 'Z', sizeof b); int k = write_date_unsafe(b + 40, p.first, p.second); std::string g(b + 40, std::max(0, std::min(k, 60))), w = date_text(p.first, p.second); if (g != w || b[39] != 'Z' || b[40 + w.size()] != 'Z') { why = fmt("zone %s, %lld.%03d: \"%s\" expected \"%s\"", zone, p.first, p.second, esc(g).c_str(), w.c_str()); break; } } });
    th.join();
    CHECK(why.empty(), "%s", why.c_str());
}
PROP(shortpath, 2000, 20000) {
    std::string p = s.str(0, 30, "ab/\\./"); int len = (int)p.size();
    std::string g = p.substr(short_path(p.c_str(), len)), w = last3(p); ctx.note("%s -> %s", p.c_str(), g.c_str()); ctx.nontrivial(w != p); ctx.key(p);
    CHECK(g == w, "short_path(\"%s\") keeps \"%s\", expected \"%s\"", p.c_str(), g.c_str(), w.c_str());
    CHECK(short_path(nullptr, 5) == 0, "short_path(null)");
}
int main(int c, char** v) { return pbt_main(c, v); }
