// C14: obstacles that keep files from being opened or written, appearing and disappearing.
#include "conc.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <signal.h>
using namespace FNLog; using namespace conc;
enum Ob { OB_NONE, OB_PARENT, OB_DIR, OB_LOOP, OB_DANGLING, OB_PERM, OB_N };
static const char* const OB_NAMES[] = {"", "parent is a file", "path is a directory", "symlink loop", "dangling symlink", "no permission"};
struct FDev { int c, d; std::string tag, dir, file; bool hourly = false, daily = false, toolong = false; ll limit = 0; int pri = 0; bool open = false; ll fail_at = -1, fail_el = 0; int ob = OB_NONE; ll opened = 0; bool unsure = false; std::set<int> seen; std::map<int, int> kind; ll size = 0; };   // kind: 1 must, 2 may, 3 may be torn
static void walk(const std::string& p, std::vector<std::string>& out, int depth = 0) {
    DIR* d = opendir(p.c_str()); if (!d || depth > 6) { if (d) closedir(d); return; }
    while (struct dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string f = p + "/" + n; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) walk(f, out, depth + 1); else if (S_ISREG(st.st_mode)) out.push_back(f); }
    closedir(d); std::sort(out.begin(), out.end());
}
static void mkdirs(const std::string& p) { for (size_t i = 0; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
struct Limits { rlimit fd, fs; uid_t uid; bool un = false; Limits() { getrlimit(RLIMIT_NOFILE, &fd); getrlimit(RLIMIT_FSIZE, &fs); uid = geteuid(); } ~Limits() { restore(); if (un) (void)!seteuid(uid); } void restore() { setrlimit(RLIMIT_NOFILE, &fd); setrlimit(RLIMIT_FSIZE, &fs); } };
PROP(obstacles, 40, 20000) {
    signal(SIGXFSZ, SIG_IGN); Limits lim; ll now = 1700000000 + s.u(3600) ; vclock::set(now);
    int nch = (int)s.range(1, 3), async_ch = s.chance(2, 3) ? (int)s.u(nch) : -1; std::vector<FDev> ds; std::vector<int> nd(nch); std::string text;
    for (int c = 0; c < nch; c++) { nd[c] = (int)s.range(1, 3); text += fmt(" - channel: %d\n    sync: %s\n", c, c == async_ch ? "async" : "sync");
        for (int d = 0; d < nd[c]; d++) { FDev v; v.c = c; v.d = d; v.tag = fmt("c%dd%d_", c, d); int k = s.weighted({6, 2, 1, 2, 1}); v.hourly = k == 1; v.daily = k == 2; v.limit = k == 3 ? s.range(100, 600) : 0; v.toolong = k == 4; v.dir = fmt("p%d%d%s", c, d, s.chance(1, 4) ? "/q/r" : ""); v.file = v.tag + (v.hourly ? "$DAY$HOUR" : v.daily && s.coin() ? "$DAY" : "x"); v.pri = s.chance(1, 4) ? (int)s.range(1, 4) : 0; if (v.toolong) { v.file = v.tag; for (int i = 0; i < 25; i++) v.file += "$PNAME"; }
            text += fmt("    -device: %d\n        disable: false\n        out_type: file\n        priority: %s\n        path: \"./%s\"\n        file: \"%s\"\n%s%s%s", d, PRI_NAMES[v.pri], v.dir.c_str(), v.file.c_str(), v.hourly ? "        rollhourly: true\n" : "", v.daily ? "        rolldaily: true\n" : "", v.limit ? "        rollback: 60\n" : ""); ds.push_back(v); } }
    ctx.note("%s", text.c_str());
    bool nobody = chown(".", 65534, 65534) == 0 && seteuid(65534) == 0; lim.un = nobody;
    struct Line { int id, c, pri, len; ll t; }; std::vector<Line> lines; auto lb = [&](int id, int len) { std::string b = fmt("[%d:", id); unsigned x = id * 2654435761u; while ((int)b.size() < len - 1) { x = x * 1103515245u + 12345; b += (char)('a' + (x >> 16) % 26); } return b + "]"; };
    LoggerPtr lg = mk_logger(); bool emfile = false; ll fslimit = -1; ll el = 0; /* time gone by, whatever the clock says */ int pushed_async = 0, installed = 0, resumed = 0, lost = 0, olds = 0;
    // five seconds after the failed attempt by the clock, or by the time gone by when the clock was set back to before it
    auto due = [&](FDev& v) { return v.fail_at < 0 || now >= v.fail_at + 5 || (now < v.fail_at - 5 && el >= v.fail_el + 5); };
    auto apply = [&]() { lim.restore(); if (fslimit >= 0) { rlimit r = lim.fs; r.rlim_cur = fslimit; setrlimit(RLIMIT_FSIZE, &r); } if (emfile) { int f = dup(0); if (f < 0) f = 0; else close(f); rlimit r = lim.fd; r.rlim_cur = f; setrlimit(RLIMIT_NOFILE, &r); } };
    auto start = [&]() { lim.restore(); int r = ParseAndStartLogger(*lg, text); CHECK(r == 0, "start returned %d", r); for (auto& v : ds) { v.open = false; v.fail_at = -1; v.unsure = false; if (v.limit) SetDeviceConfig(*lg, v.c, v.d, DEVICE_CFG_FILE_LIMIT_SIZE, v.limit); } pushed_async = async_ch >= 0 ? (int)GetChannelLog(*lg, async_ch, CHANNEL_LOG_PROCESSED) : 0; apply(); };
    auto settle = [&]() { if (async_ch < 0) return; for (int i = 0; i < 20000 && GetChannelLog(*lg, async_ch, CHANNEL_LOG_PROCESSED) < pushed_async; i++) { struct timespec ts = {0, 200000}; syscall(SYS_nanosleep, &ts, nullptr); } CHECK(GetChannelLog(*lg, async_ch, CHANNEL_LOG_PROCESSED) >= pushed_async, "the writer thread is stuck"); ll z = vclock::sleeps(); for (int i = 0; i < 20000 && vclock::sleeps() == z; i++) { struct timespec ts = {0, 50000}; syscall(SYS_nanosleep, &ts, nullptr); } };
    // reads every file of a device; complete lines, torn beginnings only of lines logged while the file could not grow
    auto read_dev = [&](FDev& v, std::set<int>& got) {
        std::vector<std::string> fs; walk(".", fs); v.size = 0;
        for (auto& f : fs) { std::string base = f.substr(f.rfind('/') + 1); if (base.compare(0, v.tag.size(), v.tag) != 0) continue; std::string t = file_text(f); v.size = std::max(v.size, (ll)t.size()); size_t p = 0; int last = -1;
            while (p < t.size()) {
                CHECK(t[p] == '[', "%s: garbage at byte %zu: \"%s\"", f.c_str(), p, esc(t.substr(p), 60).c_str()); size_t q = t.find_first_of("[\n", p + 1); bool nl = q != std::string::npos && t[q] == '\n'; std::string piece = t.substr(p, q == std::string::npos ? q : q - p); int id = -1; sscanf(piece.c_str(), "[%d:", &id); bool whole = id >= 0 && id < (int)lines.size() && lines[id].c == v.c && piece == lb(id, lines[id].len);
                if (nl) { CHECK(whole, "%s: not a line that was logged: \"%s\"", f.c_str(), esc(piece, 80).c_str()); CHECK(lines[id].pri >= v.pri, "%s: line %d is not for this device", f.c_str(), id); CHECK(got.insert(id).second, "%s: line %d twice", f.c_str(), id); CHECK(id > last, "%s: line %d after line %d", f.c_str(), id, last); last = id; p = q + 1; continue; }
                bool frag = false; for (auto& k : v.kind) if (k.second == 3 && lb(k.first, lines[k.first].len).compare(0, piece.size(), piece) == 0) frag = true;
                CHECK(frag, "%s: torn line \"%s\"", f.c_str(), esc(piece, 80).c_str()); ctx.label("torn line at the limit"); p = q == std::string::npos ? t.size() : q;
            } } };
    auto check = [&]() { lim.restore(); for (auto& v : ds) { std::set<int> got; read_dev(v, got);
            for (auto& k : v.kind) { bool g = got.count(k.first); if (k.second == 1) CHECK(g, "device %d of channel %d: line %d (at %+lld s) is missing%s", v.d, v.c, k.first, lines[k.first].t - 1700000000, v.fail_at >= 0 ? fmt(", last obstacle met at %+lld s", v.fail_at - 1700000000).c_str() : ", nothing was ever in its way"); if (k.second == 0) CHECK(!g, "device %d of channel %d: line %d cannot be there", v.d, v.c, k.first); if (!g) lost++; }
            v.seen = got; } apply(); };
    auto stmt = [&](int c) {                               // a statement
            Line l; l.id = (int)lines.size(); l.c = c; l.pri = (int)s.range(0, 5); l.len = s.chance(1, 6) ? 300 : (int)s.range(8, 60); l.t = now; lines.push_back(l); std::string b = lb(l.id, l.len); l.len = (int)b.size(); lines.back().len = l.len; int need = l.len + 1;
            std::vector<std::pair<FDev*, int> > ex;
            for (auto& v : ds) { if (v.c != c || l.pri < v.pri) continue;
                struct tm a, o; time_t ta = now, to = v.opened; localtime_r(&ta, &a); localtime_r(&to, &o); bool day = a.tm_year != o.tm_year || a.tm_yday != o.tm_yday; bool reopen = !v.open || (v.hourly && (day || a.tm_hour != o.tm_hour)) || (v.daily && day) || (v.limit && (v.unsure || v.size + need > v.limit));
                bool blocked = reopen && (v.ob != OB_NONE || emfile), full = fslimit >= 0 && v.size + need > fslimit; int k;
                if (v.toolong) k = 0; else if (full) k = 3; else if (blocked) k = 2; else if (!reopen) k = v.unsure ? 2 : 1; else k = due(v) ? 1 : 2;
                if (v.unsure && k == 1 && !due(v)) k = 2;
                v.kind[l.id] = k; if (k == 1 && v.fail_at >= 0) resumed++; if (blocked || full) { v.fail_at = now; v.fail_el = el; } if (full) v.unsure = true; ex.push_back({&v, k}); }
            put(*lg, c, l.pri, 0, 0, b); if (c == async_ch && !ex.empty()) pushed_async++;
            ctx.note("%+lld line %d, %d bytes, channel %d, priority %d:%s", now - 1700000000, l.id, need, c, l.pri, [&]() { std::string o; for (auto& e : ex) o += fmt(" d%d=%s", e.first->d, (const char*[]){"never", "must", "may", "torn"}[e.second]); return o; }().c_str());
            settle(); check();
            for (auto& e : ex) { FDev& v = *e.first; bool g = v.seen.count(l.id); if (g) { if (e.second == 1) { if (!v.limit) v.unsure = false; v.fail_at = -1; } if (!v.open) v.opened = now; struct tm a, o; time_t ta = now, to = v.opened; localtime_r(&ta, &a); localtime_r(&to, &o); if (a.tm_yday != o.tm_yday || a.tm_hour != o.tm_hour) v.opened = now; v.open = true; } else if (e.second != 3) v.open = false; }
    };
    start(); Seq q(s, 6, 70, 30);
    while (q.next()) {
        int op = s.weighted({18, 9, 8, 1, 3, 2, 5, 2}); ctx.key(fmt("%d", op));
        if (op == 0) stmt((int)s.u(nch));
        else if (op == 6) { int c = (int)s.u(nch), n = (int)s.range(3, 9); for (int i = 0; i < n; i++) { stmt(c); ll step = s.pick({1, 1, 2}); now += step; el += step; vclock::set(now); } }
        else if (op == 1) { ll step = s.pick({1, 2, 4, 5, 5, 6, 9, 3600}); now += step; el += step; vclock::set(now); }
        else if (op == 7) { ll back = s.pick({3, 11, 60, 3600, 200000}); now -= back; vclock::set(now); ctx.note("%+lld the clock was set back by %lld s", now - 1700000000, back); ctx.label("clock set back"); ll step = s.pick({0, 1, 5, 5, 6}); now += step; el += step; vclock::set(now); }
        else if (op == 2) {                                // one device's obstacle appears or goes
            FDev& v = ds[s.u(ds.size())]; if (v.toolong || fslimit >= 0 || emfile) continue; std::string top = v.dir.substr(0, v.dir.find('/')); std::string exact = v.dir + "/" + v.file + ".log";
            if (v.ob == OB_NONE) {
                int k = (int)s.range(1, OB_N - 1); struct stat st; if (k == OB_PERM && !nobody) continue; if (k == OB_DIR && (v.limit || v.file.find('$') != std::string::npos)) continue;
                lim.restore(); if (k == OB_DIR) { if (lstat(exact.c_str(), &st) == 0) (void)!rename(exact.c_str(), (v.dir + fmt("/%sold%d", v.tag.c_str(), olds++)).c_str()); mkdirs(exact + "/sub"); }
                else if (k == OB_PERM) { mkdirs(v.dir); chmod(v.dir.c_str(), 0555); if (lstat((v.dir + "/" + v.file + ".log").c_str(), &st) == 0 || v.file.find('$') != std::string::npos) { std::vector<std::string> fs; walk(v.dir, fs); for (auto& f : fs) chmod(f.c_str(), 0444); } }
                else { if (lstat(top.c_str(), &st) == 0) (void)!rename(top.c_str(), fmt("old%d", olds++).c_str()); if (k == OB_PARENT) write_file(top, "x"); else (void)!symlink(k == OB_LOOP ? top.c_str() : "nowhere/at/all", top.c_str()); }
                v.ob = k; installed++; apply(); ctx.note("%+lld device %d of channel %d: %s", now - 1700000000, v.d, v.c, OB_NAMES[k]); ctx.label(OB_NAMES[k]);
            } else {
                lim.restore(); if (v.ob == OB_DIR) { rmdir((exact + "/sub").c_str()); rmdir(exact.c_str()); } else if (v.ob == OB_PERM) { chmod(v.dir.c_str(), 0755); std::vector<std::string> fs; walk(v.dir, fs); for (auto& f : fs) chmod(f.c_str(), 0644); } else unlink(top.c_str());
                ctx.note("%+lld device %d of channel %d: obstacle gone", now - 1700000000, v.d, v.c); v.ob = OB_NONE; apply();
            }
        } else if (op == 3) {                              // restart
            int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); ctx.note("%+lld restart", now - 1700000000); emfile = false; start(); check();
        } else if (op == 4) { if (fslimit >= 0) continue; emfile = !emfile; apply(); installed++; ctx.note("%+lld %s", now - 1700000000, emfile ? "no more file descriptors" : "descriptors available again"); ctx.label("no descriptors"); }
        else {                                             // files cannot grow beyond a size
            if (emfile) continue; if (fslimit >= 0) fslimit = -1; else { FDev& v = ds[s.u(ds.size())]; fslimit = v.size + s.pick({0, 1, 10, 30, 60}); installed++; ctx.label("files cannot grow"); } apply(); ctx.note("%+lld file size limit %lld", now - 1700000000, fslimit);
        }
    }
    emfile = false; fslimit = -1; lim.restore(); int r = StopLogger(*lg); CHECK(r == 0, "stop returned %d", r); check(); lg.reset();
    if (lost) ctx.label("lines lost"); if (resumed) ctx.label("resumed after a failure"); ctx.nontrivial(installed >= 1 && lines.size() >= 3 && resumed >= 1);
}
int main(int c, char** v) { return pbt_main(c, v); }
