// C13: date/time rolling and file naming.
#include "filemodel.h"
using namespace FNLog;
static const ll MAXT13 = 4102444800LL;
static std::string gen_pat(Src& s, bool path, bool fine) {
    static const char* VARS[] = {"$YEAR", "$MON", "$DAY", "$HOUR", "%F", "$PNAME", "$PID", "$MIN", "$SEC"};
    static const char* LITS[] = {"x", "log_", "-", ".", "$", "%", "P", "$Y", "%G", "a b", "$PI", "$MO.", "%%", "$$", "_", "9"};
    std::string o; int n = (int)s.range(path ? 0 : 1, 5);
    for (int i = 0; i < n; i++) {
        std::string e = s.chance(2, 3) ? VARS[s.u(fine ? 9 : 7)] : LITS[s.u(16)];
        if (s.chance(1, 8)) { e = VARS[s.u(9)]; if (s.coin()) e.resize((size_t)s.range(1, (long long)e.size() - 1)); else { size_t k = (size_t)s.range(1, (long long)e.size() - 1); e[k] = s.coin() ? (char)(e[k] | 32) : 'X'; } }   // almost a variable
        if (path && i && s.chance(1, 3)) o += s.pick({"/", "/", "\\", "//"});
        if (o.size() + e.size() > (path ? 120u : 44u)) break;
        o += e;
    }
    return o;
}
// patterns whose expansion is unambiguous: no fragment becomes a variable once another one is expanded
static bool clear_pat(const std::string& p) {
    if (p.find("..") != std::string::npos) return false;
    for (size_t i = 0; i + 1 < p.size(); i++) if (p[i] == '$' || p[i] == '%') {
        bool var = false; for (const char* k : {"%F", "$PNAME", "$PID", "$YEAR", "$MON", "$DAY", "$HOUR", "$MIN", "$SEC"}) if (p.compare(i, strlen(k), k) == 0) var = true;
        if (!var && (p[i + 1] == '$' || p[i + 1] == '%')) { if (p[i] == '$' && p[i + 1] == '%') return false; }
    }
    return true;
}
static void run(Src& s, Ctx& ctx, bool combo) {
    const char* zone = ZONES[s.u(sizeof ZONES / sizeof *ZONES)]; use_zone(zone); ctx.label(std::string("zone:") + zone);
    Tree want; std::vector<FileModel> dv; std::string key = zone; LoggerPtr lg = mk_logger(); int ndev = (int)s.range(1, 3);
    bool sync = s.chance(4, 5);
    for (int i = 0; i < ndev; i++) {
        FileModel m; m.tree = &want; m.c.ch = 0; m.c.dev = i; int kind = s.weighted({2, 5, 5}); m.c.daily = kind == 1; m.c.hourly = kind == 2;
        bool fine = s.chance(1, 4) || combo;
        if (!s.chance(1, 6)) do { m.c.file = fmt("%d", i) + gen_pat(s, false, fine); } while (!clear_pat(m.c.file)); else ctx.label("default name");
        if (s.chance(1, 3)) { do { m.c.path = fmt("p%d", i) + gen_pat(s, true, false); } while (!clear_pat(m.c.path)); if (s.coin()) m.c.path = s.pick({"./", "q/", "q/r/", ctx.dir().size() < 90 ? (ctx.dir() + "/").c_str() : "./"}) + m.c.path; ctx.label("path pattern"); }
        if (combo) { m.c.rollback = (int)s.range(0, 3); m.c.stuff = s.coin(); m.c.limit = s.coin() ? 0 : s.range(30, 200); }
        dv.push_back(m);
    }
    std::string t = std::string(" - channel: 0\n    sync: ") + (sync ? "sync" : "async") + "\n";
    for (auto& m : dv) {
        t += fmt("    -device: %d\n        disable: false\n        out_type: file\n        priority: %s\n", m.c.dev, PRI_NAMES[m.c.dev]);
        if (!m.c.file.empty()) t += "        file: \"" + m.c.file + "\"\n";
        if (!m.c.path.empty()) t += "        path: \"" + m.c.path + "\"\n";
        if (m.c.daily) t += "        rolldaily: true\n" ; if (m.c.hourly) t += "        rollhourly: true\n";
        if (m.c.rollback) t += fmt("        rollback: %d\n", m.c.rollback); if (m.c.stuff) t += "        stuff_up: true\n";
        key += "|" + m.c.path + "/" + m.c.file; ctx.note("device %d: path \"%s\" file \"%s\" daily %d hourly %d rollback %d stuff_up %d limit %lld", m.c.dev, m.c.path.c_str(), m.c.file.c_str(), m.c.daily, m.c.hourly, m.c.rollback, m.c.stuff, m.c.limit);
    }
    ll cur = std::max(100LL, gen_instant(s, ctx, MAXT13)); int runs = s.chance(1, 4) ? 2 : 1, days = 0, n = 0, serial = 0; bool amb = false;
    std::string root = ctx.dir(); 
    auto rel = [&](Tree& got) { Tree w; for (auto& x : want) { std::string p = x.first; std::string d = clean_path(root) + "/"; if (p.compare(0, d.size(), d) == 0) p = p.substr(d.size()); w[p] = x.second; } return tree_diff(w, got); };
    for (int r = 0; r < runs && !amb; r++) {
        vclock::set(cur, (int)s.range(0, 999));
        CHECK(ParseAndStartLogger(*lg, t) == 0, "start failed:\n%s", t.c_str());
        for (auto& m : dv) { m.stop(); if (combo && m.c.limit) SetDeviceConfig(*lg, 0, m.c.dev, DEVICE_CFG_FILE_LIMIT_SIZE, m.c.limit); }
        for (Seq q(s, 1, 30, 10); q.next() && !amb;) {
            ll prev = cur;
            switch (s.weighted({2, 6, 2})) {
            case 0: break;
            case 1: cur += s.coin() ? s.pick({1LL, -1LL, 60LL, 1799LL, 1800LL, 3599LL, 3600LL, -3600LL, 7200LL, 82800LL, 86399LL, 86400LL, -86400LL, 90000LL, 43200LL}) : s.range(-4000, 8000); break;
            default: cur = gen_instant(s, ctx, MAXT13);
            }
            cur = std::max(100LL, std::min(MAXT13, cur)); days += !same_day(prev, cur);
            vclock::set(cur, (int)s.range(0, 999)); int pri = (int)s.u(ndev); std::string l = fmt("%d:", ++serial) + s.str(0, 30, "abc ");
            for (auto& m : dv) if (pri >= m.c.dev) m.write(l + "\n", cur);
            put(*lg, 0, pri, 0, 0, l); n++; key += fmt(" %lld", cur);
            struct tm a = ltm(cur); ctx.note("  line %d priority %d at %lld = %04d-%02d-%02d %02d:%02d:%02d %s", serial, pri, cur, a.tm_year + 1900, a.tm_mon + 1, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, zone);
            for (auto& m : dv) amb |= m.ambiguous;
            if (amb) break;   // repeated local hour: both readings are acceptable, the rest of the history is not judged
            if (sync) { Tree got; read_tree(root, "", got); std::string d = rel(got); CHECK(d.empty(), "after line %d: %s", serial, d.c_str()); }
        }
        CHECK(StopLogger(*lg) == 0, "stop failed");
        if (!amb) { Tree got; read_tree(root, "", got); std::string d = rel(got); CHECK(d.empty(), "after run %d: %s", r, d.c_str()); }
    }
    if (amb) ctx.label("ended at a repeated hour");
    for (auto& m : dv) { if (m.opens > 1) ctx.label(m.c.daily ? "daily rolled" : m.c.hourly ? "hourly rolled" : "restart"); }
    ctx.nontrivial(n >= 2 && (days > 0 || dv[0].opens > 1)); ctx.key(key); vclock::on() = false;
}
PROP(dateroll, 40, 20000) { run(s, ctx, false); }
PROP(combo, 40, 20000) { run(s, ctx, true); }
// the process name, whatever the program was started as
PROP(procname, 20, 20000) {
    static const char* B = "abcXYZ019-_.,~@+= $%#"; std::string base = s.str(1, s.chance(1, 4) ? 255 : 30, B), dir;
    if (s.chance(1, 6)) base.insert((size_t)s.u(base.size() + 1), s.pick({"$PNAME", "$PID", "$YEAR", "%F", "\n", "\t", "$"})); if (base.size() > 255) base.resize(255); if (base == "." || base == "..") base = "x";
    if (s.coin()) { int want = (int)s.pick({1LL, 20LL, 200LL, 440LL, 480LL, 499LL, 500LL, 600LL, 2000LL}) + (int)s.u(20); while ((int)dir.size() < want) dir += (s.chance(1, 20) ? "\n" : "") + s.str(1, 60, B) + "/"; if (s.coin()) dir = "/" + dir; }
    FileModel m; Tree want; m.tree = &want; m.c.ch = 0; m.c.dev = 0; std::string pat; const size_t room = 230;
    if (base.size() + 4 <= room && !s.chance(1, 4)) { pat = s.pick({"$PNAME", "$PNAME", "$PID$PNAME", "p$PNAME.$YEAR", "$PNAME$PNAME", "a$PNAME%F"}); if (base.size() * 2 + 20 > room) pat = "$PNAME"; } else if (base.size() < 200 && s.coin()) pat = ""; else pat = "f";
    ll now = s.range(100, 2145916800LL); std::string nm = s.chance(1, 4) ? s.str(1, 20, "abc") : "";
    ctx.note("started as \"%s\", file \"%s\", %s%s", esc(dir + base, 3000).c_str(), pat.c_str(), nm.empty() ? "no logger_name" : "logger_name ", nm.c_str()); ctx.key(dir + base + "|" + pat); ctx.nontrivial(!dir.empty() || base.size() > 30 || base.find('$') != std::string::npos); ctx.label(dir.size() + base.size() >= 500 ? "500 bytes or more" : "shorter");
    use_zone("UTC"); std::string t = (nm.empty() ? "" : "logger_name: " + nm + "\n") + " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n" + (pat.empty() ? "" : "        file: \"" + pat + "\"\n"), clk = fmt("%lld", now), as = dir + base;
    if (mkdir("w", 0777) != 0) ctx.fail("no directory"); pid_t pid = fork();
    if (pid == 0) { if (chdir("w") != 0) _exit(71); const char* av[] = {as.c_str(), "procname", t.c_str(), clk.c_str(), nullptr}; execv("/proc/self/exe", (char**)av); _exit(70); }
    int st = 0; u64 t0 = mono_ms(); while (waitpid(pid, &st, WNOHANG) == 0) { if (mono_ms() - t0 > 6000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); ctx.fail("the program does not end"); } real_sleep_ms(1); }
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status %x", st);
    struct tm a = ltm(now); const std::string& pn = base;
    // the rest holds only variables of the time
    std::string rest; { std::string p = pat.empty() ? "$PNAME_$YEAR$MON$DAY_$PID.00" : pat; for (size_t i = 0; i < p.size();) { if (p.compare(i, 6, "$PNAME") == 0) { rest += pn; i += 6; } else if (p.compare(i, 4, "$PID") == 0) { rest += fmt("%06d", (int)pid); i += 4; } else if (p.compare(i, 2, "%F") == 0) { rest += model_expand("%F", a); i += 2; } else if (p[i] == '$') { size_t e = i + 1; while (e < p.size() && isupper((unsigned char)p[e])) e++; rest += model_expand(p.substr(i, e - i), a); i = e; } else rest += p[i++]; } }
    auto got = list_dir("w"); std::string names; for (auto& g : got) names += "\"" + esc(g, 400) + "\" ";
    CHECK(got.size() == 1 && got[0] == rest + ".log", "files %sexpected \"%s.log\"", names.c_str(), esc(rest, 400).c_str());
    std::string line = file_text("w/" + got[0]), ln = nm.empty() ? base.substr(0, Logger::MAX_LOGGER_NAME_LEN - 1) : nm;
    CHECK(line == "name=" + ln + "\n", "the logger's name is \"%s\", expected \"%s\"", esc(line, 600).c_str(), esc(ln, 600).c_str());
}
static int as_program(const char* text, const char* clk) {
    drop_fs(); prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); setenv("TZ", "UTC", 1); tzset(); vclock::set(atoll(clk)); LoggerPtr lg = mk_logger(); if (ParseAndStartLogger(*lg, text) != 0) return 3;
    put(*lg, 0, PRIORITY_INFO, 0, 0, std::string("name=") + std::string(lg->name_, lg->name_len_)); return StopLogger(*lg);
}
int main(int c, char** v) { if (c == 4 && !strcmp(v[1], "procname")) return as_program(v[2], v[3]); return pbt_main(c, v); }
