// C12: size rolling keeps every line, the size limit and the newest backups in order.
#include "filemodel.h"
#include <fcntl.h>
#include <set>
using namespace FNLog;
static const ll T0 = 1700000000;
static std::string body(Src& s, int n, ll serial) { std::string t = fmt("%lld:", serial); while ((int)t.size() < n) t += (char)('a' + (t.size() * 7 + serial) % 26); if ((int)t.size() > n && n > 0) t.resize(n); return t; }
static std::string dev_text(const FileCfg& c, const char* pri) {
    std::string t = fmt("    -device: %d\n        disable: false\n        out_type: file\n        priority: %s\n        file: \"%s\"\n", c.dev, pri, c.file.c_str());
    if (!c.path.empty()) t += "        path: \"" + c.path + "\"\n";
    if (c.rollback) t += fmt("        rollback: %d\n", c.rollback);
    if (c.stuff) t += "        stuff_up: true\n";
    return t;
}
// contiguity as the property states it, judged from the files alone
static std::string contiguous(const Tree& t, const std::string& live, int n, const std::vector<std::string>& all) {
    std::string cat; for (int i = n; i >= 0; i--) { auto it = t.find(i ? live + "." + std::to_string(i) : live); if (it != t.end()) { if (!it->second.empty() && it->second.back() != '\n') return it->first + " ends within a line"; cat += it->second; } }
    std::string full; for (auto& l : all) full += l;
    if (cat.size() > full.size() || full.compare(full.size() - cat.size(), cat.size(), cat) != 0) return "backups plus live file are not the most recent lines in order";
    return "";
}
static void run(Src& s, Ctx& ctx, bool mega) {
    Tree want; LoggerPtr lg = mk_logger(); vclock::set(T0); std::string key; std::vector<FileModel> dv;
    int ndev = mega ? 1 : (int)s.range(1, 3); bool sync = mega ? s.coin() : s.chance(3, 4);
    std::vector<std::vector<std::string> > all(ndev);
    for (int i = 0; i < ndev; i++) { FileModel m; m.tree = &want; m.c.ch = 0; m.c.dev = i; m.c.file = fmt("%s%d", s.pick({"a", "x.1", "log", "b_2."}), i); m.c.path = s.pick({"", "", "./", "d", "d/e"}); dv.push_back(m); }
    int runs = mega ? (int)s.range(1, 2) : (int)s.range(1, 4); ll serial = 0; int total = 0, restarts = 0; ll now = T0; bool changed = false;
    for (int r = 0; r < runs; r++) {
        if (r > 0 && s.coin()) { lg.reset(); lg = mk_logger(); ctx.label("new logger object"); }
        if (r > 0) restarts++;
        bool fsame = r > 0 && s.chance(1, 2);
        std::string t = std::string(" - channel: 0\n    sync: ") + (sync ? "sync" : "async") + "\n";
        for (auto& m : dv) {
            if (!fsame) { ll old = m.c.rollback; m.c.rollback = mega ? (int)s.range(1, 3) : s.weighted({1, 3, 3, 2, 1, 1}) ; if (m.c.rollback == 5 && s.coin()) m.c.rollback = (int)s.range(9, 12); (void)old; m.c.stuff = s.coin(); m.c.limit = mega ? 1000000 : (s.chance(1, 6) ? 0 : s.chance(1, 6) ? 1 : s.range(20, s.coin() ? 120 : 600));
                if (r > 0 && m.c.rollback < old) m.c.rollback = (int)old; }   // fewer backups than before leaves older ones behind: outside the property
            t += dev_text(m.c, PRI_NAMES[m.c.dev]); if (mega) t += "        limit_size: 1 m\n";
            ctx.note("run %d: device %d file %s%s limit %lld rollback %d stuff_up %d", r, m.c.dev, m.c.path.c_str(), m.c.file.c_str(), m.c.limit, m.c.rollback, m.c.stuff); key += fmt("|%lld %d %d", m.c.limit, m.c.rollback, m.c.stuff);
        }
        // files left by an earlier process
        if (r == 0) for (auto& m : dv) if (!mega && s.chance(1, 3)) {
            std::string n = clean_path(model_name(m.c, T0)); int k = (int)s.range(0, std::max(1, m.c.rollback)); ctx.label("pre-existing files");
            if (!m.c.path.empty()) { mkdir("d", 0755); mkdir("d/e", 0755); }
            for (int j = k; j >= 0; j--) { std::string b = j ? n + "." + std::to_string(j) : n, l = body(s, (int)s.range(1, 60), 900000 + j) + "\n"; write_file(b, l); want[b] = l; all[m.c.dev].push_back(l); }
            ctx.note("file %s and %d backups exist", n.c_str(), k);
        }
        CHECK(ParseAndStartLogger(*lg, t) == 0, "start failed");
        if (!mega) for (auto& m : dv) SetDeviceConfig(*lg, 0, m.c.dev, DEVICE_CFG_FILE_LIMIT_SIZE, m.c.limit);
        for (auto& m : dv) m.stop();
        int n = mega ? (int)s.range(300, 700) : 0; Seq q(s, 0, 40, 12);
        for (int k = 0; mega ? k < n : q.next(); k++) {
            int len = mega ? (int)s.range(LOGMAX / 2, LOGMAX - 2) : s.chance(1, 12) ? (int)s.range(300, LOGMAX - 2) : s.chance(1, 4) && dv[0].c.limit > 1 ? (int)std::min<ll>(LOGMAX - 2, std::max<ll>(1, (dv[0].c.limit - (dv[0].open ? (ll)want[dv[0].cur].size() : 0)) + s.pick({-2, -1, 0, 1}))) : (int)s.range(1, 80);
            if (len < 1) len = 1;
            int pri = (int)s.u(ndev); std::string l = body(s, len, ++serial);
            if (s.chance(1, 6)) { now += s.range(0, 100000); vclock::set(now); }
            if (!mega && sync && s.chance(1, 12)) {       // limit or rollback changed while running, of one device or of all
                bool all_ = s.coin(), lim = s.coin(); int one = (int)s.u(ndev), most = 0; for (auto& m : dv) most = std::max(most, m.c.rollback); changed = true; ctx.label("changed while running");
                int v = lim ? (s.chance(1, 5) ? 0 : (int)s.range(10, 400)) : (all_ ? most : dv[one].c.rollback) + (int)s.range(0, 2);
                if (all_) { if (lim) SetAllFileLimitSize(*lg, v); else SetAllFileRollbackCount(*lg, v); } else SetDeviceConfig(*lg, 0, dv[one].c.dev, lim ? DEVICE_CFG_FILE_LIMIT_SIZE : DEVICE_CFG_FILE_ROLLBACK, v);
                for (int i = 0; i < ndev; i++) if (all_ || i == one) { if (lim) dv[i].c.limit = v; else dv[i].c.rollback = v; } ctx.note("  %s of device %d%s is %d now", lim ? "limit" : "rollback", one, all_ ? " and all others" : "", v); key += fmt(" !%d", v); }
            put(*lg, 0, pri, 0, 0, l); total++; l += "\n"; key += fmt(" %d", len);
            for (auto& m : dv) if (pri >= m.c.dev) { m.write(l, now); all[m.c.dev].push_back(l); }
            if (!mega) ctx.note("  line %lld: %d bytes, priority %d", serial, len, pri);
            if (sync && (!mega || k % 50 == 49)) {
                Tree got; read_tree(ctx.dir(), "", got); std::string d = tree_diff(want, got);
                CHECK(d.empty(), "after line %lld (%d bytes): %s", serial, len, d.c_str());
            }
        }
        CHECK(StopLogger(*lg) == 0, "stop failed");
        Tree got; read_tree(ctx.dir(), "", got); std::string d = tree_diff(want, got);
        CHECK(d.empty(), "after run %d: %s", r, d.c_str());
        for (auto& m : dv) if (m.opens) {
            std::string live = m.cur;
            for (auto& g : got) if (!changed && m.c.limit > 0 && m.c.rollback > 0 && r == 0 && g.second.find("900") == std::string::npos && (g.first == live || g.first.compare(0, live.size() + 1, live + ".") == 0)) {
                CHECK((ll)g.second.size() <= m.c.limit || std::count(g.second.begin(), g.second.end(), '\n') == 1, "%s has %zu bytes, limit %lld", g.first.c_str(), g.second.size(), m.c.limit); }
            std::string w = contiguous(got, live, 12, all[m.c.dev]); CHECK(w.empty(), "device %d: %s", m.c.dev, w.c_str());
        }
    }
    int rolls = 0; for (auto& m : dv) { rolls += m.rolls; if (m.limit_rolls) ctx.label("rolled by limit (stuff_up)"); if (m.rolls > m.c.rollback && m.c.rollback > 0) ctx.label("backups dropped"); if (m.rolls) ctx.label("rolled"); }
    if (restarts) ctx.label("restarted"); if (!sync) ctx.label("async");
    ctx.nontrivial(rolls > 0); ctx.key(key);
    vclock::on() = false;
}
// Files beyond what 31 or 32 bits can count: an existing sparse file, limits around its size.
struct Big { ll base = 0; std::string mark, added; ll size() const { return base + (ll)added.size(); } };
PROP(huge, 20, 20000) {
    static const ll EDGES[] = {1LL << 31, 1LL << 32, 3000000000LL, 5000000000LL, (1LL << 31) + (1LL << 32), 1LL << 36};
    LoggerPtr lg = mk_logger(); ll now = T0; vclock::set(now); bool dir = s.coin(); std::string live = dir ? "d/big.log" : "big.log"; if (dir) mkdir("d", 0755);
    std::vector<Big> fs; int rollback = (int)s.range(0, 3), pre = (int)s.range(1, 1 + rollback); bool stuff = s.chance(3, 4), sync = s.chance(3, 4); ll edge = EDGES[s.u(6)], limit;
    for (int i = 0; i < pre; i++) { Big b; b.base = (s.coin() ? edge : EDGES[s.u(6)]) + s.range(-300, 300); b.mark = fmt("#%d\n", i); std::string n = i ? live + fmt(".%d", i) : live; int fd = open(n.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); CHECK(fd >= 0, "cannot create %s", n.c_str()); bool ok = write(fd, b.mark.data(), b.mark.size()) == (ssize_t)b.mark.size() && ftruncate(fd, b.base - 1) == 0 && pwrite(fd, "\n", 1, b.base - 1) == 1; close(fd); if (!ok) { unlink(n.c_str()); ctx.discard(); return; } ctx.note("%s has %lld bytes", n.c_str(), b.base); fs.push_back(b); }
    switch (s.weighted({5, 2, 1, 2})) { case 0: limit = fs[0].base + s.range(-50, 600); break; case 1: limit = edge + s.range(-300, 300); break; case 2: limit = 0; break; default: limit = s.pick({2148LL, 4295LL, 3001LL, 5001LL, 6000LL}) * 1000000; }
    bool in_text = limit && limit % 1000000 == 0; std::string t = fmt(" - channel: 0\n    sync: %s\n    -device: 0\n        disable: false\n        out_type: file\n        file: \"big\"\n        path: \"%s\"\n", sync ? "sync" : "async", dir ? "d" : "./"); if (rollback) t += fmt("        rollback: %d\n", rollback); if (stuff) t += "        stuff_up: true\n"; if (in_text) t += fmt("        limit_size: %lld m\n", limit / 1000000);
    ctx.note("limit %lld%s, rollback %d, stuff_up %d, %s", limit, in_text ? " (written in the text)" : "", rollback, stuff, sync ? "sync" : "async"); ctx.key(fmt("%lld %lld %d %d", fs[0].base, limit, rollback, stuff));
    bool open_ = false; int rolls = 0; ll serial = 0; auto roll = [&](int n) { if (fs.empty() || fs[0].base < 0) return; rolls++; fs.insert(fs.begin(), Big{-1, "", ""}); while ((int)fs.size() > n + 1) fs.pop_back(); };
    auto verify = [&](const char* when) {
        Tree none; std::set<std::string> seen; for (auto& d : {std::string("."), std::string("d")}) for (auto& n : list_dir(d)) if (n.compare(0, 7, "big.log") == 0) seen.insert(d == "." ? n : "d/" + n);
        for (size_t i = 0; i < fs.size(); i++) { if (fs[i].base < 0) continue; Big& b = fs[i]; std::string n = i ? live + fmt(".%zu", i) : live; CHECK(seen.erase(n), "%s: %s is missing", when, n.c_str());
            struct stat st; CHECK(stat(n.c_str(), &st) == 0 && (ll)st.st_size == b.size(), "%s: %s has %lld bytes, expected %lld (it started with %lld)", when, n.c_str(), (ll)st.st_size, b.size(), b.base);
            int fd = ::open(n.c_str(), O_RDONLY); std::string m(b.mark.size(), 0), a(b.added.size(), 0); bool ok = (m.empty() || pread(fd, &m[0], m.size(), 0) == (ssize_t)m.size()) && (a.empty() || pread(fd, &a[0], a.size(), b.base) == (ssize_t)a.size()); close(fd); CHECK(ok && m == b.mark && a == b.added, "%s: %s starts with \"%s\" (expected \"%s\") and ends with \"%s\" (expected \"%s\")", when, n.c_str(), esc(m).c_str(), esc(b.mark).c_str(), esc(a, 80).c_str(), esc(b.added, 80).c_str()); }
        CHECK(seen.empty(), "%s: unexpected file %s", when, seen.begin()->c_str());
        if (open_) CHECK(GetDeviceLog(*lg, 0, 0, DEVICE_LOG_CUR_FILE_SIZE) == fs[0].size(), "%s: the device counts a file size of %lld, it is %lld", when, GetDeviceLog(*lg, 0, 0, DEVICE_LOG_CUR_FILE_SIZE), fs[0].size()); };
    int runs = (int)s.range(1, 3); bool filled = false; for (int r = 0; r < runs; r++) {
        CHECK(ParseAndStartLogger(*lg, t) == 0, "start failed"); open_ = false; if (!in_text) SetDeviceConfig(*lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, limit); Seq q(s, 1, 14, 6);
        while (q.next()) { ll size = !fs.empty() && fs[0].base >= 0 ? fs[0].size() : 0, room = limit - size; int len = room > 2 && room < LOGMAX - 4 && s.coin() ? (int)(room - 1 + s.range(-1, 1)) : (int)s.range(1, 200); len = std::max(1, std::min(len, LOGMAX - 4)); std::string l = body(s, len, ++serial) + "\n"; ll n = (ll)l.size();
            if (open_ && limit > 0 && rollback > 0 && fs[0].size() + n > limit) { roll(rollback); }
            else if (!open_) { if ((limit > 0 || rollback > 0) && !stuff) roll(rollback > 0 ? rollback : 1); else if (stuff && limit > 0 && rollback > 0 && size > 0 && size + n > limit) roll(rollback); else if (size) filled = true; }
            open_ = true; if (fs[0].base < 0) fs[0].base = 0; fs[0].added += l; put(*lg, 0, 0, 0, 0, l.substr(0, l.size() - 1)); ctx.note("  line of %lld bytes", n); if (sync) verify(fmt("after line %lld", serial).c_str()); }
        CHECK(StopLogger(*lg) == 0, "stop failed"); verify("after the stop"); }
    if (rolls) ctx.label("rolled"); if (filled) ctx.label("continued the large file"); if (in_text) ctx.label("limit in the text"); ctx.nontrivial(rolls || filled); for (size_t i = 0; i < 6; i++) unlink((i ? live + fmt(".%zu", i) : live).c_str()); vclock::on() = false;
}
PROP(sizeroll, 40, 20000) { run(s, ctx, false); }
PROP(mega, 4, 30000) { run(s, ctx, true); }
int main(int c, char** v) { return pbt_main(c, v); }
