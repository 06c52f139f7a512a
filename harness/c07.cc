// C07: no configuration bytes can crash, hang or corrupt the logger.
#include "cfggen.h"
#include "contain.h"
using namespace FNLog;
static const char* const KEYS[] = {"channel", "device", "sync", "disable", "out_type", "in_type", "priority", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask", "limit_size", "rollback", "rolldaily", "rollhourly", "stuff_up", "udp_addr", "path", "file", "logger_name", "logger_desc", "hot_update", "define", "def", "var", "shm_key", "c", "ca", "category_", "category_e", "category_w", "identify_x", "de", "di", "d", "logger_", "roll", "rollback_", "ro", "zz"};
static std::string number(Src& s) {
    switch (s.u(7)) { case 0: return fmt("%d", (int)s.range(-2, 70)); case 1: return fmt("%lld", (ll)s.bits() >> s.u(64)); case 2: return fmt("%llu", s.bits() >> s.u(64));
    case 3: return s.pick({"2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775808", "999999999999999999999999999999"});
    case 4: return fmt("0x%llx", s.bits() >> s.u(64)); case 5: return std::string((size_t)(s.coin() ? s.skew(1, 60) : s.range(36, 56)), (char)('0' + s.u(10))); default: return fmt("%lld-%lld", (ll)s.bits() >> s.range(30, 63), (ll)s.bits() >> s.range(30, 63)); }
}
static std::string bytes(Src& s, int maxlen) { std::string o; int n = (int)s.skew(0, maxlen); for (int i = 0; i < n; i++) o += (char)s.u(256); return o; }
static std::string value(Src& s) {
    switch (s.u(12)) {
    case 0: return number(s); case 1: { std::string o; for (int i = 0, n = (int)s.range(1, 8); i < n; i++) o += (i ? s.pick({",", "-", " - ", ", "}) : "") + number(s); return o; }
    case 2: return s.pick({"true", "false", "sync", "async", "file", "udp", "screen", "vm", "empty", "null", "trace", "error"});
    case 3: return std::string((size_t)s.pick({48LL, 49LL, 50LL, 51LL, 198LL, 199LL, 200LL, 201LL, 249LL, 250LL, 251LL, 400LL, 5000LL}), 'n');
    case 4: return s.pick({"\"", "[", "{", "\"\"", "[]", "{}", "]", "\"x", "[1,2", "{a=b", "}"}) ; case 5: if (s.coin()) return std::string(s.pick({"127.0.0.1", "1.2.3.4", "", "local", " "})) + s.pick({":", " ", ": "}) + std::string((size_t)(s.coin() ? s.skew(1, 70) : s.range(36, 60)), (char)('0' + s.u(10))); return s.pick({"127.0.0.1:80", "1.2.3.4", "host:99", ":", "999.9.9.9:70000", "a_b", "127.0.0.1_8080"});
    case 6: return "$" + s.str(0, 3, "aA_{}$"); case 7: return s.str(1, 4, "abA_") + s.pick({" ", "=", " = ", "\t", ""}) + s.str(0, 4, "abA_$,=\" ");
    case 8: return bytes(s, 40); case 9: return "$%F$PNAME$PID$YEAR%"; case 10: return ""; default: return s.str(0, 30, "abz019_-:/.,$~% \t\"{}[]#=");
    }
}
static std::string soup(Src& s) {
    std::string t; int depth = 0; Seq q(s, 0, 60, 14);
    while (q.next()) {
        std::string k; if (s.chance(1, 3)) { k = s.pick({"channel", "device"}); } else k = KEYS[s.u(sizeof KEYS / sizeof *KEYS)];
        if (k == "channel") depth = 1; else if (k == "device") depth = 5; int ind = s.chance(1, 6) ? (int)s.range(0, 12) : depth == 0 ? 1 : depth == 1 ? (k == "channel" ? 1 : 3) : (k == "device" ? 4 : 8);
        t += std::string(ind, s.chance(1, 20) ? '\t' : ' ') + (s.chance(1, 4) ? "-" : "") + k + (s.chance(1, 15) ? "" : ":") + (s.coin() ? " " : "");
        if ((k == "channel" || k == "device") && s.chance(5, 6)) t += fmt("%d", (int)s.range(0, 3)); else t += value(s);
        if (s.chance(1, 8)) t += "#" + bytes(s, 8); t += s.chance(1, 20) ? "" : s.pick({"\n", "\n", "\n", "\r\n", "\r", "\n\r"});
    }
    return t;
}
static std::string mutate(Src& s, std::string t) {
    Seq q(s, 0, 12, 4);
    while (q.next()) {
        size_t n = t.size(), p = n ? s.u(n + 1) : 0, e = n ? p + s.u(std::min<size_t>(n - p, 30) + 1) : 0;
        switch (s.u(13)) {
        case 9: case 10: case 11: case 12: { size_t a = t.find(':', p); if (a == std::string::npos) break; size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size(); t.replace(a + 1, b - a - 1, (s.coin() ? " " : "") + value(s)); break; }   // another value for one key
        case 0: t.erase(p, e - p); break; case 1: t.insert(p, bytes(s, 6)); break; case 2: if (p < n) t[p] = (char)s.u(256); break;
        case 3: t.resize(p); break; case 4: t.insert(p, std::string((size_t)s.pick({1LL, 60LL, 250LL, 3000LL}), s.pick({' ', 'a', '-', '\n', '0', '\0', '"', '\xff'}))); break;
        case 5: t.insert(p, value(s)); break; case 6: t.insert(p, t.substr(p, e - p)); break; case 7: { size_t a = t.find('\n', p); if (a != std::string::npos) { size_t b = t.find('\n', a + 1); if (b != std::string::npos) { std::string l = t.substr(a, b - a); for (int i = 0, k = (int)s.skew(1, 25); i < k; i++) t.insert(a, l); } } break; }
        default: t.insert(p, s.pick({"#", ":", "\"", "$", "${", "}", ",", "=", "\r", "- define: A$a $a\n", "var: a=$a\n", "- def: FOO FOO\n", "\nchannel:"})); break;
        }
    }
    return t;
}
static void check_works(Logger& lg, Ctx& ctx, const std::string& what) {
    std::string p = ctx.dir() + "/ok"; std::string t = " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        path: \"" + ctx.dir() + "\"\n        file: ok\n";
    int r = ParseAndStartLogger(lg, t); CHECK(r == 0, "after %s a valid configuration is refused with %d", what.c_str(), r);
    put(lg, 0, PRIORITY_INFO, 0, 0, "still works"); std::string g = file_text(p + ".log");
    CHECK(g == "still works\n", "after %s the log file holds \"%s\"", what.c_str(), esc(g).c_str());
    CHECK(StopLogger(lg) == 0, "after %s stop fails", what.c_str());
}
static void one(Src& s, Ctx& ctx, const std::string& t, bool start, const char* kind) {
    LoggerPtr lp = mk_logger(); Logger& lg = *lp; bool file = s.coin(); int r; u64 t0 = mono_ms();
    ctx.note("%s, %zu bytes, %s:\n%s", kind, t.size(), file ? "file" : "text", esc(t, 5000).c_str());
    if (file) { std::string p = ctx.dir() + "/c.yaml"; write_file(p, t); r = start ? LoadAndStartLogger(lg, p) : InitFromYMALFile(lg, p); }
    else r = start ? ParseAndStartLogger(lg, t) : InitFromYMAL(lg, t, "");
    u64 dt = mono_ms() - t0; ctx.note("-> %d in %llu ms", r, dt);
    CHECK(dt < 3000, "the configuration took %llu ms", dt);
    ctx.label(std::string(kind) + (r == 0 ? " accepted" : " rejected")); ctx.nontrivial(t.size() > 20); ctx.key(t);
    if (r == 0) { CHECK(lg.shm_ && lg.shm_->channel_size_ >= 1 && lg.shm_->channel_size_ <= Logger::MAX_CHANNEL_SIZE, "accepted with %d channels", lg.shm_->channel_size_);
        for (int i = 0; i < lg.shm_->channel_size_; i++) { Channel& c = lg.shm_->channels_[i]; CHECK(c.device_size_ >= 0 && c.device_size_ <= Channel::MAX_DEVICE_SIZE, "channel %d accepted with %d devices", i, c.device_size_);
            for (int d = 0; d < c.device_size_; d++) { CHECK(strnlen(c.devices_[d].out_file_, Device::MAX_LOGGER_NAME_LEN) < (size_t)Device::MAX_LOGGER_NAME_LEN && strnlen(c.devices_[d].out_path_, Device::MAX_PATH_LEN) < (size_t)Device::MAX_PATH_LEN, "unterminated name in channel %d device %d", i, d); } }
        CHECK(lg.name_len_ >= 0 && lg.name_len_ < Logger::MAX_LOGGER_NAME_LEN && lg.name_[lg.name_len_] == 0 && lg.desc_len_ >= 0 && lg.desc_len_ < Logger::MAX_LOGGER_DESC_LEN && lg.desc_[lg.desc_len_] == 0, "logger name or description overflow: %d %d", lg.name_len_, lg.desc_len_);
        if (start) CHECK(StopLogger(lg) == 0, "stop fails"); }
    if (s.chance(1, 3)) check_works(lg, ctx, fmt("this configuration (result %d)", r));
}
PROP(mutated, 40, 20000) { cfg::Conf c = cfg::gen(s, 4, 5); cfg::Writer w(s, s.chance(1, 4)); std::string t = w.write(c); t = mutate(s, t); one(s, ctx, t, s.chance(1, 4), "mutated"); }
PROP(soupy, 60, 20000) { std::string t = soup(s); if (s.coin()) t = mutate(s, t); one(s, ctx, t, s.chance(1, 4), "soup"); }
PROP(raw, 100, 20000) { std::string t = s.coin() ? bytes(s, 300) : s.str(0, 200, "abcdeinlpry_:- \t\n\r\"[]{}#$0123456789,="); one(s, ctx, t, s.chance(1, 4), "raw"); }
// a well-formed text with one value of a chosen kind and any length: fixed-size copies inside the value parsers
PROP(valuelen, 40, 20000) {
    static const char* CH[] = {"sync", "category", "category_extend", "category_wmask", "identify", "identify_blist", "priority", "filter", "zz"};
    static const char* DV[] = {"out_type", "in_type", "udp_addr", "udp_addr", "udp_addr", "disable", "file", "path", "rollback", "limit_size", "rolldaily", "rollhourly", "stuff_up", "priority", "category", "category_extend", "category_wmask", "identify", "identify_extend", "identify_wmask"};
    static const char* LG[] = {"shm_key", "hot_update", "logger_name", "logger_desc"};
    int len = (int)s.range(0, 80); if (s.chance(1, 8)) len = (int)s.range(80, 320);
    auto run = [&](int n) { std::string o; int kind = (int)s.u(8); char c = (char)('1' + s.u(9)); for (int i = 0; i < n; i++) o += kind < 4 ? c : kind == 4 ? (char)('0' + s.u(10)) : kind == 5 ? "0123456789abcdefxX"[s.u(18)] : kind == 6 ? (char)('a' + s.u(26)) : ",-0123456789."[s.u(13)]; return o; };
    std::string v; int where = (int)s.weighted({1, 3, 6}); const char* key = where == 0 ? LG[s.u(4)] : where == 1 ? CH[s.u(9)] : DV[s.u(20)];
    if (!strcmp(key, "udp_addr")) { std::string ip = s.coin() ? s.pick({"127.0.0.1", "1.2.3.4", "255.255.255.255", "0.0.0.0"}) : run((int)s.skew(1, 45)); v = ip + s.pick({":", ":", ":", " ", "::"}) + run(len); }
    else { v = run(len); switch (s.u(6)) { case 0: v = "-" + v; break; case 1: v = "0x" + v; break; case 2: v = v + "," + run((int)s.skew(0, 60)); break; case 3: v = "\"" + v + "\""; break; case 4: v = "[" + v + "]"; break; } }
    std::string l = std::string(key) + ": " + v + s.pick({"\n", "\n", "\r\n", " \n", " # c\n"});
    std::string t = where == 0 ? "- " + l : ""; t += " - channel: 0\n    sync: sync\n"; if (where == 1) t += "    " + l; t += "    -device: 0\n        disable: " + std::string(s.coin() ? "true" : "false") + "\n        out_type: file\n        path: \"" + ctx.dir() + "/v\"\n"; if (where == 2) t += "        " + l;
    if (s.chance(1, 6)) t.resize(t.find(l) + s.u(l.size() + 1));
    one(s, ctx, t, false, "valuelen");
}
// sizes at and beyond the limits
PROP(limits, 20, 20000) {
    std::string t; int nc = (int)s.skew(1, 7); bool dup = s.chance(1, 5); bool bad = nc > Logger::MAX_CHANNEL_SIZE;
    int nm = (int)s.pick({1LL, 48LL, 49LL, 50LL, 248LL, 249LL, 250LL, 251LL, 600LL}), de = (int)s.pick({1LL, 48LL, 49LL, 50LL, 51LL, 300LL});
    t += "- logger_name: " + std::string(nm, 'm') + "\n- logger_desc: " + std::string(de, 'e') + "\n"; std::vector<int> nds; std::vector<std::pair<int, int> > lens;
    for (int i = 0; i < nc; i++) {
        int id = i; if (dup && s.chance(1, 4)) { id = (int)s.range(-1, 5); if (id != i) bad = true; } t += fmt(" - channel: %d\n    sync: sync\n", id);
        int nd = s.coin() ? (int)s.range(0, 3) : (int)s.range(Channel::MAX_DEVICE_SIZE - 2, Channel::MAX_DEVICE_SIZE + 3); if (nd > Channel::MAX_DEVICE_SIZE) bad = true; nds.push_back(nd);
        for (int d = 0; d < nd; d++) { int did = d; if (dup && s.chance(1, 12)) { did = (int)s.range(-1, 5); if (did != d) bad = true; }
            int fl = (int)s.pick({1LL, 46LL, 47LL, 48LL, 49LL, 50LL, 51LL, 300LL}), pl = (int)s.pick({1LL, 197LL, 198LL, 199LL, 200LL, 201LL, 700LL}); lens.push_back({fl, pl});
            t += fmt("    -device: %d\n        disable: true\n        out_type: file\n        file: %s\n        path: %s\n", did, std::string(fl, 'f').c_str(), std::string(pl, 'p').c_str()); }
    }
    LoggerPtr lp = mk_logger(); int r = ParseAndStartLogger(*lp, t); ctx.note("channels %d name %d desc %d -> %d", nc, nm, de, r); ctx.nontrivial(); ctx.key(t); ctx.label(r ? "rejected" : "accepted");
    CHECK((r != 0) == bad, "%s configuration gives %d", bad ? "an excessive or out of sequence" : "a valid", r);
    if (!r) {
        CHECK(std::string(lp->name_) == std::string(std::min(nm, Logger::MAX_LOGGER_NAME_LEN - 1), 'm') && lp->name_len_ == std::min(nm, Logger::MAX_LOGGER_NAME_LEN - 1), "logger name of %d bytes becomes \"%s\"", nm, lp->name_);
        CHECK(std::string(lp->desc_) == std::string(std::min(de, Logger::MAX_LOGGER_DESC_LEN - 1), 'e') && lp->desc_len_ == std::min(de, Logger::MAX_LOGGER_DESC_LEN - 1), "description of %d bytes becomes \"%s\"", de, lp->desc_);
        size_t k = 0; for (int i = 0; i < nc; i++) for (int d = 0; d < nds[i]; d++, k++) {
            std::string f = lp->shm_->channels_[i].devices_[d].out_file_, p = lp->shm_->channels_[i].devices_[d].out_path_;
            CHECK(f == std::string(f.size(), 'f') && (int)f.size() <= lens[k].first && (lens[k].first >= 48 || (int)f.size() == lens[k].first), "file of %d bytes becomes \"%s\"", lens[k].first, f.c_str());
            CHECK(p == std::string(p.size(), 'p') && (int)p.size() <= lens[k].second && (lens[k].second >= 198 || (int)p.size() == lens[k].second), "path of %d bytes becomes \"%s\"", lens[k].second, p.c_str()); }
        CHECK(StopLogger(*lp) == 0, "stop");
    }
    check_works(*lp, ctx, "this configuration");
}
int main(int c, char** v) { return pbt_main(c, v); }
