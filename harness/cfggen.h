// Random configuration models and their rendering as text in the documented language.
#pragma once
#include "fx.h"
namespace cfg {
typedef unsigned long long ull;
static const char* const OUT_NAMES[] = {"file", "udp", "screen", "virtual", "empty"};
static const FNLog::DeviceOutType OUT_TYPES[] = {FNLog::DEVICE_OUT_FILE, FNLog::DEVICE_OUT_UDP, FNLog::DEVICE_OUT_SCREEN, FNLog::DEVICE_OUT_VIRTUAL, FNLog::DEVICE_OUT_EMPTY};
struct Filt { bool has_pri = false, has_cat = false, has_cat_ext = false, has_id = false, has_id_ext = false; int pri = 0; ll cat = 0, cat_ext = 0, id = 0, id_ext = 0; ull cat_mask = 0, id_mask = 0; };
struct Dev { int out = 0; bool in_udp = false; int disable = -1; Filt f; std::string file, path; ll limit_m = -1, rollback = -1; int daily = -1, hourly = -1, stuff = -1; std::string ip; bool dn = false; int port = 0; };
struct Chan { int sync = -1; Filt f; std::vector<Dev> devs; };
struct Conf { int hot = -1; std::string name, desc; std::vector<Chan> ch; };
static const char* FCH = "abcdefgxyzABCXYZ0189_-.,~";
inline ll big(Src& s) { switch (s.u(5)) { case 0: return s.range(0, 70); case 1: return s.range(0, 100000); case 2: return s.pick({2147483647LL, 2147483648LL, 4294967296LL, 5000000000LL, 1LL << 52}); case 3: return -(ll)s.range(1, 1000); default: return 0; } }
inline void gen_filt(Src& s, Filt& f) {
    if (s.chance(1, 3)) { f.has_pri = true; f.pri = (int)s.u(7); }
    if (s.chance(1, 4)) { f.has_cat = true; f.cat = s.coin() ? s.range(0, 63) : (int)big(s); }
    if (s.chance(1, 4)) { f.has_cat_ext = true; f.cat_ext = s.range(0, 100); }
    if (s.chance(1, 4)) { f.has_id = true; f.id = big(s); }
    if (s.chance(1, 4)) { f.has_id_ext = true; f.id_ext = s.coin() ? s.range(0, 100) : big(s); if (f.id_ext < 0) f.id_ext = 7; }
    auto mask = [&] { ull m = 0; switch (s.u(4)) { case 0: m = 1ULL << s.u(64); break; case 1: for (int i = 0, n = (int)s.range(1, 5); i < n; i++) m |= 1ULL << s.u(64); break; case 2: m = s.bits(); break; default: m = s.pick({~0ULL, 1ULL << 63, 0x7fffffffffffffffULL, 0xfffffffffffffffeULL, 0xffffffffULL}); } return m ? m : 5; };
    if (s.chance(1, 4)) f.cat_mask = mask();
    if (s.chance(1, 4)) f.id_mask = mask();
}
inline Conf gen(Src& s, int maxch, int maxdev) {
    Conf c; if (s.chance(1, 4)) c.hot = s.coin();
    if (s.chance(1, 3)) c.name = s.str(1, 20, FCH);
    if (s.chance(1, 3)) { c.desc = s.str(1, 20, FCH); if (s.chance(1, 3)) c.desc += " " + s.str(1, 8, FCH); }
    if (s.chance(1, 20)) c.name = s.str(245, 249, FCH); if (s.chance(1, 20)) c.desc = s.str(45, 49, FCH);
    int nc = (int)s.range(1, maxch);
    for (int i = 0; i < nc; i++) {
        Chan C; if (s.chance(2, 3)) C.sync = s.coin();
        if (s.coin()) gen_filt(s, C.f);
        int nd = (int)s.skew(0, maxdev);
        for (int d = 0; d < nd; d++) {
            Dev D; D.out = (int)s.weighted({5, 2, 2, 1, 2}); if (s.chance(4, 5)) D.disable = s.coin();
            if (s.coin()) gen_filt(s, D.f);
            if (s.chance(1, 2)) { D.file = s.str(1, 30, FCH); if (s.chance(1, 3)) D.file += s.pick({"$PNAME", "$PID", "$YEAR$MON$DAY", "_%F", "$HOUR:$MIN"}); }
            if (s.chance(1, 2)) { D.path = s.pick({"./", "/tmp/", "log/", "./log", "a/b/c/", "$YEAR/$MON"}); if (s.coin()) D.path += s.str(1, 60, FCH); }
            if (s.chance(1, 20)) D.file = s.str(45, 48, FCH); if (s.chance(1, 20)) D.path = "./" + s.str(190, 196, FCH);   // up to the longest allowed
            if (s.chance(1, 3)) D.limit_m = s.coin() ? s.range(0, 100) : s.pick({1000LL, 5000LL, 1000000LL});
            if (s.chance(1, 3)) D.rollback = s.range(0, 12);
            if (s.chance(1, 5)) D.daily = s.coin();
            if (s.chance(1, 5)) D.hourly = s.coin();
            if (s.chance(1, 5)) D.stuff = s.coin();
            if (D.out == 1 || s.chance(1, 10)) { D.ip = fmt("%d.%d.%d.%d", (int)s.range(1, 255), (int)s.u(256), (int)s.u(256), (int)s.u(255)); D.port = (int)s.range(1, 65535); if (s.chance(1, 6)) { D.dn = true; D.ip = s.pick({"localhost", "my-host.example", "h_1"}); } }
            if (D.out != 3 && !D.ip.empty() && s.chance(1, 4)) { D.in_udp = true; if (!D.dn && s.coin()) D.ip = "0.0.0.0"; }
            C.devs.push_back(D);
        }
        c.ch.push_back(C);
    }
    return c;
}
struct Writer {
    Src& s; std::string pre; std::string out; int nsym = 0; std::string nl; bool plain; std::string used;
    int ci, co, di, dd; std::string gi;
    Writer(Src& s_, bool plain_) : s(s_), plain(plain_) { nl = plain ? "\n" : s.pick({"\n", "\n", "\r\n", "\r", "\n\r"}); }
    std::string blanks(int lo, int hi) { if (plain) return lo ? " " : ""; std::string o; int n = (int)s.range(lo, hi); for (int i = 0; i < n; i++) o += s.chance(1, 5) ? "\t" : " "; return o; }
    // in `defs` collects define/var lines to be placed before the channel
    std::string defs;
    std::string macro(const std::string& v) {
        if (plain || v.empty() || !s.chance(1, 5)) return v;
        if (v.find('#') != std::string::npos || v.find('=') != std::string::npos) return v;
        std::string n = fmt("q%d_", nsym++);
        bool has_sep = v.find(',') != std::string::npos || v.find('{') != std::string::npos;
        int kind = (int)s.u(has_sep ? 2 : 4);
        std::string pad((size_t)s.u(4), '_');
        std::string dash = s.coin() ? "- " : "", sp = blanks(0, 2);
        if (kind <= 1) {   // define
            while (n.size() < v.size()) n += '_';
            n += pad;
            if (kind == 1 && !has_sep && v.size() + 2 < 30) {   // define via a var, defined afterwards
                std::string b = fmt("q%dv", nsym++); while (b.size() + 1 < v.size()) b += '_';
                while (n.size() < b.size() + 3) n += '_';
                defs += dash + (s.coin() ? "define" : "def") + sp + ": " + n + " " + blanks(0, 2) + (s.coin() ? "$" + b : "${" + b + "}") + blanks(0, 2) + nl;
                defs += "var" + sp + ": " + b + blanks(0, 2) + "=" + blanks(0, 2) + v + nl;
            } else defs += dash + (s.coin() ? "define" : "def") + sp + ": " + n + " " + blanks(0, 2) + v + blanks(0, 2) + (s.chance(1, 4) ? "# note" : "") + nl;
            return n;
        }
        while (n.size() + 1 < v.size()) n += '_';
        n += pad;
        std::string other = s.chance(1, 4) ? fmt(", q%du = 1", nsym++) : "";
        std::string body = n + blanks(0, 2) + "=" + blanks(0, 2) + v + other;
        defs += dash + "var" + sp + ": " + (s.chance(1, 3) ? "{" + body + "}" : body) + nl;
        return s.coin() ? "$" + n : "${" + n + "}";
    }
    std::string quote(const std::string& v, bool list) {
        if (plain) return v;
        std::string b = blanks(0, 2), e = blanks(0, 2);
        switch (s.u(list ? 5 : 3)) { case 0: case 1: return v; case 2: return "\"" + b + v + e + "\""; case 3: return "[" + b + v + e + "]"; default: return "{" + b + v + e + "}"; }
    }
    std::string line(const std::string& ind, const std::string& key, const std::string& val, bool list = false, bool dash = false) {
        std::string l = ind; if (dash && (plain || s.chance(3, 4))) l += plain ? "-" : "-" + blanks(0, 2);
        l += key + (plain ? "" : blanks(0, 1)) + ":" + (plain ? " " : blanks(0, 3)) + quote(macro(val), list) + (plain ? "" : blanks(0, 2));
        if (!plain && s.chance(1, 6)) l += "# " + s.str(0, 10, "abc: -\"#{}");
        l += nl;
        if (!plain && s.chance(1, 10)) l += s.pick({"", "   ", "# comment: x", "\t# -device: 3", "      #"}) + nl;
        return l;
    }
    std::string list_text(ull m) {
        std::vector<std::string> v;
        for (int i = 0; i < 64; i++) if ((m >> i) & 1) { int j = i; if (s.coin()) while (j < 63 && ((m >> (j + 1)) & 1)) j++; v.push_back(j > i ? (plain ? fmt("%d-%d", i, j) : s.chance(1, 4) ? fmt("%d - %d", i, j) : s.chance(1, 6) ? fmt("%d-%d", j, i) : fmt("%d-%d", i, j)) : fmt("%d", i)); i = j; }
        if (!plain && s.chance(1, 4)) std::reverse(v.begin(), v.end());
        std::string o; for (auto& e : v) { if (!o.empty()) o += plain ? "," : s.pick({",", ", ", " ,"}); o += e; }
        return o;
    }
    std::string mask_line(const std::string& ind, const char* nm, ull m) {
        std::string n = nm;
        switch (s.u(4)) {
        case 0: return line(ind, n + "_wlist", list_text(m), true);
        case 1: if (m != ~0ULL) return line(ind, n + "_blist", list_text(~m), true); // fallthrough
        case 2: return line(ind, n + "_wmask", s.coin() ? fmt("%llu", m) : fmt("%lld", (ll)m));
        default: return line(ind, n + "_bmask", s.coin() ? fmt("%llu", ~m) : fmt("%lld", (ll)~m));
        }
    }
    void filt_lines(const Filt& f, const std::string& ind, std::vector<std::string>& v) {
        if (f.has_pri) { std::string p = PRI_NAMES[f.pri]; if (!plain && s.chance(1, 4)) for (auto& c : p) c = (char)toupper(c); v.push_back(line(ind, "priority", p)); }
        if (f.has_cat) v.push_back(line(ind, "category", fmt("%lld", f.cat)));
        if (f.has_cat_ext) v.push_back(line(ind, "category_extend", fmt("%lld", f.cat_ext)));
        if (f.has_id) v.push_back(line(ind, "identify", fmt("%lld", f.id)));
        if (f.has_id_ext) v.push_back(line(ind, "identify_extend", fmt("%lld", f.id_ext)));
        if (f.cat_mask) v.push_back(mask_line(ind, "category", f.cat_mask));
        if (f.id_mask) v.push_back(mask_line(ind, "identify", f.id_mask));
    }
    std::string boolean(bool b) { return plain ? (b ? "true" : "false") : b ? s.pick({"true", "TRUE", "1"}) : s.pick({"false", "FALSE", "0"}); }
    void shuffle(std::vector<std::string>& v) { if (plain) return; for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[s.u(i)]); }
    std::string write(const Conf& c) {
        std::string t; int g = plain ? 1 : (int)s.range(0, 3); std::string gi(g, ' ');
        if (!plain && s.chance(1, 12)) t += "\xEF\xBB\xBF";
        std::vector<std::string> glob;
        if (c.hot >= 0) glob.push_back(line(gi, "hot_update", boolean(c.hot), false, true));
        if (!c.name.empty()) glob.push_back(line(gi, "logger_name", c.name, false, true));
        if (!c.desc.empty()) glob.push_back(line(gi, "logger_desc", c.desc, false, true));
        shuffle(glob); t += defs; defs.clear(); for (auto& l : glob) t += l;
        for (size_t i = 0; i < c.ch.size(); i++) {
            const Chan& C = c.ch[i]; std::string body; std::string chi(g + (plain ? 3 : s.range(1, 6)), ' ');
            std::vector<std::string> v;
            if (C.sync >= 0) v.push_back(line(chi, "sync", C.sync ? (plain ? "sync" : s.pick({"sync", "sync", "SYNC"})) : (plain ? "async" : s.pick({"async", "ASYNC"}))));
            filt_lines(C.f, chi, v); shuffle(v);
            size_t before = plain ? v.size() : s.u(v.size() + 1);   // channel options before and between the devices
            for (size_t k = 0; k < before; k++) body += v[k];
            for (size_t d = 0; d < C.devs.size(); d++) {
                const Dev& D = C.devs[d]; std::string dvi = chi + std::string(plain ? 4 : s.range(1, 6), ' ');
                body += line(chi, "device", fmt("%zu", d), false, true);
                std::vector<std::string> w;
                w.push_back(line(dvi, "out_type", s.coin() || plain ? OUT_NAMES[D.out] : D.out == 3 ? "vm" : OUT_NAMES[D.out]));
                filt_lines(D.f, dvi, w);
                if (!D.file.empty()) w.push_back(line(dvi, "file", D.file));
                if (!D.path.empty()) w.push_back(line(dvi, "path", D.path));
                if (D.limit_m >= 0) w.push_back(line(dvi, "limit_size", fmt("%lld", D.limit_m) + (plain ? " m" : s.pick({"", " m", "m", " M"}))));
                if (D.rollback >= 0) w.push_back(line(dvi, "rollback", fmt("%lld", D.rollback)));
                if (D.daily >= 0) w.push_back(line(dvi, "rolldaily", boolean(D.daily)));
                if (D.hourly >= 0) w.push_back(line(dvi, "rollhourly", boolean(D.hourly)));
                if (D.stuff >= 0) w.push_back(line(dvi, "stuff_up", boolean(D.stuff)));
                std::string dis = D.disable >= 0 ? line(dvi, "disable", boolean(D.disable)) : "";
                std::string addr = D.port ? line(dvi, "udp_addr", D.ip + ":" + fmt("%d", D.port)) : "", in = D.in_udp ? line(dvi, "in_type", "udp") : "";
                if (D.dn || D.ip == "0.0.0.0") { shuffle(w); size_t at = plain ? w.size() : s.u(w.size() + 1); w.insert(w.begin() + at, dis + in + addr); }   // documented order: enable, input type, then the address
                else { if (!dis.empty()) w.insert(w.begin(), dis); if (!addr.empty()) w.push_back(addr); if (!in.empty()) w.push_back(in); shuffle(w); }
                for (auto& l : w) body += l;
                if (d + 1 == C.devs.size()) { for (size_t k = before; k < v.size(); k++) body += v[k]; before = v.size(); }
            }
            for (size_t k = before; k < v.size(); k++) body += v[k];
            std::string head = line(gi, "channel", fmt("%zu", i), false, true);
            t += defs; defs.clear(); t += head + body;
        }
        if (!plain && s.chance(1, 3)) while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();   // no newline at the end
        return t;
    }
};
}
