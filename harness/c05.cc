// C05: a line reaches a device exactly when the channel's and the device's filters accept it.
#include "hookfx.h"
#include <functional>
using namespace FNLog;
typedef unsigned long long ull;
namespace {
struct Filter { ll pri = 0, cat = 0, cat_ext = 0, id = 0, id_ext = 0; ull cat_mask = 0, id_mask = 0; };
struct Dev { int type; bool able; Filter f; std::vector<std::string> lines; std::string file; };
struct Chan { bool sync; Filter f; std::vector<Dev> devs; ll accepted = 0; };
bool accept(const Filter& f, int pri, int cat, ll id) {
    if (pri < f.pri) return false;
    if (f.cat_ext > 0 && !(cat >= f.cat && cat - f.cat < f.cat_ext)) return false;
    if (f.id_ext > 0 && !(id >= f.id && id - f.id < f.id_ext)) return false;
    if (f.cat_mask && !((f.cat_mask >> cat) & 1)) return false;
    if (f.id_mask && !((f.id_mask >> id) & 1)) return false;
    return true;
}
struct Gen { Src& s; std::vector<ll> cats, ids; };
ull gen_mask(Src& s) {
    switch (s.weighted({2, 2, 2, 1, 1})) {
    case 0: return 1ULL << s.u(64);
    case 1: { ull m = 0; for (int i = 0, n = (int)s.range(1, 6); i < n; i++) m |= 1ULL << s.u(64); return m; }
    case 2: { ull m = s.bits(); return m ? m : 1; }
    case 3: return ~(1ULL << s.u(64));
    default: return s.pick({1ULL, 1ULL << 31, 1ULL << 32, 1ULL << 63, 0xffffffffULL, 0xffffffff00000000ULL, ~0ULL});
    }
}
void gen_filter(Src& s, Filter& f, bool masks) {
    if (s.coin()) f.pri = s.u(7);
    if (s.chance(1, 3)) { f.cat = s.range(0, 63); f.cat_ext = s.pick({0LL, 1LL, 2LL, 5LL, 63LL, 1000LL}); }
    if (s.chance(1, 3)) { f.id = s.range(0, 63); f.id_ext = s.pick({0LL, 1LL, 2LL, 5LL, 63LL, 100000LL}); }
    if (masks && s.chance(1, 3)) f.cat_mask = gen_mask(s);
    if (masks && s.chance(1, 3)) f.id_mask = gen_mask(s);
}
std::string list_text(Src& s, ull m) { std::string o; for (int i = 0; i < 64; i++) if ((m >> i) & 1) { int j = i; if (s.coin()) while (j < 63 && ((m >> (j + 1)) & 1)) j++; if (!o.empty()) o += ","; o += j > i ? fmt("%d-%d", i, j) : fmt("%d", i); i = j; } return o; }
std::string mask_text(Src& s, const char* name, ull m, const std::string& ind) {
    switch (s.u(4)) {
    case 0: return ind + name + "_wlist: " + list_text(s, m) + "\n";
    case 1: return m == ~0ULL ? ind + name + "_bmask: 0\n" : ind + name + "_blist: " + list_text(s, ~m) + "\n";
    case 2: return ind + name + fmt("_wmask: %lld\n", (ll)m);
    default: return ind + name + fmt("_bmask: %lld\n", (ll)~m);
    }
}
std::string filter_text(Src& s, const Filter& f, const std::string& ind) {
    std::string t;
    if (f.pri || s.coin()) t += ind + "priority: " + PRI_NAMES[f.pri] + "\n";
    if (f.cat || f.cat_ext) { t += ind + fmt("category: %lld\n", f.cat); if (f.cat_ext || s.coin()) t += ind + fmt("category_extend: %lld\n", f.cat_ext); }
    if (f.id || f.id_ext) { t += ind + fmt("identify: %lld\n", f.id); if (f.id_ext || s.coin()) t += ind + fmt("identify_extend: %lld\n", f.id_ext); }
    if (f.cat_mask) t += mask_text(s, "category", f.cat_mask, ind);
    if (f.id_mask) t += mask_text(s, "identify", f.id_mask, ind);
    return t;
}
Logger* cur; 
std::vector<std::pair<int, std::string> > hooked;
int cur_channel;
void hook(const LogData& d) { hooked.push_back(std::make_pair(d.channel_id_, std::string(d.content_, d.content_len_))); }
void set_field(Filter& f, int k, ll v) { switch (k) { case 0: f.pri = v; break; case 1: f.cat = v; break; case 2: f.cat_ext = v; break; case 3: f.cat_mask = (ull)v; break; case 4: f.id = v; break; case 5: f.id_ext = v; break; case 6: f.id_mask = (ull)v; break; } }
ll get_field(const Filter& f, int k) { switch (k) { case 0: return f.pri; case 1: return f.cat; case 2: return f.cat_ext; case 3: return (ll)f.cat_mask; case 4: return f.id; case 5: return f.id_ext; default: return (ll)f.id_mask; } }
const ChannelConfigEnum CF[] = {CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK};
const DeviceConfigEnum DF[] = {DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK};
ll gen_value(Src& s, int k, bool masks) {
    switch (k) {
    case 0: return s.chance(1, 8) ? s.pick({-1LL, 7LL, 100LL}) : s.u(7);
    case 1: case 4: return s.range(-3, 66);
    case 2: case 5: return s.pick({0LL, 1LL, 2LL, 3LL, 10LL, 64LL, -1LL, 1LL << 40});
    default: return masks ? (s.chance(1, 3) ? 0 : (ll)gen_mask(s)) : 0;
    }
}
}
PROP(filters, 40, 20000) {
    bool masks = s.chance(2, 3); bool any_sync_only = s.chance(3, 4); hooked.clear();
    int nc = (int)s.range(1, 4); std::vector<Chan> ch(nc); std::string text;
    for (int c = 0; c < nc; c++) {
        Chan& C = ch[c]; C.sync = any_sync_only || s.coin();
        text += fmt(" - channel: %d\n    sync: %s\n", c, C.sync ? "sync" : "async");
        if (s.coin()) { gen_filter(s, C.f, masks); text += filter_text(s, C.f, "    "); }
        int nd = (int)s.range(0, 4); bool virt = false;
        for (int d = 0; d < nd; d++) {
            Dev D; D.type = (int)s.weighted({5, 3, 2, 1, 1}); if (D.type == 2 && virt) D.type = 0; if (D.type == 2) virt = true;
            D.able = s.chance(5, 6); gen_filter(s, D.f, masks); D.file = fmt("c%dd%d", c, d);
            text += fmt("    -device: %d\n", d);
            if (D.able || s.coin()) text += fmt("        disable: %s\n", D.able ? "false" : "true");
            text += fmt("        out_type: %s\n", D.type == 0 ? "file" : D.type == 1 ? "empty" : D.type == 2 ? "virtual" : D.type == 3 ? "screen" : "udp");
            if (D.type == 4) text += fmt("        udp_addr: 127.0.0.1:%d\n", (int)s.range(2, 9));
            if (D.type == 0) text += "        path: \"" + ctx.dir() + "\"\n        file: \"" + D.file + "\"\n";
            text += filter_text(s, D.f, "        "); C.devs.push_back(D);
        }
    }
    ctx.note("%s", text.c_str());
    LoggerPtr lp = mk_logger(); Logger& lg = *lp; SetVirtualDevice(&hook);
    std::vector<std::pair<int, std::string> > want_hook; 
    int seq = 0, outs = 0, drops = 0, changes = 0; bool running = false;
    auto drain = [&] { for (int c = 0; c < nc; c++) if (!ch[c].sync) { u64 t0 = mono_ms(); while (GetChannelLog(lg, c, CHANNEL_LOG_PROCESSED) < ch[c].accepted) { CHECK(mono_ms() - t0 < 5000, "channel %d processed %lld of %lld lines", c, (ll)GetChannelLog(lg, c, CHANNEL_LOG_PROCESSED), ch[c].accepted); real_sleep_ms(0); } } };
    auto say = [&] {
        int c = s.chance(1, 12) ? (int)s.pick({-1LL, (ll)nc, (ll)nc + 1, 4LL, 100LL, -100LL}) : (int)s.u(nc); int pri = (int)s.u(7);
        ll cat, id;
        if (masks) { cat = s.u(64); id = s.u(64); } else { cat = s.chance(1, 4) ? s.pick({-1LL, 64LL, 65LL, -2147483648LL, 2147483647LL}) : s.range(0, 64); id = s.chance(1, 4) ? s.pick({-1LL, 64LL, 65LL, 1LL << 40, -(1LL << 40)}) : s.range(0, 64); }
        // aim at a filter's edges
        if (c >= 0 && c < nc && s.coin()) { const Filter& f = (ch[c].devs.empty() || s.coin()) ? ch[c].f : ch[c].devs[s.u(ch[c].devs.size())].f;
            if (f.cat_ext > 0) cat = f.cat + s.pick({-1LL, 0LL, f.cat_ext - 1, f.cat_ext}); if (f.id_ext > 0) id = f.id + s.pick({-1LL, 0LL, f.id_ext - 1, f.id_ext}); if (s.coin()) pri = (int)f.pri + (int)s.range(-1, 1); 
            if (masks) { cat &= 63; id &= 63; } if (cat != (int)cat) cat = 7; if (pri < 0) pri = 0; if (pri > 6) pri = 6; }
        std::string t = fmt("L%d.", seq++); t.append(s.u(20), 'x');
        put(lg, c, pri, (int)cat, id, t);
        bool any = false;
        if (running && c >= 0 && c < nc && accept(ch[c].f, pri, (int)cat, id))
            for (auto& D : ch[c].devs) if (D.able && accept(D.f, pri, (int)cat, id)) { any = true; if (D.type == 2) want_hook.push_back(std::make_pair(c, t)); else { D.lines.push_back(t); } }
        if (any) { ch[c].accepted++; outs++; } else drops++;
        ctx.note("say ch %d pri %d cat %lld id %lld %s -> %s", c, pri, cat, id, t.c_str(), any ? "out" : "drop");
    };
    if (s.chance(1, 5)) say();
    int r = ParseAndStartLogger(lg, text); CHECK(r == 0, "start failed: %d\n%s", r, text.c_str()); running = true;
    Seq q(s, 0, 40, 16);
    while (q.next()) {
        if (s.chance(4, 5)) { say(); continue; }
        drain(); changes++;
        int k = (int)s.u(8), c = s.chance(1, 8) ? (int)s.range(-1, nc) : (int)s.u(nc); bool okc = c >= 0 && c < nc;
        switch (s.u(5)) {
        case 0: { if (k == 7) k = 0; ll v = gen_value(s, k, masks); SetChannelConfig(lg, c, CF[k], v); if (okc) set_field(ch[c].f, k, v); ctx.note("SetChannelConfig(%d, %d, %lld)", c, (int)CF[k], v); break; }
        case 1: { int nd = okc ? (int)ch[c].devs.size() : 1; int d = s.chance(1, 8) ? (int)s.range(-1, nd) : (int)s.u(nd); bool okd = okc && d >= 0 && d < nd;
            if (k == 7) { ll v = s.chance(1, 4) ? s.pick({2LL, -1LL}) : (ll)s.coin(); SetDeviceConfig(lg, c, d, DEVICE_CFG_ABLE, v); if (okd) ch[c].devs[d].able = v != 0; ctx.note("SetDeviceConfig(%d, %d, ABLE, %lld)", c, d, v); CHECK(GetDeviceConfig(lg, c, d, DEVICE_CFG_ABLE) == (okd ? v : 0), "ABLE reads back %lld", (ll)GetDeviceConfig(lg, c, d, DEVICE_CFG_ABLE)); }
            else { ll v = gen_value(s, k, masks); SetDeviceConfig(lg, c, d, DF[k], v); if (okd) set_field(ch[c].devs[d].f, k, v); ctx.note("SetDeviceConfig(%d, %d, %d, %lld)", c, d, (int)DF[k], v); }
            break; }
        case 2: { if (k == 7) k = 0; ll v = gen_value(s, k, masks); BatchSetChannelConfig(lg, CF[k], v); for (auto& C : ch) set_field(C.f, k, v); ctx.note("BatchSetChannelConfig(%d, %lld)", (int)CF[k], v); break; }
        case 3: {   // the shorthands of fn_log.h
            int ty = (int)s.pick({0, 3, 4}); ll p = s.u(7); int b = (int)s.range(-2, 66), e = (int)s.pick({0, 1, 2, 3, 10, 64}); bool on = s.coin(); int what = (int)s.u(5);
            auto all = [&](const std::function<void(Dev&)>& f) { for (auto& C : ch) for (auto& D : C.devs) if (D.type == ty) f(D); };
            if (what == 0) { if (ty == 0) EnableAllFileDevice(lg, on); else if (ty == 3) EnableAllScreenDevice(lg, on); else EnableAllUDPDevice(lg, on); all([&](Dev& D) { D.able = on; }); }
            else if (what == 1) { if (ty == 0) SetAllFilePriority(lg, (LogPriority)p); else if (ty == 3) SetAllScreenPriority(lg, (LogPriority)p); else SetAllUDPPriority(lg, (LogPriority)p); all([&](Dev& D) { D.f.pri = p; }); }
            else if (what == 2) { if (ty == 0) SetAllFilePriority(lg, b, e); else if (ty == 3) SetAllScreenCategory(lg, b, e); else SetAllUDPCategory(lg, b, e); all([&](Dev& D) { D.f.cat = b; D.f.cat_ext = e; }); }
            else if (what == 3) { SetAllChannelPriority(lg, (LogPriority)p); for (auto& C : ch) C.f.pri = p; }
            else { SetAllChannelCategory(lg, b, e); for (auto& C : ch) { C.f.cat = b; C.f.cat_ext = e; } }
            ctx.note("shorthand %d type %d: priority %lld, category %d +%d, %s", what, ty, p, b, e, on ? "on" : "off"); ctx.label("shorthand setters"); break; }
        default: { int ty = (int)s.u(6); static const DeviceOutType OT[] = {DEVICE_OUT_FILE, DEVICE_OUT_EMPTY, DEVICE_OUT_VIRTUAL, DEVICE_OUT_SCREEN, DEVICE_OUT_UDP, DEVICE_OUT_NULL}; ll v = k == 7 ? (ll)s.coin() : gen_value(s, k, masks);
            BatchSetDeviceConfig(lg, OT[ty], k == 7 ? DEVICE_CFG_ABLE : DF[k], v); for (auto& C : ch) for (auto& D : C.devs) if (ty == 5 || ty == D.type) { if (k == 7) D.able = v != 0; else set_field(D.f, k, v); }
            ctx.note("BatchSetDeviceConfig(%d, %d, %lld)", (int)OT[ty], k == 7 ? (int)DEVICE_CFG_ABLE : (int)DF[k], v); }
        }
        for (int i = 0; i < nc; i++) for (size_t d = 0; d < ch[i].devs.size(); d++) { bool on = GetDeviceConfig(lg, i, (int)d, DEVICE_CFG_ABLE) != 0; CHECK(on == ch[i].devs[d].able, "channel %d device %zu reads back as %s", i, d, on ? "enabled" : "disabled"); }
        for (int i = 0; i < nc; i++) for (size_t d = 0; d < ch[i].devs.size(); d++) for (int f = 0; f < 7; f++) { ll g = GetDeviceConfig(lg, i, (int)d, DF[f]); CHECK(g == get_field(ch[i].devs[d].f, f), "channel %d device %zu field %d reads back %lld, set %lld", i, d, (int)DF[f], g, get_field(ch[i].devs[d].f, f)); }
    }
    drain(); 
    for (int c = 0; c < nc; c++) for (size_t d = 0; d < ch[c].devs.size(); d++) if (ch[c].devs[d].type >= 3) {
        Dev& D = ch[c].devs[d]; ll n = GetDeviceLog(lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE) + (D.type == 4 ? GetDeviceLog(lg, c, (int)d, DEVICE_LOG_TOTAL_LOSE_LINE) : 0);
        CHECK(n == (ll)D.lines.size(), "channel %d device %zu (%s) received %lld lines, expected %zu", c, d, D.type == 3 ? "screen" : "udp", n, D.lines.size());
    }
    for (int c = 0; c < nc; c++) for (size_t d = 0; d < ch[c].devs.size(); d++) if (ch[c].devs[d].type == 1) {
        Dev& D = ch[c].devs[d]; ll n = GetDeviceLog(lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_LINE), b = GetDeviceLog(lg, c, (int)d, DEVICE_LOG_TOTAL_WRITE_BYTE), wb = 0; for (auto& l : D.lines) wb += l.size() + 1;
        CHECK(n == (ll)D.lines.size() && b == wb, "channel %d device %zu (empty) received %lld lines %lld bytes, expected %zu lines %lld bytes", c, d, n, b, D.lines.size(), wb);
    }
    r = StopLogger(lg); CHECK(r == 0, "stop %d", r); running = false;
    if (s.chance(1, 3)) say();
    for (int c = 0; c < nc; c++) for (size_t d = 0; d < ch[c].devs.size(); d++) if (ch[c].devs[d].type == 0) {
        Dev& D = ch[c].devs[d]; std::string want; for (auto& l : D.lines) want += l + "\n";
        std::string got = file_text(ctx.dir() + "/" + D.file + ".log");
        CHECK(got == want, "channel %d device %zu (file) holds \"%s\", expected \"%s\"", c, d, esc(got, 1500).c_str(), esc(want, 1500).c_str());
    }
    CHECK(hooked == want_hook, "virtual device hook saw %zu lines, expected %zu", hooked.size(), want_hook.size());
    ctx.nontrivial(outs > 0 && drops > 0); ctx.key(text + fmt("%d %d %d", outs, drops, changes));
    ctx.label(changes ? "with runtime changes" : "static"); ctx.label(masks ? "masks" : "no masks"); ctx.label(any_sync_only ? "sync" : "mixed");
}
// the built-in configurations of the default logger (README: files and thresholds of each)
PROP(builtin, 20, 20000) {
    Logger& lg = GetDefaultLogger(); char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe); std::string pn(exe, n > 0 ? (size_t)n : 0); pn = pn.substr(pn.rfind('/') + 1);
    struct Stop { Logger& l; ~Stop() { StopLogger(l); } } stop{lg}; int rounds = (int)s.range(1, 3); std::string want[4]; static const char* const SUF[] = {"", "_error", "_sync", "_sync_info"}; ll scr[2] = {0, 0}, scr0[2] = {-1, -1}; int outs = 0, drops = 0;
    for (int k = 0; k < rounds; k++) {
        bool debug = s.coin(); int r = debug ? FastStartDebugLogger() : FastStartDefaultLogger(); CHECK(r == 0, "start %d", r); ctx.note(debug ? "debug" : "default");
        int thr[2][3] = {{0, 4, 2}, {0, 2, 2}}; if (debug) { thr[1][1] = 0; thr[0][2] = thr[1][2] = 1; }
        if (k == 0) for (int c = 0; c < 2; c++) scr0[c] = GetDeviceLog(lg, c, 2, DEVICE_LOG_TOTAL_WRITE_LINE);
        else { for (int i = 0; i < 4; i++) if (!want[i].empty()) { std::string p = pn + SUF[i] + ".log", b = pn + SUF[i] + ".1.log"; want[i].clear(); } }   // a restart begins a new file
        bool pack = false; (void)pack; Seq q(s, 0, 20, 8);
        while (q.next()) {
            int c = s.chance(1, 10) ? 2 : (int)s.u(2), pri = (int)s.u(7); std::string t = fmt("M%d.", outs + drops) + s.str(0, 10, "abc %d");
            put(lg, c, pri, (int)s.u(5), s.u(5), t); if (c == 2) { drops++; continue; }
            for (int d = 0; d < 2; d++) if (pri >= thr[c][d]) { want[c * 2 + d] += t + "\n"; outs++; } else drops++;
            if (pri >= thr[c][2]) scr[c]++; ctx.note("ch %d pri %d %s", c, pri, t.c_str());
        }
        r = StopLogger(lg); CHECK(r == 0, "stop %d", r);
        for (int i = 0; i < 4; i++) { std::string g = file_text(pn + SUF[i] + ".log"); if (want[i].empty()) continue; CHECK(g == want[i], "%s holds \"%s\", expected \"%s\"", (pn + SUF[i] + ".log").c_str(), esc(g, 800).c_str(), esc(want[i], 800).c_str()); }
    }
    for (int c = 0; c < 2; c++) { ll g = GetDeviceLog(lg, c, 2, DEVICE_LOG_TOTAL_WRITE_LINE) - scr0[c]; CHECK(g == scr[c], "screen of channel %d showed %lld lines, expected %lld", c, g, scr[c]); }
    ctx.nontrivial(outs > 0 && drops > 0); ctx.label(rounds > 1 ? "restarted" : "once");
}
int main(int c, char** v) { return pbt_main(c, v); }
