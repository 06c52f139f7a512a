// C06: the effective configuration is exactly what the text says.
#include "cfggen.h"
#include <netdb.h>
#include <arpa/inet.h>
using namespace FNLog;
// deterministic resolver: every name resolves to 10.1.2.3, the address held in exactly four heap bytes
extern "C" struct hostent* gethostbyname(const char*) {
    static struct hostent h; static char* list[2]; free(list[0]); list[0] = (char*)malloc(4); memcpy(list[0], "\x0a\x01\x02\x03", 4); list[1] = nullptr;
    h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; h.h_name = (char*)"h"; return &h;
}
static std::string field(Logger& lg, const cfg::Conf& c) {
#define EQ(what, got, want) do { ll g_ = (ll)(got), w_ = (ll)(want); if (g_ != w_) return fmt("%s is %lld, the text says %lld", (what), g_, w_); } while (0)
#define EQS(what, got, want) do { std::string g_ = (got), w_ = (want); if (g_ != w_) return fmt("%s is \"%s\", the text says \"%s\"", (what), esc(g_).c_str(), esc(w_).c_str()); } while (0)
    EQ("number of channels", lg.shm_->channel_size_, c.ch.size());
    EQ("hot_update", lg.hot_update_, c.hot == 1);
    EQS("logger_desc", std::string(lg.desc_, lg.desc_len_), c.desc);
    EQS("logger_name", std::string(lg.name_, lg.name_len_), c.name.empty() ? FileHandler::process_name() : c.name);
    for (size_t i = 0; i < c.ch.size(); i++) {
        const cfg::Chan& C = c.ch[i]; Channel& k = lg.shm_->channels_[i]; std::string p = fmt("channel %zu ", i);
        EQ((p + "id").c_str(), k.channel_id_, i);
        EQ((p + "type").c_str(), k.channel_type_, C.sync == 1 ? CHANNEL_SYNC : CHANNEL_ASYNC);
        EQ((p + "devices").c_str(), k.device_size_, C.devs.size());
        auto filt = [&](const std::string& q, const cfg::Filt& f, ll pri, ll cat, ll cx, ll cm, ll id, ll ix, ll im) -> std::string {
            EQ((q + "priority").c_str(), pri, f.pri); EQ((q + "category").c_str(), cat, f.cat); EQ((q + "category_extend").c_str(), cx, f.cat_ext); EQ((q + "category mask").c_str(), cm, (ll)f.cat_mask);
            EQ((q + "identify").c_str(), id, f.id); EQ((q + "identify_extend").c_str(), ix, f.id_ext); EQ((q + "identify mask").c_str(), im, (ll)f.id_mask); return "";
        };
        std::string e = filt(p, C.f, k.config_fields_[CHANNEL_CFG_PRIORITY], k.config_fields_[CHANNEL_CFG_CATEGORY], k.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND], k.config_fields_[CHANNEL_CFG_CATEGORY_MASK], k.config_fields_[CHANNEL_CFG_IDENTIFY], k.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND], k.config_fields_[CHANNEL_CFG_IDENTIFY_MASK]);
        if (!e.empty()) return e;
        for (size_t d = 0; d < C.devs.size(); d++) {
            const cfg::Dev& D = C.devs[d]; Device& v = k.devices_[d]; std::string q = p + fmt("device %zu ", d);
            auto G = [&](DeviceConfigEnum f) { return GetDeviceConfig(lg, (int)i, (int)d, f); };
            EQ((q + "id").c_str(), v.device_id_, d); EQ((q + "out_type").c_str(), v.out_type_, cfg::OUT_TYPES[D.out]); EQ((q + "in_type").c_str(), v.in_type_, D.in_udp ? DEVICE_IN_UDP : DEVICE_IN_NULL);
            EQ((q + "enabled").c_str(), G(DEVICE_CFG_ABLE) != 0, D.disable == 0);
            e = filt(q, D.f, G(DEVICE_CFG_PRIORITY), G(DEVICE_CFG_CATEGORY), G(DEVICE_CFG_CATEGORY_EXTEND), G(DEVICE_CFG_CATEGORY_MASK), G(DEVICE_CFG_IDENTIFY), G(DEVICE_CFG_IDENTIFY_EXTEND), G(DEVICE_CFG_IDENTIFY_MASK));
            if (!e.empty()) return e;
            EQS((q + "file").c_str(), v.out_file_, D.file); EQS((q + "path").c_str(), v.out_path_, D.path);
            EQ((q + "limit_size").c_str(), G(DEVICE_CFG_FILE_LIMIT_SIZE), D.limit_m > 0 ? D.limit_m * 1000000 : 0); EQ((q + "rollback").c_str(), G(DEVICE_CFG_FILE_ROLLBACK), D.rollback > 0 ? D.rollback : 0);
            EQ((q + "rolldaily").c_str(), G(DEVICE_CFG_FILE_ROLLDAILY), D.daily == 1); EQ((q + "rollhourly").c_str(), G(DEVICE_CFG_FILE_ROLLHOURLY), D.hourly == 1); EQ((q + "stuff_up").c_str(), G(DEVICE_CFG_FILE_STUFF_UP), D.stuff == 1);
            ll ip = D.port ? (ll)inet_addr(D.dn ? "10.1.2.3" : D.ip.c_str()) : 0; if (D.dn && D.disable != 0) ip = G(DEVICE_CFG_UDP_IP);   // names of disabled devices need not be resolved
            EQ((q + "udp address").c_str(), G(DEVICE_CFG_UDP_IP), ip); EQ((q + "udp port").c_str(), G(DEVICE_CFG_UDP_PORT), D.dn && D.disable != 0 ? G(DEVICE_CFG_UDP_PORT) : D.port ? htons((unsigned short)D.port) : 0);
        }
    }
    return "";
}
PROP(fidelity, 60, 20000) {
    LoggerPtr lp = mk_logger(), other; int rounds = (int)s.skew(1, 3); std::string all; bool rich = false;
    for (int r = 0; r < rounds; r++) {
        cfg::Conf c = cfg::gen(s, Logger::MAX_CHANNEL_SIZE, 6);
        cfg::Writer w(s, s.chance(1, 8)); std::string t = w.write(c); bool file = s.coin();
        ctx.note("round %d (%s):\n%s", r, file ? "file" : "text", esc(t, 6000).c_str());
        if (s.chance(1, 6)) { other = mk_logger(); cfg::Conf c2 = cfg::gen(s, 2, 2); cfg::Writer w2(s, true); ParseAndStartLogger(*other, w2.write(c2)); }
        int ret;
        if (file) { std::string p = ctx.dir() + "/c.yaml"; write_file(p, t); ret = LoadAndStartLogger(*lp, p); }
        else ret = ParseAndStartLogger(*lp, t);
        CHECK(ret == 0, "valid configuration refused with %d (%s):\n%s", ret, DebugErrno(ret).c_str(), t.c_str());
        std::string e = field(*lp, c);
        CHECK(e.empty(), "%s\n%s", e.c_str(), t.c_str());
        CHECK(StopLogger(*lp) == 0, "stop failed"); all += t; rich = rich || w.nsym > 0; ctx.label(w.plain ? "plain" : w.nsym ? "with macros" : "free form");
    }
    ctx.nontrivial(all.size() > 60); ctx.key(all); ctx.label(fmt("rounds:%d", rounds)); 
}
// lists and ranges of the masks, on their own
PROP(bitlist, 400, 20000) {
    std::string t, l; unsigned long long m = 0; int n = (int)s.range(1, 8);
    for (int i = 0; i < n; i++) {
        int a = (int)s.u(64), b = s.coin() ? a : (int)s.u(64); if (i) l += s.pick({",", ", ", " , ", ",\t"});
        std::string r = fmt("%d", a); if (b != a) { r += s.pick({"-", " - ", "- ", " -"}); r += fmt("%d", b); } l += r;
        for (int k = std::min(a, b); k <= std::max(a, b); k++) m |= 1ULL << k;
    }
    bool black = s.coin(), dev = s.coin(), cat = s.coin(); std::string open = s.pick({"", "[", "{", "\""}), close = open == "[" ? "]" : open == "{" ? "}" : open;
    std::string ln = std::string(cat ? "category_" : "identify_") + (black ? "blist: " : "wlist: ") + open + l + close + s.pick({"", " # c", "  "}) + "\n";
    t = " - channel: 0\n    sync: sync\n" + (dev ? "" : "    " + ln) + "    -device: 0\n        disable: false\n        out_type: empty\n" + (dev ? "        " + ln : "");
    LoggerPtr lp = mk_logger(); int ret = ParseAndStartLogger(*lp, t); CHECK(ret == 0, "refused with %d:\n%s", ret, t.c_str());
    unsigned long long want = black ? ~m : m, got;
    if (dev) got = (unsigned long long)GetDeviceConfig(*lp, 0, 0, cat ? DEVICE_CFG_CATEGORY_MASK : DEVICE_CFG_IDENTIFY_MASK);
    else got = (unsigned long long)(ll)lp->shm_->channels_[0].config_fields_[cat ? CHANNEL_CFG_CATEGORY_MASK : CHANNEL_CFG_IDENTIFY_MASK];
    ctx.nontrivial(n > 1); ctx.key(l); ctx.note("%s -> %llx", ln.c_str(), got);
    CHECK(got == want, "\"%s\" gives mask %llx, expected %llx", esc(ln).c_str(), got, want);
}
// the sample of the manual starts
PROP(sample, 1, 20000) {
    std::string id = s.str(1, 3, "0123456789"); std::string t =
        "- define: LIST______ 0,1,2,3   # used like c-style;  warn: def name len must bigger than content.    \n\n- var: id = 234\n- var: id0 = 0, id1 =1    # use var $id0  or ${id0}  \n- var: {key=\"sss\", val=999}   \n\n"
        "# - shm_key: 33321231\n - channel: 0\n    sync: async  \n    #sync: [async][sync][ASYNC][SYNC]\n    - device: 0\n        disable: false\n        category_wlist: LIST______\n        identify: $id\n        out_type: file\n        file: \"$PNAME\"  #in file type it's log file name\n        path: ./ #in file type it's log file path  \n"
        "        rollback: 4 #in file type it's this device log file rollback count.   \n        limit_size: 100 m #in file type it's one log file limit size  \n    - device: 1\n        disable: false\n        out_type: file\n        priority: error\n        file: \"$key\"\n        category: ${id1}\n        identify: $val\n    - device: 2\n        disable: false\n        out_type: screen\n        priority: info\n - channel: 1\n    sync: sync\n    - device: 0\n        out_type: file\n        disable: true\n";
    ctx.note("%s", t.c_str()); ctx.nontrivial(); ctx.key(id); LoggerPtr lp = mk_logger(); int ret = ParseAndStartLogger(*lp, t); CHECK(ret == 0, "the manual's sample is refused with %d (%s)", ret, DebugErrno(ret).c_str());
    CHECK(GetDeviceConfig(*lp, 0, 0, DEVICE_CFG_CATEGORY_MASK) == 15, "LIST______ gives mask %lld", (ll)GetDeviceConfig(*lp, 0, 0, DEVICE_CFG_CATEGORY_MASK));
    CHECK(GetDeviceConfig(*lp, 0, 0, DEVICE_CFG_IDENTIFY) == 234, "$id gives %lld", (ll)GetDeviceConfig(*lp, 0, 0, DEVICE_CFG_IDENTIFY));
    CHECK(GetDeviceConfig(*lp, 0, 1, DEVICE_CFG_CATEGORY) == 1, "${id1} gives %lld", (ll)GetDeviceConfig(*lp, 0, 1, DEVICE_CFG_CATEGORY));
    CHECK(GetDeviceConfig(*lp, 0, 1, DEVICE_CFG_IDENTIFY) == 999, "$val gives %lld", (ll)GetDeviceConfig(*lp, 0, 1, DEVICE_CFG_IDENTIFY));
    CHECK(std::string(lp->shm_->channels_[0].devices_[1].out_file_) == "sss", "$key gives \"%s\"", lp->shm_->channels_[0].devices_[1].out_file_);
}
int main(int c, char** v) { return pbt_main(c, v); }
