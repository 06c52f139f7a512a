// C22 worker: executes the history in ./script under this build's options, writes ./out (C++11, no other harness code).
#include <cstdio>
#include <sys/fsuid.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <memory>
#include <sstream>
#include <algorithm>
#include <thread>
#include <mutex>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "vclock.h"
#include "fn_log.h"
#include "c22s.h"
using namespace FNLog;
static FILE* g_out; static int g_cut = 0, g_rx = -1, g_port = 0, g_scr = -1, g_mt = 0; static ll g_t = 1700000000; static std::mutex g_mu; static std::map<int, std::vector<S> > g_hook; static std::unique_ptr<Logger> g_lg; static Logger* L = nullptr; static const S PORT = "127.0.0.1:45678";
static S esc(const S& s) { S o; for (size_t i = 0; i < s.size(); i++) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127 && c != '\\') o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
static S cut(const S& s) { return g_cut && (int)s.size() > g_cut ? s.substr(0, g_cut) : s; }
static void lines(const char* ind, const S& t) { size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); bool nl = e != S::npos; S l = t.substr(i, nl ? e - i : S::npos); fprintf(g_out, "%s%s%s\n", ind, esc(cut(l)).c_str(), nl ? "" : "<no newline>"); i = nl ? e + 1 : t.size(); } }
static S slurp(const S& p) { S o; FILE* f = fopen(p.c_str(), "rb"); if (!f) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static void walk(const S& d, std::vector<S>& v) { DIR* D = opendir(d.c_str()); if (!D) return; while (struct dirent* e = readdir(D)) { S n = e->d_name; if (n == "." || n == ".." || (d == "." && (n == "script" || n == "out" || n == "scr" || n == "err" || n == "cfg.yaml"))) continue; S p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { v.push_back(p + "/"); walk(p, v); } else v.push_back(p); } closedir(D); }
static void files() { std::vector<S> v; walk(".", v); std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); i++) { fprintf(g_out, " file %s\n", esc(v[i]).c_str()); if (v[i].back() != '/') lines("  | ", slurp(v[i])); } }
static void hook(const LogData& d) { std::lock_guard<std::mutex> g(g_mu); char b[160]; snprintf(b, sizeof b, "pri %d cat %d id %lld line %d ts %lld.%03d plen %d ", d.priority_, d.category_, d.identify_, d.code_line_, d.timestamp_, d.precise_, d.prefix_len_); S c(d.content_, d.content_len_); g_hook[d.channel_id_].push_back(S(b) + (g_cut ? "" : std::to_string(d.content_len_)) + " " + S(d.code_file_, d.code_file_len_) + " " + S(d.code_func_, d.code_func_len_) + ": " + esc(cut(c))); }
static void hook_tr(const LogData& d) { hook(d); if (d.channel_id_ == 0) TransmitChannel(*L, 1, d.category_, d.identify_, d); }
static ll raw_us(ll us) { struct timespec ts = {0, (long)us * 1000}; return syscall(SYS_nanosleep, &ts, (void*)0); }
// every writer thread has been once through its whole loop with nothing to do
static void idle() {
    if (L->logger_state_ != LOGGER_STATE_RUNNING) return;
    int n = 0; for (int c = 0; c < L->shm_->channel_size_; c++) n += L->shm_->channels_[c].channel_type_ == CHANNEL_ASYNC;
    if (n == 0) return; std::vector<ll> b(512); for (int i = 0; i < 512; i++) b[i] = vclock::sleeps_of()[i];
    static bool blind = false; if (blind) { raw_us(40000); return; }
    bool seen = false; for (int k = 0; k < 60000; k++) { int m = 0; for (int i = 0; i < 512; i++) m += vclock::sleeps_of()[i] >= b[i] + 2; if (m >= n) { seen = true; break; } raw_us(50); }
    if (!seen) { blind = true; for (int i = 0; i < 512; i++) if (vclock::sleeps_of()[i] != b[i]) blind = false; }
}
static void outputs() { idle(); fflush(stdout); { std::lock_guard<std::mutex> g(g_mu); for (auto& h : g_hook) for (auto& l : h.second) fprintf(g_out, " hook %d %s\n", h.first, l.c_str()); g_hook.clear(); }
    char b[70000]; for (;;) { ssize_t n = recv(g_rx, b, sizeof b, MSG_DONTWAIT); if (n < 0) break; fprintf(g_out, " udp %s\n", esc(cut(S(b, n))).c_str()); } }
static void dump(bool counts) {
    Logger& lg = *L; if (!lg.shm_) { fprintf(g_out, " never started, state %u\n", lg.logger_state_); return; } SHMLogger& m = *lg.shm_; fprintf(g_out, " logger state %u hot %d name '%s' %d desc '%s' %d channels %d\n", lg.logger_state_, (int)lg.hot_update_, esc(lg.name_).c_str(), lg.name_len_, esc(lg.desc_).c_str(), lg.desc_len_, m.channel_size_);
    for (int c = 0; c < m.channel_size_; c++) { Channel& k = m.channels_[c]; fprintf(g_out, " channel %d type %d devices %d virtual %d state %u:", c, k.channel_type_, k.device_size_, k.virtual_device_id_, k.channel_state_); for (int f = 0; f < CHANNEL_CFG_MAX_ID; f++) fprintf(g_out, " %lld", (ll)AtomicLoadC(k, f));
        if (counts) { static const int F[] = {CHANNEL_LOG_HOLD, CHANNEL_LOG_PUSH, CHANNEL_LOG_PROCESSED, CHANNEL_LOG_HOTUPDATE_CHANGE}; fprintf(g_out, " /"); for (int f : F) fprintf(g_out, " %lld", GetChannelLog(lg, c, (ChannelLogEnum)f)); if (!g_cut) { fprintf(g_out, " %lld :", GetChannelLog(lg, c, CHANNEL_LOG_PROCESSED_BYTES)); for (int p = 0; p < PRIORITY_MAX; p++) fprintf(g_out, " %lld", GetChannelLog(lg, c, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + p))); } }
        fputc('\n', g_out);
        for (int d = 0; d < k.device_size_; d++) { Device& v = k.devices_[d]; fprintf(g_out, "  device %d id %d out %u in %u file '%s' path '%s':", d, v.device_id_, v.out_type_, v.in_type_, esc(v.out_file_).c_str(), esc(v.out_path_).c_str());
            for (int f = 0; f < DEVICE_CFG_MAX_ID; f++) { ll x = GetDeviceConfig(lg, c, d, (DeviceConfigEnum)f), y = (ll)AtomicLoadC(v, f); if (f == DEVICE_CFG_UDP_PORT && GetDeviceConfig(lg, c, d, DEVICE_CFG_UDP_IP) == (ll)htonl(INADDR_LOOPBACK) && (x == g_port || ntohs((unsigned short)x) == g_port)) fprintf(g_out, " PORT"); else { fprintf(g_out, " %lld", x); if (lg.logger_state_ == LOGGER_STATE_RUNNING && x != y) fprintf(g_out, "(stored %lld)", y); } }
            if (counts) { fprintf(g_out, " / %lld %lld", GetDeviceLog(lg, c, d, DEVICE_LOG_TOTAL_WRITE_LINE), GetDeviceLog(lg, c, d, DEVICE_LOG_TOTAL_LOSE_LINE)); if (!g_cut) { fprintf(g_out, " %lld %lld :", GetDeviceLog(lg, c, d, DEVICE_LOG_TOTAL_WRITE_BYTE), GetDeviceLog(lg, c, d, DEVICE_LOG_CUR_FILE_SIZE)); for (int p = 0; p < PRIORITY_MAX; p++) fprintf(g_out, " %lld", GetDeviceLog(lg, c, d, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + p))); }
                fprintf(g_out, " %lld %lld %lld %lld", GetDeviceLog(lg, c, d, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP), GetDeviceLog(lg, c, d, DEVICE_LOG_CUR_FILE_CREATE_DAY), GetDeviceLog(lg, c, d, DEVICE_LOG_CUR_FILE_CREATE_HOUR), GetDeviceLog(lg, c, d, DEVICE_LOG_LAST_TRY_CREATE_ERROR)); }
            fputc('\n', g_out); } }
}
static S text_arg(const S& h) { S t = un(h); size_t p; while ((p = t.find(PORT)) != S::npos) t.replace(p, PORT.size(), "127.0.0.1:" + std::to_string(g_port)); return t; }
static void write_cfg(const S& t) { FILE* f = fopen("cfg.tmp", "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = 1600000000 + 10 * ++g_mt; ts[0].tv_nsec = ts[1].tv_nsec = 0; utimensat(AT_FDCWD, "cfg.tmp", ts, 0); rename("cfg.tmp", "cfg.yaml"); }
struct Open { std::unique_ptr<LogStream> ls; };
// as many channels / devices as this build allows, and one more
static void capacity(int dev) {
    int max = dev ? Channel::MAX_DEVICE_SIZE : Logger::MAX_CHANNEL_SIZE;
    for (int over = 1; over >= 0; over--) { Logger lg; S t; int n = max + over; for (int i = 0; i < n; i++) { if (!dev || i == 0) t += " - channel: " + std::to_string(i) + "\n    sync: sync\n"; t += "    -device: " + std::to_string(dev ? i : 0) + "\n        disable: false\n        out_type: file\n        file: cap" + std::to_string(i == n - 1 ? 1 : 0) + "\n        path: ./\n"; if (i != n - 1) t += "        priority: fatal\n"; }
        int rc = ParseAndStartLogger(lg, t); fprintf(g_out, " capacity%+d rc %d\n", over, rc); if (rc != 0) continue;
        { LogStream l(lg, dev ? 0 : max - 1, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); l << "in the last one"; } fprintf(g_out, " stop %d\n", StopLogger(lg)); lines("  | ", slurp("./cap1.log")); { LogStream l(lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); } }
    unlink("./cap1.log"); unlink("./cap0.log");
}
static void say(Logger& lg, const S& s) { LogStream l(lg, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); l << s; }
// how a text one record cannot hold is cut, relative to this build's record size
static void record_size() {
    Logger lg; int rc = ParseAndStartLogger(lg, " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        file: cap1\n        path: ./\n"); fprintf(g_out, " rc %d\n", rc); if (rc) return;
    for (int d = -8; d <= 8; d++) { size_t b = slurp("./cap1.log").size(); say(lg, S(LogData::LOG_SIZE + d, 'r')); fprintf(g_out, " text of the record size %+d: %+d\n", d, (int)(slurp("./cap1.log").size() - b) - LogData::LOG_SIZE); }
    StopLogger(lg); unlink("./cap1.log");
}
// the file is looked at again when this build's interval has passed, not sooner
static void interval() {
    struct Back { ll t, u; ~Back() { g_t = t; vclock::us() = u; } } back = {g_t, vclock::us()};
    if (Logger::HOTUPDATE_INTERVEL < 2) { fprintf(g_out, " no update at once, one later\n"); return; }
    Logger lg; const S t = " - hot_update: true\n - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: empty\n        priority: ";
    write_cfg(t + "info\n"); int rc = LoadAndStartLogger(lg, "cfg.yaml"); if (rc) { fprintf(g_out, " rc %d\n", rc); return; }
    g_t += Logger::HOTUPDATE_INTERVEL + 1; vclock::set(g_t); say(lg, "x"); write_cfg(t + "warn\n"); say(lg, "x"); g_t += Logger::HOTUPDATE_INTERVEL - 1; vclock::set(g_t); say(lg, "x"); ll a = GetDeviceConfig(lg, 0, 0, DEVICE_CFG_PRIORITY); g_t += 2; vclock::set(g_t); say(lg, "x"); ll b = GetDeviceConfig(lg, 0, 0, DEVICE_CFG_PRIORITY);
    fprintf(g_out, " %s update at once, %s later\n", a == PRIORITY_INFO ? "no" : "an", b == PRIORITY_WARN ? "one" : "none"); StopLogger(lg);
}
int main(int argc, char** argv) {
    if (argc > 1 && chdir(argv[1]) != 0) return 3;
    if (geteuid() == 0) { setfsgid(65534); setfsuid(65534); }   // as the driver's cases
    g_out = fopen("out", "wb"); int sd = open("script", O_RDONLY); if (!g_out || sd < 0) return 3; close(sd);
    g_rx = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a; if (bind(g_rx, (struct sockaddr*)&a, sizeof a) != 0 || getsockname(g_rx, (struct sockaddr*)&a, &al) != 0) return 3; g_port = ntohs(a.sin_port); int bs = 8 << 20; setsockopt(g_rx, SOL_SOCKET, SO_RCVBUF, &bs, sizeof bs);
    vclock::main_only() = true; vclock::set(g_t); std::stringstream in(slurp("script")); S line; std::map<int, Open> open_; int ops = 0; bool use_default = false;
    g_lg.reset(new Logger()); L = g_lg.get();
    fflush(stdout); g_scr = open("scr", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(g_scr, 1);
    while (std::getline(in, line)) {
        std::vector<S> w; { std::stringstream ss(line); S x; while (ss >> x) w.push_back(x); } if (w.empty()) continue; auto num = [&](size_t i) { return i < w.size() ? atoll(w[i].c_str()) : 0; };
        fprintf(g_out, "%d %s\n", ops++, w[0].c_str()); char op = w[0][0];
        switch (op) {
        case 'Z': g_cut = (int)num(1); break;
        case 'N': { int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); close(n); } break;   // messages about texts name the limits
        case 'G': use_default = num(1) != 0; L = use_default ? &GetDefaultLogger() : g_lg.get(); break;
        case 'C': idle(); g_t += num(1); vclock::set(g_t, (int)num(2)); break;
        case 'T': { idle(); int r = w.size() > 1 ? ParseAndStartLogger(*L, text_arg(w[1])) : ParseAndStartLogger(*L, ""); if (r == E_INVALID_CHANNEL_SIZE || r == E_CHANNEL_NOT_SEQUENCE) fprintf(g_out, " rc: impossible channel number\n"); else if (r == E_OUT_OF_DEVICE_SIZE || r == E_DEVICE_NOT_SEQUENCE) fprintf(g_out, " rc: impossible device number\n"); else fprintf(g_out, " rc %d\n", r); if (r == 0) dump(false); } break;
        case 'F': { idle(); write_cfg(text_arg(w.size() > 1 ? w[1] : "")); int r = num(2) ? fast_start(text_arg(w[1])) : LoadAndStartLogger(*L, "cfg.yaml"); fprintf(g_out, " rc %d\n", r); if (r == 0) dump(false); } break;
        case 'S': idle(); fprintf(g_out, " rc %d\n", StartLogger(*L)); break;
        case 'P': outputs(); fprintf(g_out, " rc %d\n", StopLogger(*L)); outputs(); dump(true); files(); break;
        case 'X': outputs(); if (!use_default) { g_lg.reset(); g_lg.reset(new Logger()); L = g_lg.get(); } break;
        case 'W': outputs(); dump(true); break;
        case 'L': case 'l': { auto f = [&]() { LogStream l(*L, (int)num(1), (int)num(2), (int)num(3), num(4), "dir/source.cpp", 14, (int)num(6), "the_function", 12, (unsigned)num(5)); for (size_t i = 7; i < w.size(); i++) piece(l, w[i]); fprintf(g_out, " open %d\n", (int)(l.log_data_ != nullptr)); }; if (op == 'l') { std::thread t(f); t.join(); } else f(); } break;
        case 'M': macros((int)num(1), (int)num(2), (int)num(3), (int)num(4), num(5), un(w.size() > 7 ? w[7] : ""), num(6)); break;
        case 'O': { Open& o = open_[(int)num(1)]; o.ls.reset(); o.ls.reset(new LogStream(*L, (int)num(2), (int)num(3), (int)num(4), num(5), "a.c", 3, 7, "f", 1, LOG_PREFIX_NULL)); for (size_t i = 6; i < w.size(); i++) piece(*o.ls, w[i]); } break;
        case 'Q': { auto it = open_.find((int)num(1)); if (it != open_.end() && it->second.ls) for (size_t i = 2; i < w.size(); i++) piece(*it->second.ls, w[i]); } break;
        case 'K': open_.erase((int)num(1)); break;
        case 'D': idle(); SetDeviceConfig(*L, (int)num(1), (int)num(2), (DeviceConfigEnum)num(3), num(4)); fprintf(g_out, " now %lld\n", num(3) == DEVICE_CFG_UDP_PORT ? 0 : GetDeviceConfig(*L, (int)num(1), (int)num(2), (DeviceConfigEnum)num(3))); break;
        case 'E': idle(); SetChannelConfig(*L, (int)num(1), (ChannelConfigEnum)num(2), num(3)); break;
        case 'B': idle(); BatchSetDeviceConfig(*L, (DeviceOutType)num(1), (DeviceConfigEnum)num(2), num(3)); break;
        case 'b': idle(); BatchSetChannelConfig(*L, (ChannelConfigEnum)num(1), num(2)); break;
        case 'H': idle(); set_hook(num(1) == 0 ? nullptr : num(1) == 1 ? &hook : &hook_tr); break;
        case 'U': { idle(); write_cfg(text_arg(w.size() > 1 ? w[1] : "")); g_t += 100; vclock::set(g_t); idle(); } break;
        case 'V': { idle(); fflush(stdout); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); if (num(1) == 2) record_size(); else if (num(1) == 3) interval(); else capacity((int)num(1)); fflush(stdout); dup2(g_scr, 1); } break;   // its messages name the limits
        default: fprintf(g_out, " unknown operation\n"); }
    }
    open_.clear(); outputs(); fprintf(g_out, "end\n"); StopLogger(*L); outputs(); files(); g_lg.reset();
    fflush(stdout); S scr = slurp("scr"); for (size_t p = 0; (p = scr.find(" max", p)) != S::npos; p += 4) { size_t e = p + 4; while (e < scr.size() && isdigit((unsigned char)scr[e])) e++; scr.erase(p + 4, e - p - 4); }   /* messages about a limit name it */ fprintf(g_out, "screen\n"); lines("  | ", scr); SetVirtualDevice(nullptr);
    fclose(g_out); _exit(0);
}
