import sys; sys.path.insert(0,'/tmp/plant'); from lib import *
only=sys.argv[1:]
_p=plant
def plant(pid,*a,**k):
    if not only or pid in only: _p(pid,*a,**k)
def cfg(t): return t.replace('\n','\\n').replace('"','\\"')
SYNC=cfg('''
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
''')
ASYNC=SYNC.replace('sync: sync','sync: async')

plant('c02-direct-write','C02',[('fn_file.h','''            if (fwrite(data, 1, len, file_) != len)
''','''            //long lines need not be copied through the buffer.  
            if (len > 600 ? ::write(fileno(file_), data, len) != (ssize_t)len : fwrite(data, 1, len, file_) != len)
''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    std::string longtext(700, 'x');
    for (int i = 0; i < 3000; i++) LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "n" << i << "." << (i % 7 == 0 ? longtext : std::string());
    MUST(StopLogger(*lg) == 0);
    std::string t = slurp("a.log"); size_t p = 0;
    for (int i = 0; i < 3000; i++) { std::string w = "n" + std::to_string(i) + "."; size_t q = t.find(w); MUST(q != std::string::npos); MUST(i == 0 || q > p); p = q; }
    return 0;
}
'''.replace('@',ASYNC),"an asynchronous channel with a queue of short lines followed by a line of more than 600 bytes before the next flush","a long line overtakes the shorter ones logged before it, which are still in the stream's buffer")

plant('c04-one-writer','C04',[('fn_channel.h',"""                if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
                {
                    //empty branch    
""","""                if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire) || logger.sync_procs_[channel_id] > 1)
                {
                    //empty branch, or another thread is emptying it on a sync channel    
""")],
r"""
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    const int rounds = 20000, threads = 4;
    std::atomic<int> in(0), out(0);
    auto work = [&](int t) {
        for (int i = 0; i < rounds; i++) {
            in++; while (in < (i + 1) * threads) std::this_thread::yield();
            for (volatile int k = 0; k < (i * (t + 1) * 7) % 1500; k++) {}
            LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "t" << t << "n" << i << ".";
            out++; while (out < (i + 1) * threads) std::this_thread::yield();
            MUST(GetChannelLog(*lg, 0, CHANNEL_LOG_PROCESSED) >= (i + 1) * threads);
        }
    };
    std::vector<std::thread> th; for (int t = 0; t < threads; t++) th.push_back(std::thread(work, t));
    for (auto& t : th) t.join();
    StopLogger(*lg);
    return 0;
}
""".replace('@',SYNC),"several threads on a synchronous channel; one pushes its record after another has seen the queue empty and before that one leaves","the record stays in the queue although its statement and all others have returned")

plant('c14-roll-retry','C14',[('fn_out_file_device.h','''        if (!writer.is_open())
        {
            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 2);
            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP, log.timestamp_);
''','''        if (!writer.is_open())
        {
            //try less often while it keeps failing.  
            long long again = AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR) == 2 ? 4 : 0;
            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 2);
            AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP, log.timestamp_ + again);
''')],
r'''
#include <sys/stat.h>
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    mkdir("a.log", 0700);  // the file's name is taken by a directory
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "first";   // attempt 1 fails
    sleep(6);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "second";  // attempt 2 fails
    MUST(rmdir("a.log") == 0);
    sleep(6);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "third.";
    MUST(count(slurp("a.log"), "third.") == 1);
    StopLogger(*lg);
    return 0;
}
'''.replace('@',SYNC),"a file that fails at two consecutive attempts and is free again afterwards","lines logged 5 to 9 seconds after the last failed attempt are still dropped")

plant('c15-taken-record','C15',[('fn_load.h','''            shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
''','''            //records the writer had taken already  
            while (shm->ring_buffers_[i].read_idx_ != shm->ring_buffers_[i].proc_idx_)
            {
                shm->ring_buffers_[i].buffer_[RingBuffer::Slot(shm->ring_buffers_[i].read_idx_)].data_mark_ = MARK_INVALID;
                shm->ring_buffers_[i].read_idx_ = RingBuffer::NextIndex(shm->ring_buffers_[i].read_idx_);
            }
''')],
r'''
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>
static std::string text() { return "- shm_key: " + std::to_string(0x51000000 + (getppid() & 0xffff)) + "\n" + "@"; }
static std::string text(int pid) { return "- shm_key: " + std::to_string(0x51000000 + (pid & 0xffff)) + "\n" + "@"; }
int main() {
    // the first process dies in the write of its third line: the disk quota is used up
    if (fork() == 0) {
        std::string cfgt = text();
        Logger* lg = new Logger;
        struct rlimit rl = { 6000, 6000 }; struct rlimit nc = { 0, 0 };
        setrlimit(RLIMIT_CORE, &nc);
        if (ParseAndStartLogger(*lg, cfgt) != 0) _exit(9);
        setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_DFL);
        std::string big(5000, 'x');
        LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "one." << big;
        LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "two." << big;
        LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "three.";
        _exit(8);
    }
    int st = 0; MUST(wait(&st) > 0); MUST(WIFSIGNALED(st));
    rename("a.log", "old.log");
    alarm(60);
    {
        std::unique_ptr<Logger> lg(new Logger);
        MUST(ParseAndStartLogger(*lg, text(getpid())) == 0);
        LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "four.";
        StopLogger(*lg);
    }
    std::string t = slurp("a.log");
    MUST(count(t, "two." + std::string(5000, 'x') + "\n") == 1);
    MUST(count(t, "four.") == 1);
    return 0;
}
'''.replace('@',SYNC.replace('path: \\"./\\"','path: \\"./\\"')),"a process that dies while it writes out a record","the record being written is not output by the next process")

plant('c16-older-file','C16',[('fn_load.h','''        if (file_stat.st_mtime == dst_chl.yaml_mtime_)
''','''        if (file_stat.st_mtime <= dst_chl.yaml_mtime_)
''')],
r'''
#include <utime.h>
static void put(const std::string& t, long ago) { { std::ofstream f("c.yaml.new"); f << t; } struct utimbuf u; u.actime = u.modtime = time(NULL) - ago; utime("c.yaml.new", &u); rename("c.yaml.new", "c.yaml"); }
int main() {
    std::string a = "- hot_update: true\n@", b = "- hot_update: true\n@        priority: error\n";
    put(a, 100);
    std::unique_ptr<Logger> lg(new Logger);
    MUST(LoadAndStartLogger(*lg, "c.yaml") == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "one.";
    sleep(7);
    put(b, 5000); // restored from a backup that is older
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "two.";
    sleep(7);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "three.";
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "four.";
    MUST(GetDeviceConfig(*lg, 0, 0, DEVICE_CFG_PRIORITY) == PRIORITY_ERROR);
    StopLogger(*lg);
    return 0;
}
'''.replace('@',SYNC),"a configuration file replaced by one with an older modification time (restored from a backup, cp -p, git checkout)","the change is never taken over")

plant('c17-hook-count','C17',[('fn_out_virtual_device.h','''            if (!fields[FNLog::DEVICE_CFG_ABLE])
            {
                return;
            }
''','''            if (!fields[FNLog::DEVICE_CFG_ABLE])
            {
                return;
            }
            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
'''),('fn_out_virtual_device.h','''            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE''','''            AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE''')],
r'''
static int calls;
static void hook(const LogData&) { calls++; }
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    SetVirtualDevice(&hook);
    MUST(ParseAndStartLogger(*lg, "@    -device: 1\n        disable: false\n        out_type: virtual\n        identify_wlist: {3,40}\n") == 0);
    for (int i = 0; i < 64; i++) LOGTO(*lg, 0, PRIORITY_INFO, 0, i) << "x";
    MUST(calls == 2);
    MUST(GetDeviceLog(*lg, 0, 1, DEVICE_LOG_TOTAL_WRITE_LINE) == calls);
    MUST(GetDeviceLog(*lg, 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) == 64);
    StopLogger(*lg);
    return 0;
}
'''.replace('@',SYNC),"a virtual device with a category or identify filter next to another device, and a statement that only the other one accepts","the virtual device's line counter counts lines it refused")

plant('c18-stale-input','C18',[('fn_channel.h','''                if (!device.config_fields_[DEVICE_CFG_ABLE])
                {
                    if (udp.is_open())
                    {
                        udp.close();
                    }
                    continue;
                }
''','''                if (!device.config_fields_[DEVICE_CFG_ABLE])
                {
                    if (udp.is_open() && channel.channel_type_ == CHANNEL_ASYNC)
                    {
                        udp.close();
                    }
                    continue;
                }
''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    // a port nobody uses
    int s = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr("127.0.0.1");
    MUST(bind(s, (struct sockaddr*)&a, sizeof(a)) == 0); socklen_t l = sizeof(a); getsockname(s, (struct sockaddr*)&a, &l); close(s);
    s = socket(AF_INET, SOCK_DGRAM, 0);
    std::string port = std::to_string(ntohs(a.sin_port));
    MUST(ParseAndStartLogger(*lg, "@    -device: 1\n        disable: false\n        in_type: udp\n        udp_addr: 127.0.0.1:" + port + "\n        out_type: file\n        path: \"./\"\n        file: \"in\"\n") == 0);
    auto send = [&](const char* t) { MUST(sendto(s, t, strlen(t), 0, (struct sockaddr*)&a, sizeof(a)) == (ssize_t)strlen(t)); usleep(50000); };
    auto tick = [&]() { LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "tick"; };
    tick(); send("one\n"); tick();
    SetDeviceConfig(*lg, 0, 1, DEVICE_CFG_ABLE, 0); tick();
    sendto(s, "off\n", 4, 0, (struct sockaddr*)&a, sizeof(a)); usleep(50000); tick();
    SetDeviceConfig(*lg, 0, 1, DEVICE_CFG_ABLE, 1); tick(); 
    sleep(4); tick(); send("two\n"); tick();
    StopLogger(*lg);
    std::string t = slurp("in.log");
    MUST(count(t, "one\n") == 1); MUST(count(t, "two\n") == 1); MUST(count(t, "off") == 0);
    return 0;
}
'''.replace('@',SYNC),"a UDP input device on a synchronous channel that is disabled and enabled again at run time, with datagrams sent meanwhile","datagrams that arrived while the device was disabled are output when it is enabled again (the socket stays bound)")

plant('c19-screen-lock','C19',[('fn_out_screen_device.h','''        Logger::ScreenLockGuard l(logger.screen_lock_);
''','''        //the channel's thread is alone on an async channel.  
        Logger::ScreenLockGuard l(logger.screen_lock_, logger.shm_->channels_[channel_id].channel_type_ == CHANNEL_ASYNC);
'''),('fn_out_screen_device.h','''        printf("%s%s\\e[0m", PRIORITY_RENDER[priority].scolor_, log.content_);
''','''        fputs(PRIORITY_RENDER[priority].scolor_, stdout);
        fputs(log.content_, stdout);
        fputs("\\e[0m", stdout);
''')],
r'''
#include <sys/wait.h>
int main() {
    int out = open("screen.txt", O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fork() == 0) {
        dup2(out, 1);
        std::unique_ptr<Logger> lg(new Logger);
        std::string c = "\n";
        for (int i = 0; i < 2; i++) c += " - channel: " + std::to_string(i) + "\n    sync: async\n    -device: 0\n        disable: false\n        out_type: screen\n";
        MUST(ParseAndStartLogger(*lg, c) == 0);
        std::vector<std::thread> th;
        for (int t = 0; t < 2; t++) th.push_back(std::thread([&, t] { for (int i = 0; i < 200000; i++) LOGTO(*lg, t, PRIORITY_ERROR, 0, 0) << "{" << t << "-" << i << "}"; }));
        for (auto& t : th) t.join();
        StopLogger(*lg);
        fflush(stdout); _exit(0);
    }
    int st; MUST(wait(&st) > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::string s = slurp("screen.txt"), reset = "\x1b[0m";
    int lines = 0; size_t p = 0;
    while ((p = s.find('{', p)) != std::string::npos) {
        size_t e = s.find('}', p); MUST(e != std::string::npos && e - p < 16);
        MUST(s.compare(e + 1, 1 + reset.length(), "\n" + reset) == 0);
        size_t b = s.rfind("\x1b[", p); MUST(b != std::string::npos && p - b <= 8 && s[p - 1] == 'm');
        MUST(s.compare(b, reset.length(), reset) != 0);
        lines++; p = e;
    }
    MUST(lines == 400000);
    return 0;
}
''',"screen devices on two asynchronous channels that print at the same time","colour sequences and lines of different channels are interleaved (no common lock and three separate calls)")

plant('c20-transmit-text','C20',[('fn_channel.h','''        memcpy(trans_log.content_, log.content_, log.content_len_);
''','''        strncpy(trans_log.content_, log.content_, log.content_len_);
''')],
r'''
static Logger* g;
static void hook(const LogData& log) { if (log.channel_id_ == 0) TransmitChannel(*g, 1, 0, 0, log); }
int main() {
    std::unique_ptr<Logger> lg(new Logger); g = lg.get();
    SetVirtualDevice(&hook);
    MUST(ParseAndStartLogger(*lg, "@    -device: 1\n        disable: false\n        out_type: virtual\n - channel: 1\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: file\n        path: \"./\"\n        file: \"b\"\n") == 0);
    std::string bin("in\0side.", 8);
    LogStream(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL).write_buffer(bin.data(), (int)bin.length());
    StopLogger(*lg);
    MUST(slurp("a.log") == bin + "\n");
    MUST(slurp("b.log") == bin + "\n");
    return 0;
}
'''.replace('@',SYNC),"a transmitted record whose text contains a NUL byte","the transmitted copy loses everything after the NUL byte")

plant('c22-atomic-width','C22',[('fn_data.h','''        using ConfigFields = std::array<std::atomic_llong, DEVICE_CFG_MAX_ID>;''','''        using ConfigFields = std::array<std::atomic_long, DEVICE_CFG_MAX_ID>;''')] if 0 else
[('fn_data.h','''    #define AtomicLoadC(m, eid) m.config_fields_[eid].load(std::memory_order_relaxed)''','''    #define AtomicLoadC(m, eid) (int)m.config_fields_[eid].load(std::memory_order_relaxed)''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@        category_wlist: {3,40}\n") == 0);
    for (int i = 0; i < 64; i++) LOGTO(*lg, 0, PRIORITY_INFO, i, 0) << "c" << i << ".";
    StopLogger(*lg);
    std::string t = slurp("a.log");
    for (int i = 0; i < 64; i++) MUST(count(t, "c" + std::to_string(i) + ".") == (i == 3 || i == 40 ? 1 : 0));
    return 0;
}
'''.replace('@',SYNC),"a build with FN_LOG_USING_ATOM_CFG and a setting beyond 32 bits","settings read through the atomic configuration are cut to 32 bits, so the build refuses lines that the default build outputs",flags='-DFN_LOG_USING_ATOM_CFG')

