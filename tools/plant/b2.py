import sys; sys.path.insert(0,'/tmp/plant'); from lib import *
only=sys.argv[1:]
_p=plant
def plant(pid,*a,**k):
    if not only or pid in only: _p(pid,*a,**k)
SYNC='''
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
'''
plant('c05-mask-width','C05',[('fn_channel.h','''            if (field_identify_mask &&  (field_identify_mask & ((1ULL) << (unsigned int)identify)) == 0)''','''            if (field_identify_mask &&  (field_identify_mask & ((1U) << ((unsigned int)identify & 31))) == 0)''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@        identify_wlist: {3,40}\n") == 0);
    for (int id = 0; id < 64; id++) LOGTO(*lg, 0, PRIORITY_INFO, 0, id) << "id" << id << ".";
    StopLogger(*lg);
    std::string t = slurp("a.log");
    for (int id = 0; id < 64; id++) { std::string w = "id" + std::to_string(id) + "."; MUST(count(t, w) == (id == 3 || id == 40 ? 1 : 0)); }
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"a device identify filter that names identifies of 32 and above, and a record with such an identify","records accepted by the device's identify mask are refused at the channel's front end (mask tested with 32-bit arithmetic)")
plant('c08-date-room','C08',[('fn_stream.h','''        LogStream & operator <<(const LogTimestamp& date)
        {
            if (log_data_ && log_data_->content_len_ + 40 < LogData::LOG_SIZE)''','''        LogStream & operator <<(const LogTimestamp& date)
        {
            if (log_data_ && log_data_->content_len_ + 20 < LogData::LOG_SIZE)''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    for (int n = LogData::LOG_SIZE - 100; n < LogData::LOG_SIZE; n++) {
        LogStream s(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL);
        std::string fill(n, 'x'); s.write_buffer(fill.data(), n); 
        char behind[8]; memcpy(behind, s.log_data_->content_ + LogData::LOG_SIZE, 8);
        s << LogTimestamp(1700000000, 5);
        MUST(memcmp(behind, s.log_data_->content_ + LogData::LOG_SIZE, 8) == 0);
    }
    StopLogger(*lg);
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"a LogTimestamp streamed into a message that has 20 to 22 bytes left","the date is written past the end of the record")
plant('c21-double-stop','C21',[('fn_core.h','''        Logger::StateLockGuard state_guard(logger.state_lock_);
        
        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
        {
            printf("StopLogger logger error. state:<%u> not running:<%u>.\\n", logger.logger_state_, LOGGER_STATE_RUNNING);
            return E_LOGGER_NOT_RUNNING;
        }
''','''        Logger::StateLockGuard state_guard(logger.state_lock_);
        
''')],
r'''
int main() {
    int bad = 0;
    for (int round = 0; round < 100; round++) {
        std::unique_ptr<Logger> lg(new Logger);
        MUST(ParseAndStartLogger(*lg, "@") == 0);
        std::atomic<int> go{0}, ok{0}; std::vector<std::thread> th;
        for (int i = 0; i < 6; i++) th.emplace_back([&]() { go++; while (go < 6) {} if (StopLogger(*lg) == 0) ok++; });
        for (auto& t : th) t.join();
        if (ok != 1) bad++;
    }
    MUST(bad == 0);
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"').replace('sync: sync','sync: async')),"a second StopLogger that passes the first state check while another one is in progress","two concurrent stops both succeed for one start")
plant('c01-ready-early','C01',[('fn_channel.h','''        log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
        log.content_[log.content_len_++] = '\\n';
        log.content_[log.content_len_] = '\\0';

        log.data_mark_ = 2;
''','''        log.data_mark_ = 2;
        log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
        log.content_[log.content_len_++] = '\\n';
        log.content_[log.content_len_] = '\\0';
''')],
r'''
// The loggers are held up at arbitrary instructions by a signal handler that sleeps.
#include <signal.h>
static void nap(int) { struct timespec t = {0, 300000}; int e = errno; nanosleep(&t, nullptr); errno = e; }
int main() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nap; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, nullptr);
    time_t t0 = time(nullptr);
    for (int round = 0; round < 30 && time(nullptr) - t0 < 70; round++) {
        remove("a.log");
        std::unique_ptr<Logger> lg(new Logger);
        MUST(ParseAndStartLogger(*lg, "@") == 0);
        const int T = 6, N = 6000; std::atomic<int> done{0}, quit{0}; std::vector<std::thread> th;
        for (int i = 0; i < T; i++) th.emplace_back([&, i]() { for (int k = 0; k < N; k++) { char b[40]; int n = sprintf(b, "<%d-%d>", i, k); LOGTO(*lg, 0, PRIORITY_INFO, 0, 0).write_buffer(b, n); } done++; while (!quit) usleep(100); });
        for (int n = 0; done < T; n++) { pthread_kill(th[n % T].native_handle(), SIGUSR1); struct timespec t = {0, 1000}; nanosleep(&t, nullptr); }
        quit = 1; for (auto& t : th) t.join();
        MUST(StopLogger(*lg) == 0);
        std::ifstream f("a.log"); std::string l; long lines = 0; std::vector<int> next(T, 0);
        while (std::getline(f, l)) { int a = -1, b = -1, e = 0; MUST(sscanf(l.c_str(), "<%d-%d>%n", &a, &b, &e) == 2 && e == (int)l.size()); MUST(a >= 0 && a < T && next[a]++ == b); lines++; }
        MUST(lines == (long)T * N);
    }
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"').replace('sync: sync','sync: async')),"a thread preempted inside PushChannel between marking its record ready and finishing it, while another thread publishes it and the writer outputs it","a line is output without its newline and merges with the next one", '-O0 -DFN_LOG_MAX_ASYNC_SLEEP_MS=1 -DFN_LOG_MAX_LOG_SIZE=800 -DFN_LOG_MAX_LOG_QUEUE_SIZE=50000 -DFN_LOG_MAX_CHANNEL_SIZE=1')
plant('c06-identify-width','C06',[('fn_parse.h','''                device.config_fields_[DEVICE_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);''','''                device.config_fields_[DEVICE_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@        identify: 1000\n        identify_extend: 6000000000\n") == 0);
    MUST(GetDeviceConfig(*lg, 0, 0, DEVICE_CFG_IDENTIFY) == 1000);
    MUST(GetDeviceConfig(*lg, 0, 0, DEVICE_CFG_IDENTIFY_EXTEND) == 6000000000LL);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 5999999999LL) << "in"; LOGTO(*lg, 0, PRIORITY_INFO, 0, 999) << "out"; LOGTO(*lg, 0, PRIORITY_INFO, 0, 6000001000LL) << "out"; 
    StopLogger(*lg);
    MUST(slurp("a.log") == "in\n");
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"an identify_extend beyond 32 bits on a device","the configured range is cut to 32 bits")
plant('c07-port-buffer','C07',[('fn_parse.h','''        if (end - port_begin >= 40)
        {
            return;
        }''','''        if (end - port_begin > 50)
        {
            return;
        }''')],
r'''
int main() {
    for (int n = 1; n < 80; n++) {
        std::unique_ptr<LexState> ls(new LexState);
        std::string t = "@", p(n, '7'); t += "        udp_addr: 127.0.0.1:" + p + "\n";
        ParseLogger(*ls, t);
    }
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"an address whose port text is exactly 50 characters long","the parser writes one byte behind a stack buffer", '-fsanitize=address')
plant('c03-close-able','C03',[('fn_core.h','''        for (auto& writer : logger.file_handles_)
        {
            if (writer.is_open())
            {
                writer.close();
            }
        }''','''        for (int i = 0; i < logger.shm_->channel_size_ * Channel::MAX_DEVICE_SIZE; i++)
        {
            auto& writer = logger.file_handles_[i];
            if (writer.is_open() && AtomicLoadC(logger.shm_->channels_[i / Channel::MAX_DEVICE_SIZE].devices_[i % Channel::MAX_DEVICE_SIZE], DEVICE_CFG_ABLE))
            {
                writer.close();
            }
        }''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    std::string cfg = "@", b = cfg; b.replace(b.find("\"a\""), 3, "\"b\"");
    MUST(ParseAndStartLogger(*lg, cfg) == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "one";
    SetDeviceConfig(*lg, 0, 0, DEVICE_CFG_ABLE, 0);
    MUST(StopLogger(*lg) == 0);
    MUST(ParseAndStartLogger(*lg, b) == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "two";
    MUST(StopLogger(*lg) == 0);
    MUST(slurp("a.log") == "one\n"); MUST(slurp("b.log") == "two\n");
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"a file device that wrote a line, is disabled with SetDeviceConfig before the stop, and a restart that gives the device another file","after the restart the device's lines go to the file of the previous configuration")
plant('c10-thread-id','C10',[('fn_channel.h','''        static thread_local unsigned int therad_id = (unsigned int)syscall(SYS_gettid);''','''        static unsigned int therad_id = (unsigned int)syscall(SYS_gettid);''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    std::string want;
    for (int i = 0; i < 3; i++) { std::thread t([&]() { LogStream(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_THREAD) << "x"; want += "[" + std::to_string((unsigned)syscall(SYS_gettid)) + "] x\n"; }); t.join(); }
    StopLogger(*lg);
    MUST(slurp("a.log") == want);
    return 0;
}
'''.replace('@',SYNC.replace('\n','\\n').replace('"','\\"')),"the thread prefix and records from more than one thread","every line shows the id of the thread that logged first")
