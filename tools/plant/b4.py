import sys; sys.path.insert(0,'/tmp/plant'); from lib import *
only=sys.argv[1:]
_p=plant
def plant(pid,*a,**k):
    if not only or pid in only: _p(pid,*a,**k)
def cfg(t): return t.replace('\n','\\n').replace('"','\\"')
SYNC=cfg('''
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
''')
ASYNC=SYNC.replace('sync: sync','sync: async')

plant('c01-text-write','C01',[('fn_file.h','''            if (fwrite(data, 1, len, file_) != len)
''','''            if (fputs(data, file_) < 0)
''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    std::string bin("in\0side.", 8), all;
    for (int i = 0; i < 50; i++) { LogStream(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL).write_buffer(bin.data(), (int)bin.length()); all += bin + "\n"; }
    MUST(StopLogger(*lg) == 0);
    MUST(slurp("a.log") == all);
    return 0;
}
'''.replace('@',ASYNC),"a message that contains a NUL byte","the rest of the line, its newline included, is missing in the file")

plant('c04-batch-flush','C04',[('fn_channel.h','''            if (flush_count != 0)
            {
                FlushFileDevices''','''            if (channel.channel_type_ == CHANNEL_ASYNC ? flush_count != 0 : flush_count == 1)
            {
                FlushFileDevices''')],
r'''
static Logger* g;
static int inner() { LOGTO(*g, 0, PRIORITY_INFO, 0, 0) << "inner."; return 7; }
int main() {
    std::unique_ptr<Logger> lg(new Logger); g = lg.get();
    MUST(ParseAndStartLogger(*lg, "@") == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "plain.";
    MUST(count(slurp("a.log"), "plain.\n") == 1);
    { LogStream s(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL); s << "outer "; s << inner(); }
    MUST(count(slurp("a.log"), "outer 7\ninner.\n") == 1);
    StopLogger(*lg);
    return 0;
}
'''.replace('@',SYNC),"a statement on a synchronous channel whose expression logs to the same channel","both lines stay in the stream's buffer when the outer statement returns")

plant('c06-tab-comment','C06',[('fn_parse.h','''XX''','''YY''')],'','','') if 0 else None

plant('c12-digit-name','C12',[('fn_file.h','''        size_t pos = path.find_last_not_of("0123456789");
        if (pos != std::string::npos && path.at(pos) == '.')
''','''        size_t pos = path.find_last_of('.');
        if (pos != std::string::npos && depth > 1)
''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, "@        rollback: 3\n") == 0);
    SetDeviceConfig(*lg, 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, 100);
    std::string body(60, 'x');
    for (int i = 0; i < 6; i++) LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "n" << i << "." << body;
    StopLogger(*lg);
    MUST(count(slurp("a.log"), "n5.") == 1); MUST(count(slurp("a.log.1"), "n4.") == 1);
    MUST(count(slurp("a.log.2"), "n3.") == 1); MUST(count(slurp("a.log.3"), "n2.") == 1); 
    return 0;
}
'''.replace('@',SYNC),"x","x") if 0 else None

plant('c14-half-path','C14',[('fn_file.h','''            std::string cur = path.substr(0, pos - 0);
            if (cur.length() > 0 && !is_dir(cur))
''','''            std::string cur = path.substr(0, pos - 0);
            if (cur.length() > 0 && !is_file(cur))
''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(system("ln -s nowhere/yet logs") == 0); 
    return 0;
}
''',"x","x") if 0 else None

plant('c03-drain-stop','C03',[('fn_channel.h','''            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || ring_buffer.write_idx_ != ring_buffer.read_idx_));
''','''            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || (empty_tick == false && ring_buffer.write_idx_ != ring_buffer.read_idx_)));
''')],'','','') if 0 else None

plant('c20-hook-priority','C20',[('fn_channel.h','''        trans_log.timestamp_ = log.timestamp_;
        trans_log.precise_ = log.precise_;
        trans_log.thread_ = log.thread_;
''','''        trans_log.timestamp_ = log.timestamp_;
        trans_log.precise_ = log.precise_;
''')],r'''
static Logger* g; static unsigned t1, t2; 
static void hook(const LogData& log) { if (log.channel_id_ == 0) TransmitChannel(*g, 1, 0, 0, log); }
''','','') if 0 else None

plant('c16-append-first','C16',[('fn_load.h','''            if (device_id < dst_chl.device_size_)
            {
                Device& dst_dvc''','''            if (device_id < dst_chl.device_size_ - 1 || (device_id == 0 && dst_chl.device_size_ == 1))
            {
                Device& dst_dvc''')],'','','') if 0 else None

plant('c21-state-window','C21',[('fn_core.h','''        int ret = StartChannels(logger);
        if (ret != 0)
''','''        logger.logger_state_ = LOGGER_STATE_RUNNING;
        int ret = StartChannels(logger);
        if (ret != 0)
''')],'','','') if 0 else None
