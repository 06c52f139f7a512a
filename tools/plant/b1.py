import sys; sys.path.insert(0,'/tmp/plant'); from lib import *
CFG='''static const char* CFG_%s = R"(%s)";
'''
plant('c05-mask-width','C05',[('fn_channel.h','''            if (field_identify_mask &&  (field_identify_mask & ((1ULL) << (unsigned int)identify)) == 0)''','''            if (field_identify_mask &&  (field_identify_mask & ((1U) << (unsigned int)identify)) == 0)''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
        identify_filter: 3,40
)") == 0);
    for (int id = 0; id < 64; id++) LOGTO(*lg, 0, PRIORITY_INFO, 0, id) << "id" << id << ".";
    StopLogger(*lg);
    std::string t = slurp("a.log");
    for (int id = 0; id < 64; id++) MUST(count(t, "id" + std::to_string(id) + ".") == (id == 3 || id == 40 ? 1 : 0));
    return 0;
}
''',"a device identify filter that names identifies of 32 and above, and a record with such an identify","records accepted by the device's identify mask are refused at the channel's front end (mask tested with 32-bit arithmetic)")
plant('c05-range-end','C05',[('fn_channel.h','''log.category_ >= begin_category + category_count))
            {
                continue;''','''log.category_ > begin_category + category_count))
            {
                continue;''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
        category: 2
        category_extend: 3
    -device: 1
        disable: false
        out_type: file
        path: "./"
        file: "b"
)") == 0);
    for (int c = 0; c < 10; c++) LOGTO(*lg, 0, PRIORITY_INFO, c, 0) << "c" << c << ".";
    StopLogger(*lg);
    std::string a = slurp("a.log"), b = slurp("b.log");
    for (int c = 0; c < 10; c++) { std::string w = "c" + std::to_string(c) + "."; MUST(count(a, w) == (c >= 2 && c < 5)); MUST(count(b, w) == 1); }
    return 0;
}
''',"two devices on one channel with different category ranges (with one device the front end hides it) and a record with category begin+extend","a device outputs records of the category just behind its range")
plant('c04-flush-first','C04',[('fn_channel.h','''        for (int i = 0; i < channel.device_size_; i++)
        {
            if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
            {
                logger.file_handles_[channel.channel_id_ * Channel::MAX_DEVICE_SIZE + i].flush();
            }''','''        for (int i = 0; i < channel.device_size_; i++)
        {
            if (channel.devices_[i].out_type_ != DEVICE_OUT_FILE)
            {
                break;
            }
            else
            {
                logger.file_handles_[channel.channel_id_ * Channel::MAX_DEVICE_SIZE + i].flush();
            }''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
    -device: 1
        disable: true
        out_type: screen
    -device: 2
        disable: false
        out_type: file
        path: "./"
        file: "b"
)") == 0);
    for (int c = 0; c < 10; c++) { LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "c" << c << "."; std::string w = "c" + std::to_string(c) + "."; MUST(count(slurp("a.log"), w) == 1); MUST(count(slurp("b.log"), w) == 1); }
    StopLogger(*lg);
    return 0;
}
''',"a sync channel with a device of another type listed before a file device","the file devices behind the first non-file device are not flushed when a statement on a sync channel returns")
plant('c08-binary-row','C08',[('fn_stream.h','''                    if (log_data_->content_len_ + 30 >= LogData::LOG_SIZE)
                    {
                        break;
                    }''','''                    if (log_data_->content_len_ >= LogData::LOG_SIZE)
                    {
                        break;
                    }''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
)") == 0);
    char bin[64]; memset(bin, 0x5a, sizeof(bin));
    for (int n = LogData::LOG_SIZE - 400; n < LogData::LOG_SIZE; n++) {
        LogStream s(*lg, 0, PRIORITY_INFO, 0, 0, nullptr, 0, 0, nullptr, 0, LOG_PREFIX_NULL);
        std::string fill(n, 'x'); s.write_buffer(fill.data(), n); s.write_binary(bin, 64);
        MUST(s.log_data_->content_len_ <= LogData::LOG_SIZE);
    }
    StopLogger(*lg);
    return 0;
}
''',"write_binary when exactly one byte of the message is left","the message grows past LOG_SIZE (byte behind the content is overwritten)")
plant('c09-hex-width','C09',[('fn_fmt.h','case 53:case 54:case 55:case 56: real_wide = 14; break;\n        case 57:case 58:case 59:case 60:real_wide = 15; break;' if False else 'case 53:case 54:case 55:case 56:real_wide = 14; break;','case 53:case 54:case 55:case 56:real_wide = 13; break;')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
)") == 0);
    std::string want;
    for (int b = 0; b < 64; b++) { unsigned long long v = 1ULL << b | (b > 4 ? 0x15 : 0); LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << (const void*)v; char s[40]; snprintf(s, 40, "0x%llX\n", v); want += s; }
    StopLogger(*lg);
    MUST(slurp("a.log") == want);
    return 0;
}
''',"a pointer value whose highest set bit is bit 52 to 55","the hexadecimal text of such a value loses its leading digit (and writes one byte in front)")
plant('c11-pair','C11',[('fn_stream.h','''                if (input_count >= MAX_CONTAINER_DEPTH)''','''                if (input_count > MAX_CONTAINER_DEPTH)''')],
r'''
int main() {
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
)") == 0);
    std::string want; std::vector<int> v;
    for (int n = 0; n < 9; n++) { LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << v; want += "vector:(" + std::to_string(n) + ")["; for (int i = 0; i < n; i++) { if (i == 5) { want += "..., "; break; } if (i) want += ", "; want += std::to_string(i); } want += "]\n"; v.push_back(n); }
    StopLogger(*lg);
    MUST(slurp("a.log") == want);
    return 0;
}
''',"a container with more than five elements","six instead of five elements are written before the ellipsis (without a separator)")
plant('c12-ten-backups','C12',[('fn_file.h','''        size_t pos = path.find_last_not_of("0123456789");''','''        size_t pos = path.length() - 2;''')],
r'''
int main() {
    for (int i = 1; i <= 12; i++) { std::ofstream f(("a.log." + std::to_string(i)).c_str()); f << "old" << i; }
    { std::ofstream f("a.log"); f << "old0\n"; }
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a"
        rollback: 14
        limit_size: 1
)") == 0);
    LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "new";
    StopLogger(*lg);
    MUST(slurp("a.log") == "new\n");
    MUST(slurp("a.log.1") == "old0\n");
    for (int i = 1; i <= 12; i++) MUST(slurp("a.log." + std::to_string(i + 1)) == "old" + std::to_string(i));
    return 0;
}
''',"rollback of more than ten and more than ten backups","backup 10 is not renamed to backup 11 but to another name (and an existing backup is lost)")
plant('c13-hour','C13',[('fn_out_file_device.h','''                    snprintf(buff, 30, "%02d", t.tm_hour);''','''                    strftime(buff, 30, "%I", &t);''')],
r'''
static time_t g_now = 1700000000;
extern "C" time_t time(time_t* t) { if (t) *t = g_now; return g_now; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_now; tv->tv_usec = 0; return 0; }
int main() {
    setenv("TZ", "UTC", 1); tzset();
    std::unique_ptr<Logger> lg(new Logger);
    MUST(ParseAndStartLogger(*lg, R"(
 - channel: 0
    sync: sync
    -device: 0
        disable: false
        out_type: file
        path: "./"
        file: "a$HOUR"
        rollhourly: true
)") == 0);
    for (int h = 0; h < 24; h++) { g_now = 1700006400 - 1700006400 % 86400 + h * 3600 + 5; LOGTO(*lg, 0, PRIORITY_INFO, 0, 0) << "h" << h << "."; }
    StopLogger(*lg);
    for (int h = 0; h < 24; h++) { char n[30]; snprintf(n, 30, "a%02d.log", h); MUST(slurp(n) == "h" + std::to_string(h) + ".\n"); }
    return 0;
}
''',"a file pattern with $HOUR and a record of hour 0 or 13 to 23","the afternoon's lines go to the morning's files (12-hour clock)")
