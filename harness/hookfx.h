// A sync channel with one virtual device; render(f) returns the text handed to the hook.
#pragma once
#include "fx.h"
namespace hookfx {
struct Got { std::string text; int pri, cat; ll id; ll ts; int ms; unsigned thread; int prefix_len; };
inline std::vector<Got>& got() { static std::vector<Got> v; return v; }
inline void hook(const FNLog::LogData& d) {
    Got g; g.text.assign(d.content_, d.content_len_ < LOGMAX ? d.content_len_ : LOGMAX); g.pri = d.priority_; g.cat = d.category_; g.id = d.identify_;
    g.ts = d.timestamp_; g.ms = d.precise_; g.thread = d.thread_; g.prefix_len = d.prefix_len_;
    got().push_back(g);
}
inline FNLog::Logger& lg() {
    static FNLog::Logger* l = nullptr;
    if (!l) {
        l = new FNLog::Logger();
        int r = FNLog::ParseAndStartLogger(*l,
            " - channel: 0\n    sync: sync\n    -device: 0\n        disable: false\n        out_type: vm\n");
        if (r != 0) { throw Failure{fmt("cannot start the fixture logger: %d", r)}; }
        FNLog::SetVirtualDevice(&hook);
    }
    return *l;
}
template <class F> std::string render(F f) {
    got().clear();
    { FNLog::LogStream ls(lg(), 0, FNLog::PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, FNLog::LOG_PREFIX_NULL); f(ls); }
    if (got().size() != 1) throw Failure{fmt("statement reached the hook %zu times", got().size())};
    return got()[0].text;
}
}
