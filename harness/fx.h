// Common fixture: the library under test, small configuration builders, observers.
#pragma once
#include "pbt.h"
#include "vclock.h"
#include <memory>
#include <sstream>
#include "fn_log.h"
using namespace pbt;
typedef long long ll;
typedef std::unique_ptr<FNLog::Logger> LoggerPtr;
static const int LOGMAX = FNLog::LogData::LOG_SIZE;
static inline LoggerPtr mk_logger() { return LoggerPtr(new FNLog::Logger()); }
static inline void put(FNLog::Logger& lg, int ch, int pri, int cat, ll id, const std::string& text) {
    LOG_STREAM_ORIGIN(lg, ch, pri, cat, id, FNLog::LOG_PREFIX_NULL).self() << text;
}
static inline std::string file_text(const std::string& p) { std::string s; read_file(p, s); return s; }
static const char* const PRI_NAMES[] = {"trace", "debug", "info", "warn", "error", "alarm", "fatal"};
