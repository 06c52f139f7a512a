// Time zones and interesting instants (day boundaries, DST transitions).
#pragma once
#include "pbt.h"
#include <time.h>
static const char* const ZONES[] = {"UTC", "America/New_York", "Europe/London", "Asia/Shanghai", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia",
    "Asia/Kathmandu", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Beirut", "Pacific/Kiritimati", "Antarctica/Troll", "America/Havana", "Europe/Dublin", "America/Scoresbysund",
    "EST5EDT,M3.2.0,M11.1.0", "XXX-13:45", "AAA4BBB,M10.3.0/0,M2.3.0/0", "Asia/Tehran", "Atlantic/Azores"};
static inline void use_zone(const char* z) { setenv("TZ", z, 1); tzset(); }
static inline struct tm ltm(long long t) { time_t x = t; struct tm r; memset(&r, 0, sizeof r); localtime_r(&x, &r); return r; }
static inline long long local_midnight(long long t) { struct tm a = ltm(t); a.tm_hour = a.tm_min = a.tm_sec = 0; a.tm_isdst = -1; return (long long)mktime(&a); }
// first offset change at or after t, searched for two years; t if there is none
static inline long long next_transition(long long t) {
    long off = ltm(t).tm_gmtoff; long long d = t;
    for (int i = 0; i < 105; i++) { d += 7 * 86400; if (ltm(d).tm_gmtoff != off) { long long lo = d - 7 * 86400, hi = d; while (hi - lo > 1) { long long m = lo + (hi - lo) / 2; if (ltm(m).tm_gmtoff != off) hi = m; else lo = m; } return hi; } }
    return t;
}
static inline bool same_day(long long a, long long b) { struct tm x = ltm(a), y = ltm(b); return x.tm_year == y.tm_year && x.tm_yday == y.tm_yday; }
static inline long long gen_instant(pbt::Src& s, pbt::Ctx& ctx, long long maxt) {
    switch (s.weighted({3, 3, 4, 2, 1, 1})) {
    case 0: return s.range(86400, 2145916800LL);
    case 1: { long long t = local_midnight(s.range(86400 * 3, 2145916800LL)); ctx.label("t:midnight"); return t + s.pick({0LL, -1LL, 1LL, 86399LL, 86400LL, -3600LL, 3599LL}); }
    case 2: { long long t = next_transition(s.range(86400 * 400LL, 2145916800LL)); ctx.label("t:transition"); return t + s.pick({0LL, -1LL, 1LL, 3600LL, -3600LL, 7200LL, -86400LL, 86399LL, 40000LL, -40000LL}); }
    case 3: { struct tm a; memset(&a, 0, sizeof a); a.tm_year = (int)s.range(71, 199); a.tm_mon = s.coin() ? 0 : 2; a.tm_mday = 1; a.tm_isdst = -1; long long t = mktime(&a); ctx.label("t:month/year end"); return std::max(0LL, t + s.pick({0LL, -1LL, 1LL, -86400LL})); }
    case 4: ctx.label("t:far future"); return std::min(maxt, s.range(2145916800LL, maxt));
    default: ctx.label("t:first day"); return s.range(0, 86400 * 2);
    }
}
