// C09: exact rendering of numbers, booleans, characters and pointers.
#include "hookfx.h"
#include <cmath>
#include <cfloat>
#include <climits>
using hookfx::render;

static u64 gen_u64(Src& s, Ctx& ctx) {
    switch (s.weighted({3, 3, 3, 3, 2, 2})) {
    case 0: return s.u(1000);
    case 1: { u64 p = 1; int k = (int)s.u(20); while (k--) p *= 10; ctx.label("int:pow10"); return p + (u64)s.range(-2, 2); }
    case 2: { int k = (int)s.u(64); ctx.label("int:pow2"); return (1ULL << k) + (u64)s.range(-2, 2); }
    case 3: { int k = (int)s.u(65); u64 v = s.bits(); return k == 64 ? v : v & ((1ULL << k) - 1); }
    case 4: { u64 v = 0; int n = (int)s.range(1, 19); for (int i = 0; i < n; i++) v = v * 10 + (u64)s.pick({0, 9, 1, 5, 0, 9}); ctx.label("int:digits"); return v; }
    default: { ctx.label("int:limit"); return s.pick({0ULL, 1ULL, (u64)LLONG_MAX, (u64)LLONG_MIN, ULLONG_MAX, (u64)INT_MAX, (u64)(ll)INT_MIN, (u64)UINT_MAX, (u64)SHRT_MAX, (u64)(ll)SHRT_MIN, (u64)USHRT_MAX, (u64)CHAR_MAX}); }
    }
}
template <class T> static void chk_stream(Ctx& ctx, T v, const std::string& want, const char* what) {
    std::string g = render([&](FNLog::LogStream& l) { l << v; });
    ctx.note("%s -> \"%s\"", what, esc(g).c_str());
    CHECK(g == want, "<< %s rendered \"%s\", expected \"%s\"", what, esc(g).c_str(), want.c_str());
}
static std::string padded(const std::string& d, int w) { return (int)d.size() >= w ? d : std::string(w - d.size(), '0') + d; }
static std::string digits(u64 v, int base) { std::string r; do { r.insert(r.begin(), "0123456789ABCDEF"[v % base]); v /= base; } while (v); return r; }

typedef int (*F)(char*, u64); typedef int (*FS)(char*, ll);
template <int... I> struct Tab { static F dec(int i) { static F t[] = {[](char* d, u64 v) { return FNLog::write_dec_unsafe<I>(d, v); }...}; return t[i]; }
    static FS sdec(int i) { static FS t[] = {[](char* d, ll v) { return FNLog::write_dec_unsafe<I>(d, v); }...}; return t[i]; }
    static F hex(int i) { static F t[] = {[](char* d, u64 v) { return FNLog::write_hex_unsafe<I>(d, v); }...}; return t[i]; }
    static F bin(int i) { static F t[] = {[](char* d, u64 v) { return FNLog::write_bin_unsafe<I>(d, v); }...}; return t[i]; } };
typedef Tab<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30> T;
template <class Fn, class V> static std::string call(Fn f, V v, int& guard) {
    char buf[400]; memset(buf, 0x5a, sizeof buf); int n = f(buf + 100, v); if (n < 0 || n > 200) { guard = 1; return fmt("<length %d>", n); }
    for (int i = 0; i < 100; i++) if (buf[i] != 0x5a) guard = 2;
    for (int i = 100 + n; i < 400; i++) if (buf[i] != 0x5a) guard = 3;
    return std::string(buf + 100, n);
}

PROP(ints, 400, 20000) {
    u64 v = gen_u64(s, ctx); ll sv = (ll)v;
    ctx.nontrivial(v > 9); ctx.key(fmt("i%llu", v));
    if (sv < 0) ctx.label("negative");
    ctx.note("value %llu / %lld", v, sv);
    switch (s.u(14)) {
    case 0: chk_stream(ctx, sv, std::to_string(sv), "long long"); break;
    case 1: chk_stream(ctx, v, std::to_string(v), "unsigned long long"); break;
    case 2: chk_stream(ctx, (int)v, std::to_string((int)v), "int"); break;
    case 3: chk_stream(ctx, (unsigned)v, std::to_string((unsigned)v), "unsigned"); break;
    case 4: chk_stream(ctx, (short)v, std::to_string((short)v), "short"); break;
    case 5: chk_stream(ctx, (unsigned short)v, std::to_string((unsigned short)v), "unsigned short"); break;
    case 6: chk_stream(ctx, (long)v, std::to_string((long)v), "long"); break;
    case 7: chk_stream(ctx, (unsigned long)v, std::to_string((unsigned long)v), "unsigned long"); break;
    case 8: chk_stream(ctx, (unsigned char)v, std::to_string((unsigned)(unsigned char)v), "unsigned char"); break;
    case 9: chk_stream(ctx, (char)v, std::string(1, (char)v), "char"); break;
    case 10: chk_stream(ctx, (bool)(v & 1), (v & 1) ? "true" : "false", "bool"); break;
    case 11: chk_stream(ctx, (const void*)v, v ? "0x" + digits(v, 16) : "null", "pointer"); break;
    case 12: chk_stream(ctx, nullptr, "null", "nullptr"); chk_stream(ctx, (const char*)nullptr, "null", "null char*"); break;
    case 13: {
        std::string g = render([&](FNLog::LogStream& l) { l.write_longlong<0>(sv); l << "|"; l.write_ulonglong<0>(v); l << "|"; l.write_number<0>((int)v); l << "|"; l.write_number<6>((unsigned)v); l << "|"; l.write_longlong<9>(sv); l << "|"; l.write_ulonglong<12>(v); l << "|"; l.write_pointer((void*)v); });
        std::string w = std::to_string(sv) + "|" + std::to_string(v) + "|" + std::to_string((int)v) + "|" + padded(std::to_string((unsigned)v), 6) + "|" +
            (sv < 0 ? "-" + padded(digits((u64)0 - v, 10), 8) : padded(digits(v, 10), 9)) + "|" + padded(std::to_string(v), 12) + "|" + (v ? "0x" + digits(v, 16) : "null");
        CHECK(g == w, "write_* rendered \"%s\", expected \"%s\"", g.c_str(), w.c_str()); break; }
    }
    int w = (int)s.u(31), guard = 0; std::string g, want;
    switch (s.u(4)) {
    case 0: g = call(T::dec(w), v, guard); want = padded(digits(v, 10), w); break;
    case 1: g = call(T::sdec(w), sv, guard); want = sv < 0 ? "-" + padded(digits((u64)0 - v, 10), w - 1) : padded(digits(v, 10), w); break;
    case 2: g = call(T::hex(w), v, guard); want = padded(digits(v, 16), w); ctx.label("hex"); break;
    default: g = call(T::bin(w), v, guard); want = padded(digits(v, 2), w); ctx.label("bin"); break;
    }
    ctx.note("width %d -> \"%s\"", w, g.c_str());
    CHECK(g == want, "fixed-width helper (width %d) gave \"%s\", expected \"%s\"", w, esc(g).c_str(), want.c_str());
    CHECK(guard == 0, "fixed-width helper wrote outside its result (%d), width %d value %llu", guard, w, v);
}

static double gen_double(Src& s, Ctx& ctx) {
    union { u64 u; double d; } x;
    switch (s.weighted({4, 4, 4, 3, 3, 3, 2})) {
    case 0: x.u = s.bits(); return x.d;
    case 1: { double m = (double)s.range(-1000000, 1000000) / 10000.0; ctx.label("dbl:4dec"); return m; }
    case 2: { double m = (double)(ll)s.bits(); return m / std::pow(10.0, (double)s.u(20)); }
    case 3: { double m = std::pow(2.0, (double)s.range(-60, 66)); m = std::nextafter(m, s.coin() ? 0 : DBL_MAX); return s.coin() ? -m : m; }
    case 4: { double b = s.pick({1e-4, 1e-7, 1152921504606846975.0, 1152921504606846976.0, 1.0, 10.0, 100.0, 9999.9999, 0.9999, 0.99999, 0.09, 0.0009, 1e15, 4503599627370496.0, 9007199254740992.0});
              int k = (int)s.range(-3, 3); while (k > 0) { b = std::nextafter(b, DBL_MAX); k--; } while (k < 0) { b = std::nextafter(b, 0); k++; } ctx.label("dbl:boundary"); return s.coin() ? -b : b; }
    case 5: { double m = std::pow(10.0, (double)s.range(-12, -1)) * (double)s.range(1, 99); return s.coin() ? -m : m; }
    default: ctx.label("dbl:special"); return s.pick({0.0, -0.0, (double)INFINITY, -(double)INFINITY, (double)NAN, DBL_MIN, -DBL_MIN, DBL_MAX, -DBL_MAX, DBL_MIN / 2, 5e-324, (double)FLT_MIN, (double)FLT_MAX});
    }
}
// empty string: acceptable
static std::string judge_double(double v, const std::string& g) {
    if (std::isnan(v)) return g == "nan" || g == "-nan" ? "" : "nan expected";
    if (std::isinf(v)) return g == (v < 0 ? "-inf" : "inf") ? "" : "signed inf expected";
    double a = std::fabs(v);
    if (a == 0) return g == "0" ? "" : "0 expected";
    if (std::fpclassify(v) == FP_SUBNORMAL) return g == "0" || std::fabs(strtod(g.c_str(), nullptr)) < DBL_MIN ? "" : "0 expected";
    bool neg = v < 0;
    if (a >= 0.0001 && a <= 1152921504606846975.0) {
        double ip; double fr = std::modf(a, &ip);
        u64 f1 = (u64)(fr * 10000), f2 = (u64)((long double)fr * 10000.0L);
        for (u64 f : {f1, f2}) {
            std::string w = (neg ? "-" : "") + std::to_string((u64)ip);
            if (f) { std::string d = padded(std::to_string(f), 4); while (d.size() > 2 && d.back() == '0') d.pop_back(); w += "." + d; }
            if (w == g) return "";
        }
        return fmt("expected %s%llu.%04llu truncated to four decimals", neg ? "-" : "", (u64)ip, f2);
    }
    char* e; long double p = strtold(g.c_str(), &e);
    if (*e || g.empty()) return "not a number";
    if ((g[0] == '-') != neg) return "sign lost";
    if (a < 0.0001 && a > 1e-7) return fabsl(p - (long double)v) <= 1.01e-8L ? "" : "error above 1e-8";
    return fabsl(p - (long double)v) <= a * 1e-9L ? "" : "relative error above 1e-9";
}
PROP(doubles, 400, 20000) {
    double v = gen_double(s, ctx); bool flt = s.chance(1, 4); float f = (float)v;
    if (flt) v = (double)f;
    std::string g = flt ? render([&](FNLog::LogStream& l) { l << f; }) : render([&](FNLog::LogStream& l) { l << v; });
    double a = std::fabs(v);
    ctx.label(std::isnan(v) || std::isinf(v) ? "cls:naninf" : a == 0 ? "cls:zero" : a < 1e-7 ? "cls:tiny" : a < 1e-4 ? "cls:small" : a <= 1152921504606846975.0 ? "cls:mid" : "cls:huge");
    ctx.nontrivial(a != 0 && a != std::floor(a)); ctx.key(fmt("%a", v));
    ctx.note("%s %.17g -> \"%s\"", flt ? "float" : "double", v, esc(g).c_str());
    std::string why = judge_double(v, g);
    CHECK(why.empty(), "%s %.17g (%a) rendered \"%s\": %s", flt ? "float" : "double", v, v, esc(g).c_str(), why.c_str());
    int guard = 0; char buf[400]; memset(buf, 0x5a, sizeof buf); int n = flt ? FNLog::write_float_unsafe(buf + 100, f) : FNLog::write_double_unsafe(buf + 100, v);
    CHECK(n > 0 && n <= 30 && std::string(buf + 100, n) == g, "helper and stream disagree: %s", g.c_str());
    for (int i = 0; i < 100; i++) if (buf[i] != 0x5a) guard = 1;
    for (int i = 131; i < 400; i++) if (buf[i] != 0x5a) guard = 2;
    CHECK(!guard, "double helper wrote outside 30 bytes");
}
int main(int c, char** v) { return pbt_main(c, v); }
