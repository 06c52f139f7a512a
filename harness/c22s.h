// The statements of c22w.cc: in the same translation unit or, with TWO_TU, in another one (c22t.cc).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <sstream>
#include "fn_log.h"
using namespace FNLog;
typedef std::string S; typedef long long ll; typedef unsigned long long ull;
static inline S un(const S& h) { S o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return o; }
#ifdef TWO_TU
void piece(LogStream& l, const S& p);
void macros(int kind, int pri, int ch, int cat, ll id, const S& a, ll n);
void set_hook(VirtualDevicePtr h);
int fast_start(const S& t);
#endif
#if !defined(TWO_TU) || defined(SECOND_TU)
#ifdef TWO_TU
#define WHERE
#else
#define WHERE static
#endif
WHERE void piece(LogStream& l, const S& p) {
    S a = p.size() > 2 ? p.substr(2) : ""; std::vector<ll> v; if (strchr("vLqmeUM<", p[0])) { std::stringstream ss(a); S x; while (std::getline(ss, x, ',')) v.push_back(atoll(x.c_str())); }
    ull bits = strtoull(a.c_str(), 0, 10); ll n = atoll(a.c_str());
    switch (p[0]) {
    case 'i': l << (int)n; break; case 'I': l << n; break; case 'u': l << bits; break; case 'h': l << (short)n; break; case 'H': l << (unsigned short)n; break; case 'n': l << (unsigned int)bits; break; case 'w': l << (long)n; break; case 'W': l << (unsigned long)bits; break; case 'y': l << (unsigned char)n; break;
    case 'c': l << (char)n; break; case 'b': l << (n != 0); break; case 'd': { double d; memcpy(&d, &bits, 8); l << d; } break; case 'f': { unsigned b = (unsigned)bits; float f; memcpy(&f, &b, 4); l << f; } break;
    case 's': l << un(a); break; case 'z': l << un(a).c_str(); break; case 'p': l << (const void*)(uintptr_t)bits; break; case 'N': l << nullptr; break;
    case 'v': { std::vector<ll> c(v.begin(), v.end()); l << c; } break; case 'L': { std::list<int> c; for (auto x : v) c.push_back((int)x); l << c; } break; case 'q': { std::deque<double> c; for (auto x : v) c.push_back((double)x / 8); l << c; } break; case 'e': { std::set<ll> c(v.begin(), v.end()); l << c; } break;
    case 'm': { std::map<ll, S> c; for (auto x : v) c[x] = std::to_string(x); l << c; } break; case 'M': { std::map<int, std::vector<ll> > c; for (auto x : v) c[(int)(x & 3)].push_back(x); l << c; } break; case '<': l << std::make_pair(n, S("second")); break;
    case 'A': switch (n % 4) { case 0: l << LogBlankAlign<10>(); break; case 1: l << LogBlankAlign<40>(); break; case 2: l << LogBlankAlign<80>(); break; default: l << LogBlankAlign<3>(); } break;
    case 'P': { double d = (double)n / 10000; l << LogPercent(d); } break; case 't': l << LogTimestamp((ll)n, (int)(bits % 1000)); break; case 'T': l << LogTimestamp(n); break;
    case 'o': l.write_longlong<8>(n); break; case 'O': l.write_number<16>(bits); break; case 'k': l.set_category((int)n); break; default: l << "?"; }
}
WHERE void macros(int kind, int pri, int ch, int cat, ll id, const S& a, ll n) {
#define ALL(P, p, sp) case PRIORITY_##P: switch (kind) { case 0: Log##p() << a << n; break; case 1: Log##p##Stream(ch, cat, id) << a << n; break; case 2: Pack##p(a, n); break; case 3: Log##p##Pack(ch, cat, id, a, n); break; case 4: LOG##sp(a << n); break; case 5: LOG_##P(ch, cat, id, a << n); break; case 6: LOGFMT##sp("%s%lld", a.c_str(), n); break; default: LOGFMT_##P(ch, cat, id, "%s%lld", a.c_str(), n); } break;
    switch (pri) { ALL(TRACE, Trace, T) ALL(DEBUG, Debug, D) ALL(INFO, Info, I) ALL(WARN, Warn, W) ALL(ERROR, Error, E) ALL(ALARM, Alarm, A) default: switch (0) { ALL(TRACE, Fatal, F) } }
}
WHERE void set_hook(VirtualDevicePtr h) { SetVirtualDevice(h); }
WHERE int fast_start(const S& t) { return FastStartDefaultLogger(t); }
#endif
