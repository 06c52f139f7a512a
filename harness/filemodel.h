// Reference model of a file device: which line goes into which file, when files are
// opened, rolled and renamed.  Independent of the library's bookkeeping.
#pragma once
#include "fx.h"
#include "tz.h"
struct FileCfg { std::string path, file; ll limit = 0; int rollback = 0; bool stuff = false, daily = false, hourly = false; int ch = 0, dev = 0; };
static inline std::string model_pname() { static std::string n; if (n.empty()) { std::string c; read_file("/proc/self/cmdline", c); c = c.c_str(); size_t p = c.rfind('/'); n = p == std::string::npos ? c : c.substr(p + 1); } return n; }
static inline std::string model_expand(const std::string& pat, const struct tm& t) {
    std::string o;
    for (size_t i = 0; i < pat.size();) {
        auto is = [&](const char* k) { return pat.compare(i, strlen(k), k) == 0; };
        if (is("%F")) { o += fmt("%04d-%02d-%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday); i += 2; }
        else if (is("$PNAME")) { o += model_pname(); i += 6; }
        else if (is("$PID")) { o += fmt("%06d", (int)getpid()); i += 4; }
        else if (is("$YEAR")) { o += fmt("%04d", t.tm_year + 1900); i += 5; }
        else if (is("$MON")) { o += fmt("%02d", t.tm_mon + 1); i += 4; }
        else if (is("$MIN")) { o += fmt("%02d", t.tm_min); i += 4; }
        else if (is("$DAY")) { o += fmt("%02d", t.tm_mday); i += 4; }
        else if (is("$HOUR")) { o += fmt("%02d", t.tm_hour); i += 5; }
        else if (is("$SEC")) { o += fmt("%02d", t.tm_sec); i += 4; }
        else o += pat[i++];
    }
    return o;
}
static inline std::string model_name(const FileCfg& c, ll ts) {
    struct tm t = ltm(ts);
    std::string f = c.file.empty() ? fmt("$PNAME_$YEAR$MON$DAY_$PID.%d%d", c.ch, c.dev) : c.file;
    std::string p = model_expand(c.path, t), n;
    for (char& x : p) if (x == '\\') x = '/';
    if (!p.empty() && p.back() != '/') p += '/';
    return p + model_expand(f + ".log", t);
}
static inline std::string clean_path(const std::string& p) {   // drops "./" and doubled slashes so that names compare
    std::string o; size_t i = 0;
    while (i < p.size()) { size_t e = p.find('/', i); std::string c = p.substr(i, e == std::string::npos ? e : e - i); if (!c.empty() && c != ".") { if (!o.empty()) o += '/'; o += c; } if (e == std::string::npos) break; i = e + 1; }
    return o;
}
typedef std::map<std::string, std::string> Tree;   // relative path -> content
struct FileModel {
    FileCfg c; Tree* tree; bool open = false; std::string cur; ll opened_at = 0; bool ambiguous = false; int opens = 0, rolls = 0, limit_rolls = 0;
    void stop() { open = false; }
    void roll(const std::string& p, int n) {
        if (!tree->count(p)) return;
        rolls++;
        int k = 0; while (k < n && tree->count(p + "." + std::to_string(k + 1))) k++;   // contiguous backups 1..k
        if (k == n) { tree->erase(p + "." + std::to_string(n)); k--; }
        for (; k >= 1; k--) { (*tree)[p + "." + std::to_string(k + 1)] = (*tree)[p + "." + std::to_string(k)]; tree->erase(p + "." + std::to_string(k)); }
        (*tree)[p + ".1"] = (*tree)[p]; tree->erase(p);
    }
    // true when the local hour repeats (clock set back) and both readings of "the hour differs" are acceptable
    bool needs_new(ll ts, bool* amb) {
        *amb = false; if (!open) return true;
        struct tm a = ltm(ts), b = ltm(opened_at);
        if (c.daily) return a.tm_year != b.tm_year || a.tm_yday != b.tm_yday;
        if (c.hourly) { bool d = a.tm_year != b.tm_year || a.tm_yday != b.tm_yday || a.tm_hour != b.tm_hour; *amb = !d && a.tm_gmtoff != b.tm_gmtoff; return d; }
        return false;
    }
    void write(const std::string& line, ll ts) {
        bool amb = false; bool fresh = needs_new(ts, &amb); if (amb) ambiguous = true;
        if (!fresh && c.limit > 0 && c.rollback > 0 && (ll)(*tree)[cur].size() + (ll)line.size() > c.limit) { fresh = true; }
        if (fresh) {
            open = true; opens++; opened_at = ts; cur = clean_path(model_name(c, ts));
            if ((c.limit > 0 || c.rollback > 0) && !c.stuff) { roll(cur, c.rollback > 0 ? c.rollback : 1); }
            if (c.stuff && c.limit > 0 && c.rollback > 0 && tree->count(cur) && !(*tree)[cur].empty() && (ll)(*tree)[cur].size() + (ll)line.size() > c.limit) { limit_rolls++; roll(cur, c.rollback); }
        }
        (*tree)[cur] += line;
    }
};
static inline void read_tree(const std::string& dir, const std::string& rel, Tree& t) {
    for (auto& n : list_dir(dir)) {
        struct stat st; std::string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) read_tree(p, r, t); else { std::string s; read_file(p, s); t[r] = s; }
    }
}
static inline std::string tree_diff(const Tree& want, const Tree& got) {
    std::string o; int n = 0;
    for (auto& w : want) { auto g = got.find(w.first); if (g == got.end()) { if (n++ < 4) o += "missing file \"" + w.first + "\"; "; } else if (g->second != w.second) { size_t i = 0; while (i < w.second.size() && i < g->second.size() && w.second[i] == g->second[i]) i++; if (n++ < 4) o += fmt("\"%s\" has %zu bytes, expected %zu, differs at %zu: \"%s\" expected \"%s\"; ", w.first.c_str(), g->second.size(), w.second.size(), i, esc(g->second.substr(i), 60).c_str(), esc(w.second.substr(i), 60).c_str()); } }
    for (auto& g : got) if (!want.count(g.first)) { if (n++ < 4) o += fmt("unexpected file \"%s\" (%zu bytes); ", g.first.c_str(), g.second.size()); }
    return o;
}
