// JSON trees and their text in many notations.
#ifndef VERIF_JSON_H_
#define VERIF_JSON_H_
#include "pbt.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>
struct JV {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false; double n = 0; bool integer = false; std::string s;      // s: text of a string
    std::vector<std::pair<std::string, JV>> m;                              // members, or items with empty names
    JV& set(const std::string& k, const JV& v) { for (auto& x : m) if (x.first == k) { x.second = v; return *this; } m.push_back({k, v}); return *this; }
    JV& add(const JV& v) { m.push_back({"", v}); return *this; }
    JV* find(const std::string& k) { for (auto& x : m) if (x.first == k) return &x.second; return nullptr; }
    const JV* find(const std::string& k) const { for (auto& x : m) if (x.first == k) return &x.second; return nullptr; }
};
inline JV jb(bool b) { JV v; v.t = JV::BOOL; v.b = b; return v; }
inline JV jn(double n) { JV v; v.t = JV::NUM; v.n = n; return v; }
inline JV ji(long n) { JV v; v.t = JV::NUM; v.n = (double)n; v.integer = true; return v; }
inline JV js(const std::string& s) { JV v; v.t = JV::STR; v.s = s; return v; }
inline JV ja() { JV v; v.t = JV::ARR; return v; }
inline JV jo() { JV v; v.t = JV::OBJ; return v; }
namespace jtext {
inline std::string fmt(const char* f, double x) { char b[64]; std::snprintf(b, sizeof b, f, x); return b; }
// A text whose value is exactly x.
inline std::string real(pbt::Gen& g, double x, bool json = true) {
    std::string s;
    switch (g.range(0, 4)) {
    case 0: { s = fmt("%.15g", x); if (std::strtod(s.c_str(), nullptr) != x) s = fmt("%.17g", x); break; }
    case 1: s = fmt("%.16e", x); break;
    case 2: s = fmt("%.17g", x); break;
    case 3: s = fmt("%.16E", x); break;
    default: if (x == std::floor(x) && std::fabs(x) < 1e6) { s = fmt("%.0f", x); int k = g.range(0, 2); if (k == 1) s += ".0"; if (k == 2) s += ".00e+0"; } else s = fmt("%.17e", x);
    }
    if (!json && x >= 0 && s[0] != '-' && g.chance(1, 3)) s = "+" + s;
    return s;
}
inline std::string ws(pbt::Gen& g, bool on) { if (!on) return ""; static const char* w[] = {"", "", " ", "\n", "\t", "  ", "\r\n", "\n    "}; return w[g.range(0, 7)]; }
inline std::string quoted(pbt::Gen& g, const std::string& s, bool fancy) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
        else if ((unsigned char)c < 0x20 || (fancy && (unsigned char)c < 0x7f && g.chance(1, 12))) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned)(unsigned char)c); o += b; }
        else if (c == '/' && fancy && g.flip()) o += "\\/";
        else o += c;
    }
    return o + "\"";
}
// fancy: random white space, key order and notation
inline void text(pbt::Gen& g, const JV& v, bool fancy, std::string& o) {
    switch (v.t) {
    case JV::NUL: o += "null"; break;
    case JV::BOOL: o += v.b ? "true" : "false"; break;
    case JV::NUM: o += v.integer ? fmt("%.0f", v.n) : fancy ? real(g, v.n) : fmt("%.17g", v.n); break;
    case JV::STR: o += quoted(g, v.s, fancy); break;
    case JV::ARR: o += "["; for (std::size_t i = 0; i < v.m.size(); i++) { if (i) o += ","; o += ws(g, fancy); text(g, v.m[i].second, fancy, o); o += ws(g, fancy); } o += ws(g, fancy) + "]"; break;
    case JV::OBJ: { std::vector<std::size_t> k; for (std::size_t i = 0; i < v.m.size(); i++) k.push_back(i); if (fancy) g.shuffle(k);
        o += "{"; for (std::size_t i = 0; i < k.size(); i++) { if (i) o += ","; o += ws(g, fancy) + quoted(g, v.m[k[i]].first, false) + ws(g, fancy) + ":" + ws(g, fancy); text(g, v.m[k[i]].second, fancy, o); o += ws(g, fancy); } o += ws(g, fancy) + "}"; break; }
    }
}
inline std::string text(pbt::Gen& g, const JV& v, bool fancy) { std::string o; text(g, v, fancy, o); return o; }
} // namespace jtext
#endif
