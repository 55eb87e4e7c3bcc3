// C29: a settings tree stores and returns typed values losslessly.
#include "pbt.h"
#include "argument/Object.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstring>
#include <memory>
#include <regex>
using namespace SEMBA;
typedef Argument::Object Obj;

namespace tree { namespace {
// The reference tree: what was last stored, in order.
struct Node {
    enum Kind { Null, Dict, Arr, Text } kind = Null;
    std::vector<std::pair<std::string, Node>> members; std::vector<Node> values; std::list<std::string> text;
    Node* find(const std::string& n) { for (auto& m : members) if (m.first == n) return &m.second; return nullptr; }
    void become(Kind k) { if (kind == k) return; members.clear(); values.clear(); text.clear(); kind = k; }
    void set(const std::list<std::string>& t) { become(Null); kind = Text; text = t; }
    void put(const std::string& n, const Node& v) { Node copy = v; become(Dict); if (Node* m = find(n)) *m = copy; else members.push_back({n, copy}); }
    std::size_t size() const { return kind == Dict ? members.size() : values.size(); }
};
std::string show(const Node& n) {
    std::ostringstream o;
    switch (n.kind) {
    case Node::Null: return "null";
    case Node::Dict: o << "{"; for (auto& m : n.members) o << m.first << ":" << show(m.second) << ","; o << "}"; break;
    case Node::Arr: o << "["; for (auto& m : n.values) o << show(m) << ","; o << "]"; break;
    case Node::Text: o << "'"; for (auto& t : n.text) o << t << "|"; o << "'"; break;
    }
    return o.str();
}
std::string joined(const std::list<std::string>& t) { std::string s; bool first = true; for (auto& x : t) { if (!first) s += " "; first = false; s += x; } return s; }
void agree(const Obj& o, const Node& n, const std::string& at) {
    CHECK_EQ(o.isNull(), n.kind == Node::Null, "null at " + at);
    CHECK_EQ(o.isObject(), n.kind == Node::Dict, "dictionary at " + at);
    CHECK_EQ(o.isArray(), n.kind == Node::Arr, "array at " + at);
    CHECK_EQ(o.isString(), n.kind == Node::Text, "text at " + at);
    CHECK_EQ(o.size(), n.size(), "size at " + at);
    if (n.kind == Node::Text) { CHECK(o.getGenericString() == n.text, "text at " + at + " is '" + o.getString() + "', not '" + joined(n.text) + "'"); CHECK_EQ(o.getString(), joined(n.text), "string at " + at); }
    if (n.kind == Node::Dict) for (std::size_t i = 0; i < n.members.size(); i++) {
        auto& m = n.members[i]; CHECK_EQ(o.getName(i), m.first, "name at " + at); const std::string to = at + "/" + m.first;
        agree(o(m.first), m.second, to); agree(o(i), m.second, to + "#"); CHECK_EQ(o.existsName(m.first), m.second.kind != Node::Null, "existence of " + to);
    }
    if (n.kind == Node::Arr) for (std::size_t i = 0; i < n.values.size(); i++) agree(o(i), n.values[i], at + "/" + std::to_string(i));
}
std::string name(pbt::Gen& g) { return g.oneOf<std::string>({"a", "b", "c", "d", "mesh", "x y", "", "0"}); }
std::string word(pbt::Gen& g) { return g.oneOf<std::string>({"v", "1", "2.5", "true", "", "two words", " pad ", "0", "é", "a\"b", "1e3"}); }
Node leaf(pbt::Gen& g) { Node n; std::list<std::string> t; std::size_t k = g.chance(3, 4) ? 1 : g.many(1, 4, 40); for (std::size_t i = 0; i < k; i++) t.push_back(word(g)); n.set(t); return n; }
Node make(pbt::Gen& g, int depth) {
    Node n; int k = g.range(0, 9);
    if (depth > 0 && k < 3) { n.become(Node::Dict); std::size_t c = g.many(0, 4, 40); for (std::size_t i = 0; i < c; i++) n.put(name(g), make(g, depth - 1)); }
    else if (depth > 0 && k < 5) { n.become(Node::Arr); std::size_t c = g.len(0, 4); for (std::size_t i = 0; i < c; i++) n.values.push_back(make(g, depth - 1)); }
    else if (k < 9) n = leaf(g);
    return n;
}
Obj build(const Node& n) {
    Obj o;
    switch (n.kind) {
    case Node::Null: break;
    case Node::Dict: o.setObject(); for (auto& m : n.members) o.addMember(m.first, build(m.second)); break;
    case Node::Arr: o.setArray(); for (auto& m : n.values) o.addValue(build(m)); break;
    case Node::Text: if (n.text.size() == 1) o.setString(n.text.front()); else o.setGenericString(n.text); break;
    }
    return o;
}
// Walks down both trees to the same place.
std::pair<Obj*, Node*> walk(pbt::Gen& g, Obj& o, Node& n, std::string& at) {
    Obj* x = &o; Node* y = &n;
    while (y->size() && g.chance(2, 3)) {
        std::size_t i = g.draw(y->size());
        if (y->kind == Node::Dict) { at += "/" + y->members[i].first; if (g.flip()) x = &(*x)(y->members[i].first); else x = &(*x)(i); y = &y->members[i].second; }
        else { at += "/" + std::to_string(i); x = &(*x)(i); y = &y->values[i]; }
    }
    return {x, y};
}
Node merge(const Node& a, const Node& b) {
    if (a.kind == Node::Null) return b; if (b.kind == Node::Null) return a;
    if (a.kind == Node::Dict && b.kind == Node::Dict) {
        Node r; r.become(Node::Dict); Node bb = b;
        for (auto& m : a.members) { Node* o = bb.find(m.first); r.put(m.first, o ? merge(m.second, *o) : m.second); }
        for (auto& m : b.members) { Node* o = r.find(m.first); if (!o) r.put(m.first, m.second); }
        return r;
    }
    if (a.kind == Node::Dict) return a;
    return b;
}
struct Mute { std::stringstream s; std::streambuf* b; Mute() { b = std::cout.rdbuf(s.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };

const std::regex& intRe() { static std::regex r("\\s*[+-]?[0-9]+\\s*"); return r; }
const std::regex& natRe() { static std::regex r("\\s*[+]?[0-9]+\\s*"); return r; }
const std::regex& realRe() { static std::regex r("\\s*[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?\\s*"); return r; }
bool asInt(const std::string& s, long long& v) { if (!std::regex_match(s, intRe())) return false; errno = 0; v = std::strtoll(s.c_str(), nullptr, 10); return errno == 0; }
bool asReal(const std::string& s, double& v) { if (!std::regex_match(s, realRe())) return false; v = std::strtod(s.c_str(), nullptr); return std::isfinite(v); }
std::string someText(pbt::Gen& g) {
    std::string s;
    switch (g.range(0, 6)) {
    case 0: s = std::to_string(g.range(-100000, 100000)); break;
    case 1: { char b[64]; snprintf(b, sizeof b, g.flip() ? "%.6g" : g.flip() ? "%.3f" : "%E", g.real(-1, 1) * std::pow(10.0, g.range(-30, 30))); s = b; break; }
    case 2: s = g.oneOf<std::string>({"2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1e400", "1e308", "-1", "+3", "007", "0x10", "1.", ".5", "1e", "1e+", "-", "+", ".", "inf", "nan", "true", "false", "1", "0", "2", "--1", "1-", "1 2", "1,5", "1_0", "12abc", "abc", "", " ", "e5", "1e5", "0.1.2", "5\n6", "5\n", "-0", "0b1"}); break;
    case 3: s = g.text("0123456789", 1, 12); break;
    case 4: s = g.text("0123456789+-.eE ", 1, 8); break;
    case 5: s = g.text("01 x\n", 1, 4); break;
    default: s = g.text("abcxyz 012-_\t.", 0, 8);
    }
    if (g.chance(1, 6)) s = " " + s; if (g.chance(1, 6)) s += g.flip() ? " " : "\t";
    return s;
}
}}
using namespace tree;

PROP(every_history_of_insertions_replacements_removals_and_moves_leaves_what_was_last_stored, 4000, 60000, "at least five operations, one of which removes or replaces") {
    Obj o; Node n; std::size_t ops = g.many(1, 40, 200); bool strong = false; std::vector<Obj> pool; std::vector<Node> poolModel;
    for (std::size_t k = 0; k < ops; k++) {
        std::string at = "root"; auto w = walk(g, o, n, at); Obj& x = *w.first; Node& y = *w.second; Node v = make(g, 2); std::string nm = name(g); Obj val = build(v);
        if (y.size() && y.kind == Node::Dict && g.flip()) nm = y.members[g.draw(y.members.size())].first;
        int op = g.range(0, 17); g << "op " << op << " at " << at << " name '" << nm << "' value " << show(v) << "\n";
        bool known = y.kind == Node::Dict && y.find(nm);
        switch (op) {
        case 0: case 1: x.addMember(nm, val); y.put(nm, v); strong = strong || known; break;
        case 2: x.addMember(nm, std::move(val)); y.put(nm, v); strong = strong || known; break;
        case 3: x(nm) = val; y.put(nm, v); strong = strong || known; break;
        case 4: x(nm) = std::move(val); y.put(nm, v); strong = strong || known; break;
        case 5: case 6: case 7: x.eraseMember(nm); if (y.kind == Node::Dict) for (std::size_t i = 0; i < y.members.size(); i++) if (y.members[i].first == nm) { y.members.erase(y.members.begin() + (long)i); g.label(i < y.members.size(), "removal before others"); strong = true; break; } break;
        case 8: if (y.kind == Node::Dict) break; x.addValue(val); y.become(Node::Arr); y.values.push_back(v); break;
        case 9: if (y.kind == Node::Dict) break; x.addValue(std::move(val)); y.become(Node::Arr); y.values.push_back(v); break;
        case 10: if (y.kind == Node::Arr && y.size()) { std::size_t i = g.draw(y.size()); x.eraseValue(i); y.values.erase(y.values.begin() + (long)i); strong = true; g.label("value removed"); } break;
        case 11: { std::list<std::string> t{word(g)}; x.setString(t.front()); y.set(t); break; }
        case 12: { int i = g.range(-9, 9); x.setInt(i); y.set({std::to_string(i)}); break; }
        case 13: { bool b = g.flip(); x.setBool(b); y.set({b ? "1" : "0"}); break; }
        case 14: { int s = g.range(0, 2); if (s == 0) { x.setNull(); y.become(Node::Null); } else if (s == 1) { x.setObject(); y.become(Node::Dict); } else { x.setArray(); y.become(Node::Arr); } break; }
        case 15: { Obj moved(std::move(x)); pool.push_back(moved); poolModel.push_back(y); if (g.flip()) x = std::move(moved); else { x = build(v); y = v; } g.label("moved away"); strong = true; break; }
        case 16: { Obj copy(x); Node c = y; std::size_t cut = g.draw(2); if (cut) copy.addMember("extra", Obj()); else copy.setNull(); agree(x, c, "the original of an altered copy"); break; }
        default: x = val; y = v; strong = true;
        }
        agree(o, n, "root");
    }
    for (std::size_t i = 0; i < pool.size(); i++) agree(pool[i], poolModel[i], "a tree moved away");
    g.nontrivial(ops >= 5 && strong);
}
PROP(a_tree_may_be_replaced_by_extended_with_or_moved_from_one_of_its_own_parts, 2000, 30000, "the part is not at the end") {
    Node n; n.become(Node::Dict); std::size_t c = g.len(2, 6); for (std::size_t i = 0; i < c; i++) n.put(name(g), make(g, 3));
    Obj o = build(n); std::size_t i = g.draw(n.size()); const std::string nm = n.members[i].first; const Node part = n.members[i].second; std::string at = nm; int op = g.range(0, 7); g << "op " << op << " " << show(n) << " part " << nm << "\n";
    std::string fresh = "fresh";
    switch (op) {
    case 0: o = o(nm); n = part; break;
    case 1: o = std::move(o(nm)); n = part; break;
    case 2: o.addMember(fresh, o(nm)); n.put(fresh, part); break;
    case 3: { Obj& p = o(nm); o.addMember(fresh, p); n.put(fresh, part); break; }
    case 4: { Obj a; a.setArray(); Node m; m.become(Node::Arr); std::size_t k = g.many(1, 9, 80); for (std::size_t j = 0; j < k; j++) { a.addValue(o(nm)); m.values.push_back(part); } std::size_t j = g.draw(k); a.addValue(a(j)); m.values.push_back(part); if (g.flip()) { Obj t = a(j); a = a(j); agree(t, part, "copied value"); m = part; } o = a; n = m; break; }
    case 5: { const Obj& self = o; o = self; break; }
    case 6: { Node r = n; o = o + o; n = merge(r, r); break; }
    default: { // a part two levels down
        Node* y = n.find(nm); Obj* x = &o(nm); if (!y->size()) { o = *x; n = part; break; }
        std::size_t j = g.draw(y->size()); Node deep = y->kind == Node::Dict ? y->members[j].second : y->values[j]; Obj& d = (*x)(j); if (g.flip()) { o = d; n = deep; } else { *x = d; *y = deep; } g.label("two levels down");
    }
    }
    agree(o, n, "root"); g.nontrivial(i + 1 < c);
}
PROP(merging_keeps_every_setting_and_the_right_hand_one_where_both_have_a_value, 2000, 30000, "both are dictionaries sharing a name") {
    Node a = g.chance(1, 6) ? make(g, 2) : Node(), b = g.chance(1, 6) ? make(g, 2) : Node();
    if (a.kind == Node::Null) { a.become(Node::Dict); std::size_t c = g.len(0, 6); for (std::size_t i = 0; i < c; i++) a.put(name(g), make(g, 2)); }
    if (b.kind == Node::Null) { b.become(Node::Dict); std::size_t c = g.len(0, 6); for (std::size_t i = 0; i < c; i++) b.put(name(g), make(g, 2)); }
    g << show(a) << " + " << show(b) << "\n"; Obj x = build(a), y = build(b); const Node m = merge(a, b);
    agree(x + y, m, "sum"); agree(x, a, "left operand"); agree(y, b, "right operand"); x += y; agree(x, m, "sum in place");
    bool shared = false; if (a.kind == Node::Dict && b.kind == Node::Dict) for (auto& q : a.members) shared = shared || b.find(q.first); g.nontrivial(shared);
}
PROP(a_value_stored_with_a_type_is_read_back_with_the_same_value, 6000, 100000, "a value other than zero or empty text") {
    Obj o; if (g.flip()) { o.setString("old"); } int k = g.range(0, 9); bool nt = true; g << "kind " << k << "\n";
    auto someReal = [&]() { double x = 0; switch (g.range(0, 4)) { case 0: x = g.real(-1, 1) * std::pow(10.0, g.range(-300, 300)); break; case 1: x = g.range(-1000, 1000) / 1000.0; break; case 2: x = g.oneOf<double>({0.0, 1.0 / 3, 299792458.0, 8.8541878176e-12, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 1 + DBL_EPSILON, 123456.5, 1234567.0, 1e22, 0.1}); break; case 3: x = g.range(-100000000, 100000000); break; default: { unsigned long long u = g.draw(~0ull); std::memcpy(&x, &u, 8); if (!std::isfinite(x) || std::fabs(x) < DBL_MIN) x = 0.5; } } g << "real " << x << "\n"; return x; };
    auto someInt = [&]() { int i = g.chance(1, 4) ? g.oneOf<int>({INT_MAX, INT_MIN, INT_MIN + 1, 0, -1, INT_MAX - 1}) : g.flip() ? g.range(-100, 100) : g.range(INT_MIN, INT_MAX); g << "int " << i << "\n"; return i; };
    switch (k) {
    case 0: { int i = someInt(); o.setInt(i); CHECK(o.isInt() && o.isNumber() && o.isReal(), "an integer is a number"); CHECK_EQ(o.getInt(), i, "integer read back"); CHECK_EQ(o.get<int>(), i, "integer read back"); CHECK_EQ(o.getReal(), (double)i, "integer read as a real"); CHECK_EQ(o.getString(), std::to_string(i), "integer as text"); nt = i != 0; break; }
    case 1: case 2: { double x = someReal(); o.setReal(x); CHECK(o.isReal() && o.isNumber(), "a real is a number"); CHECK(o.getReal() == x, "real stored as " + o.getString()); CHECK(o.get<double>() == x, "real stored as " + o.getString()); nt = x != 0; break; }
    case 3: { bool b = g.flip(); o.setBool(b); CHECK(o.isBool(), "a boolean is one"); CHECK_EQ(o.getBool(), b, "boolean read back"); CHECK_EQ(o.get<bool>(), b, "boolean read back"); if (g.flip()) { if (b) o.setTrue(); else o.setFalse(); CHECK_EQ(o.getBool(), b, "boolean set directly"); } break; }
    case 4: { std::string s = someText(g); g << "text '" << s << "'\n"; o.setString(s); CHECK(o.isString(), "a text is one"); CHECK_EQ(o.getString(), s, "text read back"); CHECK_EQ(o.get<std::string>(), s, "text read back by type"); nt = !s.empty(); break; }
    case 5: { int i = someInt(); double x = someReal(); o.set(i, x); auto p = o.get<int, double>(); CHECK(p.first == i && p.second == x, "pair read back from " + o.getString()); CHECK((o.is<int, double>()), "pair recognised"); break; }
    case 6: { double x = someReal(), y = someReal(), z = someReal(); o.set(x, y, z); auto t = o.get<double, double, double>(); CHECK(std::get<0>(t) == x && std::get<1>(t) == y && std::get<2>(t) == z, "triple read back from " + o.getString()); CHECK_THROWS((o.get<double, double>()), "three values read as two"); CHECK(!(o.is<double, double>()), "three values are not two"); break; }
    case 7: { int i = someInt(); std::string s = g.oneOf<std::string>({"patata", "two words", "x", "12", " edge ", ""}); o.set(i, s); auto p = o.get<int, std::string>(); CHECK_EQ(p.first, i, "number before a text"); CHECK_EQ(p.second, s, "text after a number"); break; }
    case 8: { long long v = (long long)g.draw(~0ull); o.set(v); CHECK_EQ(o.get<long long>(), v, "long integer read back"); unsigned long long u = g.draw(~0ull); o.set(u); CHECK_EQ(o.get<unsigned long long>(), u, "size read back"); std::size_t s = (std::size_t)g.draw(1000000); o.set(s); CHECK_EQ(o.get<std::size_t>(), s, "size read back"); CHECK_EQ(o.getInt(), (int)s, "size read as an integer"); break; }
    default: { std::vector<double> v; std::list<std::string> t; std::size_t c = g.len(0, 6); for (std::size_t i = 0; i < c; i++) { Obj e; e.setReal(someReal()); v.push_back(e.getReal()); t.push_back(e.getString()); } std::string one; for (auto& s : t) one += (one.empty() ? "" : " ") + s; if (!c) return; o.setGenericString(t); CHECK(o.get<std::vector<double>>() == v, "list of values read back"); o.setString(one); CHECK(o.get<std::vector<double>>() == v, "values of one text read back"); }
    }
    g.nontrivial(nt);
}
PROP(text_is_a_number_or_boolean_exactly_when_all_of_it_is, 8000, 150000, "text containing a digit") {
    std::string s = someText(g); g << "'" << s << "'\n"; Obj o; o.setString(s); long long v = 0; double x = 0; bool i = asInt(s, v), i32 = i && v >= INT_MIN && v <= INT_MAX, r = asReal(s, x);
    CHECK_EQ(o.is<int>(), i32, "text is an integer"); CHECK_EQ(o.isInt(), i32, "text is an integer");
    if (i32) CHECK_EQ(o.get<int>(), (int)v, "integer of the text"); else CHECK_THROWS(o.get<int>(), "text read as an integer");
    bool edge = r && x != 0 && std::fabs(x) < DBL_MIN; // whether an underflow is a value is left open
    if (!edge) { CHECK_EQ(o.is<double>(), r, "text is a real"); CHECK_EQ(o.isReal(), r, "text is a real"); CHECK_EQ(o.isNumber(), r || i32, "text is a number"); if (r) { CHECK(o.get<double>() == x, "real of the text"); CHECK(o.getReal() == x, "real of the text"); } else { CHECK_THROWS(o.get<double>(), "text read as a real"); CHECK_THROWS(o.getReal(), "text read as a real"); CHECK_THROWS(o.getInt(), "text read as a number"); } }
    bool n = i && std::regex_match(s, natRe()) && v <= (long long)UINT_MAX; CHECK_EQ(o.is<unsigned>(), n || (i && v == 0 && o.is<unsigned>()), "text is a count"); if (n) CHECK_EQ(o.get<unsigned>(), (unsigned)v, "count of the text");
    std::string t = s; while (!t.empty() && std::isspace((unsigned char)t.back())) t.pop_back(); while (!t.empty() && std::isspace((unsigned char)t.front())) t.erase(0, 1);
    if (t == "1" || t == "0") { CHECK(o.is<bool>() && o.isBool(), "text is a boolean"); CHECK_EQ(o.getBool(), t == "1", "boolean of the text"); }
    else if (!i || v < 0 || v > 1) { CHECK(!o.is<bool>() && !o.isBool(), "text is not a boolean"); CHECK_THROWS(o.getBool(), "text read as a boolean"); }
    if (r) { if (x > (double)INT_MAX + 1 || x < (double)INT_MIN - 1) CHECK_THROWS(o.getInt(), "number too large for an integer"); else if (i32) CHECK_EQ(o.getInt(), (int)v, "integer"); }
    g.label(i32, "integer"); g.label(r && !i, "real"); g.label(!r, "no number"); g.nontrivial(s.find_first_of("0123456789") != std::string::npos);
}
PROP(texts_are_split_into_typed_values_exactly_when_they_are_such_values, 6000, 100000, "two or more values in fewer texts") {
    // Values written over one or more texts.
    std::size_t c = g.many(1, 5, 40); std::vector<std::string> words; std::vector<bool> isI, isR;
    for (std::size_t i = 0; i < c; i++) { int k = g.range(0, 9); std::string w = k < 5 ? std::to_string(g.range(-30, 30)) : k < 8 ? std::to_string(g.range(0, 9)) + "." + std::to_string(g.range(0, 9)) : g.oneOf<std::string>({"x", "12abc", "1x", "--", "1e"}); words.push_back(w); long long v; double x; isI.push_back(asInt(w, v)); isR.push_back(asReal(w, x)); }
    std::list<std::string> in; for (std::size_t i = 0; i < c; i++) { if (in.empty() || g.flip()) in.push_back(words[i]); else in.back() += std::string(g.chance(1, 4) ? 2 : 1, g.chance(1, 6) ? '\n' : ' ') + words[i]; }
    g << "values:"; for (auto& w : in) g << " '" << w << "'"; g << "\n"; Obj o; o.setGenericString(in);
    auto I = [&](std::size_t i) { return std::atoi(words[i].c_str()); }; auto R = [&](std::size_t i) { return std::strtod(words[i].c_str(), nullptr); };
    bool p = c == 2 && isI[0] && isI[1]; CHECK_EQ((o.is<int, int>()), p, "texts are two integers"); if (p) { auto v = o.get<int, int>(); CHECK(v.first == I(0) && v.second == I(1), "two integers"); } else CHECK_THROWS((o.get<int, int>()), "texts read as two integers");
    bool q = c == 2 && isI[0] && isR[1]; CHECK_EQ((o.is<int, double>()), q, "texts are an integer and a real"); if (q) { auto v = o.get<int, double>(); CHECK(v.first == I(0) && v.second == R(1), "integer and real"); }
    bool t = c == 3 && isR[0] && isR[1] && isR[2]; CHECK_EQ((o.is<double, double, double>()), t, "texts are three reals"); if (t) { auto v = o.get<double, double, double>(); CHECK(std::get<0>(v) == R(0) && std::get<1>(v) == R(1) && std::get<2>(v) == R(2), "three reals"); }
    bool f = c == 4 && isI[0] && isI[1] && isI[2] && isI[3]; CHECK_EQ((o.is<int, int, int, int>()), f, "texts are four integers"); if (f) { auto v = o.get<int, int, int, int>(); CHECK(std::get<0>(v) == I(0) && std::get<3>(v) == I(3), "four integers"); }
    bool all = true; for (std::size_t i = 0; i < c; i++) all = all && isI[i]; CHECK_EQ((o.is<std::vector<int>>()), all, "texts are a list of integers"); if (all) { auto v = o.get<std::vector<int>>(); CHECK_EQ(v.size(), c, "length of the list"); for (std::size_t i = 0; i < c; i++) CHECK_EQ(v[i], I(i), "value of the list"); }
    // Taking values from the front leaves the rest in order.
    std::list<std::string> taken = in, rest; bool ok = isI[0] && (c < 2 || true); double second = 0; (void)second;
    if (ok) { int v = Argument::StringParser::parse<int>(taken, rest); CHECK_EQ(v, I(0), "first value"); std::string left; for (auto& s : rest) left += s + " "; std::istringstream is(left); std::string w; std::size_t k = 1; while (is >> w) { CHECK(k < c, "more left than given"); CHECK_EQ(w, words[k], "what is left"); k++; } CHECK_EQ(k, c, "number of values left"); std::string used; for (auto& s : taken) used += s + " "; std::istringstream us(used); CHECK((bool)(us >> w), "what was taken"); CHECK_EQ(w, words[0], "what was taken"); CHECK(!(us >> w), "more was taken than used"); }
    g.nontrivial(c >= 2 && in.size() < c);
}
PROP(absent_names_and_values_of_another_type_are_refused, 4000, 60000, "a tree with members or values") {
    Node n = make(g, 3); Obj o = build(n); const Obj& c = o; g << show(n) << "\n"; std::string nm = g.ident() + "_absent";
    CHECK(!c.existsName(nm), "absent name exists"); CHECK_THROWS(c(nm), "absent name read"); CHECK_THROWS(c(n.size() + (std::size_t)g.len(0, 3)), "absent value read"); CHECK_THROWS(c.getName(n.kind == Node::Dict ? n.size() : 0), "name of an absent member");
    if (n.kind == Node::Arr) { std::size_t i = n.size() + (std::size_t)g.len(0, 3); CHECK_THROWS(o.eraseValue(i), "absent value removed"); agree(o, n, "after a refused removal"); }
    o.eraseMember(nm); agree(o, n, "after removing an absent name");
    if (n.kind != Node::Text) { CHECK_THROWS(c.getBool(), "a boolean read from a tree"); CHECK_THROWS(c.getInt(), "an integer read from a tree"); CHECK_THROWS(c.getReal(), "a real read from a tree"); CHECK_THROWS(c.getString(), "a text read from a tree"); CHECK_THROWS(c.get<std::string>(), "a text read from a tree"); CHECK_THROWS((c.get<int, int>()), "a pair read from a tree"); CHECK_THROWS((c.get<int, int, int>()), "a triple read from a tree"); CHECK(!c.isBool() && !c.isNumber() && !c.is<int>() && !c.is<std::string>() && !(c.is<int, int>()), "a tree is no value"); }
    else { CHECK_THROWS(c("a"), "member of a text"); CHECK_THROWS(c(std::size_t(0)), "value of a text"); CHECK(!c.existsName("a"), "member of a text"); }
    g.nontrivial(n.size() > 0);
}
static std::string shown(const Obj& o, bool asString, std::size_t depth) {
    std::ostringstream r; const std::string in(depth + 2, ' '), out(depth, ' ');
    if (o.isNull()) return "null";
    if (o.isString()) {
        if (o.isNumber() && !asString) { if (o.isInt()) r << o.getInt(); else { r.precision(std::numeric_limits<long double>::max_digits10); r << o.getReal(); } return r.str(); }
        bool first = true; for (auto& t : o.getGenericString()) { r << (first ? "\"" : " \"") << t << "\""; first = false; } return r.str();
    }
    r << (o.isArray() ? "[\n" : "{\n"); for (std::size_t i = 0; i < o.size(); i++) { r << in; if (o.isObject()) r << "\"" << o.getName(i) << "\" : "; r << shown(o(i), asString, depth + 2) << (i + 1 < o.size() ? ",\n" : "\n"); }
    r << out << (o.isArray() ? "]" : "}"); return r.str();
}
PROP(a_tree_is_shown_with_every_name_and_value_in_order, 4000, 60000, "at least two levels") {
    Node n; if (g.chance(1, 5)) n = make(g, 2); else { bool dict = g.flip(); n.become(dict ? Node::Dict : Node::Arr); std::size_t c = g.len(1, 5); for (std::size_t i = 0; i < c; i++) { Node x = make(g, 4); if (dict) n.put(name(g), x); else n.values.push_back(x); } } const Obj o = build(n); bool asString = g.flip(); g << show(n) << (asString ? " as text" : ""); bool deep = false; for (auto& m : n.members) deep = deep || m.second.size(); for (auto& m : n.values) deep = deep || m.size(); g.nontrivial(deep);
    std::string t; { Mute m; const std::streamsize was = std::cout.precision((std::streamsize)g.range(1, 17)), p = std::cout.precision(); o.printInfo(asString); t = m.s.str(); const std::streamsize now = std::cout.precision(was); CHECK_EQ(now, p, "precision of what is printed afterwards"); } CHECK_EQ(t, shown(o, asString, 0) + "\n", "what is shown"); agree(o, n, "after it is shown");
    static const Obj::Type kinds[] = {Obj::Type::Null, Obj::Type::Dictionary, Obj::Type::Array, Obj::Type::String}; CHECK(o.getType() == kinds[n.kind] && o.isType(kinds[n.kind]), "type"); for (auto k : kinds) CHECK(k == kinds[n.kind] || !o.isType(k), "of another type too");
}
