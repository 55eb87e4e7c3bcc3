// C28: command lines are parsed to exactly the declared options and values.
#include "pbt.h"
#include "argument/Parser.h"
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <memory>
using namespace SEMBA;
namespace A = SEMBA::Argument;

namespace cmd { namespace {
enum Kind { Switch, MultiSwitch, Int, Real, Text, IntInt, Reals, IntText, MultiInt, MultiText, MultiPair, PInt, PText, PReals };
bool position(int k) { return k >= PInt; }
bool flag(int k) { return k == Switch || k == MultiSwitch; }
bool multi(int k) { return k == MultiSwitch || k == MultiInt || k == MultiText || k == MultiPair; }
std::string types(int k) { switch (k) { case Int: case MultiInt: case PInt: return "i"; case Real: return "r"; case Text: case MultiText: case PText: return "t"; case IntInt: return "ii"; case Reals: return "rrr"; case IntText: return "it"; case MultiPair: return "ir"; case PReals: return "rr"; default: return ""; } }
typedef std::list<std::string> L;
struct Arg { int kind; std::string name, lng; char sh; int ctor; bool copy, required, hasDef, defOn; std::size_t defN; L def; std::vector<L> choices; std::size_t group; };
// Containers: 0 is the parser itself.
struct Box { bool me, required; std::string name; std::size_t parent; };
struct Decl { std::vector<Box> boxes; std::vector<Arg> args; std::vector<std::size_t> order; char prefix; bool abbrev; };
std::string path(const Decl& d, std::size_t b) { std::string s; for (; b; b = d.boxes[b].parent) if (!d.boxes[b].me) s = d.boxes[b].name + "/" + s; return s; }
std::string value(pbt::Gen& g, char t) {
    if (t == 'i') return g.chance(1, 8) ? g.oneOf<std::string>({"2147483647", "-2147483648", "+7", "007"}) : std::to_string(g.range(-50, 50));
    if (t == 'r') return g.oneOf<std::string>({"0", "1", "-2.5", "1e-9", "3.", ".5", "-7e+3", "299792458", "0.1"});
    return g.oneOf<std::string>({"a", "file.smb", "two words", " pad", "12", "x=y", "-", "-5", "", "é", "--1", "/p/q"});
}
L values(pbt::Gen& g, int k, const std::vector<L>& choices = {}) {
    if (!choices.empty()) { L l = g.pick(choices); std::size_t i = 0; for (auto& v : l) { if (v == "*") v = value(g, types(k)[i]); i++; } return l; }
    L l; for (char c : types(k)) l.push_back(value(g, c)); return l;
}
Decl genDecl(pbt::Gen& g, bool simple = false) {
    Decl d; d.boxes.push_back(Box{false, false, "", 0}); std::size_t nb = simple ? 0 : g.len(0, 4);
    for (std::size_t i = 0; i < nb; i++) { std::size_t p; do p = g.draw(d.boxes.size()); while (d.boxes[p].me); d.boxes.push_back(Box{g.flip(), g.chance(1, 4), "group" + std::to_string(i), p}); }
    d.prefix = g.chance(1, 6) ? '+' : '-'; d.abbrev = !g.chance(1, 6);
    std::vector<char> shorts{'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'A', 'B', 'C', 'D', 'E', 'F', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q'}; std::vector<std::string> longs{"alpha", "alp", "alphabet", "beta", "bet-1", "gamma", "ga", "delta", "deep", "help", "mode", "model", "kappa", "lambda", "lambda-2", "omega", "om", "sigma", "tau", "theta", "theory", "verbose", "rather-long-name-of-an-option"};
    g.shuffle(shorts); g.shuffle(longs); std::size_t n = g.many(1, 7, 22); bool anyPosInMe = false; (void)anyPosInMe;
    for (std::size_t i = 0; i < n; i++) {
        Arg a; a.kind = g.chance(1, 5) ? g.range(PInt, PReals) : g.range(Switch, MultiPair); a.group = g.draw(d.boxes.size()); bool me = d.boxes[a.group].me; if (me && position(a.kind)) a.group = 0, me = false;
        a.lng = longs[i]; a.sh = shorts[i]; a.ctor = g.range(0, 4); a.name = "arg " + std::to_string(i); a.copy = g.chance(1, 6);
        if (position(a.kind)) a.sh = 0, a.lng = ""; else switch (a.ctor) { case 0: a.name = a.lng; a.sh = 0; break; case 1: a.name = a.lng; break; case 2: a.lng = ""; break; case 3: a.sh = 0; break; }
        a.required = !me && !position(a.kind) && g.chance(1, 5); a.hasDef = !me && g.chance(1, 3); if (position(a.kind)) { a.required = true; } a.defOn = g.flip(); a.defN = g.draw(3);
        if (!flag(a.kind) && g.chance(1, 4)) { std::size_t c = g.len(1, 3); for (std::size_t j = 0; j < c; j++) a.choices.push_back(values(g, a.kind)); if (a.choices.back().size() > 1 && g.flip()) a.choices.back().back() = "*"; }
        if (a.hasDef && !flag(a.kind)) a.def = values(g, a.kind, a.choices); if (a.hasDef && !flag(a.kind) && a.def.empty()) a.hasDef = false;
        d.args.push_back(a); d.order.push_back(i);
    }
    for (std::size_t b = 1; b < d.boxes.size(); b++) { bool any = false; for (auto& a : d.args) any = any || a.group == b; if (!any) d.boxes[b].required = false; } // of no options none can be given
    // Positionals with defaults come last, as only then leaving them out is unambiguous.
    bool seen = false; for (auto& a : d.args) if (position(a.kind)) { if (seen) { a.hasDef = true; if (a.def.empty()) a.def = values(g, a.kind, a.choices); } seen = seen || a.hasDef; }
    return d;
}
template <class T> T* made(const Arg& a) { switch (a.ctor) { case 0: return new T(a.name); case 1: return new T(a.sh, a.lng); case 2: return new T(a.name, a.sh); case 3: return new T(a.name, a.lng); default: return new T(a.name, a.sh, a.lng); } }
template <class T> T* copied(T* t, bool copy) { if (!copy) return t; std::unique_ptr<T> old(t); return new T(*old); }
template <class T> A::OptionBase* option(const Arg& a) { T* t = made<T>(a); if (a.required) t->required(); if (!a.choices.empty()) t->choices(a.choices); if (a.hasDef) t->defaultVal(a.def); t->help("about " + a.name); return copied(t, a.copy); }
template <class T> A::PositionBase* positional(const Arg& a) { T* t = new T(a.name); if (!a.choices.empty()) t->choices(a.choices); if (a.hasDef) t->defaultVal(a.def); t->help("about " + a.name); return copied(t, a.copy); }
A::OptionBase* build(const Arg& a) {
    switch (a.kind) {
    case Switch: { auto* t = made<A::Switch>(a); if (a.required) t->required(); if (a.hasDef) t->defaultVal(a.defOn); t->help("about " + a.name); return copied(t, a.copy); }
    case MultiSwitch: { auto* t = made<A::MultiSwitch>(a); if (a.required) t->required(); if (a.hasDef) t->defaultVal(a.defN); t->help("about " + a.name); return copied(t, a.copy); }
    case Int: return option<A::Option<int>>(a); case Real: return option<A::Option<double>>(a); case Text: return option<A::Option<std::string>>(a); case IntInt: return option<A::Option<int, int>>(a);
    case Reals: return option<A::Option<double, double, double>>(a); case IntText: return option<A::Option<int, std::string>>(a); case MultiInt: return option<A::MultiOption<int>>(a); case MultiText: return option<A::MultiOption<std::string>>(a); default: return option<A::MultiOption<int, double>>(a);
    }
}
A::PositionBase* buildP(const Arg& a) { switch (a.kind) { case PInt: return positional<A::Position<int>>(a); case PText: return positional<A::Position<std::string>>(a); default: return positional<A::Position<double, double>>(a); } }
struct Mute { std::stringstream out, err; std::streambuf *o, *e; Mute() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Cli {
    A::Parser p; std::vector<A::GroupBase*> boxes;
    explicit Cli(const Decl& d) {
        if (d.prefix != '-') p.prefixChars(std::string(1, d.prefix)); if (!d.abbrev) p.allowAbbrev(false); boxes.push_back(&p);
        for (std::size_t i = 1; i < d.boxes.size(); i++) { A::Group* up = dynamic_cast<A::Group*>(boxes[d.boxes[i].parent]); if (d.boxes[i].me) { auto& m = up->addMutuallyExclusiveGroup(); if (d.boxes[i].required) m.required(); boxes.push_back(&m); } else boxes.push_back(&up->addGroup(d.boxes[i].name, "")); }
        for (auto& a : d.args) if (position(a.kind)) boxes[a.group]->addPosition(buildP(a)); else boxes[a.group]->addOption(build(a));
    }
};
// What is given on a command line: per argument the occurrences, and the words left over.
struct Given { std::map<std::size_t, std::vector<L>> opts; std::map<std::size_t, L> pos; std::vector<std::string> unknown, extra; };
typedef std::map<std::string, std::string> Flat;
std::string bar(const L& l) { std::string s; for (auto& v : l) s += "<" + v + ">"; return s; }
void flat(const A::Object& o, const std::string& at, Flat& f) {
    if (o.isObject()) { for (std::size_t i = 0; i < o.size(); i++) flat(o(i), at.empty() && false ? "" : at + (at.empty() ? "" : "/") + o.getName(i), f); return; }
    if (o.isArray()) { std::string s; for (std::size_t i = 0; i < o.size(); i++) s += "[" + bar(o(i).getGenericString()) + "]"; f[at] = s; return; }
    if (!o.isNull()) f[at] = bar(o.getGenericString());
}
Flat expected(const Decl& d, const Given& gv) {
    Flat f;
    for (std::size_t i = 0; i < d.args.size(); i++) {
        const Arg& a = d.args[i]; std::string at = path(d, a.group) + a.name;
        if (position(a.kind)) { if (gv.pos.count(i)) f[at] = bar(gv.pos.at(i)); else f[at] = bar(a.def); continue; }
        if (!gv.opts.count(i)) { if (!a.hasDef) continue; f[at] = a.kind == Switch ? (a.defOn ? "<1>" : "<0>") : a.kind == MultiSwitch ? "<" + std::to_string(a.defN) + ">" : bar(a.def); continue; }
        auto& occ = gv.opts.at(i);
        if (a.kind == Switch) f[at] = a.hasDef && a.defOn ? "<0>" : "<1>"; else if (a.kind == MultiSwitch) f[at] = "<" + std::to_string((a.hasDef ? a.defN : 0) + occ.size()) + ">";
        else if (multi(a.kind)) { std::string s; for (auto& o : occ) s += "[" + bar(o) + "]"; f[at] = s; } else f[at] = bar(occ[0]);
    }
    return f;
}
std::string show(const Flat& f) { std::string s; for (auto& p : f) s += p.first + "=" + p.second + " "; return s; }
std::string show(const std::vector<std::string>& l) { std::string s; for (auto& v : l) s += "'" + v + "' "; return s; }
std::string show(const Decl& d) { std::string s; for (auto& a : d.args) { s += path(d, a.group) + (d.boxes[a.group].me ? "(excl " + std::to_string(a.group) + ")" : "") + a.name + " kind " + std::to_string(a.kind) + (a.sh ? std::string(" -") + a.sh : "") + (a.lng.empty() ? "" : " --" + a.lng) + (a.required ? " required" : "") + (a.hasDef ? " default " + (flag(a.kind) ? std::to_string(a.kind == Switch ? (std::size_t)a.defOn : a.defN) : bar(a.def)) : ""); for (auto& c : a.choices) s += " choice " + bar(c); s += "\n"; } return s; }
// Chooses what is given; nothing wrong in it.
Given genGiven(pbt::Gen& g, const Decl& d, bool unknown) {
    Given v; std::map<std::size_t, std::size_t> one;
    for (std::size_t b = 1; b < d.boxes.size(); b++) if (d.boxes[b].me) { std::vector<std::size_t> in; for (std::size_t i = 0; i < d.args.size(); i++) if (d.args[i].group == b) in.push_back(i); if (!in.empty() && (d.boxes[b].required || g.chance(2, 3))) one[b] = g.pick(in); }
    bool stop = false;
    for (std::size_t i = 0; i < d.args.size(); i++) {
        const Arg& a = d.args[i];
        if (position(a.kind)) { if (a.hasDef && (stop || g.chance(1, 3))) { stop = true; continue; } v.pos[i] = values(g, a.kind, a.choices); continue; }
        bool give = d.boxes[a.group].me ? one.count(a.group) && one[a.group] == i : (a.required && !a.hasDef) || g.chance(2, 3); if (!give) continue;
        std::size_t n = multi(a.kind) ? g.many(1, 4, 40) : 1; for (std::size_t k = 0; k < n; k++) v.opts[i].push_back(values(g, a.kind, a.choices));
    }
    if (unknown) { if (!stop) { std::size_t e = g.len(0, 3); for (std::size_t k = 0; k < e; k++) v.extra.push_back(value(g, g.flip() ? 't' : 'i')); } }
    return v;
}
bool plain(const std::string& s, char p) { if (s.size() < 2) return true; if (s[0] != p) return true; if (std::isalpha((unsigned char)s[1])) return false; return s != std::string(2, p) && !(s.size() >= 4 && s[1] == p && std::isalpha((unsigned char)s[2]) && std::isalpha((unsigned char)s[3])); }
std::vector<std::string> matching(const Decl& d, const std::string& abbr) { std::vector<std::string> r; for (auto& a : d.args) if (!a.lng.empty()) { if (a.lng == abbr) return {abbr}; if (a.lng.compare(0, abbr.size(), abbr) == 0) r.push_back(a.lng); } return r; }
// Spells one occurrence of an option in one of the ways there are.
std::vector<std::string> spell(pbt::Gen& g, const Decl& d, std::size_t i, const L& vals) {
    const Arg& a = d.args[i]; std::string p(1, d.prefix); std::vector<std::string> t; bool useShort = a.sh && (a.lng.empty() || g.flip()); L rest = vals;
    if (useShort) {
        std::string w = p + a.sh; bool digits = !vals.empty() && !vals.front().empty() && vals.front().find_first_not_of("0123456789.-+") == std::string::npos;
        if (digits && g.chance(1, 3)) { w += vals.front(); rest.pop_front(); g.label("joined short form"); } t.push_back(w);
    } else {
        std::string l = a.lng; if (d.abbrev && g.chance(1, 3)) { std::size_t k = 2 + g.draw(l.size() - 1); std::string s = l.substr(0, k); auto m = matching(d, s); if (m.size() == 1 && m[0] == l) { if (s != l) g.label("abbreviated"); l = s; } }
        std::string w = p + p + l; if (!vals.empty() && !vals.front().empty() && g.chance(1, 3)) { w += "=" + vals.front(); rest.pop_front(); g.label("joined long form"); } t.push_back(w);
    }
    // Several values may stand in one word when they are numbers.
    bool numbers = !rest.empty() && types(a.kind).find('t') == std::string::npos && rest.size() == vals.size(); if (numbers && rest.size() > 1 && g.chance(1, 5)) { std::string w; for (auto& v : rest) w += (w.empty() ? "" : " ") + v; t.push_back(w); g.label("values in one word"); return t; }
    for (auto& v : rest) t.push_back(v); return t;
}
struct Seg { std::vector<std::string> words; bool sw; long arg; bool unknown; };
std::vector<std::string> spellAll(pbt::Gen& g, const Decl& d, const Given& gv, std::vector<std::string>* unresolved = nullptr, bool fixedOrder = false) {
    std::vector<Seg> segs; std::string p(1, d.prefix);
    for (auto& o : gv.opts) for (auto& v : o.second) segs.push_back(Seg{spell(g, d, o.first, v), d.args[o.first].kind == Switch || d.args[o.first].kind == MultiSwitch, (long)o.first, false});
    if (unresolved) { std::size_t n = g.len(0, 3); for (std::size_t k = 0; k < n; k++) { Seg s; s.sw = false; s.arg = -1; s.unknown = true; s.words.push_back(g.oneOf<std::string>({p + p + "zeta", p + p + "zz=3", p + "Z", p + "Zz9", p + p + "zed=a=b"})); std::size_t w = g.len(0, 2); for (std::size_t j = 0; j < w; j++) s.words.push_back(g.oneOf<std::string>({"5", "word", "two words", "-3"})); segs.push_back(s); } }
    if (!fixedOrder) { // shuffle, keeping the order of the occurrences of one option
        std::vector<std::size_t> idx; for (std::size_t i = 0; i < segs.size(); i++) idx.push_back(i); g.shuffle(idx); std::map<long, std::vector<std::size_t>> of; for (std::size_t i = 0; i < segs.size(); i++) of[segs[i].arg].push_back(i); std::map<long, std::size_t> next; std::vector<Seg> out; for (auto i : idx) { long a = segs[i].arg; if (a < 0) { out.push_back(segs[i]); continue; } out.push_back(segs[of[a][next[a]++]]); } segs = out; }
    if (unresolved) for (auto& s : segs) if (s.unknown) for (auto& w : s.words) unresolved->push_back(w);
    std::vector<std::string> pos; for (auto& q : gv.pos) for (auto& v : q.second) pos.push_back(v); for (auto& v : gv.extra) pos.push_back(v);
    // The first k stand before, others after options, the last after the separator.
    std::vector<std::string> line; std::size_t k = 0; while (k < pos.size() && plain(pos[k], d.prefix) && g.flip()) line.push_back(pos[k++]);
    for (std::size_t i = 0; i < segs.size(); i++) {
        std::string w = segs[i].words[0];
        // Join neighbouring short switches into one word.
        if (segs[i].sw && w.size() == 2 && w[0] == d.prefix && i + 1 < segs.size() && segs[i + 1].words[0].size() >= 2 && segs[i + 1].words[0][1] != d.prefix && !segs[i + 1].unknown && g.flip()) { segs[i + 1].words[0] = w + segs[i + 1].words[0].substr(1); g.label("joined switches"); if (segs[i + 1].words[0].size() == 3 && segs[i + 1].sw) segs[i + 1].sw = false; continue; }
        for (auto& x : segs[i].words) line.push_back(x);
        if (!segs[i].unknown) while (k < pos.size() && plain(pos[k], d.prefix) && g.chance(1, 3)) { line.push_back(pos[k++]); g.label("positional between options"); }
    }
    if (k < pos.size() || g.chance(1, 8)) { bool need = line.size() == 0 ? false : true; bool sep = need || g.flip(); for (std::size_t j = k; j < pos.size(); j++) if (!plain(pos[j], d.prefix)) sep = true; if (sep) line.push_back(p + p); for (; k < pos.size(); k++) line.push_back(pos[k]); }
    return line;
}
std::vector<std::string> withProg(pbt::Gen& g, const std::vector<std::string>& l) { std::vector<std::string> r{g.oneOf<std::string>({"EXEC", "/usr/bin/EXEC", "C:\\bin\\EXEC"})}; r.insert(r.end(), l.begin(), l.end()); return r; }
A::Object parse(pbt::Gen& g, A::Parser& p, const std::vector<std::string>& l) {
    Mute m; int how = g.range(0, 2); if (how == 0) return p.parse(l); if (how == 1) { std::vector<const char*> v; for (auto& s : l) v.push_back(s.c_str()); return p.parse((int)v.size(), v.data()); } p.args(l); return p.parse();
}
// Runs and says whether the command line was refused with one of the parser's errors.
template <class F> bool refused(F f) { Mute m; try { f(); } catch (const A::Error::Error& e) { CHECK(std::string(e.what()) != "", "an error without a message"); return true; } catch (const A::StringParser::Error::Error& e) { CHECK(std::string(e.what()) != "", "an error without a message"); return true; } return false; }
void same(const A::Object& o, const Flat& e, const std::string& what) { Flat f; flat(o, "", f); CHECK(f == e, what + ": got " + show(f) + " instead of " + show(e)); }
}}
using namespace cmd;

PROP(a_command_line_yields_exactly_the_given_values_and_defaults, 6000, 80000, "at least three words") {
    Decl d = genDecl(g); Given v = genGiven(g, d, false); std::vector<std::string> line = spellAll(g, d, v); g << show(d) << "line " << show(line) << "\n"; if (line.empty()) g.discard();
    Cli c(d); A::Object o = parse(g, c.p, withProg(g, line)); CHECK_EQ(c.p.getProg(), std::string("EXEC"), "program name"); same(o, expected(d, v), "parsed");
    for (std::size_t i = 0; i < d.args.size(); i++) if (v.opts.count(i) && !multi(d.args[i].kind)) { // typed access
        const Arg& a = d.args[i]; const A::Object* at = &o; std::vector<std::size_t> up; for (std::size_t b = a.group; b; b = d.boxes[b].parent) if (!d.boxes[b].me) up.insert(up.begin(), b); for (auto b : up) at = &(*at)(d.boxes[b].name); const A::Object& x = (*at)(a.name); auto it = v.opts[i][0].begin();
        if (a.kind == Int) CHECK_EQ(x.get<int>(), std::atoi(it->c_str()), "integer value"); else if (a.kind == Real) CHECK_EQ(x.get<double>(), std::atof(it->c_str()), "real value"); else if (a.kind == Text) CHECK_EQ(x.getString(), *it, "text value"); else if (a.kind == Switch) CHECK_EQ(x.getBool(), !(a.hasDef && a.defOn), "switch");
        else if (a.kind == IntText) { auto p = x.get<int, std::string>(); CHECK_EQ(p.first, std::atoi(it->c_str()), "first of a pair"); CHECK_EQ(p.second, *std::next(it), "second of a pair"); } }
    g.label(d.boxes.size() > 1, "groups"); g.label(!v.pos.empty(), "positionals"); g.nontrivial(line.size() >= 3);
}
PROP(every_spelling_and_order_of_the_same_options_means_the_same, 3000, 40000, "at least two options") {
    Decl d = genDecl(g); Given v = genGiven(g, d, false); std::vector<std::string> a = spellAll(g, d, v), b = spellAll(g, d, v); if (a.empty() || b.empty()) g.discard(); g << show(d) << "line " << show(a) << "\nline " << show(b) << "\n";
    Cli c(d), e(d); Flat x, y; flat(parse(g, c.p, withProg(g, a)), "", x); flat(parse(g, e.p, withProg(g, b)), "", y); CHECK(x == y, "two spellings: " + show(x) + " and " + show(y)); g.label(a != b, "different lines"); g.nontrivial(v.opts.size() >= 2 && a != b);
}
PROP(arguments_not_declared_are_returned_unchanged_and_in_order_or_refused, 3000, 40000, "something undeclared given") {
    Decl d = genDecl(g); Given v = genGiven(g, d, true); std::vector<std::string> un, line = spellAll(g, d, v, &un); if (line.empty()) g.discard(); g << show(d) << "line " << show(line) << "\n"; std::string sep(2, d.prefix);
    Cli c(d); auto run = [&](A::Parser& p) { Mute m; auto l = withProg(g, line); if (g.flip()) return p.parseKnownArgs(l); std::vector<const char*> q; for (auto& s : l) q.push_back(s.c_str()); return p.parseKnownArgs((int)q.size(), q.data()); };
    auto r = run(c.p); same(r.first, expected(d, v), "parsed"); CHECK(!r.second.empty() && r.second[0] == "EXEC", "program name before what is left"); std::vector<std::string> left(r.second.begin() + 1, r.second.end()), want = un; want.insert(want.end(), v.extra.begin(), v.extra.end());
    std::vector<std::string> l2; for (auto& w : left) if (w != sep && w != "--") l2.push_back(w); CHECK(l2 == want, "left over " + show(left) + " instead of " + show(want));
    bool any = !want.empty(); bool ref = refused([&] { parse(g, c.p, withProg(g, line)); }); CHECK_EQ(ref, any, "undeclared arguments refused"); auto r2 = run(c.p); same(r2.first, expected(d, v), "parsed again"); CHECK(r2.second == r.second, "left over the second time: " + show(r2.second)); g.label(!v.extra.empty(), "extra positionals"); g.label(!un.empty(), "unknown options"); g.nontrivial(any);
}
PROP(a_parser_gives_the_same_result_again_and_is_not_changed_by_what_it_parsed, 3000, 40000, "three different lines or more") {
    Decl d = genDecl(g); Cli c(d); g << show(d); std::size_t n = g.len(2, 5); std::set<std::vector<std::string>> lines;
    for (std::size_t i = 0; i < n; i++) { Given v = genGiven(g, d, false); std::vector<std::string> line = spellAll(g, d, v); if (line.empty()) continue; g << "line " << show(line) << "\n"; lines.insert(line); Flat e = expected(d, v); same(parse(g, c.p, withProg(g, line)), e, "parsed"); if (g.flip()) { Mute m; same(c.p.parse(), e, "the same line again"); } if (g.chance(1, 4)) { CHECK(refused([&] { c.p.parse({"EXEC"}); }), "no arguments refused"); } }
    g.nontrivial(lines.size() >= 3);
}
PROP(every_fault_of_a_command_line_is_reported_with_an_error, 6000, 80000, "every case has one fault") {
    Decl d = genDecl(g); Given v = genGiven(g, d, false); Given bad = v; std::vector<std::size_t> opts; for (auto& o : v.opts) opts.push_back(o.first); std::string p(1, d.prefix); std::vector<std::string> line; int fault = g.range(0, 8); bool done = false; std::string what;
    auto some = [&](std::function<bool(const Arg&)> f) { std::vector<std::size_t> c; for (std::size_t i = 0; i < d.args.size(); i++) if (f(d.args[i])) c.push_back(i); return c; };
    switch (fault) {
    case 0: { what = "required option missing"; auto c = some([](const Arg& a) { return !position(a.kind) && a.required && !a.hasDef; }); if (c.empty()) break; bad.opts.erase(g.pick(c)); done = true; line = spellAll(g, d, bad); break; }
    case 1: { what = "value missing"; auto c = some([](const Arg& a) { return !position(a.kind) && !flag(a.kind); }); if (c.empty()) break; std::size_t i = g.pick(c); bad.opts.erase(i); bad.pos.clear(); line = spellAll(g, d, bad); while (!line.empty() && line.back() == p + p) line.pop_back(); L few = values(g, d.args[i].kind); few.pop_back(); auto w = spell(g, d, i, few); line.insert(line.end(), w.begin(), w.end()); if (g.flip()) { line.push_back(p + p); } done = true; break; }
    case 2: { what = "ill-typed value"; auto c = some([](const Arg& a) { return !flag(a.kind) && types(a.kind).find_first_of("ir") != std::string::npos && a.choices.empty(); }); if (c.empty()) break; std::size_t i = g.pick(c); const Arg& a = d.args[i]; std::string ty = types(a.kind); std::vector<std::size_t> at; for (std::size_t j = 0; j < ty.size(); j++) if (ty[j] != 't') at.push_back(j); std::size_t j = g.pick(at); L l = values(g, a.kind); auto it = l.begin(); std::advance(it, (long)j); *it = ty[j] == 'i' ? g.oneOf<std::string>({"x", "5x", "1.5", "1e3", "2147483648", "0x1f", "--", "four", "1,2"}) : g.oneOf<std::string>({"x", "1.2.3", "1e", "5mm", "e5", "1,5"}); if (*it == "--") *it = "-"; if (position(a.kind)) { bad.pos[i] = l; bool before = true; for (std::size_t q = 0; q < i; q++) if (position(d.args[q].kind) && !bad.pos.count(q)) before = false; if (!before) { done = false; break; } } else { if (d.boxes[a.group].me) for (auto q : some([&](const Arg& b) { return b.group == a.group; })) bad.opts.erase(q); bad.opts[i] = {l}; } g << "bad value '" << *it << "' of " << a.name << "\n"; done = true; line = spellAll(g, d, bad); break; }
    case 3: { what = "value outside the choices"; auto c = some([](const Arg& a) { return !a.choices.empty() && !position(a.kind); }); if (c.empty()) break; std::size_t i = g.pick(c); const Arg& a = d.args[i]; L l = values(g, a.kind); bool hit = false; for (auto& ch : a.choices) { bool eq = true; auto x = ch.begin(); for (auto& y : l) { if (*x != "*" && *x != y) eq = false; ++x; } hit = hit || eq; } if (hit) break; if (d.boxes[a.group].me) for (auto q : some([&](const Arg& b) { return b.group == a.group; })) bad.opts.erase(q); bad.opts[i] = {l}; done = true; line = spellAll(g, d, bad); break; }
    case 4: { what = "option repeated"; auto c = some([](const Arg& a) { return !position(a.kind) && !multi(a.kind); }); if (c.empty()) break; std::size_t i = g.pick(c); const Arg& a = d.args[i]; if (d.boxes[a.group].me) for (auto q : some([&](const Arg& b) { return b.group == a.group; })) bad.opts.erase(q); bad.opts[i] = {values(g, a.kind, a.choices), values(g, a.kind, a.choices)}; if (g.flip()) bad.opts[i].push_back(values(g, a.kind, a.choices)); done = true; line = spellAll(g, d, bad); break; }
    case 5: { what = "two options of an exclusive group"; std::vector<std::size_t> bs; for (std::size_t b = 1; b < d.boxes.size(); b++) if (d.boxes[b].me && some([&](const Arg& a) { return a.group == b; }).size() > 1) bs.push_back(b); if (bs.empty()) break; std::size_t b = g.pick(bs); auto c = some([&](const Arg& a) { return a.group == b; }); g.shuffle(c); for (std::size_t j = 0; j < 2; j++) if (!bad.opts.count(c[j])) bad.opts[c[j]].push_back(values(g, d.args[c[j]].kind, d.args[c[j]].choices)); done = true; line = spellAll(g, d, bad); break; }
    case 6: { what = "none of a required group"; std::vector<std::size_t> bs; for (std::size_t b = 1; b < d.boxes.size(); b++) if (d.boxes[b].me && d.boxes[b].required) bs.push_back(b); if (bs.empty()) break; std::size_t b = g.pick(bs); for (auto q : some([&](const Arg& a) { return a.group == b; })) bad.opts.erase(q); done = true; line = spellAll(g, d, bad); break; }
    case 7: { what = "ambiguous abbreviation"; if (!d.abbrev) break; std::vector<std::string> ab; for (auto& a : d.args) for (std::size_t k = 2; k < a.lng.size(); k++) if (matching(d, a.lng.substr(0, k)).size() > 1) ab.push_back(a.lng.substr(0, k)); if (ab.empty()) break; line = spellAll(g, d, bad); line.insert(line.begin(), p + p + g.pick(ab)); done = true; break; }
    default: { what = "positional missing"; auto c = some([](const Arg& a) { return position(a.kind) && !a.hasDef; }); if (c.empty()) break; std::size_t i = c.back(); for (std::size_t q = i; q < d.args.size(); q++) bad.pos.erase(q); done = true; line = spellAll(g, d, bad); break; }
    }
    if (!done || line.empty()) g.discard(); g.label(what); g << show(d) << what << "\nline " << show(line) << "\n"; Cli c(d);
    CHECK(refused([&] { parse(g, c.p, withProg(g, line)); }), what + ": not reported"); CHECK(refused([&] { Mute m; c.p.parseKnownArgs(withProg(g, line)); }), what + ": not reported");
    std::vector<std::string> good = spellAll(g, d, v); if (!good.empty()) { same(parse(g, c.p, withProg(g, good)), expected(d, v), "parsed after an error"); }
    g.nontrivial(true);
}
PROP(a_repeated_declaration_is_refused_and_leaves_the_others_working, 3000, 40000, "every case repeats a declaration") {
    Decl d = genDecl(g); Cli c(d); g << show(d); std::size_t n = g.len(1, 4);
    for (std::size_t k = 0; k < n; k++) {
        std::size_t i = g.draw(d.args.size()); const Arg& a = d.args[i]; int how = g.range(0, 4); A::OptionBase* o = nullptr; A::GroupBase* box = c.boxes[g.draw(c.boxes.size())];
        if (how == 0 && a.sh) o = new A::Switch("fresh", a.sh); else if (how == 1 && !a.lng.empty()) o = new A::Option<int>("fresh", a.lng); else if (how == 2 && a.sh) o = new A::Switch("fresh", a.sh, "freshlong"); else if (how == 3 && !a.lng.empty()) o = new A::Switch("fresh", 'Q', a.lng);
        else { box = c.boxes[a.group]; if (g.flip()) o = new A::Switch(a.name, 'Q', "fresh"); else { CHECK(refused([&] { box->addPosition(new A::Position<int>(a.name)); }), "positional name repeated"); continue; } }
        CHECK(refused([&] { box->addOption(o); }), "repeated declaration accepted");
    }
    CHECK(refused([&] { c.p.addOption(nullptr); }), "no option accepted"); CHECK(refused([&] { c.p.addPosition(nullptr); }), "no positional accepted");
    for (std::size_t b = 1; b < d.boxes.size(); b++) if (!d.boxes[b].me) { A::Group* up = dynamic_cast<A::Group*>(c.boxes[d.boxes[b].parent]); CHECK(refused([&] { up->addGroup(d.boxes[b].name); }), "group name repeated"); }
    CHECK(refused([&] { A::Switch s(g.oneOf<std::string>({"", "x", "1ab", "a1"})); }), "option without an identifier accepted");
    Given v = genGiven(g, d, false); std::vector<std::string> line = spellAll(g, d, v); if (!line.empty()) { g << "line " << show(line) << "\n"; same(parse(g, c.p, withProg(g, line)), expected(d, v), "parsed after refused declarations"); }
    // What a refused declaration would have brought is still free.
    bool q = false, f = false; for (auto& a : d.args) { q = q || a.sh == 'Q'; f = f || a.lng == "fresh"; } { Mute m; CHECK_NOTHROW(c.p.addOption(new A::Switch("fresh", 'Q', "freshlong")), "a free identifier is taken"); }
    std::vector<std::string> l2 = line; l2.insert(l2.begin(), std::string(1, d.prefix) + "Q"); bool lead = !line.empty() && plain(line[0], d.prefix); if (!lead) { Flat e = expected(d, v); e["fresh"] = "<1>"; bool all = true; for (auto& a : d.args) if (position(a.kind) && line.empty()) all = false; if (!line.empty() && all) same(parse(g, c.p, withProg(g, l2)), e, "parsed with a later declaration"); }
    g.nontrivial(true);
}
PROP(the_help_text_names_every_declared_argument_with_its_defaults_and_choices, 1500, 20000, "at least two arguments") {
    Decl d = genDecl(g); A::Parser* p; Cli c(d); p = &c.p; g << show(d); std::string out, tag;
    Arg a; a.kind = Text; a.ctor = 3; a.name = "extra"; a.lng = "extra"; a.sh = 0; auto* o = new A::Option<std::string>("extra", "extraopt"); o->defaultVal({"dflt", "second"}); o->choices({{"one"}, {"two", "three"}}); o->help("HELP ${PROG} D=${DEFAULT} C=${CHOICES} end"); p->addOption(o);
    p->description("DESC of ${PROG} here"); p->epilog("EPI of ${PROG} done"); CHECK_EQ(p->getDescription(), std::string("DESC of ${PROG} here"), "description");
    { Mute m; p->prog("PROGNAME"); p->printHelp(); out = m.out.str(); } std::string flatOut; for (char ch : out) flatOut += std::isspace((unsigned char)ch) ? (flatOut.empty() || flatOut.back() == ' ' ? "" : " ") : std::string(1, ch);
    auto has = [&](const std::string& s) { CHECK(flatOut.find(s) != std::string::npos, "help does not say '" + s + "': " + flatOut); };
    has("usage: PROGNAME"); has("DESC of PROGNAME here"); has("EPI of PROGNAME done"); has("HELP PROGNAME D=dflt second C=one, two three end");
    for (auto& x : d.args) { has("about " + x.name); if (x.sh) has(std::string(1, d.prefix) + x.sh); else if (!x.lng.empty()) has(std::string(2, d.prefix) + x.lng); if (position(x.kind)) { std::string u = x.name; for (auto& ch : u) ch = (char)std::toupper(ch); has(u); } }
    { Mute m; p->usage("custom usage of ${PROG}"); p->printUsage(); CHECK_EQ(m.out.str(), std::string("custom usage of PROGNAME\n"), "custom usage"); } g.nontrivial(d.args.size() >= 2);
}
// Positionals of exclusive groups are as exclusive as options.
PROP(positionals_and_options_of_an_exclusive_group_exclude_each_other, 4000, 60000, "a group has positionals and something is given") {
    struct It { int kind; std::size_t box; std::string name; }; std::size_t nb = g.len(1, 2); std::vector<bool> req; for (std::size_t b = 0; b < nb; b++) req.push_back(g.flip()); std::vector<It> items; std::size_t n = g.len(1, 5);
    for (std::size_t i = 0; i < n; i++) items.push_back(It{g.range(0, 3) / 2 ? g.range(1, 2) : 0, g.chance(1, 4) ? 0 : 1 + g.draw(nb), "arg" + std::to_string(i)}); // positional, option, switch
    bool nested = g.flip(); std::vector<bool> any(nb + 1); for (auto& x : items) any[x.box] = true;
    A::Parser p; A::Group* up = nested ? &p.addGroup("in") : &p; std::vector<A::GroupBase*> boxes(1, up); for (std::size_t b = 0; b < nb; b++) { auto& m = up->addMutuallyExclusiveGroup(); if (req[b] && any[b + 1]) m.required(); boxes.push_back(&m); }
    for (std::size_t i = 0; i < n; i++) { auto& x = items[i]; char sh = (char)('a' + i); if (x.kind == 0) boxes[x.box]->addPosition(new A::Position<std::string>(x.name)); else if (x.kind == 1) boxes[x.box]->addOption(new A::Option<std::string>(x.name, sh)); else boxes[x.box]->addOption(new A::Switch(x.name, sh)); }
    std::size_t np = 0; for (auto& x : items) np += x.kind == 0; std::size_t given = g.draw(np + 1), left = given; std::vector<std::size_t> use(nb + 1), opts; std::vector<std::pair<std::string, std::string>> want; bool missing = false;
    std::list<std::string> line;
    for (std::size_t i = 0; i < n; i++) { auto& x = items[i]; if (x.kind == 0) { if (left) { left--; want.push_back({x.name, "v" + std::to_string(i)}); line.push_back(want.back().second); use[x.box]++; } else if (x.box == 0) missing = true; } else if (g.chance(1, 3)) opts.push_back(i); }
    for (std::size_t i : opts) { auto& x = items[i]; std::vector<std::string> w{std::string("-") + (char)('a' + i)}; use[x.box]++; if (x.kind == 1) w.push_back("w" + std::to_string(i)); want.push_back({x.name, x.kind == 1 ? w[1] : "1"}); line.insert(line.begin(), w.begin(), w.end()); }
    bool excluded = false, lacking = false; for (std::size_t b = 1; b <= nb; b++) { excluded = excluded || use[b] > 1; lacking = lacking || (use[b] == 0 && req[b - 1] && any[b]); }
    for (auto& x : items) g << (x.kind == 0 ? "positional " : x.kind == 1 ? "option " : "switch ") << x.name << " in " << x.box << (x.box && req[x.box - 1] ? " (required)" : "") << "\n"; for (auto& w : line) g << w << " ";
    bool pm = false; for (auto& x : items) pm = pm || (x.kind == 0 && x.box); g.nontrivial(pm && !line.empty()); g.label(excluded, "excluded"); g.label(lacking, "lacking"); g.label(missing, "missing"); g.label(!excluded && !lacking && !missing, "accepted");
    std::vector<std::string> words{"prog"}; words.insert(words.end(), line.begin(), line.end()); std::vector<const char*> av; for (auto& w : words) av.push_back(w.c_str());
    A::Object o; bool threw = false; { Mute m; try { o = p.parse((int)av.size(), av.data()); } catch (const std::exception&) { threw = true; } }
    CHECK_EQ(threw, excluded || lacking || missing || line.empty(), "refused"); if (threw) return;
    const A::Object& at = nested && o.existsName("in") ? o("in") : o; if (nested && !o.existsName("in")) CHECK(want.empty(), "no values of the group");
    for (auto& x : items) { std::string v; bool there = false; for (auto& w : want) if (w.first == x.name) there = true, v = w.second; if (x.kind != 2) { CHECK_EQ(at.existsName(x.name), there, x.name + " exists"); if (there) CHECK_EQ(at(x.name).getString(), v, "value of " + x.name); } else if (there) CHECK(at(x.name).getBool(), x.name + " is off"); }
}
