// C33: usage and help texts describe exactly the declared command line.
#include "pbt.h"
#include "argument/Parser.h"
#include "console.h"
#include <algorithm>
#include <memory>
#include <sstream>
using namespace SEMBA;
namespace A = SEMBA::Argument;

namespace help { namespace {
typedef std::list<std::string> L;
enum Kind { Switch, MultiSwitch, Int, Pair, Multi, Pos, PosPair, MultiPos };
bool position(int k) { return k >= Pos; }
bool many(int k) { return k == MultiSwitch || k == Multi || k == MultiPos; }
bool flag(int k) { return k <= MultiSwitch; }
struct Arg { int kind; std::string name, lng, text; char sh; bool required; L meta, def; std::vector<L> choices; };
struct Box { bool me, required; std::string name, text; std::vector<Arg> args; std::vector<Box> in; };
struct Decl { Box root; std::string prog, description, epilog; char prefix; };

std::string words(pbt::Gen& g, std::size_t lo, std::size_t hi, bool marks) {
    std::string s; std::size_t n = g.len(lo, hi);
    for (std::size_t i = 0; i < n; i++) {
        if (i) s += g.chance(1, 12) ? g.oneOf<std::string>({"  ", "\n", "\t"}) : " ";
        if (marks && g.chance(1, 8)) s += g.oneOf<std::string>({"${PROG}", "(${DEFAULT})", "${CHOICES}.", "${DEFAULT}", "${PROG}/${PROG}"});
        else if (g.chance(1, 40)) s += std::string((std::size_t)g.range(30, 110), 'w'); else s += g.text("abcdefghij.,-{}$", 1, 9);
    }
    return s;
}
Arg genArg(pbt::Gen& g, std::size_t i, bool pos) {
    static const std::string shorts = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    Arg a; a.kind = pos ? g.range(Pos, MultiPos) : g.range(Switch, Multi); a.name = (g.chance(1, 10) ? std::string((std::size_t)g.range(8, 40), 'n') : g.text("abcXYZ_", 1, 6)) + std::to_string(i);
    a.sh = !pos && g.flip() ? shorts[i] : 0; if (!pos && (!a.sh || g.flip())) a.lng = g.oneOf<std::string>({"long-name", "opt", "Mode", "some-much-longer-identifier-than-the-others"}) + std::to_string(i);
    a.required = pos || g.chance(1, 3); a.text = g.chance(1, 6) ? "" : words(g, 1, 40, true);
    if (!flag(a.kind) && g.chance(1, 3)) { std::size_t n = (a.kind == Pair || a.kind == PosPair) ? 2 : 1; for (std::size_t k = 0; k < n; k++) a.meta.push_back(g.oneOf<std::string>({"FILE", "<x>", "n", "SIZE_IN_CELLS"})); }
    if (!flag(a.kind) && g.chance(1, 3)) { a.def.push_back(std::to_string(g.range(0, 9))); if (a.kind == Pair || a.kind == PosPair) a.def.push_back("7.5"); }
    if (!flag(a.kind) && g.chance(1, 3)) { std::size_t n = g.many(1, 4, 30); for (std::size_t k = 0; k < n; k++) { L l{std::to_string(k)}; if (a.kind == Pair || a.kind == PosPair) l.push_back("1e" + std::to_string(k)); a.choices.push_back(l); } if (!a.def.empty()) a.choices.push_back(a.def); }
    return a;
}
void fill(pbt::Gen& g, Box& b, std::size_t depth, std::size_t& n) {
    std::size_t k = g.many(b.me ? 1 : 0, depth ? 3 : 6, 30); for (std::size_t i = 0; i < k && n < 40; i++) { b.args.push_back(genArg(g, n, !b.me && g.chance(1, 4))); n++; if (b.me) b.args.back().required = false; }
    if (b.me || depth >= 3) return;
    k = g.len(0, depth ? 2 : 3); for (std::size_t i = 0; i < k && n < 40; i++) { Box c; c.me = g.chance(2, 5); c.required = c.me && g.flip(); c.name = g.oneOf<std::string>({"group", "Advanced options", "g"}) + " " + std::to_string(n) + "." + std::to_string(i); if (!c.me && g.flip()) c.text = words(g, 1, 30, false); fill(g, c, depth + 1, n); b.in.push_back(c); }
}
Decl genDecl(pbt::Gen& g) {
    Decl d; std::size_t n = 0; d.root.me = d.root.required = false; fill(g, d.root, 0, n);
    d.prog = g.chance(1, 8) ? std::string((std::size_t)g.range(20, 100), 'p') : g.oneOf<std::string>({"semba", "p", "program.exe"});
    if (g.flip()) d.description = words(g, 1, 40, false) + " ${PROG}"; if (g.flip()) d.epilog = "${PROG} " + words(g, 1, 40, false); d.prefix = g.chance(1, 6) ? '+' : '-';
    return d;
}
template <class T> T* made(const Arg& a) { if (!a.sh) return new T(a.name, a.lng); if (a.lng.empty()) return new T(a.name, a.sh); return new T(a.name, a.sh, a.lng); }
template <class T> T* dressed(T* t, const Arg& a) { if (a.required && !position(a.kind)) dynamic_cast<A::OptionBase&>(static_cast<A::Argument&>(*t)).required(true); if (!a.text.empty()) t->help(a.text); if (!a.meta.empty()) t->metavar(a.meta); if (!a.choices.empty()) t->choices(a.choices); if (!a.def.empty()) t->defaultVal(a.def); return t; }
template <class T> T* flagged(T* t, const Arg& a) { if (a.required) t->required(); if (!a.text.empty()) t->help(a.text); return t; }
void declare(A::GroupBase& to, const Box& b) {
    for (auto& a : b.args) switch (a.kind) {
        case Switch: to.addOption(flagged(made<A::Switch>(a), a)); break; case MultiSwitch: to.addOption(flagged(made<A::MultiSwitch>(a), a)); break;
        case Int: to.addOption(dressed(made<A::Option<int>>(a), a)); break; case Pair: to.addOption(dressed(made<A::Option<int, double>>(a), a)); break; case Multi: to.addOption(dressed(made<A::MultiOption<std::string>>(a), a)); break;
        case Pos: to.addPosition(dressed(new A::Position<int>(a.name), a)); break; case PosPair: to.addPosition(dressed(new A::Position<int, double>(a.name), a)); break; default: to.addPosition(dressed(new A::MultiPosition<std::string>(a.name), a)); break;
    }
    for (auto& c : b.in) { auto& up = dynamic_cast<A::Group&>(to); if (c.me) { auto& m = up.addMutuallyExclusiveGroup(); if (c.required) m.required(); declare(m, c); } else declare(up.addGroup(c.name, c.text), c); }
}
// The reference: the words of every text, then their layout.
std::string meta(const Arg& a) { if (a.meta.empty()) { std::string s(a.name); for (auto& c : s) c = (char)std::toupper(c); return s; } std::string s; for (auto& m : a.meta) s += (s.empty() ? "" : " ") + m; return s; }
std::string form(const Arg& a, char prefix) {
    std::string id = a.sh ? std::string(1, prefix) + a.sh : std::string(2, prefix) + a.lng, unit = position(a.kind) ? meta(a) : flag(a.kind) ? id : id + " " + meta(a), again = position(a.kind) || !flag(a.kind) ? meta(a) : id;
    return many(a.kind) ? unit + " [" + again + " ...]" : unit;
}
std::string usage(const Box& b, char prefix) {
    std::vector<std::string> parts;
    for (auto& a : b.args) if (position(a.kind)) parts.push_back(form(a, prefix));
    for (auto& a : b.args) if (!position(a.kind)) parts.push_back(b.me || a.required ? form(a, prefix) : "[" + form(a, prefix) + "]");
    for (auto& c : b.in) { std::string s = usage(c, prefix); if (!s.empty()) parts.push_back(s); }
    std::string r; for (auto& p : parts) r += (r.empty() ? "" : b.me ? " | " : " ") + p;
    return !b.me ? r : b.required ? "(" + r + ")" : "[" + r + "]";
}
std::string said(std::string s, const std::string& mark, const std::string& by) { for (std::size_t at = 0; (at = s.find(mark, at)) != std::string::npos; at += by.size()) s.replace(at, mark.size(), by); return s; }
std::string join(const L& l) { std::string s; for (auto& v : l) s += (s.empty() ? "" : " ") + v; return s; }
// Words on lines of at most `width` columns: the first line begins at column `first`, the others at `indent`.
std::string lay(const std::string& text, std::size_t width, std::size_t first = 0, std::size_t indent = 0) {
    std::istringstream in(text); std::string w, r; std::size_t col = first; bool any = false;
    while (in >> w) { if (any && col + 1 + w.size() > width) { r += "\n" + std::string(indent, ' '); col = indent; any = false; } if (any) { r += " "; col++; } r += w; col += w.size(); any = true; }
    return r + "\n";
}
std::string entry(const Decl& d, const Arg& a, std::size_t margin, std::size_t width) {
    std::size_t tab = width / 8; std::string r = std::string(margin, ' ') + form(a, d.prefix); if (a.text.empty()) return r + "\n";
    r += r.size() < tab ? std::string(tab - r.size(), ' ') : "\n" + std::string(tab, ' ');
    std::string c; for (auto& l : a.choices) c += (c.empty() ? "" : ", ") + join(l);
    return r + lay(said(said(said(a.text, "${PROG}", d.prog), "${DEFAULT}", join(a.def)), "${CHOICES}", c), width, tab, tab);
}
std::string section(const Decl& d, const Box& b, std::size_t depth, std::size_t width) {
    std::string r; std::size_t margin = depth ? 2 : 1, np = 0, no = 0;
    for (auto& a : b.args) (position(a.kind) ? np : no)++;
    if (b.me) { r += std::string(depth == 1 ? 0 : 2, ' ') + lay("mutually exclusive group:", width, depth == 1 ? 0 : 2, depth == 1 ? 0 : 2); margin = depth == 1 ? 1 : 4; }
    else if (depth) { r += lay(b.name, width); if (!b.text.empty()) r += "  " + lay(b.text, width, 2, 2) + "\n"; }
    if (np && !depth) r += lay("positional arguments:", width); for (auto& a : b.args) if (position(a.kind)) r += entry(d, a, margin, width);
    if (!depth && np && (no || !b.in.empty())) r += "\n";
    if (no && !depth) r += lay("optional arguments:", width); for (auto& a : b.args) if (!position(a.kind)) r += entry(d, a, margin, width);
    if (!depth && no && !b.in.empty()) r += "\n";
    for (auto& c : b.in) r += section(d, c, depth + 1, width);
    return r;
}
std::string usageText(const Decl& d, std::size_t width) { std::string head = "usage: " + d.prog + " "; return lay(head + usage(d.root, d.prefix), width, 0, head.size()); }
std::string helpText(const Decl& d, std::size_t width) {
    std::string r = usageText(d, width) + "\n"; if (!d.description.empty()) r += lay(said(d.description, "${PROG}", d.prog), width) + "\n";
    r += section(d, d.root, 0, width); if (!d.epilog.empty()) r += "\n" + lay(said(d.epilog, "${PROG}", d.prog), width); return r;
}
struct Caught { std::stringstream out, err; std::streambuf *o, *e; Caught() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Caught() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
void dress(A::Parser& p, const Decl& d) { p.prog(d.prog); if (!d.description.empty()) p.description(d.description); if (!d.epilog.empty()) p.epilog(d.epilog); if (d.prefix != '-') p.prefixChars(std::string(1, d.prefix)); declare(p, d.root); }
void same(const std::string& got, const std::string& want, const char* what) {
    if (got == want) return; std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    FAIL(what << " differ from byte " << i << "\n--- got\n" << got << "\n--- expected\n" << want);
}
std::size_t count(const Box& b) { std::size_t n = b.args.size(); for (auto& c : b.in) n += count(c); return n; }
} }
using namespace help;

PROP(texts, 6000, 200000, "three arguments, one in a group") {
    Decl d = genDecl(g); A::Parser p; dress(p, d); std::size_t n = count(d.root); g << helpText(d, 80); g.nontrivial(n >= 3 && n > d.root.args.size());
    g.label(d.prefix != '-', "other prefix"); bool me = false; for (auto& b : d.root.in) me |= b.me; g.label(me, "exclusive group"); g.label(helpText(d, 80).size() > 1000, "long help");
    { Caught c; p.printUsage(); same(c.out.str(), usageText(d, 80), "usage texts"); CHECK(c.err.str().empty(), "usage on standard error"); }
    { Caught c; p.printHelp(); same(c.out.str(), helpText(d, 80), "help texts"); CHECK(c.err.str().empty(), "help on standard error"); }
    { Caught c; std::string u = words(g, 1, 40, false) + " ${PROG} end"; p.usage(u); p.printUsage(); same(c.out.str(), lay(said(u, "${PROG}", d.prog), 80), "texts of a given usage"); }
}
PROP(refusals, 3000, 60000, "a declaration with required options") {
    Decl d = genDecl(g); A::Parser p; dress(p, d); bool req = false; for (auto& a : d.root.args) req |= a.required; g.nontrivial(req); g << usageText(d, 80);
    std::string dir = g.oneOf<std::string>({"", "./", "/opt/x/", "a b/", "C:\\bin\\"}); Caught c; bool threw = false; d.prog = "tool" + std::to_string(g.range(0, 9)); std::string what;
    std::vector<std::string> line{dir + d.prog}; if (!g.chance(1, 6)) line.push_back(std::string(2, d.prefix) + "no-such-option-at-all");
    try { p.parse(line); } catch (const A::Error::Error& e) { threw = true; what = e.what(); }
    CHECK(threw, "a line with an unknown option, or with nothing, was parsed"); same(c.out.str(), usageText(d, 80), "usage texts on refusal");
    if (line.size() > 1) CHECK_EQ(c.err.str(), d.prog + ": " + what + "\n", "the message"); else CHECK_EQ(c.err.str(), std::string(), "the message of an empty line");
}
PROP(consoles, 600, 8000, "a help longer than its usage") {
    Decl d = genDecl(g); A::Parser p; dress(p, d); unsigned short cols = (unsigned short)(g.chance(1, 8) ? 0 : g.chance(1, 4) ? g.range(200, 400) : g.range(20, 200)); std::size_t width = cols ? cols : 80; g << "columns " << cols << "\n" << helpText(d, width);
    g.label(!cols, "a terminal without a size"); g.nontrivial(count(d.root) > 1); std::string got;
    if (!console::on(cols, got, [&] { p.printHelp(); })) g.discard(); same(got, helpText(d, width), "help texts on a terminal");
}
template <class T> static T* obligatory(T* t) { dynamic_cast<A::OptionBase&>(static_cast<A::Argument&>(*t)).required(true); return t; }
PROP(reasons, 4000, 80000, "more than one word is at fault, or the fault follows good arguments") {
    A::Parser p; std::string prog = "tool" + g.text("abc", 0, 3); p.prog(prog); int fault = g.range(0, 8); bool lng = g.flip(), needed = fault == 1, place = fault == 4 || g.chance(1, 3);
    std::vector<std::string> colours; std::size_t n = g.len(1, 4); for (std::size_t k = 0; k < n; k++) colours.push_back(g.text("abc", 1, 4) + std::to_string(k));
    { auto o = new A::Option<int>("number", 'n', "number"); if (needed) obligatory(o); p.addOption(o); }
    { auto o = new A::Option<std::string>("mode", 'm', "mode"); std::vector<std::list<std::string>> c; for (auto& s : colours) c.push_back({s}); o->choices(c); p.addOption(o); }
    p.addOption(new A::Option<int, double>("pair", 'P', "pair")); p.addOption(new A::MultiOption<int>("list", 'l', "list")); p.addOption(new A::Switch("colour", "colour")); p.addOption(new A::Switch("count", "count"));
    if (place) p.addPosition(new A::Position<int>("place"));
    std::vector<std::string> line{prog}, says; auto opt = [&](char s, const std::string& l) { line.push_back(lng ? "--" + l : std::string("-") + s); }; auto put = [&](const std::string& s) { line.push_back(s); };
    std::string bad = g.oneOf<std::string>({"x", "1e", "--", "0x", "one", "1,2"}); if (bad == "--") bad = "y2"; bool before = g.flip(), after = g.chance(1, 3);
    if (place && fault != 4) { put("7"); }
    if (before && fault != 1) { opt('P', "pair"); put("3"); put("0.5"); } if (before && fault == 1) put("--count");
    switch (fault) {
        case 0: { std::size_t k = g.len(1, 3); for (std::size_t i = 0; i < k; i++) { std::string u = "--unknown" + std::to_string(i); put(u); says.push_back(u); } break; }
        case 1: if (!before && !place) put("--colour"); says = {"-n/--number"}; break;
        case 2: opt('n', "number"); put(bad); says = {"-n/--number"}; break;
        case 3: opt('m', "mode"); put("zz" + g.text("abc", 0, 2)); says = colours; says.push_back("-m/--mode"); break;
        case 4: put("--"); put(bad); says = {"place"}; break;
        case 5: opt('n', "number"); put("1"); opt('n', "number"); put("2"); says = {"-n/--number"}; break;
        case 6: put("--co"); says = {"--co", "colour", "count"}; break;
        case 7: opt('l', "list"); says = {"-l/--list"}; if (g.flip()) { put("4"); says = {bad}; } put(bad); if (g.flip()) { opt('l', "list"); put("5"); } break;
        default: opt('n', "number"); says = {"-n/--number"}; break;
    }
    if (after) { opt('m', "mode"); put(colours[0]); if (fault == 3) { line.pop_back(); line.pop_back(); } }
    for (auto& s : line) g << s << " "; static const char* kinds[] = {"unknown", "required", "ill-typed", "not a choice", "positional", "repeated", "ambiguous", "in a list", "without value"}; g.label(kinds[fault]); g.nontrivial(before || after || says.size() > 1);
    std::string usage; { Caught c; p.printUsage(); usage = c.out.str(); }
    std::string what, out, err; bool threw = false; { Caught c; try { p.parse(line); } catch (const std::exception& e) { threw = true; what = e.what(); } out = c.out.str(); err = c.err.str(); }
    CHECK(threw, "the line is accepted"); same(out, usage, "usage texts on refusal"); std::string head = prog + ": ";
    CHECK(err.compare(0, head.size(), head) == 0 && err.size() > head.size() + 1 && std::count(err.begin(), err.end(), '\n') == 1 && err.back() == '\n', "the message is " << err);
    CHECK(!what.empty() && err.find(what, head.size()) != std::string::npos, "the message " << err << " lacks the reason " << what); for (auto& s : says) CHECK(err.find(s) != std::string::npos, "the message " << err << " does not say " << s);
}
