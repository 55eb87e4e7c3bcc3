// C35: progress is shown on one line of the console that fits it, and only there.
#include "pbt.h"
#include "util/ProgressBar.h"
#include "console.h"
#include <iomanip>
#include <sstream>
using namespace SEMBA;
namespace bar { namespace {
// The lines as a terminal shows them: what stands after the last return.
std::vector<std::string> shown(const std::string& s) { std::vector<std::string> r(1); for (char c : s) { if (c == '\r') r.back().clear(); else if (c == '\n') r.push_back(""); else r.back() += c; } return r; }
std::string amount(std::size_t n) { std::size_t k = 0; static const char u[] = " KMGTPE"; while (n >= 100000 && u[k + 1]) { n /= 1000; k++; } std::string s = std::to_string(n) + u[k]; return s; }
std::string squeeze(const std::string& s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
}}
using namespace bar;

PROP(elsewhere, 2000, 20000, "a job of some size") {
    std::string name = g.text("abc XYZ.", 0, 30); std::size_t size = (std::size_t)g.range(0, 50), prev = (std::size_t)g.range(0, 8); std::stringstream s; auto o = std::cout.rdbuf(s.rdbuf()); struct Back { std::streambuf* o; ~Back() { std::cout.rdbuf(o); } } back{o}; g << name << " " << size;
    if (isatty(1)) g.discard(); Util::ProgressBar p; g.nontrivial(size > 0); bool dflt = g.flip(); if (dflt) p.init(name, size); else p.init(name, size, prev);
    for (int i = g.range(0, 9); i-- > 0;) p.advance((std::size_t)g.range(0, 9)); p.end(); CHECK_EQ(s.str(), size ? std::string(dflt ? 2 : prev, ' ') + name + "\n" : std::string(), "what is printed to a file");
}
PROP(consoles, 1500, 20000, "the console has room for the bar") {
    unsigned short cols = (unsigned short)(g.chance(1, 4) ? g.range(1, 40) : g.range(40, 200)); std::size_t jobs = g.len(1, 3); std::string got; std::vector<std::string> names; std::vector<std::size_t> sizes, prevs;
    for (std::size_t i = 0; i < jobs; i++) { names.push_back(g.text("abcdefXYZ.", 1, 30)); std::size_t ten = 1; for (int k = g.range(1, 18); k > 0; k--) ten *= 10; sizes.push_back(g.chance(1, 6) ? 0 : g.chance(1, 3) ? ten - 1 + (std::size_t)g.range(0, 2) : g.chance(1, 3) ? (std::size_t)g.draw(1u << 31) * g.oneOf<std::size_t>({1, 1000000, 4294967296}) + 1 : (std::size_t)g.range(1, 2000)); prevs.push_back((std::size_t)g.range(0, 6)); g << names.back() << " " << sizes.back() << " " << prevs.back() << "; "; } g << "columns " << cols;
    std::vector<std::pair<std::string, std::string>> parts; // after init, after end
    bool ok = true; for (std::size_t i = 0; i < jobs && ok; i++) {
        Util::ProgressBar p; std::string a, b; std::size_t n = sizes[i]; int adv = g.range(0, 6); std::vector<std::size_t> by; for (int k = 0; k < adv; k++) by.push_back((std::size_t)g.draw(n + 2));
        ok = console::on(cols, a, [&] { p.init(names[i], n, prevs[i]); }); if (!ok) break; ok = console::on(cols, b, [&] { for (auto k : by) p.advance(k); p.end(); std::cout << std::setw(4) << 7; }); parts.push_back({a, b});
    }
    if (!ok) g.discard(); g.nontrivial(cols >= 60);
    for (std::size_t i = 0; i < jobs; i++) {
        auto a = shown(parts[i].first), b = shown(parts[i].second); std::string w = "job " + std::to_string(i);
        if (!sizes[i]) { CHECK(parts[i].first.empty() && parts[i].second == "   7", w << " has no size and is shown: " << parts[i].first << parts[i].second); continue; }
        CHECK_EQ(a.size(), std::size_t(1), w << ": lines when it begins"); CHECK_EQ(b.size(), std::size_t(2), w << ": lines when it ends"); CHECK_EQ(b[1], std::string("   7"), w << ": what is printed after its line");
        for (auto& l : {a[0], b[0]}) {
            CHECK(l.size() <= cols, w << ": a line of " << l.size() << " columns"); CHECK(l.compare(0, std::min(l.size(), prevs[i]), std::string(std::min(l.size(), prevs[i]), ' ')) == 0, w << ": indentation");
        }
        if (cols < 60) continue;
        for (int e = 0; e < 2; e++) {
            const std::string& l = e ? b[0] : a[0]; std::size_t room = std::min<std::size_t>(std::max<std::size_t>(cols / 5, 10), 20) - prevs[i]; std::string n = names[i].size() <= room ? names[i] + std::string(room - names[i].size(), ' ') : names[i].substr(0, room - 3) + "...";
            CHECK_EQ(l.substr(prevs[i], room), n, w << ": name"); std::size_t at = prevs[i] + room; std::string rest = squeeze(l.substr(at)); std::string count = squeeze(amount(e ? sizes[i] : 0)) + "/" + squeeze(amount(sizes[i])); CHECK_EQ(rest.substr(0, count.size()), count, w << ": amounts in " << l);
            rest = rest.substr(count.size()); if (!e) CHECK_EQ(rest.substr(0, 8), std::string("99:99:99"), w << ": time in " << l); else { std::string t = rest.substr(0, 8); for (std::size_t k = 0; k < 8; k++) CHECK(k < t.size() && (k % 3 == 2 ? t[k] == ':' : std::isdigit((unsigned char)t[k])), w << ": time in " << l); CHECK(t < "00:01:00", w << ": time in " << l); } rest = rest.substr(8); std::string pc = e ? "100%" : "0%"; CHECK(rest.size() > pc.size() && rest.substr(rest.size() - pc.size()) == pc, w << ": share in " << l);
            rest = rest.substr(0, rest.size() - pc.size()); CHECK(rest.size() >= 3 && rest[0] == '[' && rest.back() == ']', w << ": bar in " << l); CHECK_EQ(rest.substr(1, rest.size() - 2), std::string(rest.size() - 2, e ? '#' : '-'), w << ": bar in " << l); CHECK(l.size() + 2 >= cols, w << ": " << l.size() << " of " << cols << " columns used");
        }
    }
}
