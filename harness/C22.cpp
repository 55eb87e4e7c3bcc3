// C22: copying a project gives an equal and fully independent project.
//
// A project is observed through its public interface only: `look` writes down
// everything it holds. Histories of copies, assignments, changes and
// destructions are run; each project must keep looking as it did when last
// changed itself, a copy must look like its source, and every reference of a
// project must lead to an object the project itself holds.
#include "look.h"
#include <iostream>
#include <memory>
#include <sstream>

namespace {

struct Slot { std::unique_ptr<Data> d; std::string look; };
void all(const std::vector<Slot>& s, const std::string& when) {
    Set seen;
    for (std::size_t i = 0; i < s.size(); i++) {
        std::string w = when + ", project " + std::to_string(i);
        same(look(*s[i].d), s[i].look, w);
        for (auto x : refs(*s[i].d, w)) CHECK(seen.insert(x).second, "two projects share an object " << w);
    }
}

std::string shown(const Data& d) { std::ostringstream s; struct Out { std::streambuf* o; ~Out() { std::cout.rdbuf(o); } } out{std::cout.rdbuf(s.rdbuf())}; d.printInfo(); return s.str(); }

} // namespace

PROP(copy, 2500, 60000, "the project has a mesh with elements and sources or requests") {
    std::unique_ptr<Data> d(genProject(g)); std::string was = look(*d);
    g.nontrivial(d->mesh && ((d->sources && !d->sources->empty()) || (d->outputRequests && !d->outputRequests->empty())));
    refs(*d, "as built");
    int k = g.range(0, 2); std::unique_ptr<Data> c;
    if (k == 0) c.reset(new Data(*d)); else if (k == 1) c.reset(dynamic_cast<Data*>(d->clone())); else { c.reset(g.flip() ? new Data : genProject(g)); *c = *d; }
    same(look(*d), was, "the source of a copy");
    same(look(*c), was, "a copy");
    Set a = refs(*d, "of the source of a copy"), b = refs(*c, "of a copy"); for (auto x : b) CHECK(!a.count(x), "a copy shares an object with its source");
    std::string text = shown(*d); same(shown(*c), text, "what is shown of a copy");
    static const char* missing[] = {"solver options", "mesh", "physical models", "sources", "output requests"}; const bool has[] = {d->solver != nullptr, d->mesh != nullptr, d->physicalModels != nullptr, d->sources != nullptr, d->outputRequests != nullptr};
    for (int i = 0; i < 5; i++) CHECK_EQ(text.find("No info about " + std::string(missing[i])) == std::string::npos, has[i], "shown " << missing[i]);
    d.reset(); same(look(*c), was, "a copy whose source is gone"); refs(*c, "of a copy whose source is gone");
}

PROP(history, 1500, 40000, "a copy, a change and a destruction or assignment") {
    std::vector<Slot> s; int copies = 0, changes = 0, ends = 0;
    auto fresh = [&](Slot& x) { x.d.reset(genProject(g)); x.look = look(*x.d); };
    s.emplace_back(); fresh(s.back()); g << "\n";
    int n = 1 + (int)g.many(1, 11, 60);
    for (int op = 0; op < n; op++) {
        if (s.empty()) { s.emplace_back(); fresh(s.back()); }
        std::size_t i = (std::size_t)g.draw(s.size()), j = (std::size_t)g.draw(s.size()); std::string what;
        int k = g.range(0, 6);
        if (k <= 1 && s.size() < 5) {
            what = "copied " + std::to_string(i); Slot x; x.d.reset(k ? new Data(*s[i].d) : dynamic_cast<Data*>(s[i].d->clone())); x.look = s[i].look; s.push_back(std::move(x)); copies++;
        } else if (k == 2 && s.size() < 5) { what = "new"; s.emplace_back(); fresh(s.back()); }
        else if (k == 3) { what = "assigned " + std::to_string(j) + " to " + std::to_string(i); Data& r = (*s[i].d = *s[j].d); CHECK(&r == s[i].d.get(), "assignment returns its left side"); std::string l = s[j].look; s[i].look = l; ends++; if (i == j) g.label("assigned to itself"); }
        else if (k == 4) { what = "destroyed " + std::to_string(i); s.erase(s.begin() + (long)i); ends++; }
        else { what = change(g, *s[i].d); g.label(what); if (what != "nothing") { std::string l = look(*s[i].d); s[i].look = l; changes++; } what += " " + std::to_string(i); }
        g << what << "\n";
        all(s, "after '" + what + "'");
    }
    g.nontrivial(copies && changes && ends);
}
