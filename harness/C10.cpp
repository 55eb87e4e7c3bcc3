// C10: coordinate sets index every coordinate by identifier and by position.
#include "geo.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#include <memory>
using namespace geo;
using namespace SEMBA::Geometry;
using pbt::Gen;

// Model: what the set holds, in order. kind 0: physical, 1: structured.
struct Item { std::size_t id; int kind; V3 p; I3 k; };
typedef Coordinate::Group<Coord> AnyGroup;
struct Sys { AnyGroup* g; std::vector<Item> m; };

static bool near(const V3& a, const V3& b) {
    for (int d = 0; d < 3; d++) if (!pbt::near(a(d), b(d), 1e-10)) return false;
    return true;
}
static bool eq(const I3& a, const I3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static V3 genP(Gen& g, double scale) {
    V3 p;
    for (int d = 0; d < 3; d++) p(d) = scale * g.oneOf<double>({0.0, 1.0, -1.0, 2.5});
    if (g.chance(1, 8)) { p(g.range(0, 2)) *= 1 + 1e-13; g.label("nearly coincident"); }
    return p;
}
static I3 genK(Gen& g) { I3 k; for (int d = 0; d < 3; d++) k(d) = g.range(-1, 1); return k; }
static std::size_t maxId(const Sys& s) { std::size_t m = 0; for (auto& i : s.m) m = std::max(m, i.id); return m; }

static void audit(Gen& g, const Sys& s, double scale, const char* when) {
    const AnyGroup& c = *s.g;
    CHECK_EQ(c.size(), s.m.size(), "number of coordinates " << when);
    CHECK_EQ(c.empty(), s.m.empty(), "emptiness " << when);
    std::set<std::size_t> ids;
    for (std::size_t i = 0; i < s.m.size(); i++) {
        const Item& it = s.m[i];
        const Coord* x = c(i);
        CHECK(x != nullptr, "coordinate " << i);
        CHECK_EQ(x->getId().toInt(), it.id, "identifier of coordinate " << i << " " << when);
        CHECK(ids.insert(it.id).second, "identifiers are unique");
        if (it.kind == 0) { CHECK(x->is<CoordR3>(), "kind"); const V3& p = x->castTo<CoordR3>()->pos(); CHECK(near(p, it.p), "position " << p << " of coordinate " << it.id << ", expected " << it.p << " " << when); }
        else { CHECK(x->is<CoordI3>(), "kind"); CHECK(eq(x->castTo<CoordI3>()->pos(), it.k), "position of coordinate " << it.id << " " << when); }
        CHECK(c.existId(CoordId(it.id)), "identifier " << it.id << " exists " << when);
        CHECK(c.getId(CoordId(it.id)) == x, "lookup by identifier " << it.id << " " << when);
        // Lookup by position finds one at that position.
        if (it.kind == 0) {
            const CoordR3* f = c.getPos(it.p);
            CHECK(f != nullptr, "no coordinate found at " << it.p << " " << when);
            bool here = false; for (std::size_t j = 0; j < s.m.size(); j++) here = here || (c(j) == f && s.m[j].kind == 0 && near(s.m[j].p, it.p));
            CHECK(here, "coordinate found at " << it.p << " is one of those there " << when);
        } else {
            const CoordI3* f = c.getPos(it.k);
            CHECK(f != nullptr, "no coordinate found at " << it.k << " " << when);
            bool here = false; for (std::size_t j = 0; j < s.m.size(); j++) here = here || (c(j)->is<CoordI3>() && c(j)->castTo<CoordI3>() == f && eq(s.m[j].k, it.k));
            CHECK(here, "coordinate found at " << it.k << " is one of those there " << when);
            std::set<const Coord*> got, want;
            auto all = c.getAllInPos(it.k);
            for (std::size_t j = 0; j < all.size(); j++) got.insert(all(j));
            for (std::size_t j = 0; j < s.m.size(); j++) if (s.m[j].kind == 1 && eq(s.m[j].k, it.k)) want.insert(c(j));
            CHECK_EQ(all.size(), want.size(), "number of coordinates at " << it.k << " " << when);
            CHECK(got == want, "all the coordinates at " << it.k << " " << when);
        }
    }
    // Absent ones.
    CoordId far(maxId(s) + 7);
    CHECK(!c.existId(far), "absent identifier"); CHECK_THROWS(c.getId(far), "absent identifier");
    for (int t = 0; t < 3; t++) {
        V3 p = genP(g, scale); bool has = false;
        for (auto& i : s.m) has = has || (i.kind == 0 && near(i.p, p));
        CHECK_EQ(c.getPos(p) != nullptr, has, "presence at " << p << " " << when);
        I3 k = genK(g); has = false;
        for (auto& i : s.m) has = has || (i.kind == 1 && eq(i.k, k));
        CHECK_EQ(c.getPos(k) != nullptr, has, "presence at " << k << " " << when);
        if (!has) CHECK_EQ(c.getAllInPos(k).size(), (std::size_t)0, "none at " << k << " " << when);
    }
}
static Coord* build(const Item& i) {
    if (i.kind == 0) return new CoordR3(CoordId(i.id), i.p);
    return new CoordI3(CoordId(i.id), i.k);
}
static Item genItem(Gen& g, double scale) {
    Item i; i.kind = g.range(0, 1); i.p = genP(g, scale); i.k = genK(g); i.id = 0; return i;
}
static bool present(const std::vector<Item>& m, const Item& x) {
    for (auto& i : m) if (i.kind == x.kind && (i.kind ? eq(i.k, x.k) : near(i.p, x.p))) return true;
    return false;
}

PROP(histories, 12000, 400000, "a removal, assignment or scaling happened on a set with overlapping or several coordinates") {
    double scale = 1.0; bool mut = false;
    Sys s; std::unique_ptr<AnyGroup> own(new AnyGroup); s.g = own.get();
    std::vector<std::pair<std::unique_ptr<AnyGroup>, std::vector<Item>>> kept;    // copies that must not change
    std::vector<double> keptScale;
    int n = (int)g.many(1, 40, 250);
    for (int op = 0; op < n; op++) {
        switch (g.range(0, 12)) {
        case 0: case 1: {                               // single position
            Item x = genItem(g, scale); bool over = g.chance(1, 3);
            g << "addPos" << x.kind << "(" << x.p << x.k << (over ? " overlap" : "") << ") ";
            bool had = present(s.m, x); std::size_t mx = maxId(s);
            const Coord* r; if (x.kind == 0) r = s.g->addPos(x.p, over); else r = s.g->addPos(x.k, over);
            CHECK(r != nullptr, "the coordinate is returned");
            if (!had || over) {
                x.id = r->getId().toInt(); CHECK(x.id > mx, "new identifier " << x.id << " is larger than those used, " << mx);
                s.m.push_back(x);
            } else {
                bool here = false;
                for (std::size_t j = 0; j < s.m.size(); j++) here = here || ((*s.g)(j) == r && s.m[j].kind == x.kind && (x.kind ? eq(s.m[j].k, x.k) : near(s.m[j].p, x.p)));
                CHECK(here, "the coordinate already there is returned");
            }
            break; }
        case 2: {                                       // batch of positions
            int kind = g.range(0, 1); bool over = g.chance(1, 3); int c = g.range(1, 5);
            std::vector<V3> ps; std::vector<I3> ks; std::vector<Item> add;
            for (int j = 0; j < c; j++) {
                Item x = genItem(g, scale); x.kind = kind; ps.push_back(x.p); ks.push_back(x.k);
                if (over || !present(s.m, x)) add.push_back(x);     // repeats within a batch are kept (the STL reader relies on it)
            }
            g << "addPos" << kind << "[" << c << (over ? " overlap" : "") << "] ";
            std::size_t mx = maxId(s);
            auto r = kind == 0 ? s.g->addPos(ps, over) : s.g->addPos(ks, over);
            CHECK_EQ(r.size(), add.size(), "number of new coordinates returned");
            for (std::size_t j = 0; j < add.size(); j++) { add[j].id = r(j)->getId().toInt(); CHECK(add[j].id > mx, "new identifiers are larger than those used"); s.m.push_back(add[j]); }
            break; }
        case 3: case 4: {                               // object with a given identifier
            Item x = genItem(g, scale); x.id = (std::size_t)g.range(0, 12);
            bool dup = x.id == 0; for (auto& i : s.m) dup = dup || i.id == x.id;
            g << "add(" << x.id << " " << x.kind << ") ";
            if (dup) { g.label("rejected identifier"); CHECK_THROWS(s.g->add(build(x)), "identifier " << x.id << " is zero or in use"); }
            else { s.g->add(build(x)); s.m.push_back(x); }
            break; }
        case 5: {                                       // several objects, new identifiers
            std::vector<Coord*> v; std::vector<Item> add; int c = g.range(1, 3);
            for (int j = 0; j < c; j++) { Item x = genItem(g, scale); add.push_back(x); v.push_back(build(x)); }
            g << "addId[" << c << "] "; std::size_t mx = maxId(s);
            s.g->addId(v);
            for (int j = 0; j < c; j++) { add[j].id = v[j]->getId().toInt(); CHECK(add[j].id > mx, "new identifiers are larger than those used"); s.m.push_back(add[j]); }
            break; }
        case 6: {                                       // remove one
            if (s.m.empty()) break;
            std::size_t i = (std::size_t)g.draw(s.m.size()); bool by = g.flip();
            g << "remove(" << i << (by ? " id" : "") << ") "; mut = mut || s.m.size() > 2;
            if (by) s.g->removeId(CoordId(s.m[i].id)); else s.g->remove(i);
            s.m.erase(s.m.begin() + (long)i);
            break; }
        case 7: {                                       // remove several
            if (s.m.empty()) break;
            std::set<std::size_t> is; int c = g.range(1, 3); for (int j = 0; j < c; j++) is.insert((std::size_t)g.draw(s.m.size()));
            bool by = g.flip(); std::vector<std::size_t> v(is.begin(), is.end()); g.shuffle(v); std::vector<CoordId> ids;
            for (std::size_t i : v) ids.push_back(CoordId(s.m[i].id));
            g << "remove["; for (std::size_t i : v) g << i << " "; g << (by ? "id" : "") << "] "; mut = mut || s.m.size() > 3;
            if (by) { if (g.chance(1, 3)) ids.push_back(CoordId(maxId(s) + 5)); s.g->removeId(ids); } else s.g->remove(v);
            for (auto it = is.rbegin(); it != is.rend(); ++it) s.m.erase(s.m.begin() + (long)*it);
            break; }
        case 8: {                                       // copy, keep it
            if (kept.size() >= 3) break;
            g << "clone "; g.label("clone");
            kept.emplace_back(std::unique_ptr<AnyGroup>(s.g->clone()), s.m); keptScale.push_back(scale);
            CHECK(kept.back().first->size() == s.m.size(), "copy has the same size");
            for (std::size_t i = 0; i < s.m.size(); i++) CHECK((*kept.back().first)(i) != (*s.g)(i), "copies are other objects");
            if (g.flip()) {                             // go on with the copy
                std::swap(kept.back().first, own); s.g = own.get();
            }
            break; }
        case 9: {                                       // scale
            double f = g.oneOf<double>({2.0, 0.5, 1e-3, 1e3, -1.0, 1.0});
            if (scale * std::fabs(f) < 1e-7 || scale * std::fabs(f) > 1e7) break;
            g << "scale(" << f << ") "; mut = mut || s.m.size() > 2;
            s.g->applyScalingFactor(f); scale *= f;
            for (auto& i : s.m) for (int d = 0; d < 3; d++) i.p(d) *= f;
            break; }
        case 11: {                                      // merge another set
            std::vector<Item> src; AnyGroup other; int c = g.range(0, 5), how = g.range(0, 3); std::size_t mx = maxId(s);
            if (how == 2 && c == 0) break;
            for (int j = 0; j < c; j++) { Item x = genItem(g, scale); x.id = how == 2 ? (std::size_t)(j + 1) : mx + (std::size_t)(c - j + g.range(0, 1) * 10); src.push_back(x); }
            { std::set<std::size_t> u; for (auto& x : src) u.insert(x.id); if (u.size() != src.size()) break; }
            g << "merge" << how << "[" << c << "] "; g.label("merge");
            if (how == 3) {
                std::vector<Coord*> v; for (auto& x : src) v.push_back(build(x));
                s.g->add(v);
            } else if (how == 2) {                      // objects without identifier get new ones
                std::vector<Coord*> v; for (auto& x : src) { if (x.kind == 0) v.push_back(new CoordR3(x.p)); else v.push_back(new CoordI3(x.k)); }
                SEMBA::Group::Group<Coord> grp(v); auto r = s.g->addId(grp); CHECK_EQ(r.size(), src.size(), "number of new coordinates returned");
                std::size_t last = mx;
                for (std::size_t j = 0; j < src.size(); j++) { src[j].id = (*s.g)(s.m.size() + j)->getId().toInt(); CHECK(src[j].id > last, "new identifiers are larger than those used"); last = src[j].id; }
            } else {
                for (auto& x : src) other.add(build(x));
                if (how == 0) { s.g->add(other); Sys o; o.g = &other; o.m = src; audit(g, o, scale, "in the source of a merge"); }
                else s.g->add(std::move(other));
            }
            s.m.insert(s.m.end(), src.begin(), src.end());
            break; }
        case 10: {                                      // assign onto this set
            std::vector<Item> src; AnyGroup other; int c = g.range(0, 4);
            for (int j = 0; j < c; j++) { Item x = genItem(g, scale); x.id = (std::size_t)(j + 1 + g.range(0, 1) * 20); src.push_back(x); other.add(build(x)); }
            g << "assign[" << c << "] "; mut = mut || !s.m.empty();
            if (g.flip()) { *s.g = other; Sys o; o.g = &other; o.m = src; audit(g, o, scale, "in the source of an assignment"); }
            else *s.g = std::move(other);
            s.m = src;
            break; }
        default: {
            if (!g.chance(1, 4)) break;
            g << "clear "; s.g->clear(); s.m.clear();
            break; }
        }
        audit(g, s, scale, "after the operation");
    }
    g.nontrivial(mut);
    for (std::size_t i = 0; i < kept.size(); i++) { Sys o; o.g = kept[i].first.get(); o.m = kept[i].second; audit(g, o, keptScale[i], "in a copy"); }
    std::vector<std::vector<Item>> ms; for (auto& k : kept) ms.push_back(k.second);
    own.reset();
    for (std::size_t i = 0; i < kept.size(); i++) { Sys o; o.g = kept[i].first.get(); o.m = kept[i].second; audit(g, o, keptScale[i], "in a copy after the original is gone"); }
}
// Large sets of one kind, from vectors of positions.
PROP(bulk, 1500, 40000, "some of the positions coincide") {
    int n = 1 + (int)g.len(0, 300), span = g.range(1, 12); bool str = g.flip();
    std::vector<V3> ps; std::vector<I3> ks; std::set<std::vector<double>> u;
    for (int i = 0; i < n; i++) {
        I3 k; V3 p; for (int d = 0; d < 3; d++) { k(d) = g.range(0, span) - span / 2; p(d) = 0.37 * k(d); }
        ps.push_back(p); ks.push_back(k); u.insert({(double)k(0), (double)k(1), (double)k(2)});
    }
    g << n << " positions, " << u.size() << " distinct, " << (str ? "structured" : "physical"); g.nontrivial(u.size() < ps.size());
    if (str) {
        CoordI3Group a(ks); CHECK_EQ(a.size(), ks.size(), "built with overlaps");
        CoordI3Group b; for (auto& k : ks) { const CoordI3* f = b.getPos(k); const CoordI3* n2 = b.addPos(k); CHECK(n2 != nullptr && (f == nullptr || f == n2), "the one already there is returned"); } CHECK_EQ(b.size(), u.size(), "no duplicates");
        CHECK_EQ(b.addPos(ks).size(), (std::size_t)0, "nothing new the second time"); CHECK_EQ(b.size(), u.size(), "no duplicates");
        std::size_t tot = 0; for (auto& q : u) { I3 k((int)q[0], (int)q[1], (int)q[2]); tot += a.getAllInPos(k).size(); CHECK(b.getPos(k) != nullptr && b.getPos(k)->pos() == k, "found"); CHECK_EQ(b.getAllInPos(k).size(), (std::size_t)1, "one at each position"); }
        CHECK_EQ(tot, a.size(), "all found by position");
        for (std::size_t i = 0; i < a.size(); i++) CHECK_EQ(a(i)->getId().toInt(), i + 1, "identifiers from one on");
    } else {
        CoordR3Group a(ps); CHECK_EQ(a.size(), ps.size(), "built with overlaps");
        for (std::size_t i = 0; i < ps.size(); i++) CHECK(a(i)->pos() == ps[i] && a(i)->getId().toInt() == i + 1, "position and identifier in order");
        CoordR3Group b; for (auto& p : ps) CHECK(b.addPos(p) != nullptr, "a coordinate is returned"); CHECK_EQ(b.size(), u.size(), "no duplicates"); CHECK_EQ(b.addPos(ps).size(), (std::size_t)0, "nothing new the second time");
        for (auto& p : ps) { const CoordR3* f = b.getPos(p); CHECK(f != nullptr && f->pos() == p, "found"); CHECK(b.addPos(p) == f, "the one already there is returned"); }
        CHECK_EQ(b.size(), u.size(), "no duplicates");
    }
}
// Relative and conformal coordinates share positions with plain ones.
PROP(mixed_kinds, 6000, 100000, "several kinds at one position") {
    Coordinate::Group<CoordI3> c; std::vector<std::pair<int, I3>> m; int n = g.range(1, 12);
    std::map<std::vector<int>, std::set<int>> kinds;
    for (int i = 0; i < n; i++) {
        I3 k(g.range(0, 1), g.range(0, 1), 0); int kind = g.range(0, 2); CoordId id((std::size_t)(i + 1));
        if (kind == 0) c.add(new CoordI3(id, k));
        else if (kind == 1) c.add(new CoordRel(id, k, V3(0.25, 0.5, 0)));
        else c.add(new CoordConf(id, k, axis(g.range(0, 2)), 0.5));
        m.push_back({kind, k}); kinds[{k(0), k(1)}].insert(kind);
        g << kind << "@" << k << " ";
    }
    for (auto& k : kinds) if (k.second.size() > 1) g.nontrivial();
    std::size_t cnt[3] = {0, 0, 0}; for (auto& x : m) cnt[x.first]++;
    CHECK_EQ(c.sizeOf<CoordI3>(), m.size(), "all are structured"); CHECK_EQ(c.sizeOf<CoordRel>(), cnt[1], "relative"); CHECK_EQ(c.sizeOf<CoordConf>(), cnt[2], "conformal");
    CHECK_EQ(c.getOfOnly<CoordI3>().size(), cnt[0], "plain");
    for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
        I3 k(x, y, 0); std::set<std::size_t> w, got; for (std::size_t i = 0; i < m.size(); i++) if (eq(m[i].second, k)) w.insert(i + 1);
        auto a = c.getAllInPos(k); for (std::size_t i = 0; i < a.size(); i++) got.insert(a(i)->getId().toInt());
        CHECK(w == got && a.size() == w.size(), "all kinds at " << k);
    }
    if (m.size() > 1) {
        std::size_t i = (std::size_t)g.draw(m.size()); c.remove(i); m.erase(m.begin() + (long)i);
        for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
            I3 k(x, y, 0); std::size_t w = 0; for (auto& q : m) if (eq(q.second, k)) w++;
            CHECK_EQ(c.getAllInPos(k).size(), w, "all kinds at " << k << " after a removal");
        }
    }
}
