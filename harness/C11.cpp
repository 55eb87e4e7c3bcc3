// C11: identified object collections stay consistent along every history.
#include "pbt.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/bound/PML.h"
#include "geometry/layer/Group.h"
#include "group/Error.h"
#include <map>
#include <memory>
#include <algorithm>
using namespace SEMBA;
using pbt::Gen;
typedef PhysicalModel::PhysicalModel PM;
typedef PhysicalModel::Predefined::PEC PEC;
typedef PhysicalModel::Predefined::PMC PMC;
typedef PhysicalModel::Predefined::SMA SMA;
typedef PhysicalModel::Predefined::Predefined PRE;
typedef PhysicalModel::Bound::PML PML;
typedef PhysicalModel::Bound::Bound BND;

struct Item { std::size_t id; int kind; std::string name; };
// Traits of the two collections.
struct Models {
    typedef PMGroup G; typedef PM T; typedef PhysicalModel::Id Id;
    static const int kinds = 4;
    static T* make(const Item& i) {
        Id id(i.id); T* r;
        switch (i.kind) { case 0: r = new PEC(id, i.name); break; case 1: r = new PMC(id, i.name); break; case 2: r = new SMA(id, i.name); break; default: r = new PML(id); r->setName(i.name); }
        return r;
    }
    static bool isKind(const T* t, int k) {
        switch (k) { case 0: return t->is<PEC>(); case 1: return t->is<PMC>(); case 2: return t->is<SMA>(); default: return t->is<PML>(); }
    }
    static std::string name(const T* t) { return t->getName(); }
    static void rename(T* t, const std::string& n) { t->setName(n); }
    template <class X, class C> static void filter(C& c, const std::vector<Item>& m, bool (*in)(int), bool only, const char* what) {
        auto f = only ? c.template getOfOnly<X>() : c.template getOf<X>();
        std::vector<std::string> want, got;
        std::vector<const void*> wp, gp;
        for (std::size_t i = 0; i < m.size(); i++) if (in(m[i].kind)) { want.push_back(m[i].name); wp.push_back((const void*)dynamic_cast<const X*>(c(i))); }
        for (std::size_t i = 0; i < f.size(); i++) { got.push_back(name(f(i))); gp.push_back((const void*)f(i)); }
        CHECK_EQ(got.size(), want.size(), "number of members of type " << what);
        CHECK(got == want && wp == gp, "members of type " << what << " in order");
        if (!only) { CHECK_EQ(c.template sizeOf<X>(), want.size(), "count of type " << what); CHECK_EQ(c.template emptyOf<X>(), want.empty(), "none of type " << what); }
    }
    template <class C> static void filters(C& c, const std::vector<Item>& m) {
        filter<PEC>(c, m, [](int k) { return k == 0; }, false, "PEC"); filter<PEC>(c, m, [](int k) { return k == 0; }, true, "only PEC");
        filter<SMA>(c, m, [](int k) { return k == 2; }, false, "SMA"); filter<PML>(c, m, [](int k) { return k == 3; }, true, "only PML");
        filter<PRE>(c, m, [](int k) { return k < 3; }, false, "predefined"); filter<PRE>(c, m, [](int k) { return false; }, true, "only predefined");
        filter<BND>(c, m, [](int k) { return k == 3; }, false, "bound"); filter<PM>(c, m, [](int k) { return true; }, false, "any");
    }
};
struct Layers {
    typedef Geometry::LayerGroup G; typedef Geometry::Layer::Layer T; typedef Geometry::LayerId Id;
    static const int kinds = 1;
    static T* make(const Item& i) { return new T(Id(i.id), i.name); }
    static bool isKind(const T*, int) { return true; }
    static std::string name(const T* t) { return t->getName(); }
    static void rename(T*, const std::string&) {}
    template <class C> static void filters(const C& c, const std::vector<Item>& m) {
        for (auto& i : m) { const T* t = c.getName(i.name); CHECK(t != nullptr && t->getName() == i.name, "lookup by name"); }
        CHECK(c.getName("absent name") == nullptr, "absent name");
    }
};

template <class K> struct H {
    typedef typename K::G G; typedef typename K::T T; typedef typename K::Id Id;
    typedef std::vector<Item> M;
    static std::size_t maxId(const M& m) { std::size_t r = 0; for (auto& i : m) r = std::max(r, i.id); return r; }
    static void audit(Gen& g, G& c, const M& m, const char* when) {
        const G& k = c;
        CHECK_EQ(c.size(), m.size(), "number of members " << when);
        CHECK_EQ(k.empty(), m.empty(), "emptiness " << when);
        std::vector<Id> ids = k.getIds();
        CHECK_EQ(ids.size(), m.size(), "number of identifiers " << when);
        for (std::size_t i = 0; i < m.size(); i++) {
            const T* t = k(i);
            CHECK(t != nullptr && t == c.get(i) && t == k.get(i), "member " << i);
            CHECK_EQ(t->getId().toInt(), m[i].id, "identifier of member " << i << " " << when);
            CHECK_EQ(K::name(t), m[i].name, "member " << i << " " << when);
            CHECK(K::isKind(t, m[i].kind), "kind of member " << i << " " << when);
            CHECK_EQ(ids[i].toInt(), m[i].id, "identifier in the list " << when);
            CHECK(k.existId(Id(m[i].id)), "identifier " << m[i].id << " exists " << when);
            CHECK(k.getId(Id(m[i].id)) == t, "member with identifier " << m[i].id << " " << when);
            CHECK(c.getId(Id(m[i].id)) == t, "member with identifier " << m[i].id << " " << when);
        }
        for (std::size_t id = 0; id <= 14; id++) {
            bool in = false; for (auto& i : m) in = in || i.id == id;
            CHECK_EQ(k.existId(Id(id)), in, "presence of identifier " << id << " " << when);
            if (!in) {
                bool thrown = false;
                try { k.getId(Id(id)); } catch (const typename Group::Error::Id::NotExists<Id>& e) { thrown = true; CHECK(e.getId() == Id(id), "identifier in the error"); }
                CHECK(thrown, "lookup of the absent identifier " << id << " is refused " << when);
            }
        }
        // Lookup of several identifiers gives the ones present, in order of the collection.
        std::vector<Id> ask; std::set<std::size_t> as; int n = g.range(0, 4);
        for (int j = 0; j < n; j++) { std::size_t id = !m.empty() && g.flip() ? m[(std::size_t)g.draw(m.size())].id : (std::size_t)g.range(1, 30); ask.push_back(Id(id)); as.insert(id); }
        std::vector<const T*> want; for (std::size_t i = 0; i < m.size(); i++) if (as.count(m[i].id)) want.push_back(k(i));
        auto r = c.getId(ask);
        CHECK_EQ(r.size(), want.size(), "members with several identifiers " << when);
        for (std::size_t j = 0; j < want.size(); j++) CHECK(r(j) == want[j], "members with several identifiers, in order " << when);
        K::filters(c, m);
    }
    static Item gen(Gen& g, int& serial) { Item i; i.id = 0; i.kind = g.range(0, K::kinds - 1); i.name = "n" + std::to_string(serial++); return i; }
    static void run(Gen& g) {
        std::unique_ptr<G> c(new G); M m; int serial = 0;
        std::vector<std::pair<std::unique_ptr<G>, M>> kept;
        bool removed = false, looked = false; int n = (int)g.many(1, 40, 250);
        for (int op = 0; op < n; op++) {
            switch (g.range(0, 13)) {
            case 0: case 1: case 2: {                   // given identifier
                Item x = gen(g, serial); x.id = (std::size_t)g.range(0, 14);
                bool zero = x.id == 0, dup = false; for (auto& i : m) dup = dup || i.id == x.id;
                g << "add(" << x.id << ") "; g.label(zero || dup, "rejected identifier");
                if (zero) { bool t = false; try { c->add(K::make(x)); } catch (const typename Group::Error::Id::Zero<Id>&) { t = true; } CHECK(t, "identifier zero is rejected"); }
                else if (dup) { bool t = false; try { c->add(K::make(x)); } catch (const typename Group::Error::Id::Duplicated<Id>& e) { t = e.getId() == Id(x.id); } CHECK(t, "identifier " << x.id << " in use is rejected"); }
                else { T* t = K::make(x); auto r = c->add(t); CHECK(r.size() == 1 && r(0) == t, "the member is returned"); m.push_back(x); looked = looked || removed; }
                break; }
            case 3: {                                   // several given identifiers, all or none
                M xs; std::vector<T*> v; bool bad = false; std::set<std::size_t> use; for (auto& i : m) use.insert(i.id);
                int k = g.range(1, 3);
                for (int j = 0; j < k; j++) { Item x = gen(g, serial); x.id = (std::size_t)g.range(1, 20); bad = bad || !use.insert(x.id).second; xs.push_back(x); v.push_back(K::make(x)); }
                g << "add["; for (auto& x : xs) g << x.id << " "; g << "] "; g.label(bad, "rejected identifier");
                if (bad) CHECK_THROWS(c->add(v), "an identifier is in use");
                else { auto r = c->add(v); CHECK_EQ(r.size(), xs.size(), "members are returned"); m.insert(m.end(), xs.begin(), xs.end()); }
                break; }
            case 4: case 5: {                           // automatic identifiers
                int k = g.range(1, 3); M xs; std::vector<T*> v; std::size_t mx = maxId(m);
                for (int j = 0; j < k; j++) { Item x = gen(g, serial); x.id = (std::size_t)g.range(0, 5); xs.push_back(x); v.push_back(K::make(x)); }
                g << "addId[" << k << "] ";
                if (k == 1 && g.flip()) c->addId(v[0]); else c->addId(v);
                for (int j = 0; j < k; j++) { xs[j].id = v[j]->getId().toInt(); CHECK(xs[j].id > mx, "automatic identifier " << xs[j].id << " is larger than those in use, " << mx); mx = xs[j].id; }
                m.insert(m.end(), xs.begin(), xs.end()); looked = looked || removed;
                break; }
            case 6: case 7: {
                if (m.empty()) break;
                std::size_t i = (std::size_t)g.draw(m.size()); bool by = g.flip();
                g << "remove(" << i << (by ? " id" : "") << ") "; removed = removed || i + 1 < m.size();
                if (by) c->removeId(Id(m[i].id)); else c->remove(i);
                m.erase(m.begin() + (long)i);
                break; }
            case 8: {
                if (m.empty()) break;
                std::set<std::size_t> is; int k = g.range(1, 4); for (int j = 0; j < k; j++) is.insert((std::size_t)g.draw(m.size()));
                std::vector<std::size_t> v(is.begin(), is.end()); g.shuffle(v); std::vector<Id> ids; for (auto i : v) ids.push_back(Id(m[i].id));
                g << "remove["; for (auto i : v) g << i << " "; g << "] "; removed = true;
                if (g.flip()) { if (g.flip()) ids.push_back(Id(maxId(m) + 3)); c->removeId(ids); } else c->remove(v);
                for (auto it = is.rbegin(); it != is.rend(); ++it) m.erase(m.begin() + (long)*it);
                break; }
            case 9: {                                   // deep copy
                if (kept.size() >= 3) break;
                g << "clone "; g.label("clone");
                kept.emplace_back(std::unique_ptr<G>(c->clone()), m);
                for (std::size_t i = 0; i < m.size(); i++) CHECK((*kept.back().first)(i) != (*c)(i), "copies are other objects");
                if (g.flip()) std::swap(kept.back().first, c);
                break; }
            case 10: {                                  // assignment from another collection
                G o; M om; int k = g.range(0, 4), s = g.range(0, 3);
                for (int j = 0; j < k; j++) { Item x = gen(g, serial); x.id = (std::size_t)(k - j + s); om.push_back(x); o.add(K::make(x)); }
                g << "assign[" << k << "] "; g.label("assignment");
                int how = g.range(0, 3);
                if (how == 0) { *c = o; audit(g, o, om, "in the source of an assignment"); } else if (how == 1) *c = std::move(o);
                else { Group::Group<T> plain(o); g.label("assignment from a plain collection"); if (how == 2) { *c = plain; CHECK_EQ(plain.size(), om.size(), "plain source of an assignment"); for (std::size_t j = 0; j < om.size(); j++) CHECK(plain(j) == (*c)(j) && o(j) == (*c)(j), "shared member " << j); } else *c = std::move(plain); }
                m = om;
                break; }
            case 11: {                                  // construction from another collection, itself included
                g << "construct "; int how = g.range(0, 2);
                std::unique_ptr<G> d;
                if (how == 0) { d.reset(new G(*c)); audit(g, *c, m, "in the source of a construction"); }
                else if (how == 1) d.reset(new G(std::move(*c)));
                else { std::vector<std::size_t> all; for (std::size_t i = 0; i < m.size(); i++) all.push_back(i); d.reset(new G(c->get(all))); }
                c = std::move(d);
                if (g.chance(1, 3)) { G& self = *c; *c = self; }
                break; }
            case 12: {                                  // another object under the same identifier
                if (m.empty()) break;
                std::size_t i = (std::size_t)g.draw(m.size()); Item x = gen(g, serial); x.id = m[i].id;
                g << "set(" << i << ") "; c->set(i, K::make(x)); m[i] = x;
                break; }
            default:
                if (!g.chance(1, 3)) break;
                g << "clear "; c->clear(); m.clear();
            }
            audit(g, *c, m, "after the operation");
        }
        g.nontrivial(removed && looked);
        // Copies did not follow, and do not need, the original.
        for (std::size_t i = 0; i < m.size(); i++) K::rename(c->get(i), "renamed");
        for (auto& k : kept) audit(g, *k.first, k.second, "in a copy");
        c.reset();
        for (auto& k : kept) audit(g, *k.first, k.second, "in a copy after the original is gone");
    }
};
PROP(models, 14000, 400000, "something was added after the removal of a member that is not the last") { H<Models>::run(g); }
PROP(layers, 10000, 250000, "something was added after the removal of a member that is not the last") { H<Layers>::run(g); }

// Plain collections: order, type filters and shared ownership.
PROP(plain_groups, 12000, 300000, "several kinds, and members removed") {
    typedef Group::Group<PM> GG;
    GG c; std::vector<Item> m; int serial = 0, n = (int)g.many(1, 20, 150); bool removed = false; std::set<int> kinds;
    for (int op = 0; op < n; op++) {
        switch (g.range(0, 5)) {
        case 0: case 1: { Item x = H<Models>::gen(g, serial); x.id = (std::size_t)g.range(0, 2); g << "add" << x.kind << " "; kinds.insert(x.kind); c.add(Models::make(x)); m.push_back(x); break; }
        case 2: { std::vector<PM*> v; int k = g.range(1, 3); for (int j = 0; j < k; j++) { Item x = H<Models>::gen(g, serial); kinds.insert(x.kind); v.push_back(Models::make(x)); m.push_back(x); } g << "add[" << k << "] "; c.add(v); break; }
        case 3: { if (m.empty()) break; std::size_t i = (std::size_t)g.draw(m.size()); g << "remove(" << i << ") "; c.remove(i); m.erase(m.begin() + (long)i); removed = true; break; }
        case 4: { // members of one type, appended to another collection
            Group::Group<PRE> p = c.getOf<PRE>(); GG d; d.add(p); d.add(p); std::vector<std::string> w, got;
            for (auto& i : m) if (i.kind < 3) w.push_back(i.name);
            std::size_t k = w.size(); for (std::size_t j = 0; j < k; j++) w.push_back(w[j]);
            for (std::size_t j = 0; j < d.size(); j++) got.push_back(d(j)->getName());
            g << "append "; CHECK(got == w, "members of one type appended twice"); break; }
        default: { // only those of the wanted type enter a collection of that type
            Group::Group<PEC> p(c); std::size_t w = 0; for (auto& i : m) w += i.kind == 0;
            g << "narrow "; CHECK_EQ(p.size(), w, "members of a narrower collection"); break; }
        }
        CHECK_EQ(c.size(), m.size(), "size");
        for (std::size_t i = 0; i < m.size(); i++) { CHECK_EQ(c(i)->getName(), m[i].name, "member " << i); CHECK_EQ(c(i)->getId().toInt(), m[i].id, "identifier of member " << i); }
        Models::filters(c, m);
        const GG& k = c; CHECK_EQ(k.getOf<PMC>().size(), (std::size_t)std::count_if(m.begin(), m.end(), [](const Item& i) { return i.kind == 1; }), "members of a type of a constant collection");
    }
    g.nontrivial(removed && kinds.size() > 1);
    // Members outlive the collection they came from.
    Group::Group<PM> keep; { GG t(c); keep = t; } c.clear();
    for (std::size_t i = 0; i < m.size(); i++) CHECK_EQ(keep(i)->getName(), m[i].name, "kept member");
}
PROP(bad_construction, 4000, 60000, "an identifier is zero or repeated") {
    int serial = 0, n = g.range(1, 6); std::vector<PM*> v; std::set<std::size_t> ids; bool bad = false; std::vector<Item> m;
    for (int i = 0; i < n; i++) { Item x = H<Models>::gen(g, serial); x.id = (std::size_t)g.range(g.chance(1, 4) ? 0 : 1, 12); bad = bad || x.id == 0 || !ids.insert(x.id).second; v.push_back(Models::make(x)); m.push_back(x); g << x.id << " "; }
    g.nontrivial(bad);
    if (bad) CHECK_THROWS(PMGroup c(v), "repeated or zero identifier");
    else { PMGroup c(v); H<Models>::audit(g, c, m, "after construction"); }
}
PROP(layer_objects, 3000, 30000, "two layers differ in one thing only") {
    // A layer is its identifier and its name, in which blanks are written as underscores.
    typedef Geometry::Layer::Layer L; typedef Geometry::LayerId Id; auto under = [](std::string s) { for (char& c : s) if (c == ' ') c = '_'; return s; };
    int n = g.range(1, 8); std::vector<std::string> names; std::vector<std::size_t> ids; Geometry::LayerGroup c;
    for (int i = 0; i < n; i++) { std::string s = !names.empty() && g.chance(1, 4) ? g.pick(names) : g.text("ab _-", 0, 5); names.push_back(s); ids.push_back((std::size_t)(g.chance(1, 3) ? i + 1 : 10 * n + i)); g << ids.back() << " '" << s << "' "; c.add(new L(Id(ids.back()), s)); }
    bool one = false;
    for (int i = 0; i < n; i++) {
        const L& a = *c((std::size_t)i); std::string w = under(names[(std::size_t)i]); CHECK_EQ(a.getName(), w, "name"); L copy(a), same(Id(ids[(std::size_t)i]), names[(std::size_t)i]), anon(names[(std::size_t)i]); std::unique_ptr<L> cl(a.clone()->castTo<L>());
        CHECK(copy == a && *cl == a && same == a && !(copy != a) && !(same != a), "a copy equals the layer"); CHECK_EQ(anon.getName(), w, "name without identifier"); CHECK_EQ(anon.getId().toInt(), (std::size_t)0, "no identifier"); CHECK((anon == a) == false, "a layer without the identifier");
        for (int j = 0; j < n; j++) { const L& b = *c((std::size_t)j); bool eq = i == j; CHECK_EQ(a == b, eq, "equality of layers"); CHECK_EQ(a != b, !eq, "inequality of layers"); L other(b.getId(), names[(std::size_t)i]); CHECK_EQ(other == b, a.getName() == b.getName(), "layers of one identifier"); one |= a.getName() != b.getName(); }
        std::string t = a.toStr(); std::ostringstream o; o << a; CHECK_EQ(o.str(), t, "text of a layer"); CHECK(t.find(w) != std::string::npos && t.find(std::to_string(ids[(std::size_t)i])) != std::string::npos, "text '" << t << "' of layer " << ids[(std::size_t)i]);
        const L* f = c.getName(w); std::size_t k = 0; while (under(names[k]) != w) k++; CHECK(f == c(k), "the first layer of the name");
    }
    g.nontrivial(one);
}
