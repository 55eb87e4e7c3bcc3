// C17: material models keep their parameters and derived quantities.
#include "material.h"
#include <memory>
using namespace geo; using namespace matl; using pbt::Gen; using matl::MatId;
template <class T> bool assign(Base* a, const Base* b) { *a->castTo<T>() = *b->castTo<T>(); return true; }
static bool assignAny(Base* a, const Base* b, int k) {
    switch (k) { case PEC: return assign<PM::Predefined::PEC>(a, b); case PMC: return assign<PM::Predefined::PMC>(a, b); case SMA: return assign<PM::Predefined::SMA>(a, b); case BPEC: return assign<PM::Bound::PEC>(a, b); case BMUR2: return assign<PM::Bound::Mur2>(a, b);
    case CLASSIC: return assign<PM::Volume::Classic>(a, b); case DISP: case DISPFILE: return assign<PM::Volume::Dispersive>(a, b); case CRYSTAL: return assign<PM::Volume::AnisotropicCrystal>(a, b); case FERRITE: return assign<PM::Volume::AnisotropicFerrite>(a, b);
    case MULTI: return assign<PM::Surface::Multilayer>(a, b); case SIBC: return assign<PM::Surface::SIBC>(a, b); case SIBCFILE: return assign<PM::Surface::SIBCFile>(a, b); case WIRE: case WIRESP: case WIREDISP: return assign<PM::Wire::Wire>(a, b); case GAP: return assign<PM::Gap::Gap>(a, b);
    case MPPRE: return assign<PM::Multiport::Predefined>(a, b); case MPRLC: return assign<PM::Multiport::RLC>(a, b); case MPDISP: return assign<PM::Multiport::Dispersive>(a, b); case EXTREMES: return assign<PM::Wire::Extremes>(a, b); default: return false; }
}
static Spec deep(const Spec& s) { Spec r = s; for (auto& e : r.ext) if (e) e.reset(new Spec(*e)); return r; }
static void silence() { static bool d = false; if (!d) { d = true; std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } }

// One model of every kind.
PROP(parameters, 12000, 200000, "a model with parameters") { silence(); int k = g.range(0, KS - 1); Spec s = gen(g, k); std::unique_ptr<Base> m(make(s)); check(m.get(), s, "as built"); g.nontrivial(k > BMUR2); g.label(kname(k)); m->printInfo(); check(m.get(), s, "after printing"); }

// Copies, assignments, renaming, changes of connectors and destruction.
PROP(copies, 6000, 100000, "a model is copied and one of the two changes") {
    silence(); struct Slot { std::unique_ptr<Base> m; Spec s; }; std::vector<Slot> pool; int n = g.range(1, 12), copies = 0, changes = 0; int fav = g.chance(1, 2) ? EXTREMES : -1;
    auto fresh = [&](Slot& x) { x.s = gen(g, fav >= 0 && g.flip() ? fav : g.range(0, KS - 1)); x.m.reset(make(x.s)); }; pool.emplace_back(); fresh(pool.back());
    for (int op = 0; op < n; op++) {
        std::size_t i = (std::size_t)g.draw(pool.size()); int k = g.range(0, 6); g << k << ":" << i << " "; Slot& x = pool[i];
        if (k == 0 && pool.size() < 6) { pool.emplace_back(); Slot &a = pool[i], &b = pool.back(); b.s = deep(a.s); b.m.reset(dynamic_cast<Base*>(a.m->clone())); copies++; }
        else if (k == 1 && pool.size() < 6) { pool.emplace_back(); fresh(pool.back()); }
        else if (k == 2) { std::size_t j = (std::size_t)g.draw(pool.size()); if (pool[j].s.k == x.s.k && assignAny(x.m.get(), pool[j].m.get(), x.s.k)) { Spec t = deep(pool[j].s); x.s = t; copies++; g << "=" << j << " "; } }
        else if (k == 3) { x.s.name = "set_" + g.ident(4); x.s.named = true; x.m->setName(x.s.name); changes++; }
        else if (k == 4) { x.s.id = 60 + (std::size_t)g.draw(9); x.m->setId(MatId(x.s.id)); changes++; }
        else if (k == 5 && pool.size() > 1) { pool.erase(pool.begin() + (long)i); changes++; }
        else if (k == 6 && x.s.k == EXTREMES) {
            auto e = x.m->castTo<PM::Wire::Extremes>(); int w = g.range(0, 3); std::size_t at = (std::size_t)g.draw(2); changes++;
            if (w == 0) { e->swapExtremes(); std::swap(x.s.ext[0], x.s.ext[1]); }
            else if (w == 1) { e->setExtreme(at, nullptr); x.s.ext[at].reset(); }
            else if (w == 2) { x.s.ext[at].reset(new Spec(gen(g, g.oneOf<int>({MPPRE, MPRLC, MPDISP})))); std::unique_ptr<Base> p(make(*x.s.ext[at])); e->setExtreme(at, p->castTo<MP>()); }
            else { std::size_t from = (std::size_t)g.draw(2); e->setExtreme(at, e->getExtreme(from)); std::shared_ptr<Spec> c(x.s.ext[from] ? new Spec(*x.s.ext[from]) : nullptr); x.s.ext[at] = c; } }
        for (std::size_t q = 0; q < pool.size(); q++) check(pool[q].m.get(), pool[q].s, "after operation " + std::to_string(op));
    }
    g.nontrivial(copies && changes);
}
// A set of models: kinds and copies.
PROP(groups, 3000, 40000, "two kinds in the set") {
    silence(); std::size_t n = g.many(1, 8, 100); PM::Group<> gr; std::vector<Spec> s; std::set<int> kinds; for (std::size_t i = 0; i < n; i++) { Spec x = gen(g, g.range(0, KS - 1)); x.id = i + 1; s.push_back(x); gr.add(make(x)); kinds.insert(x.k); } g.nontrivial(kinds.size() > 1);
    auto all = [&](const PM::Group<>& q, const char* when) { CHECK_EQ(q.size(), n, "models " << when); for (std::size_t i = 0; i < n; i++) { check(q(i), s[i], when); CHECK(q.getId(MatId(i + 1)) == q(i), "by identifier " << when); } }; all(gr, "in the set");
    std::size_t w = 0, v = 0, p = 0, b = 0; for (auto& x : s) { w += (x.k >= WIRE && x.k <= WIREDISP) || x.k == EXTREMES; v += x.k >= CLASSIC && x.k <= VPML; p += x.k >= MPPRE && x.k <= MPDISP; b += x.k >= BPEC && x.k <= BMUR2; }
    CHECK_EQ(gr.sizeOf<PM::Wire::Wire>(), w, "wires"); CHECK_EQ(gr.sizeOf<PM::Volume::Volume>(), v, "volume models"); CHECK_EQ(gr.sizeOf<MP>(), p, "connectors"); CHECK_EQ(gr.sizeOf<PM::Bound::Bound>(), b, "boundaries"); CHECK_EQ(gr.getOf<PM::Wire::Wire>().size(), w, "wires");
    std::unique_ptr<PM::Group<>> c(gr.clone()); PM::Group<> d = gr.cloneElems(); all(*c, "in a copy"); for (std::size_t i = 0; i < n; i++) { CHECK((*c)(i) != gr(i) && d(i) != gr(i), "separate models"); gr(i)->setName("changed"); } gr = PM::Group<>(); all(*c, "after changing the source"); c.reset(); all(d, "after destroying a copy");
}
PROP(refused, 2000, 20000, "an invalid parameter") {
    silence(); double v = val(g); if (v == 0) v = 1; MatId id(1); int k = g.range(0, 6); g << k << " " << v; g.nontrivial(); typedef PM::Surface::Multilayer ML;
    if (k == 0) CHECK_THROWS(PM::Volume::Dispersive(id, "d", 1, 1, g.flip() ? 0 : v, v), "magnetic conductivity of a dispersive material");
    if (k == 1) CHECK_THROWS(ML::Layer(v, 0, v, v), "permittivity of a layer"); if (k == 2) CHECK_THROWS(ML::Layer(v, v, 0, v), "permeability of a layer");
    if (k == 3) { std::vector<ML::FittingOptions> o; for (int i = g.range(2, 4); i-- > 0;) o.emplace_back(std::make_pair(v, v), std::size_t(1)); CHECK_THROWS(ML(id, "m", std::vector<ML::Layer>(), o), "several fitting options"); }
    if (k == 4) CHECK_THROWS(PM::Volume::Dispersive(id, "d", SEMBA::FileSystem::Project(pbt::scratch() + "/none_" + g.ident())), "a missing file");
    if (k == 5) CHECK_THROWS(PM::Surface::SIBCFile(id, "s", SEMBA::FileSystem::Project(g.ident() + g.oneOf<std::string>({"", ".dat", ".mib", ".mibc2", ".mibc.txt", ".MIBC"}))), "a file of another kind");
    if (k == 6) CHECK_NOTHROW(PM::Surface::SIBCFile(id, "s", SEMBA::FileSystem::Project(g.ident() + ".mibc")), "a file of this kind");
}
