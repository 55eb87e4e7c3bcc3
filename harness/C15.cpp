// C15: a mesh owns consistent copies of its coordinates, layers and elements.
#include "mesh.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/BoundTerminations.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include <set>
using namespace geo;
using pbt::Gen;
namespace Me = SEMBA::Geometry::Mesh;
typedef Me::Unstructured U; typedef Me::Geometric Ge; typedef Me::Structured S;

template <class M> struct MeshTraits;
template <> struct MeshTraits<U> { typedef Math::Real T; static const bool grid = false, bounds = false; };
template <> struct MeshTraits<Ge> { typedef Math::Real T; static const bool grid = true, bounds = false; };
template <> struct MeshTraits<S> { typedef Math::Int T; static const bool grid = true, bounds = true; };
template <class M> struct Model_ {                  // what a mesh should contain
    MDesc<typename MeshTraits<M>::T> d; Lines lines[3]; const Bound* b[3][2]; const PhysicalModel::Group<>* mats;
    Model_() : mats(nullptr) { for (auto& x : b) for (auto& y : x) y = nullptr; }
};
static std::vector<Math::Real>* arr(const Lines* l, std::vector<Math::Real>* p) { for (int k = 0; k < 3; k++) p[k] = l[k]; return p; }
template <class M> Grid3 gridOf(const Model_<M>& m) { std::vector<Math::Real> p[3]; arr(m.lines, p); return Grid3(p); }
static U* make(const World<Math::Real>& w, const Model_<U>&) { return new U(w.coords, w.elems, w.layers); }
static Ge* make(const World<Math::Real>& w, const Model_<Ge>& m) { return new Ge(gridOf(m), w.coords, w.elems, w.layers); }
static S* make(const World<Math::Int>& w, const Model_<S>& m) { std::array<std::array<const Bound*, 2>, 3> a; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) a[(std::size_t)i][(std::size_t)j] = m.b[i][j]; return new S(gridOf(m), w.coords, w.elems, w.layers, BoundTerminations3(a)); }
static void extra(const U&, const Model_<U>&, const std::string&) {}
static void gridIs(const Grid3& g, const Lines* l, const std::string& when) { for (std::size_t k = 0; k < 3; k++) { auto p = g.getPos(k); CHECK_EQ(p.size(), l[k].size(), "lines " << when); for (std::size_t i = 0; i < p.size(); i++) CHECK_NEAR(p[i], l[k][i], 1e-12, 0, "line of the grid " << when); } }
static void extra(const Ge& m, const Model_<Ge>& w, const std::string& when) { gridIs(m.grid(), w.lines, when); }
static void extra(const S& m, const Model_<S>& w, const std::string& when) { gridIs(m.grid(), w.lines, when); for (std::size_t i = 0; i < 3; i++) for (std::size_t j = 0; j < 2; j++) CHECK(m.bounds()(i, j) == w.b[i][j], "boundary " << i << j << " " << when);
    double st = 1e300; for (int k = 0; k < 3; k++) for (std::size_t i = 1; i < w.lines[k].size(); i++) st = std::min(st, w.lines[k][i] - w.lines[k][i - 1]); CHECK_NEAR(m.getMinimumSpaceStep(), st, 1e-9, 0, "smallest step " << when); }
template <class M> void box(const M& m, const Model_<M>& w, const std::string& when) {
    if (w.d.elems.empty()) return; BoxR3 b = m.getBoundingBox();
    for (int k = 0; k < 3; k++) { double lo = 1e300, hi = -1e300; for (auto& e : w.d.elems) for (auto c : e.c) { lo = std::min(lo, (double)w.d.pos(c)(k)); hi = std::max(hi, (double)w.d.pos(c)(k)); } CHECK_NEAR(b.getMin()(k), lo, 1e-12, 0, "bounding box " << when); CHECK_NEAR(b.getMax()(k), hi, 1e-12, 0, "bounding box " << when); }
}
static void box(const S& m, const Model_<S>& w, const std::string& when) { BoxR3 b = m.getBoundingBox(); for (int k = 0; k < 3; k++) { CHECK_NEAR(b.getMin()(k), w.lines[k].front(), 1e-12, 0, "bounding box " << when); CHECK_NEAR(b.getMax()(k), w.lines[k].back(), 1e-12, 0, "bounding box " << when); } }
template <class M> void check(const M& m, const Model_<M>& w, const std::string& when) {
    CHECK_EQ(m.coords().size(), w.d.coords.size(), "coordinates " << when); CHECK_EQ(m.layers().size(), w.d.layers.size(), "layers " << when);
    for (std::size_t i = 0; i < w.d.coords.size(); i++) {
        CHECK_EQ(m.coords()(i)->getId().toInt(), w.d.coords[i].first, "identifier of coordinate " << i << " " << when); for (int k = 0; k < 3; k++) CHECK_NEAR((double)m.coords()(i)->pos()(k), (double)w.d.coords[i].second(k), 1e-12, 0, "position of coordinate " << i << " " << when);
        CHECK(m.coords().getId(CoordId(w.d.coords[i].first)) == m.coords()(i), "coordinate by identifier " << when); auto* at = m.coords().getPos(m.coords()(i)->pos()); CHECK(at != nullptr && at->pos() == m.coords()(i)->pos(), "coordinate by position " << when);
    }
    for (std::size_t i = 0; i < w.d.layers.size(); i++) CHECK(m.layers()(i)->getId().toInt() == w.d.layers[i].first && m.layers()(i)->getName() == w.d.layers[i].second, "layer " << i << " " << when);
    sameElems(m.elems(), w.d.elems, w.d, when);
    for (std::size_t i = 0; i < w.d.elems.size(); i++) { auto e = m.elems()(i);
        for (std::size_t j = 0; j < e->numberOfCoordinates(); j++) CHECK(e->getV(j) == m.coords().getId(e->getV(j)->getId()), "its own coordinates " << when);
        if (e->getLayer()) CHECK(e->getLayer() == m.layers().getId(e->getLayerId()), "its own layers " << when); else CHECK_EQ(w.d.elems[i].lay, std::size_t(0), "layer");
        if (w.d.elems[i].mat && w.mats) CHECK(e->getModel() == w.mats->getId(e->getMatId()), "its material " << when); }
    extra(m, w, when); box(m, w, when);
}
static void scaleModel(Model_<U>& w, double f) { for (auto& c : w.d.coords) for (int k = 0; k < 3; k++) c.second(k) *= f; }
static void scaleLines(Lines* l, double f) { for (int k = 0; k < 3; k++) for (auto& x : l[k]) x *= f; }
static void scaleModel(Model_<Ge>& w, double f) { for (auto& c : w.d.coords) for (int k = 0; k < 3; k++) c.second(k) *= f; scaleLines(w.lines, f); }
static void scaleModel(Model_<S>& w, double f) { scaleLines(w.lines, f); }

template <class M> struct Slot_ { std::unique_ptr<M> m; Model_<M> w; };
template <class M> void history(Gen& g) {
    typedef typename MeshTraits<M>::T T; std::vector<std::unique_ptr<World<T>>> worlds; std::vector<std::shared_ptr<PhysicalModel::Group<>>> matSets;
    typedef Slot_<M> Slot; std::vector<Slot> pool;
    auto fresh = [&](Slot& s) {
        Model_<M> w; w.d = genMesh<T>(g, 6, 8, g.oneOf<double>({1.0, 0.37, 1e-3})); double u = g.oneOf<double>({1, 0.1}); for (auto& l : w.lines) l = genLines(g, 3, u);
        worlds.emplace_back(new World<T>); build(*worlds.back(), w.d); w.mats = &worlds.back()->mats; g << "[" << w.d.str() << "] "; s.w = w; s.m.reset(make(*worlds.back(), s.w));
        if (g.flip()) { g << "source gone "; matSets.emplace_back(new PhysicalModel::Group<>); for (auto m : w.d.mats) matSets.back()->add(new PhysicalModel::Predefined::PEC(MatId(m))); ModelGroup mg; for (std::size_t i = 0; i < matSets.back()->size(); i++) mg.add((*matSets.back())(i)); s.m->reassignPointers(mg); s.w.mats = matSets.back().get();
            if (w.d.mats.empty()) {} worlds.pop_back(); }
    };
    pool.emplace_back(); fresh(pool.back()); check(*pool[0].m, pool[0].w, "as built"); int n = g.range(1, 10), copies = 0, changes = 0; double total = 1;
    for (int op = 0; op < n; op++) {
        std::size_t i = (std::size_t)g.draw(pool.size()); int k = g.range(0, 9); g << k << ":" << i << " "; Slot& s = pool[i];
        if (k == 0 && pool.size() < 5) { pool.emplace_back(); Slot& a = pool[i]; Slot& b = pool.back(); b.w = a.w; b.m.reset(g.flip() ? new M(*a.m) : a.m->template cloneTo<M>()); copies++; }
        else if (k == 1) { std::size_t j = (std::size_t)g.draw(pool.size()); g << "=" << j << " "; *s.m = *pool[j].m; Model_<M> t = pool[j].w; s.w = t; copies++; }
        else if (k == 2) { double f = g.oneOf<double>({2, 0.5, 1e-3, 1000, 0.3}); total *= f; if (total > 1e5 || total < 1e-5) { total /= f; continue; } g << f << " "; s.m->applyScalingFactor(f); scaleModel(s.w, f); changes++; }
        else if (k == 3 && pool.size() > 1) { pool.erase(pool.begin() + (long)i); changes++; }
        else if (k == 4 && !s.w.d.elems.empty()) { std::size_t e = (std::size_t)g.draw(s.w.d.elems.size()); if (s.w.d.layers.empty() || g.chance(1, 4)) { s.m->elems().setLayer(ElemId(s.w.d.elems[e].id), nullptr); s.w.d.elems[e].lay = 0; } else { std::size_t l = g.pick(s.w.d.layers).first; s.m->elems().setLayer(ElemId(s.w.d.elems[e].id), s.m->layers().getId(LayerId(l))); s.w.d.elems[e].lay = l; } changes++; }
        else if (k == 5 && !s.w.d.elems.empty()) { std::size_t e = (std::size_t)g.draw(s.w.d.elems.size()); if (s.w.d.mats.empty() || g.chance(1, 4)) { s.m->elems().setModel(ElemId(s.w.d.elems[e].id), nullptr); s.w.d.elems[e].mat = 0; } else { std::size_t l = g.pick(s.w.d.mats); s.m->elems().setModel(ElemId(s.w.d.elems[e].id), s.w.mats->getId(MatId(l))); s.w.d.elems[e].mat = l; } changes++; }
        else if (k == 6 && !s.w.d.elems.empty()) { std::size_t e = (std::size_t)g.draw(s.w.d.elems.size()); s.m->elems().removeId(ElemId(s.w.d.elems[e].id)); s.w.d.elems.erase(s.w.d.elems.begin() + (long)e); changes++; }
        else if (k == 7) { matSets.emplace_back(new PhysicalModel::Group<>); for (auto m : s.w.d.mats) matSets.back()->add(new PhysicalModel::Predefined::PEC(MatId(m))); ModelGroup mg; for (std::size_t q = 0; q < matSets.back()->size(); q++) mg.add((*matSets.back())(q)); s.m->reassignPointers(mg); s.w.mats = matSets.back().get(); changes++; }
        else if (k == 8 && !s.w.d.elems.empty()) {     // the same elements in another mesh
            std::vector<const Elem*> v; std::vector<std::size_t> id; for (std::size_t q = 0; q < s.w.d.elems.size(); q++) if (g.flip()) { v.push_back(s.m->elems()(q)); id.push_back(s.w.d.elems[q].id); }
            Element::Group<const Elem> gr(v); M copy(*s.m); copy.reassign(gr); CHECK_EQ(gr.size(), id.size(), "reassigned elements"); for (std::size_t q = 0; q < id.size(); q++) CHECK(gr(q) == copy.elems().getId(ElemId(id[q])), "an element of the other mesh"); }
        else if (k == 9) { fresh(s); }
        for (std::size_t q = 0; q < pool.size(); q++) check(*pool[q].m, pool[q].w, "mesh " + std::to_string(q) + " after operation " + std::to_string(k) + " on " + std::to_string(i));
    }
    g.nontrivial(copies && changes); if (copies) g.label("copied");
}
PROP(unstructured, 4000, 60000, "a mesh is copied and one of them changes") { history<U>(g); }
PROP(geometric, 4000, 60000, "a mesh is copied and one of them changes") { history<Ge>(g); }
PROP(structured, 4000, 60000, "a mesh is copied and one of them changes") { history<S>(g); }

// Boundaries of a structured mesh.
PROP(terminations, 3000, 40000, "two boundaries differ") {
    std::shared_ptr<PhysicalModel::Bound::Bound> m[2]; m[0].reset(new PhysicalModel::Bound::PEC(MatId(1))); m[1].reset(new PhysicalModel::Bound::PMC(MatId(2)));
    const Bound* w[3][2]; std::set<const Bound*> seen; for (auto& x : w) for (auto& y : x) { int k = g.range(0, 2); y = k == 2 ? nullptr : m[k].get(); seen.insert(y); g << k; } g.nontrivial(seen.size() > 1);
    auto same = [&](const BoundTerminations3& b, const char* when) { for (std::size_t i = 0; i < 3; i++) for (std::size_t j = 0; j < 2; j++) CHECK(b(i, j) == w[i][j], "boundary " << i << j << " " << when); };
    BoundTerminations3 b; for (std::size_t i = 0; i < 3; i++) for (std::size_t j = 0; j < 2; j++) CHECK(b(i, j) == nullptr, "no boundary at first");
    std::array<std::array<const Bound*, 2>, 3> a; for (std::size_t i = 0; i < 3; i++) for (std::size_t j = 0; j < 2; j++) { a[i][j] = w[i][j]; b.setBound(i, j, w[i][j]); } same(b, "set one by one"); same(BoundTerminations3(a), "from a list");
    Lines l[3]; for (auto& x : l) x = genLines(g, 3); std::vector<Math::Real> p[3]; arr(l, p); std::unique_ptr<S> s(new S(Grid3(p), Coordinate::Group<const CoordI3>(), Element::Group<const ElemI>(), Layer::Group<const Layer::Layer>(), b)); same(s->bounds(), "of a mesh");
    BoundTerminations3 c(b); std::size_t i = (std::size_t)g.draw(3), j = (std::size_t)g.draw(2); std::unique_ptr<S> t(new S(*s)); Grid3 gp(p); S other(gp); other = *s;
    c.setBound(i, j, m[0].get()); t->bounds().setBound(i, j, m[1].get()); CHECK(t->bounds()(i, j) == m[1].get() && c(i, j) == m[0].get(), "a changed boundary"); same(b, "after changing a copy"); same(s->bounds(), "after changing a copy"); same(other.bounds(), "of an assigned mesh");
    s.reset(); same(other.bounds(), "after destroying the source"); b = c; CHECK(b(i, j) == m[0].get(), "assigned"); b.setBound(i, j, nullptr); CHECK(b(i, j) == nullptr, "removed"); CHECK(c(i, j) == m[0].get(), "kept in the other");
}
