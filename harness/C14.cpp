// C14: meshes convert between structured and physical form without loss.
#include "mesh.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/mesh/Geometric.h"
#include <set>
using namespace geo;
using pbt::Gen;
namespace Me = SEMBA::Geometry::Mesh;

static double stepAt(const Lines& l, std::size_t i) { return i == 0 ? l[1] - l[0] : l[i] - l[i - 1]; }
struct Case {
    Lines lines[3], used[3];               // `used`: the lines with small deviations
    std::vector<double> dev[3]; double tol; bool givenTol;
    RDesc d; std::vector<I3> cell; std::vector<bool> on;    // per coordinate
    std::vector<EDesc> fit; std::vector<EDesc> all;
};
static std::size_t indexOf(const RDesc& d, std::size_t id) { for (std::size_t i = 0; i < d.coords.size(); i++) if (d.coords[i].first == id) return i; throw 1; }
static bool corners(const std::vector<I3>& p, int dim) {      // exactly the corners of a box of this dimension
    I3 lo = p[0], hi = p[0]; for (auto& x : p) for (int k = 0; k < 3; k++) { lo(k) = std::min(lo(k), x(k)); hi(k) = std::max(hi(k), x(k)); }
    int n = 0; for (int k = 0; k < 3; k++) n += hi(k) > lo(k); if (n != dim || p.size() != std::size_t(1) << dim) return false;
    std::set<std::vector<int>> s; for (auto& x : p) { for (int k = 0; k < 3; k++) if (x(k) != lo(k) && x(k) != hi(k)) return false; s.insert({x(0), x(1), x(2)}); } return s.size() == p.size();
}
static void gen(Gen& g, Case& c, bool exact, int maxElems) {
    double u = g.oneOf<double>({1, 1, 1e-3, 40}); for (int k = 0; k < 3; k++) c.lines[k] = genLines(g, 4, u);
    c.givenTol = !exact && g.flip(); c.tol = c.givenTol ? g.oneOf<double>({0.01, 0.001, 0.02}) : 0.01; bool devs = !exact && g.flip();
    for (int k = 0; k < 3; k++) { c.used[k] = c.lines[k]; c.dev[k].assign(c.lines[k].size(), 0.0); if (devs) for (std::size_t i = 0; i < c.lines[k].size(); i++) if (g.chance(1, 3)) {
        double f = g.oneOf<double>({0.004, -0.004, 0.0004, -0.0004, -0.015, 0.015, -0.03, 0.03}); if (i + 1 < c.lines[k].size() && f * stepAt(c.lines[k], i) > 0.3 * (c.lines[k][i + 1] - c.lines[k][i])) f = -f; c.dev[k][i] = std::fabs(f); c.used[k][i] += f * stepAt(c.lines[k], i); } }
    auto lineOn = [&](int k, int i) { return c.dev[k][(std::size_t)i] < c.tol; };
    RDesc& d = c.d; std::size_t nl = g.many(0, 3, 20), nm = g.many(0, 3, 20); for (auto l : genIds(g, nl)) d.layers.push_back({l, "lay" + std::to_string(l)}); d.mats = genIds(g, nm);
    std::size_t ne = maxElems > 1 ? g.many(0, (std::size_t)maxElems, 120) : g.len(0, 1); auto ei = genIds(g, ne); std::size_t next = (std::size_t)g.range(0, 3); std::map<std::vector<int>, std::size_t> shared;
    auto addCoord = [&](const I3& x, int offAxis) {
        std::vector<int> key = {x(0), x(1), x(2)}; if (offAxis < 0 && shared.count(key) && !g.chance(1, 6)) return shared[key];
        next += 1 + (std::size_t)g.draw(3); V3 p; for (int k = 0; k < 3; k++) p(k) = c.used[k][(std::size_t)x(k)]; bool on = true; for (int k = 0; k < 3; k++) on = on && lineOn(k, x(k));
        if (offAxis >= 0) { const Lines& l = c.lines[offAxis]; std::size_t i = (std::size_t)x(offAxis); on = false; p(offAxis) = i + 1 < l.size() ? l[i] + (l[i + 1] - l[i]) * g.oneOf<double>({0.25, 0.5, 0.7, 0.9}) : l[i] + (l[i] - l[i - 1]) * g.oneOf<double>({0.4, 3.0}); if (i + 1 < l.size() && p(offAxis) - l[i] <= 2 * c.tol * stepAt(l, i)) p(offAxis) = l.back() + (l.back() - l[0]);   // a short cell after a long one: still on line i
            if (i == 0 && g.chance(1, 4)) p(offAxis) = l[0] - (l[1] - l[0]) * 0.6; }
        d.coords.push_back({next, p}); c.cell.push_back(x); c.on.push_back(on); if (offAxis < 0) shared[key] = next; return next; };
    auto pt = [&]() { I3 x; for (int k = 0; k < 3; k++) x(k) = g.range(0, (int)c.lines[k].size() - 1); return x; };
    for (auto id : ei) {
        EDesc e; e.id = id; int how = g.range(0, 4); std::vector<I3> v; e.kind = exact || how < 3 ? g.oneOf<int>({NODE, LINE2, QUAD4, HEX8}) : how == 3 ? g.oneOf<int>({LINE2, QUAD4, HEX8, TRI3, TET4}) : g.range(0, KINDS - 1);
        if (exact || how < 3) {           // a box of the right dimension
            I3 lo = pt(), hi = lo; int dim = dimOf(e.kind), first = g.range(0, 2); for (int q = 0; q < dim; q++) { int k = (first + q) % 3; int m = (int)c.lines[k].size() - 1; int x = g.range(0, m), y = g.range(0, m - 1); if (y >= x) y++; lo(k) = std::min(x, y); hi(k) = std::max(x, y); }
            auto q = BoxI3(lo, hi).getPos(); v.assign(q.begin(), q.end()); if (g.chance(1, 4)) g.shuffle(v);
        } else { std::size_t n = nCoords(e.kind); for (std::size_t i = 0; i < n; i++) v.push_back(pt()); if (e.kind == TET4) { I3 o = v[0]; for (int k = 0; k < 3; k++) { v[(std::size_t)k + 1] = o; v[(std::size_t)k + 1](k) = o(k) == 0 ? 1 : o(k) - 1; } } }
        std::size_t off = !exact && g.chance(1, 5) ? g.draw(v.size()) : v.size();
        for (std::size_t i = 0; i < v.size(); i++) e.c.push_back(addCoord(v[i], i == off ? g.range(0, 2) : -1));
        if (e.kind == TET4 && off < v.size()) { e.kind = LINE2; e.c.resize(2); v.resize(2); }
        e.lay = d.layers.empty() || g.chance(1, 5) ? 0 : g.pick(d.layers).first; e.mat = d.mats.empty() || g.chance(1, 5) ? 0 : g.pick(d.mats); d.elems.push_back(e);
        bool ok = (e.kind == NODE || e.kind == LINE2 || e.kind == QUAD4 || e.kind == HEX8) && corners(v, dimOf(e.kind)); for (auto i : e.c) ok = ok && c.on[indexOf(d, i)]; if (ok) c.fit.push_back(e);
    }
    for (int i = g.range(0, 2); i > 0; i--) { I3 x = pt(); addCoord(x, exact ? -1 : g.range(-1, 2)); }   // coordinates of no element
    for (int k = 0; k < 3; k++) g << str(c.lines[k]) << (devs ? str(c.used[k]) : ""); g << " tol " << c.tol << " " << d.str() << " fit"; for (auto& e : c.fit) g << " " << e.id;
}
template <class M> static void own(const M& m, const std::string& when) {
    for (std::size_t i = 0; i < m.elems().size(); i++) { auto e = m.elems()(i);
        for (std::size_t j = 0; j < e->numberOfCoordinates(); j++) CHECK(e->getV(j) == m.coords().getId(e->getV(j)->getId()), "coordinate of the mesh itself, " << when);
        if (e->getLayer()) CHECK(e->getLayer() == m.layers().getId(e->getLayerId()), "layer of the mesh itself, " << when); }
}
template <class M> static void layersAre(const M& m, const RDesc& d, const std::string& when) {
    CHECK_EQ(m.layers().size(), d.layers.size(), "layers " << when); for (std::size_t i = 0; i < d.layers.size(); i++) { CHECK_EQ(m.layers()(i)->getId().toInt(), d.layers[i].first, "layer " << when); CHECK_EQ(m.layers()(i)->getName(), d.layers[i].second, "name of a layer " << when); }
}
static Grid3 gridOf(const Case& c) { std::vector<Math::Real> p[3]; for (int k = 0; k < 3; k++) p[k] = c.lines[k]; return Grid3(p); }
static void linesAre(const Grid3& gr, const Case& c) { for (int k = 0; k < 3; k++) CHECK(gr.getPos((std::size_t)k) == c.lines[k], "lines of the grid"); }
static void cells(const Me::Structured& s, const Case& c, const std::string& when) {
    linesAre(s.grid(), c); own(s, when); layersAre(s, c.d, when); IDesc w; CHECK_EQ(s.coords().size(), c.d.coords.size(), "coordinates " << when);
    for (std::size_t i = 0; i < c.d.coords.size(); i++) { CHECK_EQ(s.coords()(i)->getId().toInt(), c.d.coords[i].first, "coordinate " << i << " " << when); w.coords.push_back({c.d.coords[i].first, c.cell[i]}); }
    sameElems(s.elems(), c.fit, w, when);
}
static void physical(const Me::Unstructured& m, const Case& c, const std::string& when) {
    own(m, when); layersAre(m, c.d, when); RDesc w; CHECK_EQ(m.coords().size(), c.d.coords.size(), "coordinates " << when);
    for (std::size_t i = 0; i < c.d.coords.size(); i++) { V3 p; for (int k = 0; k < 3; k++) p(k) = c.lines[k][(std::size_t)c.cell[i](k)]; w.coords.push_back({c.d.coords[i].first, p}); if (c.on[i]) for (int k = 0; k < 3; k++) CHECK(m.coords()(i)->pos()(k) == p(k), "position of coordinate " << i << " " << when); }
    sameElems(m.elems(), c.fit, w, when);
}
static void unchanged(const Me::Unstructured& m, const Case& c) {
    own(m, "of the source"); layersAre(m, c.d, "of the source"); CHECK_EQ(m.coords().size(), c.d.coords.size(), "coordinates of the source");
    for (std::size_t i = 0; i < c.d.coords.size(); i++) for (int k = 0; k < 3; k++) CHECK(m.coords()(i)->pos()(k) == c.d.coords[i].second(k), "positions of the source"); sameElems(m.elems(), c.d.elems, c.d, "of the source");
}

PROP(structured, 6000, 100000, "elements of two dimensions fit and one does not") {
    Case c; gen(g, c, false, 8); World<Math::Real> w; build(w, c.d); Grid3 gr = gridOf(c);
    std::set<int> dims; for (auto& e : c.fit) dims.insert(dimOf(e.kind)); g.nontrivial(dims.size() >= 2 && c.fit.size() < c.d.elems.size());
    std::unique_ptr<Me::Unstructured> u; std::unique_ptr<Me::Structured> s; bool geom = g.flip();
    if (geom) { auto* gm = new Me::Geometric(gr, w.coords, w.elems, w.layers); u.reset(gm); s.reset(c.givenTol ? gm->getMeshStructured(c.tol) : gm->getMeshStructured()); }
    else { u.reset(new Me::Unstructured(w.coords, w.elems, w.layers)); s.reset(c.givenTol ? u->getMeshStructured(gr, c.tol) : u->getMeshStructured(gr)); }
    unchanged(*u, c);
    for (std::size_t i = 0; i < s->layers().size(); i++) CHECK(s->layers()(i) != u->layers()(i), "layers are not shared");
    if (g.flip()) u.reset();                      // the conversion does not need its source
    cells(*s, c, "in structured form");
    std::unique_ptr<Me::Unstructured> r(s->getMeshUnstructured()); cells(*s, c, "after converting it"); if (g.flip()) s.reset();
    physical(*r, c, "converted back");
    std::unique_ptr<Me::Structured> s2(r->getMeshStructured(gr)); cells(*s2, c, "converted again");
    if (!c.fit.empty()) g.label("some fit"); if (c.fit.size() < c.d.elems.size()) g.label("some do not fit");
}
// From cells to physical form and back; every kind of element that has both forms.
PROP(physical, 4000, 60000, "elements of two dimensions") {
    Case c; gen(g, c, true, 8); IDesc d; d.layers = c.d.layers; d.mats = c.d.mats; for (auto& e : c.fit) d.elems.push_back(e); CHECK_EQ(c.fit.size(), c.d.elems.size(), "all fit");
    for (std::size_t i = 0; i < c.d.coords.size(); i++) d.coords.push_back({c.d.coords[i].first, c.cell[i]}); World<Math::Int> w; build(w, d); Grid3 gr = gridOf(c);
    std::set<int> dims; for (auto& e : c.fit) dims.insert(dimOf(e.kind)); g.nontrivial(dims.size() >= 2);
    std::unique_ptr<Me::Structured> s(new Me::Structured(gr, w.coords, w.elems, w.layers)); cells(*s, c, "as built");
    std::unique_ptr<Me::Unstructured> u(s->getMeshUnstructured()); for (std::size_t i = 0; i < s->layers().size(); i++) CHECK(s->layers()(i) != u->layers()(i), "layers are not shared");
    cells(*s, c, "after converting it"); if (g.flip()) s.reset(); physical(*u, c, "in physical form");
    std::unique_ptr<Me::Structured> s2(u->getMeshStructured(gr)); if (g.flip()) u.reset(); cells(*s2, c, "converted back");
    // Scaling the source first scales the result.
    double f = g.oneOf<double>({2, 0.5, 1e-3}); s2->applyScalingFactor(f); std::unique_ptr<Me::Unstructured> v(s2->getMeshUnstructured());
    for (std::size_t i = 0; i < v->coords().size(); i++) for (int k = 0; k < 3; k++) CHECK_NEAR(v->coords()(i)->pos()(k), f * c.lines[k][(std::size_t)c.cell[i](k)], 1e-14, 0, "position in a scaled mesh");
    CHECK_EQ(v->elems().size(), c.fit.size(), "every element of a scaled mesh is converted");
}
// A single element of each kind.
PROP(elements, 5000, 80000, "the element does not fit") {
    Case c; gen(g, c, false, 1); if (c.d.elems.empty()) g.discard(); World<Math::Real> w; build(w, c.d); Grid3 gr = gridOf(c); const ElemR* e = w.elems(0); bool ok = !c.fit.empty(); g.nontrivial(!ok); int kd = c.d.elems[0].kind; g.label(kindName(kd));
    CHECK_EQ(c.givenTol ? e->isStructured(gr, c.tol) : e->isStructured(gr), ok, "fits the grid");
    Coordinate::Group<CoordI3> ci; std::vector<std::size_t> miss; bool lack = false, wrong = false; int spoil = g.range(0, 4);
    for (std::size_t i = 0; i < c.d.coords.size(); i++) { bool used = std::find(c.d.elems[0].c.begin(), c.d.elems[0].c.end(), c.d.coords[i].first) != c.d.elems[0].c.end(); I3 p = c.cell[i]; if (used && spoil == 0 && !lack) { lack = true; continue; } if (used && spoil == 1 && !wrong) { wrong = true; p(0) += 1; } ci.add(new CoordI3(CoordId(c.d.coords[i].first), p)); }
    std::unique_ptr<ElemI> r; auto mk = [&]() { r.reset(c.givenTol ? e->toStructured(ci, gr, c.tol) : e->toStructured(ci, gr)); };
    if (!ok) { CHECK_NOTHROW(mk(), "an element that does not fit"); CHECK(!r, "an element that does not fit has no structured form"); return; }
    if (lack) { CHECK_THROWS(mk(), "a vertex is missing"); return; } if (wrong) { CHECK_THROWS(mk(), "a vertex is in another cell"); return; }
    mk(); CHECK(r != nullptr, "an element that fits has a structured form"); CHECK_EQ(kindOf(r.get()), kd, "kind"); CHECK(r->getId() == e->getId() && r->getLayer() == e->getLayer() && r->getModel() == e->getModel(), "identifiers");
    for (std::size_t j = 0; j < e->numberOfCoordinates(); j++) CHECK(r->getV(j) == ci.getId(e->getV(j)->getId()), "vertex " << j);
    // And back; an element that already has the other form has none to give.
    Coordinate::Group<CoordR3> cr; bool lackR = false, wrongR = false; int spoilR = g.range(0, 4);
    for (std::size_t i = 0; i < c.d.coords.size(); i++) { bool used = std::find(c.d.elems[0].c.begin(), c.d.elems[0].c.end(), c.d.coords[i].first) != c.d.elems[0].c.end(); V3 p; for (int k = 0; k < 3; k++) p(k) = c.lines[k][(std::size_t)c.cell[i](k)]; if (used && spoilR == 0 && !lackR) { lackR = true; continue; } if (used && spoilR == 1 && !wrongR) { wrongR = true; int k = g.range(0, 2); p(k) += 0.3 * (c.lines[k][1] - c.lines[k][0]); } cr.add(new CoordR3(CoordId(c.d.coords[i].first), p)); }
    std::unique_ptr<ElemI> none(r->toStructured(ci, gr)); CHECK(!none, "structured form of a structured element"); std::unique_ptr<ElemR> noneR(e->toUnstructured(cr, gr)); CHECK(!noneR, "physical form of a physical element");
    std::unique_ptr<ElemR> b; auto mkB = [&]() { b.reset(r->toUnstructured(cr, gr)); };
    if (lackR) { g.label("missing vertex on the way back"); CHECK_THROWS(mkB(), "a vertex is missing on the way back"); return; } if (wrongR) { g.label("moved vertex on the way back"); CHECK_THROWS(mkB(), "a vertex is elsewhere on the way back"); return; }
    mkB(); CHECK(b != nullptr, "a structured element has a physical form"); CHECK_EQ(kindOf(b.get()), kd, "kind of the physical form"); CHECK(b->getId() == e->getId() && b->getLayer() == e->getLayer() && b->getModel() == e->getModel(), "identifiers of the physical form");
    for (std::size_t j = 0; j < e->numberOfCoordinates(); j++) CHECK(b->getV(j) == cr.getId(e->getV(j)->getId()), "vertex " << j << " of the physical form");
}
