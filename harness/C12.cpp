// C12: element queries return exactly the matching elements.
#include "mesh.h"
using namespace geo;
using pbt::Gen;

typedef Element::Group<ElemR> EG;
template <class G1> static std::vector<std::size_t> idsOf(const G1& gr) { std::vector<std::size_t> r; for (std::size_t i = 0; i < gr.size(); i++) r.push_back(gr(i)->getId().toInt()); return r; }
static std::string show(const std::vector<std::size_t>& v) { std::ostringstream o; for (auto i : v) o << i << " "; return o.str(); }
template <class F> static std::vector<std::size_t> want(const RDesc& d, F f) { std::vector<std::size_t> r; for (auto& e : d.elems) if (f(e)) r.push_back(e.id); return r; }
#define SAME(GOT, WANT, MSG) do { auto x_ = idsOf(GOT); auto y_ = (WANT); if (x_ != y_) FAIL(#GOT " has " << show(x_) << ", expected " << show(y_) << ": " << MSG); } while (0)

static double unitOf(Gen& g) { return g.oneOf<double>({1.0, 1.0, 0.37, 1e-3, 250.0}); }
static std::size_t someId(Gen& g, const std::vector<std::size_t>& v) {
    if (v.empty() || g.chance(1, 8)) return (std::size_t)g.range(0, 15);      // possibly absent
    return g.pick(v);
}

PROP(selection, 6000, 120000, "a selection is neither empty nor everything") {
    RDesc d = genMesh<Math::Real>(g, 14, 10, unitOf(g)); g << d.str();
    World<Math::Real> w; build(w, d); EG& es = w.elems; const EG& ec = w.elems;
    sameElems(ec, d.elems, d, "as built");
    std::vector<std::size_t> ls, ms = d.mats; for (auto& l : d.layers) ls.push_back(l.first);
    std::size_t m = someId(g, ms), l = someId(g, ls), m2 = someId(g, ms), l2 = someId(g, ls);
    g << " | m" << m << "," << m2 << " l" << l << "," << l2;
    auto wm = want(d, [&](const EDesc& e) { return e.mat == m; });
    g.nontrivial(!wm.empty() && wm.size() < d.elems.size());
    SAME(es.getMatId(MatId(m)), wm, "material " << m); SAME(ec.getMatId(MatId(m)), wm, "material " << m);
    std::vector<MatId> mv = {MatId(m), MatId(m2)}; auto wm2 = want(d, [&](const EDesc& e) { return e.mat == m || e.mat == m2; });
    SAME(es.getMatId(mv), wm2, "materials"); SAME(ec.getMatId(mv), wm2, "materials");
    SAME(ec.getMatId(std::vector<MatId>()), std::vector<std::size_t>(), "no material");
    auto wl = want(d, [&](const EDesc& e) { return e.lay == l; });
    SAME(es.getLayerId(LayerId(l)), wl, "layer " << l); SAME(ec.getLayerId(LayerId(l)), wl, "layer " << l);
    std::vector<LayerId> lv = {LayerId(l2), LayerId(l)}; auto wl2 = want(d, [&](const EDesc& e) { return e.lay == l || e.lay == l2; });
    SAME(es.getLayerId(lv), wl2, "layers"); SAME(ec.getLayerId(lv), wl2, "layers");
    auto wml = want(d, [&](const EDesc& e) { return e.lay == l && e.mat == m; });
    SAME(es.getMatLayerId(MatId(m), LayerId(l)), wml, "material and layer"); SAME(ec.getMatLayerId(MatId(m), LayerId(l)), wml, "material and layer");
    // By kind and by dimension.
    SAME(ec.getOf<NodR>(), want(d, [](const EDesc& e) { return e.kind == NODE; }), "nodes");
    SAME(ec.getOf<LinR>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 1; }), "lines");
    SAME(ec.getOf<LinR2>(), want(d, [](const EDesc& e) { return e.kind == LINE2; }), "straight lines");
    SAME(ec.getOf<PolylinR>(), want(d, [](const EDesc& e) { return e.kind == POLYLINE; }), "polylines");
    SAME(ec.getOf<SurfR>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 2; }), "surfaces");
    SAME(ec.getOf<Tri>(), want(d, [](const EDesc& e) { return e.kind == TRI3 || e.kind == TRI6; }), "triangles");
    SAME(ec.getOf<Tri3>(), want(d, [](const EDesc& e) { return e.kind == TRI3; }), "linear triangles");
    SAME(ec.getOf<QuaR4>(), want(d, [](const EDesc& e) { return e.kind == QUAD4; }), "quadrilaterals");
    SAME(ec.getOf<VolR>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 3; }), "volumes");
    SAME(ec.getOf<Tet>(), want(d, [](const EDesc& e) { return e.kind == TET4 || e.kind == TET10; }), "tetrahedra");
    SAME(ec.getOfOnly<HexR8>(), want(d, [](const EDesc& e) { return e.kind == HEX8; }), "hexahedra");
    SAME(es.getOf<Lin>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 1; }), "lines");
    CHECK_EQ(ec.sizeOf<SurfR>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 2; }).size(), "number of surfaces");
    CHECK_EQ(ec.emptyOf<VolR>(), want(d, [](const EDesc& e) { return dimOf(e.kind) == 3; }).empty(), "has volumes");
    // By identifier.
    std::vector<ElemId> iv; std::vector<std::size_t> wi;
    for (auto& e : d.elems) { CHECK(ec.existId(ElemId(e.id)), "element " << e.id); CHECK_EQ(ec.getId(ElemId(e.id))->getId().toInt(), e.id, "by identifier"); if (g.chance(1, 3)) { iv.push_back(ElemId(e.id)); wi.push_back(e.id); } }
    SAME(ec.getId(iv), wi, "by identifiers"); SAME(es.getId(iv), wi, "by identifiers");
    // By coordinate.
    std::size_t c = g.pick(d.coords).first;
    SAME(ec.getCoordId(CoordId(c)), want(d, [&](const EDesc& e) { return std::find(e.c.begin(), e.c.end(), c) != e.c.end(); }), "with coordinate " << c);
    SAME(ec.getCoordId(CoordId(1000)), std::vector<std::size_t>(), "with an absent coordinate");
    // By layer, all at once.
    auto sep = ec.separateByLayers(); std::size_t tot = 0;
    for (auto& p : sep) {
        std::vector<std::size_t> got; for (auto* e : p.second) got.push_back(e->getId().toInt());
        CHECK(got == want(d, [&](const EDesc& e) { return e.lay == p.first.toInt(); }), "elements of layer " << p.first); CHECK(!got.empty(), "no empty layer"); tot += got.size();
    }
    CHECK_EQ(tot, d.elems.size(), "each element in one layer");
    // Index by vertices, whatever their order.
    auto vertexIds = [&](const EDesc& e) {
        std::vector<std::size_t> v; const ElemR* p = ec.getId(ElemId(e.id));
        std::size_t n = p->numberOfVertices();
        for (std::size_t i = 0; i < n; i++) v.push_back(p->getVertex(i)->getId().toInt());
        std::sort(v.begin(), v.end()); return v;
    };
    auto idx = ec.getIndexByVertexId(); std::set<std::vector<std::size_t>> keys;
    for (auto& e : d.elems) {
        auto v = vertexIds(e); keys.insert(v); std::vector<CoordId> k; for (auto i : v) k.push_back(CoordId(i)); g.shuffle(k);
        auto it = idx.find(k); CHECK(it != idx.end(), "element " << e.id << " found by its vertices");
        bool ok = false; for (auto& f : d.elems) ok = ok || (f.id == it->second->getId().toInt() && vertexIds(f) == v);
        CHECK(ok, "an element with these vertices");
    }
    CHECK_EQ(idx.size(), keys.size(), "one entry per set of vertices");
    // Copies.
    std::unique_ptr<EG> cp(ec.clone()); sameElems(*cp, d.elems, d, "in a copy");
    for (std::size_t i = 0; i < es.size(); i++) { CHECK((*cp)(i) != es(i), "copies are other objects"); CHECK(*(*cp)(i) == *es(i), "copies compare equal"); CHECK((*cp)(i)->getLayer() == es(i)->getLayer() && (*cp)(i)->getModel() == es(i)->getModel(), "references of copies"); }
}

PROP(location, 8000, 160000, "a box contains some of the elements and not others") {
    double u = unitOf(g); RDesc d = genMesh<Math::Real>(g, 14, 12, u);
    V3 off; for (int k = 0; k < 3; k++) off(k) = u * g.oneOf<double>({0.0, 0.0, -5.0, 2.5}); for (auto& c : d.coords) for (int k = 0; k < 3; k++) c.second(k) += off(k);
    g << d.str();
    World<Math::Real> w; build(w, d); const EG& ec = w.elems;
    auto boxOf = [&](const EDesc& e, V3& lo, V3& hi) { lo = hi = d.pos(e.c[0]); for (auto c : e.c) for (int k = 0; k < 3; k++) { lo(k) = std::min(lo(k), d.pos(c)(k)); hi(k) = std::max(hi(k), d.pos(c)(k)); } };
    V3 L(1e300, 1e300, 1e300), H(-1e300, -1e300, -1e300); double sc = u * 10;
    for (auto& e : d.elems) {
        V3 lo, hi; boxOf(e, lo, hi); BoxR3 b = ec.getId(ElemId(e.id))->getBound();
        for (int k = 0; k < 3; k++) { CHECK(b.getMin()(k) == lo(k) && b.getMax()(k) == hi(k), "bound of element " << e.id << " in axis " << k << ": " << b.getMin() << b.getMax()); L(k) = std::min(L(k), lo(k)); H(k) = std::max(H(k), hi(k)); }
        // Vertices extreme in lexicographic order.
        const ElemR* p = ec.getId(ElemId(e.id)); std::vector<std::vector<double>> v;
        for (std::size_t i = 0; i < p->numberOfVertices(); i++) { auto& q = p->getVertex(i)->pos(); v.push_back({q(0), q(1), q(2)}); }
        auto mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end());
        for (int k = 0; k < 3; k++) { CHECK_NEAR(p->getMinV()->pos()(k), mn[(std::size_t)k], 1e-9, sc * 1e-9, "lowest vertex of element " << e.id); CHECK_NEAR(p->getMaxV()->pos()(k), mx[(std::size_t)k], 1e-9, sc * 1e-9, "highest vertex of element " << e.id); }
        for (auto& c : d.coords) { bool in = std::find(e.c.begin(), e.c.end(), c.first) != e.c.end(); CHECK_EQ(p->isCoordinate(w.coords.getId(CoordId(c.first))), in, "coordinate " << c.first << " of element " << e.id); }
    }
    if (!d.elems.empty()) { BoxR3 b = ec.getBound(); for (int k = 0; k < 3; k++) CHECK(b.getMin()(k) == L(k) && b.getMax()(k) == H(k), "bound of all the elements in axis " << k); }
    // Inside a box.
    V3 a, b; for (int k = 0; k < 3; k++) { int x = g.range(-1, 3), y = g.range(0, 4); a(k) = off(k) + u * (x - 0.25 * g.range(0, 1)); b(k) = a(k) + u * (y + 0.5 * g.range(0, 1)); }
    if (!d.elems.empty() && g.flip()) { V3 lo, hi; boxOf(g.pick(d.elems), lo, hi); for (int k = 0; k < 3; k++) { a(k) = lo(k) - u * 0.5 * g.range(0, 2); b(k) = hi(k) + u * 0.5 * g.range(0, 3); } }
    g << " | box " << a << b; BoxR3 bx(a, b); std::vector<std::size_t> in; bool edge = false;
    for (auto& e : d.elems) { V3 lo, hi; boxOf(e, lo, hi); bool ok = true; for (int k = 0; k < 3; k++) { ok = ok && lo(k) >= a(k) && hi(k) <= b(k); if ((lo(k) != a(k) && pbt::near(lo(k), a(k), 1e-9, sc * 1e-9)) || (hi(k) != b(k) && pbt::near(hi(k), b(k), 1e-9, sc * 1e-9))) edge = true; } if (ok) in.push_back(e.id); }
    if (!edge) { SAME(ec.getInsideBound(bx), in, "inside the box"); g.nontrivial(!in.empty() && in.size() < d.elems.size()); }
    // Nearest vertex.
    V3 p; for (int k = 0; k < 3; k++) p(k) = off(k) + u * g.real(-2, 5);
    g << " | point " << p; double best = 1e300; bool any = false;
    for (auto& e : d.elems) for (auto c : e.c) { V3 q = sub(d.pos(c), p); best = std::min(best, std::sqrt(q(0) * q(0) + q(1) * q(1) + q(2) * q(2))); any = true; }
    const CoordR3* n = ec.getClosestVertex(p);
    if (!any) CHECK(n == nullptr, "no vertex in no elements");
    else {
        CHECK(n != nullptr, "a nearest vertex"); V3 q = sub(n->pos(), p); CHECK_NEAR(std::sqrt(q(0) * q(0) + q(1) * q(1) + q(2) * q(2)), best, 1e-9, sc * 1e-9, "distance to the nearest vertex");
        bool used = false; for (auto& e : d.elems) for (auto c : e.c) used = used || c == n->getId().toInt(); CHECK(used, "a vertex of the elements");
    }
    // Bound of a list of faces.
    std::vector<Element::Face> fs; V3 fl(1e300, 1e300, 1e300), fh(-1e300, -1e300, -1e300);
    for (auto& e : d.elems) if (e.kind == TET4 || e.kind == HEX8) {
        const VolR* v = ec.getId(ElemId(e.id))->castTo<VolR>(); std::size_t f = (std::size_t)g.draw(v->numberOfFaces());
        V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
        for (std::size_t i = 0; i < v->numberOfSideCoordinates(f); i++) for (int k = 0; k < 3; k++) { double x = v->getSideV(f, i)->pos()(k); lo(k) = std::min(lo(k), x); hi(k) = std::max(hi(k), x); fl(k) = std::min(fl(k), x); fh(k) = std::max(fh(k), x); }
        BoxR3 fb = v->getBoundOfFace(f); for (int k = 0; k < 3; k++) CHECK(fb.getMin()(k) == lo(k) && fb.getMax()(k) == hi(k), "bound of face " << f << " of element " << e.id);
        fs.push_back(Element::Face(v, f));
    }
    if (!fs.empty()) { BoxR3 fb = ec.getBound(fs); for (int k = 0; k < 3; k++) CHECK(fb.getMin()(k) == fl(k) && fb.getMax()(k) == fh(k), "bound of the faces"); g.label("faces"); }
}

// Structured elements: bounds in cells, selection.
PROP(structured, 4000, 60000, "several elements") {
    IDesc d = genMesh<Math::Int>(g, 10, 10); for (auto& c : d.coords) for (int k = 0; k < 3; k++) c.second(k) -= 1;
    g << d.str(); World<Math::Int> w; build(w, d); const auto& ec = w.elems; sameElems(ec, d.elems, d, "as built"); g.nontrivial(d.elems.size() > 1);
    I3 L, H; bool first = true;
    for (auto& e : d.elems) {
        I3 lo = d.pos(e.c[0]), hi = lo; for (auto c : e.c) for (int k = 0; k < 3; k++) { lo(k) = std::min(lo(k), d.pos(c)(k)); hi(k) = std::max(hi(k), d.pos(c)(k)); }
        BoxI3 b = ec.getId(ElemId(e.id))->getBound(); CHECK(b.getMin() == lo && b.getMax() == hi, "bound of element " << e.id);
        if (first) { L = lo; H = hi; first = false; } else for (int k = 0; k < 3; k++) { L(k) = std::min(L(k), lo(k)); H(k) = std::max(H(k), hi(k)); }
        const ElemI* p = ec.getId(ElemId(e.id)); std::vector<std::vector<int>> v; for (std::size_t i = 0; i < p->numberOfVertices(); i++) { auto& q = p->getVertex(i)->pos(); v.push_back({q(0), q(1), q(2)}); }
        auto mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end());
        for (int k = 0; k < 3; k++) { CHECK_EQ(p->getMinV()->pos()(k), mn[(std::size_t)k], "lowest vertex of element " << e.id); CHECK_EQ(p->getMaxV()->pos()(k), mx[(std::size_t)k], "highest vertex of element " << e.id); }
    }
    if (!first) { BoxR3 b = ec.getBound(); for (int k = 0; k < 3; k++) CHECK(b.getMin()(k) == L(k) && b.getMax()(k) == H(k), "bound of all in axis " << k << ": " << b.getMin() << b.getMax()); }
    if (!d.mats.empty()) { std::size_t m = g.pick(d.mats); std::vector<std::size_t> y; for (auto& e : d.elems) if (e.mat == m) y.push_back(e.id); SAME(ec.getMatId(MatId(m)), y, "material"); }
    if (!d.layers.empty()) { std::size_t m = g.pick(d.layers).first; std::vector<std::size_t> y; for (auto& e : d.elems) if (e.lay == m) y.push_back(e.id); SAME(ec.getLayerId(LayerId(m)), y, "layer"); }
    std::vector<std::size_t> q; for (auto& e : d.elems) if (e.kind == QUAD4) q.push_back(e.id);
    SAME(ec.getOf<SurfI>(), q, "surfaces");
}

// Changing references changes those and nothing else.
PROP(references, 8000, 160000, "two kinds of change happened") {
    RDesc d = genMesh<Math::Real>(g, 10, 8, 1.0); g << d.str() << " | ";
    World<Math::Real> w; build(w, d); EG& es = w.elems; std::set<int> kinds;
    std::vector<std::unique_ptr<World<Math::Real>>> more;      // new owners of what elements refer to
    const Layer::Layer* none = nullptr; World<Math::Real>* cur = &w;
    int n = g.range(1, 8);
    for (int op = 0; op < n; op++) {
        int k = g.range(0, 7); g << k << " "; kinds.insert(k);
        if (k == 0 && !d.mats.empty()) { std::size_t m = g.pick(d.mats); es.setModel(cur->mats.getId(MatId(m))); for (auto& e : d.elems) e.mat = m; }
        else if (k == 1 && !d.layers.empty()) { std::size_t l = g.pick(d.layers).first; es.setLayer(cur->layers.getId(LayerId(l))); for (auto& e : d.elems) e.lay = l; }
        else if (k == 2 && !d.elems.empty()) {
            EDesc& e = d.elems[(std::size_t)g.draw(d.elems.size())];
            if (d.mats.empty() || g.chance(1, 3)) { es.setModel(ElemId(e.id), nullptr); e.mat = 0; } else { e.mat = g.pick(d.mats); es.setModel(ElemId(e.id), cur->mats.getId(MatId(e.mat))); }
        } else if (k == 3 && !d.elems.empty()) {
            EDesc& e = d.elems[(std::size_t)g.draw(d.elems.size())];
            if (d.layers.empty() || g.chance(1, 3)) { es.setLayer(ElemId(e.id), none); e.lay = 0; } else { e.lay = g.pick(d.layers).first; es.setLayer(ElemId(e.id), cur->layers.getId(LayerId(e.lay))); }
        } else if (k == 4) {
            std::vector<MatId> v; std::set<std::size_t> s; int c = g.range(1, 2);
            for (int i = 0; i < c; i++) { std::size_t m = g.chance(1, 4) || d.mats.empty() ? (std::size_t)g.range(0, 20) : g.pick(d.mats); v.push_back(MatId(m)); s.insert(m); }
            if (c == 1) es.removeMatId(v[0]); else es.removeMatId(v);
            std::vector<EDesc> r; for (auto& e : d.elems) if (!s.count(e.mat)) r.push_back(e); d.elems = r;
        } else if (k == 5) {                           // other coordinates with the same identifiers, moved
            more.emplace_back(new World<Math::Real>); auto& nw = *more.back(); V3 dv(g.range(0, 2), g.range(0, 2), 0.5);
            for (auto& c : d.coords) { for (int q = 0; q < 3; q++) c.second(q) += dv(q); nw.coords.add(new CoordR3(CoordId(c.first), c.second)); }
            es.reassignPointers(nw.coords);
            for (std::size_t i = 0; i < es.size(); i++) for (std::size_t j = 0; j < es(i)->numberOfCoordinates(); j++) CHECK(es(i)->getV(j) == nw.coords.getId(es(i)->getV(j)->getId()), "coordinate of the new set");
        } else if (k == 6) {
            more.emplace_back(new World<Math::Real>); auto& nw = *more.back(); for (auto& l : d.layers) nw.layers.add(new Layer::Layer(LayerId(l.first), l.second));
            es.reassignPointers(nw.layers);
            for (std::size_t i = 0; i < es.size(); i++) if (es(i)->getLayer()) CHECK(es(i)->getLayer() == nw.layers.getId(es(i)->getLayerId()), "layer of the new set");
        } else if (k == 7) {
            more.emplace_back(new World<Math::Real>); auto& nw = *more.back(); ModelGroup mg; for (auto m : d.mats) nw.mats.add(new PhysicalModel::Predefined::PEC(MatId(m)));
            for (std::size_t i = 0; i < nw.mats.size(); i++) mg.add(nw.mats(i));
            es.reassignPointers(mg);
            for (std::size_t i = 0; i < es.size(); i++) if (es(i)->getModel()) CHECK(es(i)->getModel() == nw.mats.getId(es(i)->getMatId()), "material of the new set");
        }
        sameElems(es, d.elems, d, "after a change");
    }
    g.nontrivial(kinds.size() >= 2);
}
