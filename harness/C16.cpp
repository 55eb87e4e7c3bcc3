// C16: connectivity graphs describe adjacency exactly.
#include "mesh.h"
#include "geometry/graph/Connectivities.h"
#include <set>
#include <numeric>
using namespace geo;
using pbt::Gen;
namespace Gr = SEMBA::Geometry::Graph;
typedef std::set<std::size_t> Ids;

// ---- Graph of elements and vertices ----------------------------------------
// Model: the vertex instances of every element (after splits a coordinate may
// have several instances).
struct GModel {
    struct E { std::size_t id; std::vector<int> v; };   // v: instance of each corner
    std::vector<E> e; std::vector<std::size_t> inst;    // inst: coordinate of each instance
};
template <class T> GModel modelOf(const MDesc<T>& d, const std::vector<std::size_t>& which) {
    GModel m; std::map<std::size_t, int> at;
    for (auto i : which) {
        GModel::E e; e.id = d.elems[i].id;
        for (auto c : d.elems[i].c) { if (!at.count(c)) { at[c] = (int)m.inst.size(); m.inst.push_back(c); } e.v.push_back(at[c]); }
        m.e.push_back(e);
    }
    return m;
}
template <class V> Ids neighIds(const V* e) { Ids r; for (std::size_t i = 0; i < e->numNeighbors(); i++) r.insert(e->getNeighbor(i)->elem()->getId().toInt()); return r; }
template <class GT> void sameGraph(GT& gr, const GModel& m, const std::string& when) {
    CHECK_EQ(gr.numElems(), m.e.size(), "elements " << when); CHECK_EQ(gr.numBounds(), m.inst.size(), "vertices " << when);
    std::map<const typename GT::GraphBound*, int> seen; std::map<int, const typename GT::GraphBound*> of;
    for (std::size_t i = 0; i < m.e.size(); i++) {
        auto e = gr.elem(i); CHECK_EQ(e->elem()->getId().toInt(), m.e[i].id, "element " << i << " " << when);
        CHECK_EQ(e->numBounds(), m.e[i].v.size(), "vertices of element " << m.e[i].id << " " << when);
        for (std::size_t k = 0; k < m.e[i].v.size(); k++) {
            int in = m.e[i].v[k]; auto b = e->getBound(k);
            CHECK_EQ(b->elem()->getId().toInt(), m.inst[(std::size_t)in], "vertex " << k << " of element " << m.e[i].id << " " << when);
            CHECK(!of.count(in) || of[in] == b, "one vertex for elements that share it " << when); CHECK(!seen.count(b) || seen[b] == in, "separate vertices " << when); of[in] = b; seen[b] = in;
            CHECK(b->elem() == e->elem()->getV(k), "the coordinate of the element " << when);
        }
    }
    Ids known; for (std::size_t i = 0; i < gr.numBounds(); i++) CHECK(seen.count(gr.bound(i)) == 1, "every vertex belongs to an element " << when);
    CHECK_EQ(seen.size(), gr.numBounds(), "vertices " << when);
    // neighbours of elements
    for (std::size_t i = 0; i < m.e.size(); i++) {
        Ids all; auto e = gr.elem(i);
        for (std::size_t k = 0; k < m.e[i].v.size(); k++) {
            Ids w; for (std::size_t j = 0; j < m.e.size(); j++) if (j != i && std::count(m.e[j].v.begin(), m.e[j].v.end(), m.e[i].v[k])) w.insert(m.e[j].id);
            Ids got; for (std::size_t q = 0; q < e->numBoundNeighbors(k); q++) { auto nb = e->getBoundNeighbor(k, q); got.insert(nb->elem()->getId().toInt()); }
            CHECK(got == w, "neighbours of element " << m.e[i].id << " through its vertex " << k << " " << when); all.insert(w.begin(), w.end());
        }
        CHECK(neighIds(e) == all, "neighbours of element " << m.e[i].id << " " << when); CHECK_EQ(e->numNeighbors(), all.size(), "each neighbour once " << when);
        for (std::size_t q = 0; q < e->numNeighbors(); q++) { bool in = false; for (std::size_t j = 0; j < m.e.size(); j++) in |= gr.elem(j) == e->getNeighbor(q); CHECK(in, "a neighbour of the same graph " << when);
            auto nb = e->getNeighbor(q); bool back = false; for (std::size_t x = 0; x < nb->numNeighbors(); x++) back |= nb->getNeighbor(x) == e; CHECK(back, "symmetric adjacency " << when); }
    }
    // elements and neighbours of vertices
    for (auto& o : of) {
        auto b = o.second; std::multiset<std::size_t> w, got; std::set<const void*> nw, ngot;
        for (auto& e : m.e) { long n = std::count(e.v.begin(), e.v.end(), o.first); for (long q = 0; q < n; q++) w.insert(e.id); if (n) for (auto v : e.v) if (m.inst[(std::size_t)v] != m.inst[(std::size_t)o.first]) nw.insert(of[v]); }
        for (std::size_t q = 0; q < b->numBounds(); q++) got.insert(b->getBound(q)->elem()->getId().toInt());
        CHECK(std::set<std::size_t>(got.begin(), got.end()) == std::set<std::size_t>(w.begin(), w.end()), "elements at vertex " << m.inst[(std::size_t)o.first] << " " << when);
        for (std::size_t q = 0; q < b->numNeighbors(); q++) ngot.insert(b->getNeighbor(q));
        CHECK(ngot == nw, "neighbours of vertex " << m.inst[(std::size_t)o.first] << " " << when); CHECK_EQ(b->numNeighbors(), nw.size(), "each neighbour once " << when);
    }
}
static int root(std::vector<int>& p, int i) { while (p[(std::size_t)i] != i) i = p[(std::size_t)i]; return i; }
template <class GT> std::size_t components(GT& gr, const GModel& m, const std::string& when) {
    std::vector<int> p(m.e.size()); std::iota(p.begin(), p.end(), 0);
    for (std::size_t i = 0; i < p.size(); i++) for (std::size_t j = 0; j < i; j++) for (auto v : m.e[i].v) if (std::count(m.e[j].v.begin(), m.e[j].v.end(), v)) { p[(std::size_t)root(p, (int)i)] = root(p, (int)j); break; }
    std::map<int, Ids> w; for (std::size_t i = 0; i < p.size(); i++) w[root(p, (int)i)].insert(m.e[i].id);
    std::set<Ids> want, got; for (auto& x : w) want.insert(x.second);
    for (int rep = 0; rep < 2; rep++) {
        auto c = gr.getConnectedComponents(); got.clear(); std::size_t n = 0;
        for (auto& x : c) { Ids s; for (auto e : x) s.insert(e->getId().toInt()); CHECK_EQ(s.size(), x.size(), "each element once in its component " << when); n += x.size(); got.insert(s); }
        CHECK_EQ(n, m.e.size(), "the components partition the elements " << when); CHECK_EQ(c.size(), want.size(), "number of components " << when); CHECK(got == want, "components " << when);
    }
    return want.size();
}
template <class T> void graph(Gen& g) {
    typedef Element::Element<T> E; typedef Coordinate::Coordinate<T,3> C; typedef Gr::Vertices<E, C> GT;
    MDesc<T> d = genMesh<T>(g, 10, 20); if (d.coords.size() < 16) { std::size_t top = 0; for (auto& c : d.coords) top = std::max(top, c.first); for (int q = 0; q < 12; q++) d.coords.push_back({top + 1 + (std::size_t)q, typename MDesc<T>::Vec((T)q)}); }
    if (!g.chance(1, 4)) for (auto& e : d.elems) if (!g.chance(1, 8)) { e.kind = g.chance(1, 6) ? NODE : g.chance(1, 4) ? QUAD4 : LINE2; e.c.clear(); std::size_t at = (std::size_t)g.draw(d.coords.size()); for (std::size_t q = 0; q < nCoords(e.kind); q++) { e.c.push_back(d.coords[at].first); at = (at + 1 + (std::size_t)g.draw(3)) % d.coords.size(); } }
    World<T> w; build(w, d); g << d.str();
    std::vector<std::size_t> which; for (std::size_t i = 0; i < d.elems.size(); i++) if (!g.chance(1, 6)) which.push_back(i);
    SEMBA::Group::Group<const E> eg; for (auto i : which) eg.add(w.elems(i));
    GModel m = modelOf(d, which); std::unique_ptr<GT> a(new GT); a->init(eg); sameGraph(*a, m, "as built"); std::size_t n = components(*a, m, "as built");
    g.nontrivial(n > 1 && n < m.e.size()); g.label(n > 1, "several components"); g.label(n < m.e.size(), "a component of several elements");
    // copies, assignments, rebuilding
    std::vector<std::size_t> which2; for (std::size_t i = 0; i < d.elems.size(); i++) if (g.flip()) which2.push_back(i);
    SEMBA::Group::Group<const E> eg2; for (auto i : which2) eg2.add(w.elems(i));
    GModel m2 = modelOf(d, which2); GT c(*a), b; b.init(eg2); sameGraph(c, m, "of a copy"); sameGraph(b, m2, "of another graph"); GT e(b); e = *a; sameGraph(e, m, "of an assigned graph");
    GT* self = &e; e = *self; sameGraph(e, m, "assigned to itself"); a->init(eg2); sameGraph(*a, m2, "built again"); components(*a, m2, "built again"); sameGraph(e, m, "after rebuilding the source"); a.reset(); sameGraph(c, m, "after destroying the source"); components(c, m, "of a copy"); components(e, m, "of an assigned graph");
    // marks
    for (std::size_t i = 0; i < c.numElems(); i++) { CHECK(!c.elem(i)->visited(), "no mark after a search"); c.elem(i)->markVisited(); CHECK(c.elem(i)->visited(), "marked"); } c.resetVisited(); for (std::size_t i = 0; i < c.numElems(); i++) CHECK(!c.elem(i)->visited(), "no mark after a reset");
}
PROP(graphReal, 5000, 80000, "between one and all elements in a component") { graph<Math::Real>(g); }
PROP(graphInt, 4000, 60000, "between one and all elements in a component") { graph<Math::Int>(g); }

// Networks of lines, with vertices split in a random order.
PROP(split, 6000, 100000, "a vertex with three lines or more is split") {
    typedef Gr::Vertices<LinR2, CoordR3> GT; std::size_t nc = 1 + g.many(1, 7, 80); RDesc d; auto ids = genIds(g, nc); double z = 0;
    for (auto id : ids) { d.coords.push_back({id, V3(z, 0.5 * z * z, 1)}); z += 1; }
    std::size_t ne = g.many(1, 9, 120); auto ei = genIds(g, ne); for (auto id : ei) { EDesc e; e.id = id; e.kind = LINE2; std::size_t i = (std::size_t)g.draw(nc), j = (std::size_t)g.draw(nc - 1); if (j >= i) j++; e.c = {ids[i], ids[j]}; e.lay = e.mat = 0; d.elems.push_back(e); }
    World<Math::Real> w; build(w, d); g << d.str(); SEMBA::Group::Group<const LinR2> eg; for (std::size_t i = 0; i < w.elems.size(); i++) eg.add(w.elems(i)->castTo<LinR2>());
    std::vector<std::size_t> all(ne); std::iota(all.begin(), all.end(), std::size_t(0)); GModel m = modelOf(d, all); GT gr; gr.init(eg); sameGraph(gr, m, "as built"); components(gr, m, "as built");
    int n = g.range(1, 4);
    for (int op = 0; op < n; op++) {
        std::size_t i = (std::size_t)g.draw(gr.numBounds()); std::size_t coord = gr.bound(i)->elem()->getId().toInt(); g << " split " << coord;
        // the instance of this vertex in the model, by one of its elements
        std::size_t el = gr.bound(i)->getBound(0)->elem()->getId().toInt(); int in = -1; for (auto& e : m.e) if (e.id == el) for (auto v : e.v) if (m.inst[(std::size_t)v] == coord) in = v;
        long deg = 0; for (auto& e : m.e) deg += std::count(e.v.begin(), e.v.end(), in); g.nontrivial(deg >= 3);
        gr.splitBound(i); bool first = true;
        for (auto& e : m.e) for (auto& v : e.v) if (v == in) { if (!first) { v = (int)m.inst.size(); m.inst.push_back(coord); } first = false; }
        std::string when = "after split " + std::to_string(op); CHECK_EQ(gr.numBounds(), m.inst.size(), "vertices " << when); sameGraph(gr, m, when); components(gr, m, when);
        GT c(gr); sameGraph(c, m, when + ", of a copy");
    }
}

// ---- Connectivities of volumes and surfaces --------------------------------
typedef std::multiset<std::size_t> Key;
struct Vol { std::size_t id; std::vector<std::vector<std::size_t>> faces; };
// Faces of the kinds by the documented numbering of getSideCoordinates are
// taken from the elements themselves; the pairing is what is checked.
static Key key(const std::vector<const CoordR3*>& v) { Key k; for (auto c : v) k.insert(c->getId().toInt()); return k; }
static V3 outward(const ElemR* e, std::size_t f) {   // outward normal from the geometry
    auto s = e->getSideVertices(f); V3 a = s[0]->pos(), n; for (std::size_t i = 1; i + 1 < s.size(); i++) { n = sub(s[i]->pos(), a) ^ sub(s[i + 1]->pos(), a); if (n.norm() > 1e-9) break; }
    n = n * (1.0 / n.norm()); V3 c(0.0); for (std::size_t i = 0; i < e->numberOfVertices(); i++) c += e->getVertex(i)->pos(); c = c * (1.0 / (double)e->numberOfVertices()); if (sub(c, a).dot(n) > 0) n = n * -1.0; return n;
}
PROP(connectivities, 1200, 30000, "an inner surface and an outer one") {
    World<Math::Real> w; std::size_t N[3]; for (auto& n : N) n = (std::size_t)g.range(1, 2); std::size_t id = 0, eid = 0; std::map<std::vector<std::size_t>, std::size_t> at;
    // affine image of a lattice, identifiers in random order
    std::size_t total = (N[0] + 1) * (N[1] + 1) * (N[2] + 1); auto ids = genIds(g, total); double sx = g.oneOf<double>({1, 0.3, 2}), sh = g.oneOf<double>({0, 0.25, -0.5}); bool bent = g.chance(1, 3), onlyTets = bent || g.chance(1, 3);
    for (std::size_t i = 0; i <= N[0]; i++) for (std::size_t j = 0; j <= N[1]; j++) for (std::size_t k = 0; k <= N[2]; k++) { V3 p((double)i * sx + sh * (double)j, (double)j + sh * (double)k, (double)k * 1.5); if (bent) for (int q = 0; q < 3; q++) p(q) += 0.1 * g.unit(); at[{i, j, k}] = ids[id]; w.coords.add(new CoordR3(CoordId(ids[id]), p)); id++; }
    auto C = [&](std::size_t i) { return w.coords.getId(CoordId(i)); }; g << N[0] << N[1] << N[2] << (bent ? " bent" : "") << ": ";
    std::size_t eidStep = (std::size_t)g.range(1, 3); auto next = [&] { eid += eidStep; return ElemId(eid); };
    for (std::size_t i = 0; i < N[0]; i++) for (std::size_t j = 0; j < N[1]; j++) for (std::size_t k = 0; k < N[2]; k++) {
        std::size_t v[8]; int s = 0; for (auto& o : std::vector<std::vector<std::size_t>>{{0,0,0},{0,0,1},{0,1,1},{0,1,0},{1,0,0},{1,0,1},{1,1,1},{1,1,0}}) v[s++] = at[{i + o[0], j + o[1], k + o[2]}];
        int kind = onlyTets ? 1 : g.range(0, 2);
        if (kind == 0) { std::vector<const CoordR3*> c; for (int q : {0, 3, 7, 4, 1, 2, 6, 5}) c.push_back(C(v[q])); w.elems.add(new HexR8(next(), c.data(), nullptr, nullptr)); g << "hex "; }
        else if (kind == 1) {  // six tetrahedra around the diagonal 0-6, some left out
            static const int path[6][2] = {{1, 2}, {2, 3}, {3, 7}, {7, 4}, {4, 5}, {5, 1}};
            for (auto& t : path) if (!g.chance(1, 5)) { std::vector<std::size_t> q = {v[0], v[t[0]], v[t[1]], v[6]}; g.shuffle(q); std::vector<const CoordR3*> c; for (auto x : q) c.push_back(C(x)); if (det3(sub(c[1]->pos(), c[0]->pos()), sub(c[2]->pos(), c[0]->pos()), sub(c[3]->pos(), c[0]->pos())) > 0) std::swap(c[0], c[1]); w.elems.add(new Tet4(next(), c.data(), nullptr, nullptr)); g << "tet "; } } }
    std::size_t nv = w.elems.size(); std::map<Key, std::vector<std::pair<std::size_t, std::size_t>>> faces;   // vertices -> (element, face)
    for (std::size_t i = 0; i < nv; i++) for (std::size_t f = 0; f < w.elems(i)->numberOfFaces(); f++) { CHECK(w.elems(i)->castTo<VolR>()->getSideNormal(f).dot(outward(w.elems(i), f)) > 0, "outward normals, element " << i); faces[key(w.elems(i)->getSideCoordinates(f))].push_back({i, f}); }
    for (auto& f : faces) CHECK(f.second.size() <= 2, "a conforming mesh");
    // surfaces on some faces, in either orientation and with any first vertex; others on no face
    std::vector<Key> done; bool inner = false, outer = false;
    for (auto& f : faces) if (g.chance(1, 3)) { auto x = g.pick(f.second); auto c = w.elems(x.first)->getSideCoordinates(x.second); std::rotate(c.begin(), c.begin() + (long)g.draw(c.size()), c.end()); if (g.flip()) std::reverse(c.begin(), c.end());
        if (c.size() == 3) w.elems.add(new Tri3(next(), c.data(), nullptr, nullptr)); else w.elems.add(new QuaR4(next(), c.data(), nullptr, nullptr)); (f.second.size() == 2 ? inner : outer) = true; done.push_back(f.first); g << "surf "; }
    for (int q = g.range(0, 2); q-- > 0;) { std::vector<const CoordR3*> c; std::vector<std::size_t> s(ids); g.shuffle(s); for (int i = 0; i < 3; i++) c.push_back(C(s[(std::size_t)i])); V3 n = sub(c[1]->pos(), c[0]->pos()) ^ sub(c[2]->pos(), c[0]->pos()); if (n.norm() < 1e-6 || faces.count(key(c))) continue; w.elems.add(new Tri3(next(), c.data(), nullptr, nullptr)); g << "free "; }
    if (g.flip()) { std::vector<const CoordR3*> c = {C(ids[0]), C(ids[1])}; w.elems.add(new LinR2(next(), c.data(), nullptr, nullptr)); }
    g.nontrivial(inner && outer); g.label(inner, "inner surface"); g.label(outer, "outer surface");
    std::vector<std::size_t> order(w.elems.size()); std::iota(order.begin(), order.end(), std::size_t(0)); g.shuffle(order);
    SEMBA::Group::Group<const ElemR> eg; for (auto i : order) eg.add(w.elems(i));
    std::unique_ptr<Gr::Connectivities> src(new Gr::Connectivities(eg)); Gr::Connectivities none; CHECK_EQ(none.size(), std::size_t(0), "empty"); CHECK(none.existsReciprocity(), "empty");
    std::unique_ptr<Gr::Connectivities> use; int how = g.range(0, 2); if (how == 0) use = std::move(src); else if (how == 1) use.reset(new Gr::Connectivities(*src)); else { use.reset(new Gr::Connectivities(none)); *use = *src; } src.reset();
    const Gr::Connectivities& cn = *use; CHECK_EQ(cn.size(), w.elems.size(), "elements");
    CHECK(cn.existsReciprocity(), "adjacency is reciprocal");
    for (std::size_t i = 0; i < w.elems.size(); i++) {
        const ElemR* e = w.elems(i);
        if (e->is<VolR>()) for (std::size_t f = 0; f < e->numberOfFaces(); f++) {
            Key k = key(e->getSideCoordinates(f)); auto& ff = faces[k]; Gr::Face want(nullptr, 0); for (auto& x : ff) if (!(x.first == i && x.second == f)) want = Gr::Face(w.elems(x.first)->castTo<VolR>(), x.second);
            Gr::Face self(e->castTo<VolR>(), f), got = cn.getNeighFace(self); CHECK(got == want, "face paired with face " << f << " of " << e->getId()); CHECK(cn.isDomainBoundary(self) == (want.first == nullptr), "boundary: face " << f << " of " << e->getId());
            if (got.first) CHECK(cn.getNeighFace(got) == self, "reciprocal");
            const SurfR* s = nullptr; for (std::size_t j = nv; j < w.elems.size(); j++) if (w.elems(j)->is<SurfR>() && key(w.elems(j)->getCoordinates()) == k) s = w.elems(j)->castTo<SurfR>();
            CHECK(cn.getNeighSurf(self) == s, "surface on face " << f << " of " << e->getId());
        }
        if (e->is<SurfR>()) {
            auto s = e->castTo<SurfR>(); auto it = faces.find(key(e->getCoordinates())); Gr::Face in(nullptr, 0), out(nullptr, 0); std::size_t n = it == faces.end() ? 0 : it->second.size();
            for (std::size_t q = 0; q < n; q++) { auto x = it->second[q]; Gr::Face y(w.elems(x.first)->castTo<VolR>(), x.second); V3 c = s->getNormal(), o = outward(w.elems(x.first), x.second); if (n == 1 || c.dot(o) > 0) in = y; else out = y; }
            CHECK(cn.getInnerFace(s) == in, "inner face of surface " << e->getId()); CHECK(cn.getOuterFace(s) == out, "outer face of surface " << e->getId()); CHECK(cn.isDomainBoundary(s) == (n < 2), "surface " << e->getId() << " on the boundary");
        }
    }
    CHECK(cn.isDomainBoundary(Gr::Face(nullptr, 0)), "no face");
}
