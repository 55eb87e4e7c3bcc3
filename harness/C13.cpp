// C13: element areas, volumes, normals and containment match the geometry.
#include "mesh.h"
#include "geometry/element/Polyhedron.h"
#include "geometry/element/LineConformal.h"
#include "geometry/coordinate/Conformal.h"
#include <set>
using namespace geo;
using pbt::Gen;
namespace El = SEMBA::Geometry::Element;
typedef std::vector<V3> Pts;

static V3 add(const V3& a, const V3& b) { return V3(a(0) + b(0), a(1) + b(1), a(2) + b(2)); }
static V3 mul(const V3& a, double s) { return V3(a(0) * s, a(1) * s, a(2) * s); }
static V3 cross(const V3& a, const V3& b) { return V3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
static double dot(const V3& a, const V3& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
static double len(const V3& a) { return std::sqrt(dot(a, a)); }
struct Rigid { V3 r[3], t; double s; V3 rot(const V3& p) const { return V3(dot(r[0], p), dot(r[1], p), dot(r[2], p)); } V3 operator()(const V3& p) const { return add(mul(rot(p), s), t); } };
static Rigid genRigid(Gen& g) {
    Rigid R; R.s = g.oneOf<double>({1, 1, 1e-3, 1e-6, 40, 0.37});
    int k = g.range(0, 2); V3 ax(0, 0, 1); double an = 0;
    if (k == 1) { ax = V3(g.range(0, 1), g.range(0, 1), 1); an = M_PI / 2 * g.range(0, 3); if (ax(0) || ax(1)) an = M_PI * 2 / 3 * g.range(0, 2); }
    if (k == 2) { ax = V3(g.real(-1, 1), g.real(-1, 1), 1.2); an = g.real(0, 6.283); }
    ax = mul(ax, 1 / len(ax)); double c = std::cos(an), s = std::sin(an);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.r[i](j) = (i == j ? c : 0) + (1 - c) * ax(i) * ax(j);
    R.r[0](1) -= s * ax(2); R.r[0](2) += s * ax(1); R.r[1](0) += s * ax(2); R.r[1](2) -= s * ax(0); R.r[2](0) -= s * ax(1); R.r[2](1) += s * ax(0);
    for (int i = 0; i < 3; i++) R.t(i) = R.s * g.oneOf<double>({0, 0, -3, 2.5});
    return R;
}
struct Cs {                                       // owns coordinates
    std::vector<std::unique_ptr<CoordR3>> own; std::vector<const CoordR3*> v;
    void add(const V3& p, std::size_t id = 0) { own.emplace_back(new CoordR3(CoordId(id ? id : own.size() + 1), p)); v.push_back(own.back().get()); }
    explicit Cs(const Pts& p = Pts()) { for (auto& q : p) add(q); }
    std::vector<const CoordR3*> sel(const std::vector<std::size_t>& i) const { std::vector<const CoordR3*> r; for (auto k : i) r.push_back(v[k]); return r; }
};
static V3 pt(Gen& g) { int k = g.range(0, 2); V3 p; for (int d = 0; d < 3; d++) p(d) = k == 0 ? (double)g.range(-2, 2) : g.real(-2, 2); return p; }
static std::string show(const Pts& p) { std::ostringstream o; o.precision(12); for (auto& q : p) o << q << " "; return o.str(); }
static void sameV(const V3& a, const V3& b, double tol, const char* what) { for (int k = 0; k < 3; k++) CHECK_NEAR(a(k), b(k), 0, tol, what << " component " << k); }

PROP(measures, 6000, 120000, "the shape is rotated or scaled") {
    Rigid R = genRigid(g); double s = R.s;
    Pts p; for (int i = 0; i < 4; i++) p.push_back(pt(g));
    // A parallelepiped with edges p1-p0, p2-p0, p3-p0.
    V3 a = sub(p[1], p[0]), b = sub(p[2], p[0]), c = sub(p[3], p[0]);
    double vol = det3(a, b, c), sc = len(a) * len(b) * len(c);
    if (std::fabs(vol) < 1e-3 * sc || sc < 1e-6) g.discard();
    if (len(cross(a, b)) < 1e-3 * len(a) * len(b)) g.discard();
    g << show(p) << " scale " << s << " move " << R.t << " rot " << R.r[0] << R.r[1] << R.r[2];
    g.nontrivial(s != 1 || R.r[0](0) != 1);
    Pts q; for (auto& x : p) q.push_back(R(x));
    double off = 1 + len(R.t) / s;                 // positions lose digits when moved
    double eps = 1e-9 * off;
    Cs cs(q); std::vector<const CoordR3*> v = cs.v;
    Tri3 tri(ElemId(1), v.data()); Tet4 tet(ElemId(2), v.data(), nullptr);
    CHECK_NEAR(tri.getArea(), 0.5 * len(cross(a, b)) * s * s, eps, eps * s * s * 1e-3, "area of the triangle");
    V3 n = cross(a, b); sameV(tri.getNormal(), R.rot(mul(n, 1 / len(n))), 1e-6 * off, "normal of the triangle");
    CHECK_NEAR(std::fabs(tet.getVolume()), std::fabs(vol) / 6 * s * s * s, 1e-7 * off, 1e-7 * off * s * s * s, "volume of the tetrahedron");
    V3 cen(0, 0, 0); for (auto& x : q) cen = add(cen, mul(x, 0.25));
    V3 sum(0, 0, 0); double total = 0; int outward = 0;
    for (std::size_t f = 0; f < 4; f++) {
        V3 x[3]; for (std::size_t i = 0; i < 3; i++) x[i] = tet.getSideVertex(f, i)->pos();
        V3 nn = cross(sub(x[1], x[0]), sub(x[2], x[0])); double ar = 0.5 * len(nn); nn = mul(nn, 1 / len(nn));
        CHECK_NEAR(tet.getAreaOfFace(f), ar, eps, 1e-12 * s * s, "area of face " << f); sameV(tet.getSideNormal(f), nn, 1e-6 * off, "normal of a face");
        sum = add(sum, mul(tet.getSideNormal(f), tet.getAreaOfFace(f))); total += ar; outward += dot(nn, sub(x[0], cen)) > 0;
        std::unique_ptr<Tri3> t(tet.getTri3Face(f)); CHECK_NEAR(t->getArea(), ar, eps, 1e-12 * s * s, "area of the triangle of face " << f);
        CHECK(tet.isLocalFace(f, *t), "its own face " << f);
    }
    CHECK(outward == 0 || outward == 4, "faces of a tetrahedron are oriented alike: " << outward);
    for (int k = 0; k < 3; k++) CHECK_NEAR(sum(k), 0.0, 0, 1e-6 * off * total, "the faces of a tetrahedron are closed");
    // Parallelepiped, vertices as in a box: 0 a a+b b, then moved by c.
    V3 o = p[0]; Pts h = {o, add(o, a), add(add(o, a), b), add(o, b)}; for (int i = 0; i < 4; i++) h.push_back(add(h[(std::size_t)i], c)); for (auto& x : h) x = R(x);
    Cs ch(h); v = ch.v; HexR8 hex(ElemId(3), v.data(), nullptr); V3 hs(0, 0, 0), hc(0, 0, 0); for (auto& x : h) hc = add(hc, mul(x, 0.125)); outward = 0;
    double ar[3] = {len(cross(a, b)) * s * s, len(cross(b, c)) * s * s, len(cross(a, c)) * s * s}; std::multiset<int> seen;
    for (std::size_t f = 0; f < 6; f++) {
        V3 x[4]; for (std::size_t i = 0; i < 4; i++) x[i] = hex.getSideVertex(f, i)->pos();
        V3 nn = cross(sub(x[1], x[0]), sub(x[3], x[0])); double area = len(nn);
        CHECK_NEAR(hex.getAreaOfFace(f), area, 1e-7 * off, 1e-9 * s * s, "area of face " << f << " of the hexahedron");
        sameV(hex.getSideNormal(f), mul(nn, 1 / area), 1e-5 * off, "normal of a face of the hexahedron");
        hs = add(hs, mul(hex.getSideNormal(f), hex.getAreaOfFace(f))); outward += dot(nn, sub(x[0], hc)) > 0; total += area;
        QuaR4 qd(ElemId(9), std::array<const CoordR3*, 4>{{hex.getSideVertex(f, 0), hex.getSideVertex(f, 1), hex.getSideVertex(f, 2), hex.getSideVertex(f, 3)}}, nullptr, nullptr);
        sameV(qd.getNormal(), mul(nn, 1 / area), 1e-5 * off, "normal of the quadrilateral of a face"); CHECK(hex.isLocalFace(f, qd), "its own face " << f);
        CHECK_EQ(hex.getFaceNumber(&qd), f, "number of the face");
    }
    double tot2 = 0; for (std::size_t f = 0; f < 6; f++) tot2 += hex.getAreaOfFace(f);
    CHECK_NEAR(tot2, 2 * (ar[0] + ar[1] + ar[2]), 1e-7 * off, 1e-9 * s * s, "area of the parallelepiped");
    CHECK(outward == 0 || outward == 6, "faces of a hexahedron are oriented alike: " << outward);
    for (int k = 0; k < 3; k++) CHECK_NEAR(hs(k), 0.0, 0, 1e-6 * off * total, "the faces of a hexahedron are closed");
}

// Sides: which nodes, counts, quadratic elements.
static std::set<std::size_t> ids(const std::vector<const CoordR3*>& v) { std::set<std::size_t> r; for (auto c : v) r.insert(c->getId().toInt()); return r; }
PROP(sides, 3000, 40000, "the element has more than two sides") {
    int kind = g.range(0, KINDS - 1); EDesc e; e.kind = kind; e.id = (std::size_t)g.range(1, 9);
    std::size_t n = nCoords(kind); if (kind == POLYLINE) n = (std::size_t)g.range(2, 6); if (kind == POLYGON) n = (std::size_t)g.range(5, 8);
    Cs cs; auto id = genIds(g, n); for (std::size_t i = 0; i < n; i++) cs.add(V3(g.unit(), g.unit(), g.unit()), id[i]);
    if (kind == TET4) { Cs t; t.add(V3(0, 0, 0), id[0]); t.add(V3(1, 0, 0), id[1]); t.add(V3(0, 1, 0), id[2]); t.add(V3(0, 0, 1), id[3]); std::swap(cs.own, t.own); std::swap(cs.v, t.v); }
    g << kindName(kind) << " " << n;
    Layer::Layer lay(LayerId(4), "l"); PhysicalModel::Predefined::PEC mat(MatId(5));
    std::unique_ptr<ElemR> el(makeElem(e, cs.v, &lay, &mat));
    CHECK_EQ(el->numberOfCoordinates(), n, "coordinates"); CHECK(el->getCoordinates() == cs.v, "coordinates as given");
    CHECK(el->getLayerId() == LayerId(4) && el->getMatId() == MatId(5) && el->getId() == ElemId(e.id), "identifiers");
    std::vector<const CoordR3*> vt = el->getVertices();
    static const std::size_t nv[] = {1, 2, 2, 3, 3, 4, 0, 4, 4, 8}, nf[] = {1, 2, 2, 3, 3, 4, 0, 4, 4, 6};
    std::size_t wv = kind == POLYGON ? n : nv[kind], wf = kind == POLYGON ? n : nf[kind]; g.nontrivial(wf > 2);
    CHECK_EQ(el->numberOfVertices(), wv, "vertices"); CHECK_EQ(vt.size(), wv, "vertices"); CHECK_EQ(ids(vt).size(), wv, "vertices are distinct"); CHECK_EQ(el->numberOfFaces(), wf, "sides");
    for (auto c : vt) CHECK(std::find(cs.v.begin(), cs.v.end(), c) != cs.v.end(), "a vertex is a coordinate of the element");
    std::map<std::set<std::size_t>, int> edges; std::set<std::set<std::size_t>> faces; std::map<std::size_t, int> used;
    for (std::size_t f = 0; f < wf; f++) {
        auto sv = el->getSideVertices(f), sc = el->getSideCoordinates(f);
        CHECK_EQ(sv.size(), el->numberOfSideVertices(f), "vertices of side " << f); CHECK_EQ(sc.size(), el->numberOfSideCoordinates(f), "coordinates of side " << f);
        for (std::size_t i = 0; i < sv.size(); i++) CHECK(sv[i] == el->getSideVertex(f, i), "side vertex");
        for (std::size_t i = 0; i < sc.size(); i++) CHECK(sc[i] == el->getSideV(f, i), "side coordinate");
        auto sid = ids(sv), cid = ids(sc), all = ids(vt), every = ids(cs.v); CHECK_EQ(sid.size(), sv.size(), "distinct vertices of side " << f);
        for (auto x : sid) { CHECK(all.count(x), "side vertices are vertices"); CHECK(cid.count(x), "side vertices are side coordinates"); }
        for (auto x : cid) CHECK(every.count(x), "side coordinates are coordinates");
        if (kind != NODE) CHECK(faces.insert(sid).second, "side " << f << " of " << kindName(kind) << " is not another side");
        for (auto x : sid) used[x]++;
        if (dimOf(kind) == 3) for (std::size_t i = 0; i < sv.size(); i++) edges[{sv[i]->getId().toInt(), sv[(i + 1) % sv.size()]->getId().toInt()}]++;
    }
    int per = kind == NODE ? 1 : dimOf(kind) == 1 ? 1 : dimOf(kind) == 2 ? 2 : 3;
    for (auto c : vt) CHECK_EQ(used[c->getId().toInt()], per, "sides at vertex " << c->getId() << " of " << kindName(kind));
    for (auto& x : edges) CHECK_EQ(x.second, 2, "faces at an edge");
    if (dimOf(kind) == 3) CHECK_EQ(edges.size(), std::size_t(kind == HEX8 ? 12 : 6), "edges");
    CHECK_EQ(el->isQuadratic(), kind == TRI6 || kind == TET10, "quadratic");
    // Replacing a coordinate.
    std::size_t r = (std::size_t)g.draw(n); CoordR3 other(CoordId(99), V3(0.3, 0.4, 0.9)); el->setV(r, &other);
    for (std::size_t i = 0; i < n; i++) CHECK(el->getV(i) == (i == r ? &other : cs.v[i]), "coordinate " << i << " after replacing " << r);
    el->setV(r, cs.v[r]);
    // A copy.
    std::unique_ptr<ElemR> cp(dynamic_cast<ElemR*>(el->cloneTo<ElemR>())); CHECK(*cp == *el && !(*cp != *el), "a copy is equal"); CHECK_EQ(kindOf(cp.get()), kind, "kind of a copy"); CHECK(cp->getCoordinates() == cs.v, "coordinates of a copy");
    cp->setV(r, &other); CHECK(el->getV(r) == cs.v[r], "the original keeps its coordinates");
}

// Quadratic elements: nodes at midpoints or not.
PROP(quadratic, 3000, 40000, "a node leaves its edge") {
    Rigid R = genRigid(g); Pts p; for (int i = 0; i < 4; i++) p.push_back(pt(g)); V3 a = sub(p[1], p[0]), b = sub(p[2], p[0]), c = sub(p[3], p[0]);
    if (std::fabs(det3(a, b, c)) < 1e-2) g.discard();
    for (auto& x : p) x = R(x);
    bool tet = g.flip(); std::size_t n = tet ? 10 : 6; g << (tet ? "tet10 " : "tri6 ") << show(p);
    // Place the nodes of a straight element wherever the class says its vertices and sides are.
    Cs dummy(Pts(n, V3(0, 0, 0))); std::vector<const CoordR3*> v = dummy.v;
    std::unique_ptr<ElemR> el(tet ? (ElemR*)new El::Tetrahedron10(ElemId(1), v.data()) : (ElemR*)new Tri6(ElemId(1), v.data()));
    std::vector<V3> pos(n, V3(1e9, 1e9, 1e9)); auto at = [&](const CoordR3* k) { return (std::size_t)k->getId().toInt() - 1; };
    for (std::size_t i = 0; i < el->numberOfVertices(); i++) pos[at(el->getVertex(i))] = p[i];
    std::vector<std::set<std::size_t>> mids(el->numberOfFaces());
    for (std::size_t f = 0; f < el->numberOfFaces(); f++) {
        if (!tet) { std::size_t m = at(el->getSideV(f, 1)); mids[f].insert(m); pos[m] = mul(add(pos[at(el->getSideV(f, 0))], pos[at(el->getSideV(f, 2))]), 0.5); }
        else { Tri6 t = dynamic_cast<El::Tetrahedron10&>(*el).getTri6Face(f); for (std::size_t s = 0; s < 3; s++) { std::size_t m = at(t.getSideV(s, 1)); mids[f].insert(m); pos[m] = mul(add(pos[at(t.getSideV(s, 0))], pos[at(t.getSideV(s, 2))]), 0.5); } }
    }
    for (auto& x : pos) CHECK(x(0) < 1e8, "every node is a vertex or the middle of an edge");
    bool bend = g.flip(); g.nontrivial(bend); std::set<std::size_t> all; for (auto& m : mids) all.insert(m.begin(), m.end()); CHECK_EQ(all.size(), std::size_t(tet ? 6 : 3), "middle nodes");
    std::size_t who = *std::next(all.begin(), (long)g.draw(all.size())); if (bend) { g << " bent " << who; for (int k = 0; k < 3; k++) pos[who](k) += R.s * g.oneOf<double>({0.1, -0.2, 0.5}); }
    Cs real(pos); for (std::size_t i = 0; i < n; i++) el->setV(i, real.v[i]);
    // Positions differ exactly: "curved" compares positions to 2.2e-14.
    bool exact = true; auto mid = [&](const CoordR3* x, const CoordR3* m, const CoordR3* y) { V3 z = sub(mul(add(x->pos(), y->pos()), 0.5), m->pos()); if (len(z) > 1e-15 && len(z) < 1e-12) exact = false; };
    if (!tet) for (std::size_t f = 0; f < 3; f++) mid(el->getSideV(f, 0), el->getSideV(f, 1), el->getSideV(f, 2));
    if (!exact) g.discard();
    CHECK_EQ(el->isCurved(), bend, "curved");
    if (tet) {
        auto& t = dynamic_cast<El::Tetrahedron10&>(*el);
        for (std::size_t f = 0; f < 4; f++) CHECK_EQ(t.isCurvedFace(f), bend && mids[f].count(who), "curved face " << f);
        const Math::Constants::CartesianPlane pl[3] = {Math::Constants::yz, Math::Constants::zx, Math::Constants::xy};
        for (std::size_t f = 0; f < 4; f++) for (int k = 0; k < 3; k++) { bool ok = true, sure = true; for (std::size_t i = 0; i < 6; i++) { double d = std::fabs(t.getSideV(f, i)->pos()(k) - t.getSideV(f, 0)->pos()(k)); ok &= d < 1e-9 * R.s; sure &= d == 0 || d > 1e-9 * R.s; } if (sure) { CHECK_EQ(t.isFaceContainedInPlane(f, pl[k]), ok, "face " << f << " in the plane normal to " << k); g.label(ok, "a face in a plane"); } }
        std::unique_ptr<Tet4> l(t.linearize()); for (std::size_t i = 0; i < 4; i++) CHECK(l->getVertex(i) == t.getVertex(i), "vertex of the straight element"); CHECK_EQ(l->getId(), ElemId(1), "its identifier"); for (std::size_t f = 0; f < 4; f++) CHECK(!l->isCurvedFace(f) && !l->isCurved(), "a straight element");
    } else { std::unique_ptr<Tri3> l(dynamic_cast<Tri6&>(*el).linearize()); for (std::size_t i = 0; i < 3; i++) CHECK(l->getVertex(i) == el->getVertex(i), "vertex of the straight element"); std::unique_ptr<Tri3> again(l->linearize()); CHECK(*again == *l && again.get() != l.get(), "a straight triangle is its own straight element"); for (std::size_t i = 0; i < 3; i++) CHECK(again->getVertex(i) == l->getVertex(i), "vertex of the straight element"); CHECK(!l->isCurved() && l->getId() == ElemId(1), "straight"); }
}

PROP(planes, 6000, 100000, "the answer is yes for some plane or corner") {
    double u = g.oneOf<double>({1, 1, 1e-3, 1e-6, 1e-7, 25}); int n = g.range(3, 6); Pts p; int flat = g.range(0, 3);   // 3: none
    V3 o(u * g.range(-2, 2), u * g.range(-2, 2), u * g.range(-2, 2));
    for (int i = 0; i < n; i++) { V3 q = V3(o(0) + u * g.range(-2, 2), o(1) + u * g.range(-2, 2), o(2) + u * g.range(-2, 2)); if (flat < 3) q(flat) = o(flat); p.push_back(q); }
    g << show(p); Cs cs(p); std::unique_ptr<SurfR> s;
    std::vector<const CoordR3*> v = cs.v;
    if (n == 3) s.reset(new Tri3(ElemId(1), v.data())); else if (n == 4) s.reset(new QuaR4(ElemId(1), v.data())); else s.reset(new El::Polygon(ElemId(1), v));
    bool in[3]; for (int k = 0; k < 3; k++) { in[k] = true; for (auto& q : p) { double d = std::fabs(q(k) - p[0](k)); if (d > 1e-9 * u) in[k] = false; if (d > 0 && d < 1e-9 * u) g.discard(); } }
    // Positions closer than the library's tolerance for coincidence count as equal.
    g.nontrivial(in[0] || in[1] || in[2]);
    CHECK_EQ(s->isContainedInPlane(Math::Constants::xy), in[2], "in a plane z = constant"); CHECK_EQ(s->isContainedInPlane(Math::Constants::yz), in[0], "in a plane x = constant"); CHECK_EQ(s->isContainedInPlane(Math::Constants::zx), in[1], "in a plane y = constant");
    CHECK_EQ(s->isContainedInPlane(), in[0] || in[1] || in[2], "in a coordinate plane");
    // Faces of volumes.
    V3 a(u * g.range(1, 3), 0, 0), b(0, u * g.range(1, 3), 0), c(0, 0, u * g.range(1, 3)); if (g.flip()) { int w = g.range(0, 2); (w == 0 ? a : w == 1 ? b : c)((w + 1) % 3) = u; }
    Pts h = {o, add(o, a), add(add(o, a), b), add(o, b)}; for (int i = 0; i < 4; i++) h.push_back(add(h[(std::size_t)i], c)); Cs hs(h); v = hs.v; HexR8 hex(ElemId(2), v.data(), nullptr);
    v = hs.sel({0, 1, 3, 4}); Tet4 tet(ElemId(3), v.data());
    const Math::Constants::CartesianPlane pl[3] = {Math::Constants::yz, Math::Constants::zx, Math::Constants::xy};
    for (int k = 0; k < 3; k++) {
        for (std::size_t f = 0; f < 6; f++) { bool ok = true; for (std::size_t i = 0; i < 4; i++) ok = ok && std::fabs(hex.getSideV(f, i)->pos()(k) - hex.getSideV(f, 0)->pos()(k)) < 1e-9 * u; CHECK_EQ(hex.isFaceContainedInPlane(f, pl[k]), ok, "face " << f << " in the plane normal to " << k); }
        for (std::size_t f = 0; f < 4; f++) { bool ok = true; for (std::size_t i = 0; i < 3; i++) ok = ok && std::fabs(tet.getSideV(f, i)->pos()(k) - tet.getSideV(f, 0)->pos()(k)) < 1e-9 * u; CHECK_EQ(tet.isFaceContainedInPlane(f, pl[k]), ok, "face " << f << " of the tetrahedron in the plane normal to " << k); }
    }
    bool reg = true; for (std::size_t f = 0; f < 6; f++) for (std::size_t i = 0; i < 4; i++) { V3 d = sub(hex.getSideV(f, (i + 1) % 4)->pos(), hex.getSideV(f, i)->pos()); int nz = 0; for (int k = 0; k < 3; k++) nz += std::fabs(d(k)) > 1e-9 * u; reg = reg && nz == 1; }
    bool ex = true; for (auto& x : h) for (auto& y : h) for (int k = 0; k < 3; k++) { double d = std::fabs(x(k) - y(k)); if (d > 0 && d < 1e-9 * u) ex = false; }
    if (ex) CHECK_EQ(hex.isRegular(), reg, "edges along the axes"); g.label(reg ? "regular" : "not regular");
}

PROP(rectangles, 6000, 100000, "the quadrilateral is a rectangle") {
    Rigid R = genRigid(g); double w = g.oneOf<double>({1, 0.5, 3, 0.01}), h = g.oneOf<double>({1, 2, 0.7}); int kind = g.range(0, 5);
    Pts p = {V3(0, 0, 0), V3(w, 0, 0), V3(w, h, 0), V3(0, h, 0)};
    if (kind == 2) { double sh = h * g.oneOf<double>({0.3, -0.4, 0.01, 1.5}); p[2](0) += sh; p[3](0) += sh; }                 // a parallelogram
    if (kind == 3) { std::size_t i = (std::size_t)g.range(0, 3); p[i](g.range(0, 1)) += w * h * g.oneOf<double>({0.2, -0.3, 0.02}); }   // one corner moved in its plane
    if (kind == 4) { p[(std::size_t)g.range(0, 3)](2) += 0.2 * h; }                                                              // out of its plane
    if (kind == 5) std::swap(p[0], p[1]);                                                                                        // crossed
    std::size_t st = (std::size_t)g.range(0, 3); bool rev = g.flip(); Pts q; for (std::size_t i = 0; i < 4; i++) q.push_back(R(p[rev ? (st + 4 - i) % 4 : (st + i) % 4]));
    g << kind << " " << show(q) << " scale " << R.s; g.nontrivial(kind < 2);
    Cs cs(q); std::vector<const CoordR3*> v = cs.v; QuaR4 s(ElemId(1), v.data());
    bool rotated = false; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = std::fabs(R.r[i](j)); rotated = rotated || (x > 1e-12 && std::fabs(x - 1) > 1e-12); }
    (void)rotated;
    CHECK_EQ(s.isRectangular(), kind < 2, "rectangle");
    v = cs.sel({0, 1, 2}); Tri3 t(ElemId(2), v.data()); CHECK(!t.isRectangular(), "a triangle is no rectangle");
    // On a grid.
    I3 a(g.range(-3, 3), g.range(-3, 3), g.range(-3, 3)), b = a; int d = g.range(0, 2); b((d + 1) % 3) += g.range(1, 4); b((d + 2) % 3) += g.range(1, 4);
    Coordinate::Group<CoordI3> cg; QuaI4 qi(cg, ElemId(1), BoxI3(a, b)); CHECK(qi.isRectangular(), "a face of cells"); const Math::Constants::CartesianPlane pl[3] = {Math::Constants::yz, Math::Constants::zx, Math::Constants::xy};
    for (int k = 0; k < 3; k++) CHECK_EQ(qi.isContainedInPlane(pl[k]), k == d, "plane of a face of cells");
    I3 nn = qi.getNormal(); (void)nn;
    if (g.flip()) { Coordinate::Group<CoordI3> c2; std::vector<const CoordI3*> w4; for (std::size_t i = 0; i < 4; i++) { I3 x = qi.getV(i)->pos(); if (i == 2) x((d + 1) % 3) += 1; w4.push_back(c2.addPos(x)); } QuaI4 bad(ElemId(2), w4.data()); CHECK(!bad.isRectangular(), "a moved corner"); }
}

PROP(inside, 8000, 160000, "the point is inside the bounding box") {
    Rigid R = genRigid(g); Pts p; for (int i = 0; i < 4; i++) p.push_back(pt(g)); V3 a = sub(p[1], p[0]), b = sub(p[2], p[0]), c = sub(p[3], p[0]); double vol = det3(a, b, c);
    if (std::fabs(vol) < 0.02) g.discard();
    double l[4], sum = 0; int k = g.range(0, 2); for (int i = 0; i < 4; i++) { l[i] = k == 0 ? 0.02 + g.unit() : g.real(-0.6, 1.2); sum += l[i]; } if (std::fabs(sum) < 0.05) g.discard();
    V3 x(0, 0, 0); bool in = true, edge = false; for (int i = 0; i < 4; i++) { l[i] /= sum; if (std::fabs(l[i]) < 1e-3) edge = true; in = in && l[i] > 0; x = add(x, mul(p[(std::size_t)i], l[i])); }
    if (edge) g.discard();
    Pts q; for (auto& y : p) q.push_back(R(y)); g << show(q) << " point " << R(x) << " weights " << l[0] << " " << l[1] << " " << l[2] << " " << l[3];
    Cs cs(q); std::vector<std::size_t> pm = {0, 1, 2, 3}; g.shuffle(pm); auto v = cs.sel(pm); Tet4 t(ElemId(1), v.data()); BoxR3 bx = t.getBound(); bool inBox = true; for (int d = 0; d < 3; d++) inBox = inBox && R(x)(d) >= bx.getMin()(d) && R(x)(d) <= bx.getMax()(d); g.nontrivial(inBox);
    g.label(in ? "inside" : "outside"); CHECK_EQ(t.isInnerPoint(R(x)), in, "inside the tetrahedron");
}

// What constructors accept.
PROP(validity, 5000, 60000, "an invalid shape is refused") {
    int what = g.range(0, 3);
    if (what == 0) {                              // tetrahedra
        Rigid R = genRigid(g); Pts p; for (int i = 0; i < 4; i++) p.push_back(V3(g.range(0, 3), g.range(0, 3), g.range(0, 3)));
        double vol = det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])); for (auto& x : p) x = R(x); g << show(p) << " volume " << vol; Cs cs(p); std::vector<const CoordR3*> v = cs.v;
        if (std::fabs(vol) < 0.5) { g.nontrivial(true); CHECK_THROWS(Tet4(ElemId(1), v.data()), "a flat tetrahedron"); } else CHECK_NOTHROW(Tet4(ElemId(1), v.data()), "a tetrahedron");
    } else if (what == 1) {                       // boxes
        double u = g.oneOf<double>({1, 1e-3, 0.37}); I3 a(g.range(-2, 2), g.range(-2, 2), g.range(-2, 2)), b = a; int dim = 0; for (int d = 0; d < 3; d++) { int x = g.range(0, 2); b(d) += x; dim += x > 0; }
        V3 ra(a(0) * u, a(1) * u, a(2) * u), rb(b(0) * u, b(1) * u, b(2) * u); g << a << b << " " << u;
        Coordinate::Group<CoordR3> cr; Coordinate::Group<CoordI3> ci; std::size_t before = 0;
        for (int i = 0; i < 3; i++) { I3 x(g.oneOf<int>({a(0), b(0)}), g.oneOf<int>({a(1), b(1)}), g.oneOf<int>({a(2), b(2)})); if (!ci.getPos(x)) { ci.addPos(x); cr.addPos(V3(x(0) * u, x(1) * u, x(2) * u)); before++; } }
        for (int k = 0; k < 4; k++) {
            std::unique_ptr<ElemR> er; std::unique_ptr<ElemI> ei; bool ok = k == dim; auto mk = [&]() {
                if (k == 0) { er.reset(new NodR(cr, ElemId(7), BoxR3(ra, rb))); ei.reset(new NodI(ci, ElemId(7), BoxI3(a, b))); } else if (k == 1) { er.reset(new LinR2(cr, ElemId(7), BoxR3(ra, rb))); ei.reset(new LinI2(ci, ElemId(7), BoxI3(a, b))); }
                else if (k == 2) { er.reset(new QuaR4(cr, ElemId(7), BoxR3(ra, rb))); ei.reset(new QuaI4(ci, ElemId(7), BoxI3(a, b))); } else { er.reset(new HexR8(cr, ElemId(7), BoxR3(ra, rb))); ei.reset(new HexI8(ci, ElemId(7), BoxI3(a, b))); } };
            if (!ok) { g.nontrivial(true); CHECK_THROWS(mk(), "box of dimension " << dim << " as element of dimension " << k); CHECK_EQ(cr.size(), before, "no coordinate added"); continue; }
            CHECK_NOTHROW(mk(), "element of a box"); BoxR3 bb = er->getBound(); for (int d = 0; d < 3; d++) CHECK(bb.getMin()(d) == ra(d) && bb.getMax()(d) == rb(d), "bound of the element"); CHECK(ei->getBound() == BoxI3(a, b), "bound in cells");
            CHECK_EQ(er->numberOfCoordinates(), std::size_t(1) << k, "corners"); CHECK_EQ(er->getId(), ElemId(7), "identifier"); std::set<const CoordR3*> s; for (auto* c : er->getCoordinates()) { s.insert(c); CHECK(cr.getId(c->getId()) == c, "corner in the set"); } CHECK_EQ(s.size(), std::size_t(1) << k, "distinct corners");
            CHECK_EQ(cr.size(), std::max(before, std::size_t(1) << k), "coordinates are shared"); CHECK_EQ(ci.size(), cr.size(), "coordinates are shared in cells"); before = cr.size();
            if (k >= 2) { auto v = er->getVertices(); for (std::size_t i = 0; i < 4; i++) { V3 d = sub(v[(i + 1) % 4]->pos(), v[i]->pos()); int nz = 0; for (int j = 0; j < 3; j++) nz += d(j) != 0; CHECK_EQ(nz, 1, "consecutive corners are joined by an edge"); } }
            if (k == 3) { for (std::size_t f = 0; f < 6; f++) CHECK(!dynamic_cast<HexR8&>(*er).isCurvedFace(f), "flat faces"); CHECK(!er->isCurved(), "not curved"); CHECK(dynamic_cast<HexR8&>(*er).isRegular() && dynamic_cast<HexI8&>(*ei).isRegular(), "a box has edges along the axes"); double ar = 0; for (std::size_t f = 0; f < 6; f++) { ar += dynamic_cast<HexR8&>(*er).getAreaOfFace(f); } V3 L = sub(rb, ra); CHECK_NEAR(ar, 2 * (L(0) * L(1) + L(1) * L(2) + L(0) * L(2)), 1e-9, 0, "area of the box"); }
        }
    } else if (what == 2) {                       // polyhedra: a dodecahedron, or two equal faces back to back
        static const int D[12][5] = {{0,1,2,3,4},{0,1,6,10,5},{1,2,7,11,6},{2,3,8,12,7},{3,4,9,13,8},{4,0,5,14,9},{15,16,17,18,19},{15,16,11,6,10},{16,17,12,7,11},{17,18,13,8,12},{18,19,14,9,13},{19,15,10,5,14}};
        bool dod = g.flip(); std::size_t nv = dod ? 20 : (std::size_t)g.range(5, 8); auto id = genIds(g, nv); Cs cs; for (std::size_t i = 0; i < nv; i++) cs.add(V3((double)i, (double)(i * i), 1), id[i]);
        std::vector<std::vector<std::size_t>> fc; if (dod) for (auto& f : D) fc.push_back(std::vector<std::size_t>(f, f + 5)); else { std::vector<std::size_t> f; for (std::size_t i = 0; i < nv; i++) f.push_back(i); fc.push_back(f); fc.push_back(f); }
        g.shuffle(fc); for (auto& f : fc) { std::rotate(f.begin(), f.begin() + (long)g.draw(f.size()), f.end()); if (g.flip()) std::reverse(f.begin(), f.end()); }
        int brk = g.range(0, 2); if (brk == 1) fc.pop_back(); if (brk == 2) { bool same; std::size_t i; do { i = (std::size_t)g.draw(fc[0].size()); same = false; std::swap(fc[0][i], fc[0][(i + 2) % fc[0].size()]); } while (same); }
        // Closed exactly when every edge is in an even number of faces.
        std::map<std::set<std::size_t>, int> e; for (auto& f : fc) for (std::size_t i = 0; i < f.size(); i++) e[{f[i], f[(i + 1) % f.size()]}]++; bool closed = true; for (auto& x : e) closed = closed && x.second % 2 == 0;
        std::vector<std::unique_ptr<El::Polygon>> own; std::vector<const El::Polygon*> ps; std::set<std::size_t> usedv; for (auto& f : fc) { for (auto i : f) usedv.insert(i); own.emplace_back(new El::Polygon(ElemId(own.size() + 1), cs.sel(f))); ps.push_back(own.back().get()); }
        g << (dod ? "dodecahedron " : "two faces ") << brk << (closed ? " closed" : " open");
        if (!closed) { g.nontrivial(true); CHECK_THROWS(El::Polyhedron(ElemId(1), ps), "an open polyhedron"); }
        else { El::Polyhedron P(ElemId(1), ps); CHECK_EQ(P.numberOfFaces(), fc.size(), "faces"); CHECK_EQ(P.numberOfVertices(), usedv.size(), "each vertex once"); CHECK(!P.isCurvedFace(0), "flat faces");
            for (std::size_t f = 0; f < fc.size(); f++) { CHECK_EQ(P.getSideVertices(f).size(), fc[f].size(), "vertices of a face"); for (std::size_t i = 0; i < fc[f].size(); i++) CHECK(P.getSideVertex(f, i) == cs.v[fc[f][i]] && P.getSideV(f, i) == cs.v[fc[f][i]], "vertex of a face"); CHECK_EQ(P.numberOfSideCoordinates(f), fc[f].size(), "coordinates of a face"); double w = -1, r = -1; try { w = ps[f]->getArea(); } catch (const std::exception&) {} try { r = P.getAreaOfFace(f); } catch (const std::exception&) {} CHECK_EQ(r, w, "area of a face"); }
            std::set<const CoordR3*> vs, ws; for (std::size_t i = 0; i < P.numberOfVertices(); i++) { vs.insert(P.getVertex(i)); CHECK(P.getVertex(i) == P.getV(i), "vertex"); } for (auto i : usedv) ws.insert(cs.v[i]); CHECK(vs == ws, "the vertices"); std::unique_ptr<ElemR> cl(P.cloneTo<ElemR>()); CHECK(*cl == P && cl->is<El::Polyhedron>() && cl->numberOfFaces() == fc.size() && cl->getVertices() == P.getVertices(), "a clone is equal");
            El::Polyhedron Q(P); CHECK_EQ(Q.numberOfVertices(), P.numberOfVertices(), "vertices of a copy"); CHECK(Q == P, "a copy is equal"); }
    } else {                                      // conformal lines
        bool c0 = g.chance(3, 4), c1 = g.chance(3, 4), two = g.flip(); g << c0 << c1 << two; V3 n(g.unit(), g.unit(), 1);
        CoordConf a(CoordId(1), I3(0, 0, 0), AX, 0.5), b(CoordId(2), I3(1, 0, 0), AY, 0.25); CoordI3 ap(CoordId(1), I3(0, 0, 0)), bp(CoordId(2), I3(1, 0, 0)); const CoordI3* v[2] = {c0 ? (const CoordI3*)&a : &ap, c1 ? (const CoordI3*)&b : &bp};
        PhysicalModel::Predefined::PEC m(MatId(3)); std::unique_ptr<El::LineConformal> l; auto mk = [&]() { if (two) l.reset(new El::LineConformal(v, n, nullptr, &m)); else l.reset(new El::LineConformal(ElemId(5), v, n, nullptr, &m)); };
        if (!c0 || !c1) { g.nontrivial(true); try { mk(); FAIL("a conformal line of other coordinates was accepted"); } catch (El::Error::Coord::NotConf& e) { CHECK_EQ(e.getCoordId(), CoordId(!c0 ? 1 : 2), "the offending coordinate"); } }
        else { mk(); CHECK(l->getV(0) == &a && l->getV(1) == &b, "coordinates"); CHECK(l->getNorm() == n, "normal"); CHECK_EQ(l->getMatId(), MatId(3), "material"); if (!two) CHECK_EQ(l->getId(), ElemId(5), "identifier");
            El::LineConformal c(*l); CHECK(c.getV(0) == &a && c.getV(1) == &b && c.getNorm() == n && c.getMatId() == MatId(3), "a copy"); CHECK(c == *l, "copies are equal"); std::unique_ptr<ElemI> cl(l->cloneTo<ElemI>()); CHECK(*cl == *l && cl->is<El::LineConformal>() && cl->castTo<El::LineConformal>()->getNorm() == n && cl->getV(1) == &b, "a clone"); CHECK_THROWS(l->setV(0, &ap), "another kind of coordinate"); }
    }
}

// Shared faces and equality, whatever the order of construction.
PROP(sharing, 6000, 100000, "the surface is a face of the volume") {
    bool hex = g.flip(); Pts p = {V3(0, 0, 0), V3(1, 0, 0), V3(1, 1, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 0, 1), V3(1, 1, 1), V3(0, 1, 1)}; Cs cs; auto id = genIds(g, 8); for (std::size_t i = 0; i < 8; i++) cs.add(p[i], id[i]);
    std::vector<const CoordR3*> v = hex ? cs.v : cs.sel({0, 1, 3, 4}); std::unique_ptr<VolR> vol; if (hex) vol.reset(new HexR8(ElemId(1), v.data(), nullptr)); else vol.reset(new Tet4(ElemId(1), v.data()));
    std::size_t k = hex ? 4 : 3, f = (std::size_t)g.draw(vol->numberOfFaces()); std::vector<const CoordR3*> s = vol->getSideVertices(f); g.shuffle(s); bool is = g.chance(2, 3); std::size_t want = f;
    if (!is) { std::size_t i = (std::size_t)g.draw(k); const CoordR3* r; do { r = g.pick(cs.v); } while (std::find(s.begin(), s.end(), r) != s.end()); s[i] = r; }
    bool found = false; for (std::size_t q = 0; q < vol->numberOfFaces(); q++) { auto sv = vol->getSideVertices(q); if (ids(sv) == ids(s)) { found = true; want = q; } } g << (hex ? "hex " : "tet ") << f << " "; for (auto c : s) g << c->getId().toInt() << " "; g.nontrivial(found);
    std::unique_ptr<SurfR> sf; if (hex) sf.reset(new QuaR4(ElemId(2), s.data())); else sf.reset(new Tri3(ElemId(2), s.data()));
    if (found) CHECK_EQ(vol->getFaceNumber(sf.get()), want, "number of the face"); else CHECK_THROWS(vol->getFaceNumber(sf.get()), "not a face");
    auto sv = vol->getSideVertices(f); CHECK_EQ(El::Base::areSameCoords(sv, s), ids(sv) == ids(s), "same vertices in any order"); { auto n = El::Base::getIds(sv); CHECK_EQ(n.size(), sv.size(), "identifiers of vertices"); for (std::size_t k = 0; k < n.size(); k++) CHECK(n[k] == sv[k]->getId(), "identifier of vertex " << k); } s.pop_back(); CHECK(!El::Base::areSameCoords(sv, s), "fewer vertices");
    // Equality of elements.
    RDesc d = genMesh<Math::Real>(g, 4, 5, 1.0); if (d.elems.empty()) return; World<Math::Real> w1, w2; EDesc e = g.pick(d.elems), e2 = e; d.elems = {e}; build(w1, d);
    int ch = g.range(0, 6); bool same = true; RDesc d2 = d;
    if (ch == 1) { e2.id += 1; same = false; } if (ch == 2) { e2.lay = e2.lay ? 0 : d.layers.empty() ? 0 : d.layers[0].first; same = e2.lay == e.lay; } if (ch == 3) { e2.mat = e2.mat ? 0 : d.mats.empty() ? 0 : d.mats[0]; same = e2.mat == e.mat; }
    if (ch == 4) { d2.coords[0].second(1) += 0.5; same = std::find(e.c.begin(), e.c.end(), d2.coords[0].first) == e.c.end(); if (e.kind == TET4 && !same) return; }
    if (ch == 5) { if (e.kind == POLYLINE || e.kind == POLYGON) { e2.c.push_back(e2.c[0]); same = false; } else if (e.kind == TRI3) { e2.kind = POLYLINE; same = false; } }
    if (ch == 6 && e.kind != TET4) { std::size_t i = (std::size_t)g.draw(e2.c.size()); e2.c[i] = g.pick(d.coords).first; same = e2.c == e.c; }
    d2.elems = {e2}; build(w2, d2); CHECK_EQ(*w1.elems(0) == *w2.elems(0), same, "equality after change " << ch << " of a " << kindName(e.kind)); CHECK_EQ(*w1.elems(0) != *w2.elems(0), !same, "inequality"); CHECK_EQ(*w2.elems(0) == *w1.elems(0), same, "equality, other way round");
}
