// Random meshes described as plain data, built with the library's own classes.
#ifndef VERIF_MESH_H_
#define VERIF_MESH_H_
#include "geo.h"
#include "geometry/coordinate/Group.h"
#include "geometry/layer/Group.h"
#include "geometry/element/Group.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "physicalModel/PhysicalModel.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include <memory>
#include <map>
namespace geo {
using namespace SEMBA::Geometry;
enum Kind { NODE, LINE2, POLYLINE, TRI3, TRI6, QUAD4, POLYGON, TET4, TET10, HEX8, KINDS };
inline const char* kindName(int k) {
    static const char* n[] = {"node", "line", "polyline", "tri3", "tri6", "quad", "polygon", "tet4", "tet10", "hex"};
    return n[k];
}
inline int dimOf(int k) { return k == NODE ? 0 : k <= POLYLINE ? 1 : k <= POLYGON ? 2 : 3; }
inline std::size_t nCoords(int k) {
    static const std::size_t n[] = {1, 2, 3, 3, 6, 4, 5, 4, 10, 8};
    return n[k];
}
struct EDesc { int kind; std::size_t id; std::vector<std::size_t> c; std::size_t lay, mat; };   // c: coordinate ids; 0: none
template <class T> struct MDesc {
    typedef Math::Vector::Cartesian<T,3> Vec;
    std::vector<std::pair<std::size_t, Vec>> coords;
    std::vector<std::pair<std::size_t, std::string>> layers;
    std::vector<std::size_t> mats;
    std::vector<EDesc> elems;
    const Vec& pos(std::size_t id) const { for (auto& c : coords) if (c.first == id) return c.second; throw std::logic_error("no coordinate in description"); }
    std::string str() const {
        std::ostringstream o; o.precision(12);
        for (auto& c : coords) o << c.first << ":" << c.second << " ";
        o << "layers"; for (auto& l : layers) o << " " << l.first << ":" << l.second;
        o << " mats"; for (auto m : mats) o << " " << m;
        for (auto& e : elems) { o << "; " << kindName(e.kind) << " " << e.id << " ["; for (auto i : e.c) o << " " << i; o << " ] L" << e.lay << " M" << e.mat; }
        return o.str();
    }
};
typedef MDesc<Math::Real> RDesc;
typedef MDesc<Math::Int> IDesc;

inline double det3(const V3& a, const V3& b, const V3& c) {
    return a(0) * (b(1) * c(2) - b(2) * c(1)) - a(1) * (b(0) * c(2) - b(2) * c(0)) + a(2) * (b(0) * c(1) - b(1) * c(0));
}
inline V3 sub(const V3& a, const V3& b) { return V3(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }

typedef Element::Model Model;
typedef SEMBA::Group::Identifiable<Model, MatId> ModelGroup;
// Coordinates, layers, models, elements, each owning its objects.
template <class T> struct World {
    Coordinate::Group<Coordinate::Coordinate<T,3>> coords;
    LayerGroup layers;
    PhysicalModel::Group<> mats;
    Element::Group<Element::Element<T>> elems;
};
inline ElemR* makeElem(const EDesc& e, const std::vector<const CoordR3*>& v0, const Layer::Layer* l, const Model* m) {
    std::vector<const CoordR3*> v = v0; ElemId id(e.id);
    switch (e.kind) {
    case NODE: return new NodR(id, v.data(), l, m);
    case LINE2: return new LinR2(id, v.data(), l, m);
    case POLYLINE: return new PolylinR(id, v, l, m);
    case TRI3: return new Tri3(id, v.data(), l, m);
    case TRI6: return new Tri6(id, v.data(), l, m);
    case QUAD4: return new QuaR4(id, v.data(), l, m);
    case POLYGON: return new Element::Polygon(id, v, l, m);
    case TET4: return new Tet4(id, v.data(), l, m);
    case TET10: return new Element::Tetrahedron10(id, v.data(), l, m);
    default: return new HexR8(id, v.data(), l, m);
    }
}
inline ElemI* makeElem(const EDesc& e, const std::vector<const CoordI3*>& v0, const Layer::Layer* l, const Model* m) {
    std::vector<const CoordI3*> v = v0; ElemId id(e.id);
    switch (e.kind) {
    case NODE: return new NodI(id, v.data(), l, m);
    case LINE2: return new LinI2(id, v.data(), l, m);
    case POLYLINE: return new PolylinI(id, v, l, m);
    case QUAD4: return new QuaI4(id, v.data(), l, m);
    default: return new HexI8(id, v.data(), l, m);
    }
}
template <class T> void addElem(World<T>& w, const EDesc& e) {
    std::vector<const Coordinate::Coordinate<T,3>*> v;
    for (auto c : e.c) v.push_back(w.coords.getId(CoordId(c)));
    const Layer::Layer* l = e.lay ? w.layers.getId(LayerId(e.lay)) : nullptr;
    const Model* m = e.mat ? w.mats.getId(MatId(e.mat)) : nullptr;
    w.elems.add(makeElem(e, v, l, m));
}
template <class T> void build(World<T>& w, const MDesc<T>& d) {
    for (auto& c : d.coords) w.coords.add(new Coordinate::Coordinate<T,3>(CoordId(c.first), c.second));
    for (auto& l : d.layers) w.layers.add(new Layer::Layer(LayerId(l.first), l.second));
    for (auto m : d.mats) w.mats.add(new PhysicalModel::Predefined::PEC(MatId(m)));
    for (auto& e : d.elems) addElem(w, e);
}
template <class E> int kindOf(const E* e) {
    if (e->template is<NodR>() || e->template is<NodI>()) return NODE;
    if (e->template is<LinR2>() || e->template is<LinI2>()) return LINE2;
    if (e->template is<PolylinR>() || e->template is<PolylinI>()) return POLYLINE;
    if (e->template is<Tri3>()) return TRI3;
    if (e->template is<Tri6>()) return TRI6;
    if (e->template is<QuaR4>() || e->template is<QuaI4>()) return QUAD4;
    if (e->template is<Element::Polygon>()) return POLYGON;
    if (e->template is<Tet4>()) return TET4;
    if (e->template is<Element::Tetrahedron10>()) return TET10;
    return HEX8;
}
template <class V> void genPos(pbt::Gen& g, V& v, int span) {
    for (int d = 0; d < 3; d++) v(d) = g.range(0, span);
}
inline std::vector<std::size_t> genIds(pbt::Gen& g, std::size_t n) {   // distinct, ascending or not
    std::vector<std::size_t> r; int kind = g.range(0, 2); std::size_t id = g.chance(1, 25) ? g.oneOf<std::size_t>({98, 65530, 99990, 1000000, 2147480000}) : 0;
    for (std::size_t i = 0; i < n; i++) { id += kind == 0 ? 1 : 1 + (std::size_t)g.draw(4); r.push_back(id); }
    if (kind == 2) g.shuffle(r);
    return r;
}
// Random mesh. T = Real: all kinds; positions are lattice points times `unit`.
template <class T> MDesc<T> genMesh(pbt::Gen& g, int maxElems, int maxCoords = 12, double unit = 1.0, bool needLayer = false) {
    MDesc<T> d; const bool real = std::is_same<T, Math::Real>::value;
    std::size_t nc = 2 + g.many(0, (std::size_t)maxCoords - 2, 100);
    std::vector<std::size_t> ids = genIds(g, nc);
    int span = g.range(1, 3);
    for (auto id : ids) {
        typename MDesc<T>::Vec v; genPos(g, v, span);
        for (int k = 0; k < 3; k++) v(k) = (T)(v(k) * (real ? unit : 1.0));
        d.coords.push_back({id, v});
    }
    std::size_t nl = g.many(needLayer ? 1 : 0, 3, 20); auto li = genIds(g, nl);
    for (auto l : li) d.layers.push_back({l, "lay" + std::to_string(l)});
    std::size_t nm = g.many(0, 3, 20); d.mats = genIds(g, nm);
    std::size_t ne = g.many(0, (std::size_t)maxElems, 150); auto ei = genIds(g, ne);
    for (auto id : ei) {
        EDesc e; e.id = id;
        e.kind = real ? g.range(0, KINDS - 1) : g.oneOf<int>({NODE, LINE2, QUAD4, HEX8, POLYLINE});
        std::size_t n = nCoords(e.kind);
        if (e.kind == POLYLINE) n = (std::size_t)g.range(2, 5);
        if (e.kind == POLYGON) n = (std::size_t)g.range(5, 7);
        for (std::size_t i = 0; i < n; i++) e.c.push_back(g.pick(ids));
        if (e.kind == TET4) {
            V3 p[4]; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[i](k) = (double)d.pos(e.c[(std::size_t)i])(k);
            if (std::fabs(det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0]))) < 0.5 * unit * unit * unit) { e.kind = LINE2; e.c.resize(2); }
        }
        e.lay = d.layers.empty() || (!needLayer && g.chance(1, 5)) ? 0 : g.pick(d.layers).first;
        e.mat = d.mats.empty() || g.chance(1, 5) ? 0 : g.pick(d.mats);
        d.elems.push_back(e);
    }
    return d;
}
// The content of a set of elements against its description.
template <class T, class EG> void sameElems(const EG& got, const std::vector<EDesc>& want, const MDesc<T>& d, const std::string& when) {
    CHECK_EQ(got.size(), want.size(), "number of elements " << when);
    for (std::size_t i = 0; i < want.size(); i++) {
        auto e = got(i); const EDesc& w = want[i];
        CHECK_EQ(e->getId().toInt(), w.id, "identifier of element " << i << " " << when);
        CHECK_EQ(kindOf(e), w.kind, "kind of element " << w.id << " " << when);
        CHECK_EQ(e->getLayerId().toInt(), w.lay, "layer of element " << w.id << " " << when);
        CHECK_EQ(e->getMatId().toInt(), w.mat, "material of element " << w.id << " " << when);
        CHECK_EQ(e->numberOfCoordinates(), w.c.size(), "coordinates of element " << w.id << " " << when);
        for (std::size_t j = 0; j < w.c.size(); j++) {
            CHECK_EQ(e->getV(j)->getId().toInt(), w.c[j], "coordinate " << j << " of element " << w.id << " " << when);
            for (int k = 0; k < 3; k++) CHECK_NEAR((double)e->getV(j)->pos()(k), (double)d.pos(w.c[j])(k), 1e-12, 1e-300, "position of coordinate " << j << " of element " << w.id << " " << when);
        }
    }
}
} // namespace geo
#endif
