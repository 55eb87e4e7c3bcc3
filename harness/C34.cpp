// C34: identifiers behave as the numbers they stand for, and never mix with what they identify.
#include "pbt.h"
#include "class/Identification.h"
#include "class/Identifiable.h"
#include "geometry/coordinate/Coordinate.h"
#include "geometry/element/Element.h"
#include "geometry/element/Triangle3.h"
#include "geometry/layer/Layer.h"
#include "physicalModel/predefined/PEC.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace SEMBA;
using pbt::Gen;
namespace ids { namespace {
struct Thing; typedef Class::Identification<Thing> Id;
std::size_t number(Gen& g) {
    switch (g.range(0, 4)) { case 0: return (std::size_t)g.range(0, 3); case 1: return (std::size_t)g.range(0, 100000); case 2: return ((std::size_t)1 << g.range(0, 63)) + (std::size_t)g.range(0, 2) - 1; case 3: return ~(std::size_t)0 - (std::size_t)g.range(0, 2); default: return (std::size_t)g.draw(1u << 31) * 4294967291u + (std::size_t)g.draw(1000); }
}
void ordered(const Id& a, const Id& b, std::size_t x, std::size_t y) {
    CHECK_EQ(a == b, x == y, "=="); CHECK_EQ(a != b, x != y, "!="); CHECK_EQ(a < b, x < y, "<"); CHECK_EQ(a <= b, x <= y, "<="); CHECK_EQ(a > b, x > y, ">"); CHECK_EQ(a >= b, x >= y, ">=");
}
template <class T, class I> void holder(T& t, std::size_t n, std::size_t m, const char* what) {
    CHECK_EQ(t.getId().toInt(), n, what); T copy(t); CHECK(copy.getId() == t.getId(), "identifier of a copied " << what); CHECK(static_cast<Class::Identifiable<I>&>(copy).Class::Identifiable<I>::operator==(t), what << " has the identifier of its copy");
    copy.setId(I(m)); CHECK_EQ(copy.getId().toInt(), m, "identifier set to a " << what); CHECK_EQ(t.getId().toInt(), n, "identifier of the original " << what); CHECK_EQ((static_cast<Class::Identifiable<I>&>(copy).Class::Identifiable<I>::operator==(t)), m == n, what << " compared by identifier"); t.setId(I(m)); CHECK_EQ(t.getId().toInt(), m, "identifier set again to a " << what);
}
}}
using namespace ids;

PROP(histories, 20000, 600000, "five operations on different numbers") {
    // Every operation on a handful of identifiers and on the numbers they stand for.
    std::size_t n = (std::size_t)g.range(2, 4); std::vector<std::size_t> m(n, 0); std::vector<Id> v(n); for (auto& i : v) CHECK_EQ(i.toInt(), std::size_t(0), "an identifier without a number");
    for (std::size_t i = 0; i < n; i++) { m[i] = number(g); if (g.flip()) v[i] = Id(m[i]); else { Id t(m[i]); Id c(t); v[i] = c; } }
    std::size_t ops = g.len(1, 25); bool differ = false;
    for (std::size_t k = 0; k < ops; k++) {
        std::size_t a = (std::size_t)g.draw(n), b = (std::size_t)g.draw(n); int op = g.range(0, 7); g << op << ":" << a << "," << b << " "; differ |= m[a] != m[b]; std::vector<std::size_t> was(m);
        switch (op) {
        case 0: v[a] = v[b]; m[a] = m[b]; break;
        case 1: { Id& r = v[a] += v[b]; CHECK(&r == &v[a], "+= is the identifier itself"); m[a] += was[b]; break; }
        case 2: { Id s = v[a] + v[b]; CHECK_EQ(s.toInt(), m[a] + m[b], "sum"); break; }
        case 3: { Id& r = ++v[a]; CHECK(&r == &v[a], "++ is the identifier itself"); m[a]++; break; }
        case 4: { Id r = v[a]++; CHECK_EQ(r.toInt(), m[a], "value before the increment"); m[a]++; break; }
        case 5: { std::stringstream s; s << v[a]; CHECK_EQ(s.str(), std::to_string(m[a]), "printed"); CHECK_EQ(v[a].toStr(), std::to_string(m[a]), "as text"); Id r; s >> r; CHECK_EQ(r.toInt(), m[a], "read back"); break; }
        case 6: { std::stringstream s; s << m[a] << " " << m[b]; Id r(number(g)), q(number(g)); s >> r >> q; CHECK_EQ(r.toInt(), m[a], "first read"); CHECK_EQ(q.toInt(), m[b], "second read"); break; }
        default: ordered(v[a], v[b], m[a], m[b]); break;
        }
        for (std::size_t i = 0; i < n; i++) CHECK_EQ(v[i].toInt(), m[i], "identifier " << i << " after operation " << k);
    }
    g.nontrivial(ops >= 5 && differ);
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) ordered(v[i], v[j], m[i], m[j]);
}
PROP(keys, 6000, 150000, "a number met twice") {
    std::size_t n = g.len(1, 30); std::set<Id> s; std::set<std::size_t> t; std::map<Id, std::size_t> at; std::map<std::size_t, std::size_t> want; bool twice = false;
    for (std::size_t i = 0; i < n; i++) { std::size_t x = g.flip() ? (std::size_t)g.range(0, 9) : number(g); g << x << " "; twice |= t.count(x) > 0; s.insert(Id(x)); t.insert(x); at[Id(x)] = i; want[x] = i; }
    g.nontrivial(twice); std::vector<std::size_t> a, b(t.begin(), t.end()); for (auto& i : s) a.push_back(i.toInt()); CHECK(a == b, "identifiers in order"); CHECK_EQ(at.size(), want.size(), "entries"); for (auto& w : want) { auto q = at.find(Id(w.first)); CHECK(q != at.end() && q->second == w.second, "entry of " << w.first); } std::size_t x = number(g); CHECK_EQ(s.count(Id(x)), t.count(x), "membership of " << x);
}
PROP(holders, 6000, 150000, "the number changes") {
    std::size_t n = number(g), m = number(g); g << n << " " << m; g.nontrivial(n != m);
    { Geometry::CoordR3 c(Geometry::CoordId(n), Math::CVecR3(1, 2, 3)); holder<Geometry::CoordR3, Geometry::CoordId>(c, n, m, "coordinate"); CHECK(c.pos() == Math::CVecR3(1, 2, 3), "position"); }
    { Geometry::CoordI3 c(Geometry::CoordId(n), Math::CVecI3(1, 2, 3)); holder<Geometry::CoordI3, Geometry::CoordId>(c, n, m, "structured coordinate"); }
    { Geometry::Layer::Layer l(Geometry::Layer::Id(n), "name"); holder<Geometry::Layer::Layer, Geometry::Layer::Id>(l, n, m, "layer"); CHECK_EQ(l.getName(), std::string("name"), "name"); }
    { PhysicalModel::Predefined::PEC p(PhysicalModel::Id(n), "model"); holder<PhysicalModel::Predefined::PEC, PhysicalModel::Id>(p, n, m, "model"); CHECK_EQ(p.getName(), std::string("model"), "name"); }
    { Geometry::CoordR3 a(Geometry::CoordId(1), Math::CVecR3(0, 0, 0)), b(Geometry::CoordId(2), Math::CVecR3(1, 0, 0)), c(Geometry::CoordId(3), Math::CVecR3(0, 1, 0)); const Geometry::CoordR3* v[] = {&a, &b, &c}; Geometry::Tri3 t(Geometry::ElemId(n), v, nullptr, nullptr); holder<Geometry::Tri3, Geometry::ElemId>(t, n, m, "element"); for (int i = 0; i < 3; i++) CHECK(t.getV((std::size_t)i) == v[i], "corner"); }
    { Geometry::CoordR3 c; CHECK_EQ(c.getId().toInt(), std::size_t(0), "identifier of an unnumbered coordinate"); Geometry::Layer::Layer l; CHECK_EQ(l.getId().toInt(), std::size_t(0), "identifier of an unnumbered layer"); }
}
