// C25: reading an STL file yields exactly its triangles and solids.
#include "look.h"
#include "parser/stl/Parser.h"
#include "geometry/element/Triangle3.h"
#include "geometry/mesh/Geometric.h"
#include <fstream>

namespace stl { namespace {
typedef std::array<double, 3> P3;
struct Tri { P3 v[3]; };
struct Solid { std::string name; std::vector<Tri> tris; };
typedef std::vector<Solid> Stl;

Stl genModel(pbt::Gen& g) {
    std::vector<P3> pool; std::size_t n = g.many(3, 14, 400); bool big = n > 14; bool lattice = g.flip(); double scale = std::pow(10.0, g.range(-6, 6));
    for (std::size_t i = 0; i < n; i++) { P3 p; for (auto& x : p) x = lattice ? g.range(-4, 4) * scale : g.real(-100, 100) * scale; pool.push_back(p); }
    Stl m; std::size_t ns = g.many(0, 5, 30);
    for (std::size_t s = 0; s < ns; s++) {
        Solid o; o.name = g.chance(1, 8) && s ? m[0].name : g.chance(1, 6) ? g.oneOf<std::string>({"vertex", "facet", "loop", "solid", "endsolid", "outer", "endloop", "normal", "1.5", "a-b.c/d"}) : g.chance(1, 20) ? g.text("abcXYZ_-.09", 20, 300) : g.ident();
        std::size_t nt = g.chance(1, 5) ? 0 : big ? 1 + (std::size_t)g.draw(150) : g.many(1, 12, 150);
        for (std::size_t t = 0; t < nt; t++) { Tri r; for (auto& v : r.v) v = g.pick(pool); o.tris.push_back(r); }
        m.push_back(o);
    }
    return m;
}
// Prints a number one of the ways readers accept, and says what it stands for.
std::string number(pbt::Gen& g, double& x, int style) {
    char b[64]; int k = style < 0 ? g.range(0, 5) : style;
    switch (k) { case 0: snprintf(b, sizeof b, "%.17g", x); break; case 1: snprintf(b, sizeof b, "%.6e", x); break; case 2: snprintf(b, sizeof b, "%.12E", x); break; case 3: snprintf(b, sizeof b, "%g", x); break; case 4: snprintf(b, sizeof b, "%+.15e", x); break; default: snprintf(b, sizeof b, std::fabs(x) >= 1e-3 || x == 0 ? "%.9f" : "%.9e", x); }
    x = std::strtod(b, nullptr); return b;
}
// Writes the model; the numbers of the model become the ones written.
std::string text(pbt::Gen& g, Stl& m, std::vector<std::size_t>* ends = nullptr) {
    std::string nl = g.chance(1, 4) ? "\r\n" : "\n", out; bool loose = g.chance(1, 3), tabs = g.chance(1, 4); int style = g.chance(1, 3) ? -1 : g.range(0, 5); bool normals = g.flip(), named = g.flip();
    auto sp = [&]() { std::string s = tabs ? "\t" : " "; if (loose) { std::size_t k = g.len(0, 3); for (std::size_t i = 0; i < k; i++) s += g.flip() ? " " : "\t"; } return s; };
    auto eol = [&]() { std::string s = loose && g.chance(1, 4) ? " " : ""; s += nl; if (loose && g.chance(1, 8)) s += nl; return s; };
    auto in = [&](int d) { std::string s; if (loose) d = g.range(0, 4); for (int i = 0; i < d; i++) s += tabs ? "\t" : "  "; return s; };
    std::map<P3, P3> seen; // a position is written alike every time
    for (auto& s : m) {
        out += in(0) + "solid" + sp() + s.name + eol();
        for (auto& t : s.tris) {
            out += in(1) + "facet" + sp() + "normal"; for (int i = 0; i < 3; i++) { double z = normals ? g.real(-1, 1) : 0; out += sp() + number(g, z, style); } out += eol();
            out += in(2) + "outer" + (loose ? sp() : " ") + "loop" + eol();
            for (auto& v : t.v) { out += in(3) + "vertex"; for (auto& x : v) out += sp() + number(g, x, style); out += eol(); }
            out += in(2) + "endloop" + eol() + in(1) + "endfacet" + eol(); if (ends) ends->push_back(out.size());
        }
        out += in(0) + "endsolid"; if (named) out += sp() + s.name; out += eol();
    }
    if (g.chance(1, 4) && !out.empty()) out.resize(out.size() - nl.size());
    g.label(nl.size() == 2, "CRLF"); g.label(loose, "loose blanks"); g.label(tabs, "tabs"); g.label(named, "named ends"); return out;
}
struct Mute { Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } ~Mute() { std::cerr.clear(); std::cout.clear(); } };
std::unique_ptr<Data> read(pbt::Gen& g, const std::string& t) {
    Mute m; if (g.chance(1, 4)) { std::string f = pbt::scratch() + "/case.stl"; { std::ofstream o(f, std::ios::binary); o << t; } std::ifstream is(f); g.label("file"); return std::unique_ptr<Data>(new Data(SEMBA::Parser::STL::Parser(f).read(is))); }
    std::istringstream is(t); return std::unique_ptr<Data>(new Data(SEMBA::Parser::STL::Parser().read(is)));
}
std::string plain(double x) { char b[64]; snprintf(b, sizeof b, "%.6g", x); return b; }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-13; }
bool nearP(const P3& a, const Math::CVecR3& b) { for (int i = 0; i < 3; i++) if (!near(a[(std::size_t)i], b(i))) return false; return true; }
P3 at(const Geometry::CoordR3* c) { return P3{{c->pos()(0), c->pos()(1), c->pos()(2)}}; }
// What every project read hangs on.
const Geometry::Mesh::Geometric& common(const Data& d) {
    CHECK(d.mesh && d.mesh->is<Geometry::Mesh::Geometric>(), "no geometric mesh"); CHECK(d.physicalModels && d.sources && d.outputRequests, "missing groups");
    CHECK(d.sources->empty() && d.outputRequests->empty(), "sources or requests appeared"); refs(d, "STL"); look(d);
    CHECK_EQ(d.physicalModels->size(), std::size_t(1), "one material"); CHECK((*d.physicalModels)(0)->is<PhysicalModel::Predefined::PEC>(), "the material is PEC");
    const Geometry::Mesh::Geometric& m = *d.mesh->castTo<Geometry::Mesh::Geometric>();
    for (std::size_t i = 0; i < m.elems().size(); i++) { CHECK(m.elems()(i)->is<Geometry::Tri3>(), "an element is no triangle"); CHECK(m.elems()(i)->getModel() == (*d.physicalModels)(0), "a triangle has another material"); CHECK(m.elems()(i)->getLayer(), "a triangle without layer"); for (std::size_t v = 0; v < 3; v++) CHECK(m.elems()(i)->getVertex(v), "a triangle without vertex"); }
    return m;
}
std::size_t total(const Stl& m) { std::size_t n = 0; for (auto& s : m) n += s.tris.size(); return n; }
void compare(const Geometry::Mesh::Geometric& m, const Stl& x, std::size_t nt, std::size_t ns, bool exact) {
    if (exact) { CHECK_EQ(m.elems().size(), total(x), "number of triangles"); CHECK_EQ(m.layers().size(), x.size(), "number of layers"); }
    for (std::size_t s = 0; s < ns; s++) CHECK_EQ(m.layers()(s)->getName(), x[s].name, "name of solid " << s);
    std::size_t k = 0; 
    for (std::size_t s = 0; s < x.size(); s++) for (auto& t : x[s].tris) { if (k >= nt) return; auto* e = m.elems()(k); CHECK(e->getLayer() == m.layers()(s), "triangle " << k << " in layer " << e->getLayer()->getName() << ", expected " << x[s].name); for (std::size_t v = 0; v < 3; v++) CHECK(nearP(t.v[v], e->getV(v)->pos()), "vertex " << v << " of triangle " << k << " of solid " << s << ": " << e->getV(v)->pos().toStr() << ", written " << t.v[v][0] << " " << t.v[v][1] << " " << t.v[v][2]); k++; }
}
void shown(pbt::Gen& g, const Stl& m) { for (auto& s : m) g << s.name << ":" << s.tris.size() << " "; }
}}
using namespace stl;

PROP(solids, 2500, 50000, "two solids with triangles") {
    Stl m = genModel(g); std::string t = text(g, m); shown(g, m); g << "\n" << t; int full = 0; for (auto& s : m) full += !s.tris.empty(); g.nontrivial(full > 1); g.label(full < (int)m.size(), "empty solid");
    std::unique_ptr<Data> d = read(g, t); auto& mesh = common(*d); compare(mesh, m, total(m), m.size(), true);
    // Facets meeting at a position meet at a coordinate, and nowhere else.
    std::map<P3, const Geometry::CoordR3*> c; bool shared = false;
    for (std::size_t i = 0; i < mesh.elems().size(); i++) for (std::size_t v = 0; v < 3; v++) { auto* q = mesh.elems()(i)->getV(v); auto r = c.insert({at(q), q}); shared |= !r.second; CHECK(r.first->second == q, "one position, two coordinates: triangle " << i); }
    g.label(shared, "shared vertex"); std::set<P3> used; for (auto& s : m) for (auto& t2 : s.tris) for (auto& v : t2.v) used.insert(v);
    for (std::size_t i = 0; i < mesh.coords().size(); i++) { bool is = false; for (auto& u : used) is |= nearP(u, mesh.coords()(i)->pos()); CHECK(is, "a coordinate nobody wrote: " << mesh.coords()(i)->pos().toStr()); }
    // The material can be told from every element, the grid is empty.
    for (std::size_t k = 0; k < 3; k++) CHECK(mesh.grid().getPos(k).empty(), "a grid appeared");
}
PROP(notation, 1200, 20000, "the model has triangles") {
    // The same model written twice reads alike.
    Stl a = genModel(g); for (auto& s : a) for (auto& t : s.tris) for (auto& v : t.v) for (auto& x : v) x = std::strtod(plain(x).c_str(), nullptr);
    Stl b = a; std::string ta = text(g, a), tb = text(g, b); shown(g, a); g.nontrivial(total(a) > 0); std::unique_ptr<Data> da = read(g, ta), db = read(g, tb); auto &ma = common(*da), &mb = common(*db);
    CHECK_EQ(ma.elems().size(), mb.elems().size(), "triangles"); CHECK_EQ(ma.layers().size(), mb.layers().size(), "layers");
    for (std::size_t i = 0; i < ma.elems().size(); i++) { CHECK_EQ(ma.elems()(i)->getId(), mb.elems()(i)->getId(), "element ids"); CHECK_EQ(ma.elems()(i)->getLayer()->getId(), mb.elems()(i)->getLayer()->getId(), "layer ids"); for (std::size_t v = 0; v < 3; v++) CHECK(nearP(at(ma.elems()(i)->getV(v)), mb.elems()(i)->getV(v)->pos()), "vertices"); }
}
PROP(truncated, 2500, 40000, "some triangle precedes the end") {
    Stl m = genModel(g); std::vector<std::size_t> ends; std::string t = text(g, m, &ends); std::size_t n = (std::size_t)g.draw(t.size()); std::size_t before = 0; while (before < ends.size() && ends[before] <= n) before++; g << t.substr(0, n); g.nontrivial(before > 0);
    std::unique_ptr<Data> d; try { d = read(g, t.substr(0, n)); } catch (const std::exception&) { g.label("rejected"); return; }
    g.label("accepted"); auto& mesh = common(*d); CHECK(mesh.elems().size() == before || mesh.elems().size() == before + 1, mesh.elems().size() << " triangles read, " << before << " before the end"); compare(mesh, m, before, 0, false);
}
PROP(short_facets, 800, 10000, "always") {
    Stl m = genModel(g); std::string t = text(g, m); std::vector<std::size_t> v; for (std::size_t p = 0; (p = t.find("vertex", p)) != std::string::npos; p++) { std::size_t q = p; while (q && (t[q - 1] == ' ' || t[q - 1] == '\t')) q--; if (q == 0 || t[q - 1] == '\n') v.push_back(p); }
    if (v.empty()) { g.discard(); return; } g.nontrivial();
    int k = g.range(0, 3); std::size_t p = g.pick(v), e = t.find('\n', p);
    if (k == 0) t.erase(p, e - p); else if (k == 1) { std::size_t q = t.find_last_not_of(" \t\r", e - 1), b = t.find_last_of(" \t", q); t.replace(b + 1, q - b, g.oneOf<std::string>({"x", "-", "?", "vertex"})); } else if (k == 2) { std::size_t b = t.rfind("outer", p), x = t.find("endloop", p); t.replace(b, x - b, "outer loop\n"); } else { std::size_t q = t.find_last_not_of(" \t\r", e - 1), b = t.find_last_of(" \t", q); t.erase(b + 1, q - b); }
    g << t; g.label(k == 0, "missing vertex"); g.label(k == 1, "no number"); g.label(k == 2, "no vertices"); g.label(k == 3, "missing number");
    std::size_t n = 0; try { std::unique_ptr<Data> d = read(g, t); n = common(*d).elems().size(); } catch (const std::exception&) { return; } FAIL("a facet without three vertices is accepted: " << n << " triangles of " << total(m));
}
PROP(damaged, 2500, 50000, "the text differs from a file") {
    Stl m = genModel(g); std::string t = text(g, m); int n = g.range(1, 6);
    for (int q = 0; q < n && !t.empty(); q++) {
        std::size_t i = (std::size_t)g.draw(t.size()), len = std::min<std::size_t>((std::size_t)g.draw(60), t.size() - i); int k = g.range(0, 5);
        if (k == 0) t[i] = (char)g.range(0, 255); else if (k == 1) t.erase(i, len); else if (k == 2) t.insert(i, t.substr((std::size_t)g.draw(t.size()), len)); else if (k == 3) t[i] = (char)(t[i] ^ (1 << g.range(0, 7)));
        else if (k == 4) t.insert(i, g.oneOf<std::string>({" vertex ", " solid ", "\nsolid\n", " endloop ", " outer loop ", " loop ", "\nouter loop\n", " endsolid ", " 1e999 ", " nan ", " inf ", "\n", std::string(1, '\0'), " -", "vertex vertex", " 0x1p3 "})); else { std::size_t a = t.find('\n', i); if (a != std::string::npos) { std::size_t b = t.find('\n', a + 1); if (b != std::string::npos) t.erase(a, b - a); } }
    }
    g << t; g.nontrivial(); std::unique_ptr<Data> d; try { d = read(g, t); } catch (const std::exception&) { g.label("rejected"); return; } g.label("accepted"); common(*d);
}
PROP(noise, 800, 10000, "keywords") {
    std::string t; bool words = g.chance(3, 4); std::size_t n = g.len(0, 80); static const char* w[] = {"solid ", "endsolid ", "facet ", "normal ", "outer loop\n", "loop ", "endloop\n", "endfacet\n", "vertex ", "1 ", "-2.5 ", "0 0 0\n", "\n", "name\n", "vertex 1 2 3\n", "outer "};
    for (std::size_t i = 0; i < n; i++) { if (words) t += w[g.draw(16)]; else t += (char)g.range(0, 255); } g << t; g.nontrivial(words);
    std::unique_ptr<Data> d; try { d = read(g, t); } catch (const std::exception&) { g.label("rejected"); return; } g.label("accepted"); common(*d);
}
