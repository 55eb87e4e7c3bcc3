// What an export of a project has to hold, and random projects to export.
#ifndef VERIF_EXPORTS_H_
#define VERIF_EXPORTS_H_
#include "look.h"
#include <cstring>
#include <unistd.h>
#include <sys/stat.h>
namespace exports { namespace {
struct Cell { int type; std::vector<V3> v; };
typedef std::vector<Cell> Cells;
typedef std::vector<std::pair<std::string, Cells>> Export;
std::string plainName(std::string s) { for (char& c : s) if (std::strchr("/\\<>&\"':*?| ", c) || (unsigned char)c < 32) c = '_'; return s; }
// -------------------------------------------------------- what is asked for
int typeOf(const SG::Elem* e) { switch (kindOf(e)) { case NODE: return 1; case LINE2: return 3; case TRI3: case TRI6: return 5; case QUAD4: return 9; case TET4: case TET10: return 10; case HEX8: return 12; case POLYGON: return 7; default: return e->numberOfCoordinates() == 2 ? 3 : 4; } }
struct Asked { std::vector<std::pair<const SG::Elem*, Cell>> all; };
Cell cellOf(const SG::ElemR* e, const SG::Grid3*) { Cell c; c.type = typeOf(e); if (kindOf(e) == POLYLINE) for (std::size_t i = 0; i < e->numberOfCoordinates(); i++) c.v.push_back(e->getV(i)->pos()); else for (std::size_t i = 0; i < e->numberOfVertices(); i++) c.v.push_back(e->getVertex(i)->pos()); return c; }
Cell cellOf(const SG::ElemI* e, const SG::Grid3* g) { Cell c; c.type = typeOf(e); for (std::size_t i = 0; i < e->numberOfVertices(); i++) { V3 p; for (std::size_t k = 0; k < 3; k++) p((int)k) = g->getPos(k)[(std::size_t)e->getVertex(i)->pos()((int)k)]; c.v.push_back(p); } return c; }
template <class M> Asked cells(const M& m, const SG::Grid3* g) { Asked a; for (std::size_t i = 0; i < m.elems().size(); i++) { auto e = m.elems()(i); int k = kindOf(e); if (g && k != NODE && k != LINE2 && k != QUAD4 && k != HEX8) continue; a.all.push_back({e, cellOf(e, g)}); } return a; }
void add(Export& x, const std::string& n, const Cells& s) { if (!s.empty()) x.push_back({plainName(n), s}); }
Export asked(const Data& d, bool gid = false) { // GiD files have no polylines, polygons and curved elements, and no layers without materials
    Export r; auto s = dynamic_cast<const SG::Mesh::Structured*>(d.mesh); auto u = dynamic_cast<const SG::Mesh::Unstructured*>(d.mesh); const SG::Grid3* g = s ? &s->grid() : nullptr;
    Asked a = s ? cells(*s, g) : cells(*u, g); if (gid) { Asked b; for (auto& e : a.all) { int k = kindOf(e.first); if (k == NODE || k == LINE2 || k == TRI3 || k == QUAD4 || k == TET4 || k == HEX8) b.all.push_back(e); } a = b; } std::string pre = s ? "str_" : ""; const SG::Layer::Group<>& lay = s ? s->layers() : u->layers();
    for (std::size_t l = 0; l < lay.size(); l++) {
        if (d.physicalModels->empty() && !gid) { Cells q; for (auto& e : a.all) if (e.first->getLayer() == lay(l)) q.push_back(e.second); add(r, pre + lay(l)->getName(), q); }
        for (std::size_t k = 0; k < d.physicalModels->size(); k++) { auto m = (*d.physicalModels)(k); Cells q; for (auto& e : a.all) if (e.first->getLayer() == lay(l) && e.first->getModel() == m) q.push_back(e.second); add(r, pre + m->getName() + "@" + lay(l)->getName(), q); }
    }
    auto on = [&](const Elems& e) { Cells q; std::set<const SG::Elem*> in; for (std::size_t i = 0; i < e.size(); i++) in.insert(e(i)); for (auto& x : a.all) if (in.count(x.first)) q.push_back(x.second); return q; };
    if (d.sources) for (std::size_t i = 0; i < d.sources->size(); i++) add(r, pre + "EMSource_" + (*d.sources)(i)->getName(), on((*d.sources)(i)->elems()));
    if (d.outputRequests) for (std::size_t i = 0; i < d.outputRequests->size(); i++) add(r, pre + "OutRq_" + (*d.outputRequests)(i)->getName(), on((*d.outputRequests)(i)->elems()));
    if (!g) return r;
    V3 lo, hi; for (std::size_t k = 0; k < 3; k++) { lo((int)k) = g->getPos(k).front(); hi((int)k) = g->getPos(k).back(); }
    for (std::size_t k = 0; k < 3; k++) for (std::size_t b = 0; b < 2; b++) if (gid || s->bounds()(k, b)) {
        Cell c; c.type = -9; int x = (int)(k + 1) % 3, y = (int)(k + 2) % 3; V3 p; p((int)k) = b ? hi((int)k) : lo((int)k); for (int q = 0; q < 4; q++) { p(x) = q == 1 || q == 2 ? hi(x) : lo(x); p(y) = q > 1 ? hi(y) : lo(y); c.v.push_back(p); }
        auto m = s->bounds()(k, b); add(r, (m ? m->castTo<PM::PhysicalModel>()->getName() : std::string("Undefined")) + "@Boundary", {c});
    }
    Cells lines; // the lines of the grid on its three lower faces
    for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) { int a1 = (k + 1 + i) % 3, a2 = (k + 2 - i) % 3; for (double x : g->getPos((std::size_t)a1)) { V3 p = lo, q = lo; p(a1) = q(a1) = x; q(a2) = hi(a2); lines.push_back({-3, {p, q}}); } }
    add(r, "Grid", lines); return r;
}
// ------------------------------------------------------------- comparison
bool near(double a, double b) { return std::fabs(a - b) <= 1.2e-7 * std::max(std::fabs(a), std::fabs(b)) + 1e-30; }
bool near(const V3& a, const V3& b) { return near(a(0), b(0)) && near(a(1), b(1)) && near(a(2), b(2)); }
bool alike(const Cell& got, const Cell& want) {
    if ((got.type != std::abs(want.type) && !(got.type == 4 && want.type == 3)) || got.v.size() != want.v.size()) return false; std::size_t n = got.v.size(); bool same = true; for (std::size_t i = 0; i < n; i++) same &= near(got.v[i], want.v[i]); if (same || want.type > 0) return same;
    for (std::size_t s = 0; s < n; s++) for (int d = 0; d < 2; d++) { bool ok = true; for (std::size_t i = 0; i < n; i++) ok &= near(got.v[i], want.v[(d ? s + n - i : s + i) % n]); if (ok) return true; } return false; // faces and lines made up for the export: any start, any sense
}
std::string str(const Cell& c) { std::ostringstream o; o << "type " << std::abs(c.type); for (auto& p : c.v) o << " " << p; return o.str(); }
bool sameSet(const Cells& got, const Cells& want, std::string& why) {
    if (got.size() != want.size()) { why = std::to_string(got.size()) + " cells instead of " + std::to_string(want.size()); return false; }
    std::vector<bool> used(got.size()); for (auto& w : want) { bool f = false; for (std::size_t i = 0; i < got.size() && !f; i++) if (!used[i] && alike(got[i], w)) used[i] = f = true; if (!f) { why = "no cell is " + str(w); for (std::size_t i = 0; i < got.size(); i++) if (!used[i]) { why += "; one is " + str(got[i]); break; } return false; } } return true;
}
void compare(const Export& got, const Export& want) {
    std::vector<bool> used(got.size()); for (auto& w : want) { bool f = false; std::string why = "it is not there"; for (std::size_t i = 0; i < got.size() && !f; i++) if (!used[i] && got[i].first == w.first && sameSet(got[i].second, w.second, why)) used[i] = f = true; CHECK(f, "data set " << w.first << ": " << why); }
    for (std::size_t i = 0; i < got.size(); i++) CHECK(used[i], "data set " << got[i].first << " of " << got[i].second.size() << " cells was not asked for");
}
struct Mute { Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } ~Mute() { std::cerr.clear(); std::cout.clear(); } };
std::string where(pbt::Gen& g) { static int n = 0; std::string d = pbt::scratch() + "/" + std::to_string(n++); if (g.chance(1, 4)) d += ".x"; mkdir(d.c_str(), 0700); return d; }
Data* project(pbt::Gen& g) {
    std::unique_ptr<Data> d(genProject(g)); if (!d->mesh) return nullptr; if (!d->physicalModels) d->physicalModels = new PM::Group<>();
    auto name = [&]() { return g.chance(1, 3) ? std::string("same") : g.chance(1, 3) ? g.text("ab/@.-_ <>&\"'1", 0, 6) : g.ident(); };
    if (g.flip()) { for (std::size_t i = 0; i < d->physicalModels->size(); i++) if (g.flip()) (*d->physicalModels)(i)->setName(name()); if (d->outputRequests) for (std::size_t i = 0; i < d->outputRequests->size(); i++) if (g.flip()) (*d->outputRequests)(i)->setName(name()); }
    for (std::size_t i = 0; i < d->physicalModels->size(); i++) g << " " << (*d->physicalModels)(i)->getName();
    if (g.chance(1, 3)) { double s = std::pow(10.0, g.range(-6, 6)); d->mesh->applyScalingFactor(s); g << " x" << s; }
    return d.release();
}
std::string fileName(pbt::Gen& g) { return g.chance(1, 3) ? g.oneOf<std::string>({"a.b", "out.1", "case", "x", "two words", "name.vtk"}) : g.ident(); }
}}
#endif
