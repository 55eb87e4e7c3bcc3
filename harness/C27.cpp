// C27: a GiD export contains exactly the project's geometry.
// EXTRA: gid
// SRC: core parser mesher solver exporter
//
// Histories of exports within a process are read back by a reader of our own.
#include "exports.h"
#include "exporter/gid/Exporter.h"
#include <fstream>
#include <zlib.h>

namespace gid { namespace {
using namespace exports;
typedef SEMBA::Exporter::GiD::Exporter GE;
struct Hush { Hush() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } ~Hush() { std::cerr.clear(); std::cout.clear(); } };
// Node and element numbers met by the process.
struct Numbers { std::set<long> nodes, elems; };
std::string content(const std::string& f, bool zip) {
    std::string s; if (zip) { gzFile z = gzopen(f.c_str(), "rb"); CHECK(z, f << " is missing"); char b[4096]; int n; while ((n = gzread(z, b, sizeof b)) > 0) s.append(b, (std::size_t)n); CHECK(n == 0, f << " is damaged"); gzclose(z); return s; }
    std::ifstream is(f, std::ios::binary); CHECK(is.good(), f << " is missing"); s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); return s;
}
long whole(const std::string& s) { char* e; long r = std::strtol(s.c_str(), &e, 10); CHECK(!s.empty() && *e == 0, "'" << s << "' is no number"); return r; }
double real(const std::string& s) { char* e; double r = std::strtod(s.c_str(), &e); CHECK(!s.empty() && *e == 0, "'" << s << "' is no number"); return r; }
std::vector<std::string> words(const std::string& l) { std::istringstream is(l); std::vector<std::string> r; std::string w; while (is >> w) r.push_back(w); return r; }
std::string lower(std::string s) { for (char& c : s) c = (char)tolower((unsigned char)c); return s; }
// Mesh blocks of a file: name, kind and elements.
Export readBack(const std::string& f, bool zip, Numbers& n) {
    std::istringstream is(content(f, zip)); std::string l; Export r; std::map<long, V3> nodes; // nodes of earlier blocks can be referred to
    int state = 0, type = 0; std::size_t nv = 0;
    while (std::getline(is, l)) {
        if (!l.empty() && l.back() == '\r') l.pop_back(); std::string w = lower(l); w.erase(0, std::min(w.size(), w.find_first_not_of(" \t"))); while (!w.empty() && isspace((unsigned char)w.back())) w.pop_back();
        if (w.empty() || w[0] == '#') continue;
        if (w.compare(0, 4, "mesh") == 0) {
            CHECK(state == 0, "a mesh begins inside another: " << l); std::size_t a = l.find('"'), b = l.rfind('"'); CHECK(a != std::string::npos && b > a, "a mesh without name: " << l); std::string name = l.substr(a + 1, b - a - 1); std::vector<std::string> q = words(lower(l.substr(b + 1)));
            std::string kind; long dim = 0; for (std::size_t i = 0; i + 1 < q.size(); i++) { if (q[i] == "dimension") dim = whole(q[i + 1]); if (q[i] == "elemtype") kind = q[i + 1]; if (q[i] == "nnode") nv = (std::size_t)whole(q[i + 1]); }
            CHECK_EQ(dim, 3L, "dimension: " << l); static const struct { const char* n; int t; std::size_t v; } k[] = {{"point", 1, 1}, {"linear", 3, 2}, {"triangle", 5, 3}, {"quadrilateral", 9, 4}, {"tetrahedra", 10, 4}, {"hexahedra", 12, 8}}; type = 0;
            for (auto& x : k) if (kind == x.n) { type = x.t; CHECK_EQ(nv, x.v, "nodes of " << l); } CHECK(type, "unknown kind of element: " << l); r.push_back({plainName(name), Cells()}); state = 1;
        } else if (w == "coordinates") { CHECK(state == 1, "coordinates out of place"); state = 2; } else if (w == "end coordinates") { CHECK(state == 2, "the coordinates end out of place"); state = 3; }
        else if (w == "elements") { CHECK(state == 3, "elements out of place"); state = 4; } else if (w == "end elements") { CHECK(state == 4, "the elements end out of place"); state = 0; }
        else if (state == 2) { std::vector<std::string> q = words(l); CHECK_EQ(q.size(), std::size_t(4), "coordinate: " << l); long id = whole(q[0]); CHECK(id > 0 && n.nodes.insert(id).second, "the node number " << id << " is used again"); nodes[id] = V3(real(q[1]), real(q[2]), real(q[3])); }
        else if (state == 4) { std::vector<std::string> q = words(l); CHECK(q.size() == nv + 1, "element: " << l); long id = whole(q[0]); CHECK(id > 0 && n.elems.insert(id).second, "the element number " << id << " is used again"); Cell c; c.type = type; for (std::size_t i = 1; i < q.size(); i++) { auto p = nodes.find(whole(q[i])); CHECK(p != nodes.end(), "element " << id << " refers to node " << q[i] << ", which does not exist"); c.v.push_back(p->second); } r.back().second.push_back(c); }
        else CHECK(w.compare(0, 4, "unit") == 0 || w.compare(0, 3, "gid") == 0, "what is this: " << l);
    }
    CHECK_EQ(state, 0, "the file ends within a mesh"); for (auto& b : r) CHECK(!b.second.empty(), "mesh " << b.first << " has no elements"); return r;
}
// All the elements of one kind under one name.
Export byKind(const Export& e) { std::map<std::pair<std::string, int>, Cells> m; for (auto& x : e) for (auto& c : x.second) m[{x.first + "|" + std::to_string(std::abs(c.type)), 0}].push_back(c); Export r; for (auto& x : m) r.push_back({x.first.first, x.second}); return r; }
std::unique_ptr<Data> project(pbt::Gen& g) {
    std::unique_ptr<Data> d(exports::project(g)); if (!d) return d;
    // Names are written between quotes, as they are.
    for (std::size_t i = 0; i < d->physicalModels->size(); i++) { std::string s = (*d->physicalModels)(i)->getName(); for (char& c : s) if (c == '"') c = '\''; (*d->physicalModels)(i)->setName(s); }
    if (d->outputRequests) for (std::size_t i = 0; i < d->outputRequests->size(); i++) { std::string s = (*d->outputRequests)(i)->getName(); for (char& c : s) if (c == '"') c = '\''; (*d->outputRequests)(i)->setName(s); }
    if (d->solver) { delete d->solver; d->solver = nullptr; } return d;
}
// The factor the project was scaled with when it was read; exports undo it.
double scale(pbt::Gen& g, Data& d, bool always = false) {
    if (!always && g.chance(1, 4)) return 1; double f = g.chance(1, 3) ? 1 : g.chance(1, 8) ? 0 : g.oneOf<double>({1e-3, 1e3, 0.0254, 2, 0.1, 1e-6, 7.5});
    SEMBA::Solver::Settings s; s.setObject(); SEMBA::Solver::Settings v; v.setReal(f); s.addMember("geometryScalingFactor", v); d.solver = new SEMBA::Solver::Info("solver", s); g << " factor " << f; return f == 0 ? 1 : f;
}
Export scaled(Export e, double f) { for (auto& x : e) for (auto& c : x.second) for (auto& p : c.v) for (int i = 0; i < 3; i++) p(i) /= f; return e; }
void checkFile(const std::string& f, bool zip, Numbers& n, const Data& d, double factor) { compare(byKind(readBack(f, zip, n)), byKind(scaled(asked(d, true), factor))); }
}}
using namespace gid;

PROP(exports, 2500, 50000, "the project has elements, and sources, requests or boundaries") {
    std::unique_ptr<Data> d = gid::project(g); if (!d) { g.discard(); return; } double f = scale(g, *d); std::string name = fileName(g), dir = where(g); g.label(f != 1, "scaled"); g.label(!d->solver, "no solver");
    Export w = asked(*d, true); bool other = false; std::size_t n = 0; for (auto& x : w) { n += x.second.size(); other |= x.first.find("EMSource") != std::string::npos || x.first.find("OutRq") != std::string::npos || x.first.find("@Boundary") != std::string::npos; } g.nontrivial(n && other); g << " | "; for (auto& x : w) g << x.first << ":" << x.second.size() << " ";
    std::string before = look(*d), path = dir + "/" + name; { Hush m; GE e(d.get(), path); }
    same(look(*d), before, "after exporting"); Numbers k; checkFile(path + ".post.msh", false, k, *d, f);
}
PROP(histories, 800, 15000, "three exports, two of them with elements") {
    // Several exports in a process, one after another or at a time.
    struct Open { std::unique_ptr<Data> d; std::string file; double f; std::unique_ptr<GE> e; }; std::vector<Open> v; Numbers k; std::string dir = where(g); int n = g.range(2, 5), full = 0; bool overlap = false;
    auto close = [&](std::size_t i) { { Hush m; v[i].e.reset(); } checkFile(v[i].file, false, k, *v[i].d, v[i].f); v.erase(v.begin() + (long)i); };
    for (int i = 0; i < n; i++) {
        Open o; o.d = gid::project(g); if (!o.d) { i--; if (g.chance(1, 3)) break; continue; } o.f = scale(g, *o.d); full += !asked(*o.d, true).empty(); std::string path = dir + "/f" + std::to_string(i); o.file = path + ".post.msh";
        { Hush m; o.e.reset(new GE(o.d.get(), path)); } v.push_back(std::move(o)); overlap |= v.size() > 1; while (!v.empty() && g.flip()) close((std::size_t)g.draw(v.size()));
    }
    while (!v.empty()) close((std::size_t)g.draw(v.size())); g.label(overlap, "at a time"); g.nontrivial(n > 2 && full > 1);
}
PROP(again, 500, 8000, "the project has elements") {
    // Exporting the same project twice gives the same geometry, under new numbers, and replaces the file.
    std::unique_ptr<Data> d = gid::project(g); if (!d) { g.discard(); return; } double f = scale(g, *d, true); std::string path = where(g) + "/x"; Numbers k; g.nontrivial(f != 1 && !asked(*d, true).empty());
    for (int i = 0; i < 3; i++) { { Hush m; GE e(d.get(), path); } checkFile(path + ".post.msh", false, k, *d, f); }
}
PROP(binary, 300, 3000, "the project has elements") {
    // The binary form is written without harm to the text form of the next exports.
    std::unique_ptr<Data> d = gid::project(g); if (!d) { g.discard(); return; } double f = scale(g, *d); std::string path = where(g) + "/x"; g.nontrivial(!asked(*d, true).empty()); std::string before = look(*d);
    { Hush m; GE e(d.get(), path, GiD_PostBinary); } same(look(*d), before, "after exporting"); std::string s = content(path + ".post.res", true); CHECK(!s.empty(), "the binary file is empty"); std::size_t blocks = 0; for (std::size_t p = 0; (p = s.find("dimension 3", p)) != std::string::npos; p++) blocks++; std::size_t want = byKind(asked(*d, true)).size(); CHECK(blocks >= want, blocks << " mesh blocks instead of " << want);
    Numbers k; { Hush m; GE e(d.get(), path); } checkFile(path + ".post.msh", false, k, *d, f);
}
