// C26: a VTK export contains exactly the project's geometry.
//
// Random projects are exported, the files are read back by a reader of our own
// and compared with the data sets the project's own content asks for.
#include "exports.h"
#include "exporter/vtk/Exporter.h"
#include <fstream>
#include <dirent.h>

namespace vtk { namespace {
using namespace exports;
// ------------------------------------------------------------- reading back
struct Tag { std::string name, text; std::map<std::string, std::string> at; std::vector<Tag> in; const Tag& one(const std::string& n) const { const Tag* r = nullptr; for (auto& t : in) if (t.name == n) { CHECK(!r, "two " << n << " in " << name); r = &t; } CHECK(r, "no " << n << " in " << name); return *r; } std::string get(const std::string& k) const { auto i = at.find(k); CHECK(i != at.end(), name << " without " << k); return i->second; } };
// A strict reader of the XML the files are made of.
struct Xml {
    std::string s; std::size_t i = 0; std::string file;
    void bad(const std::string& w) { FAIL(file << " is no XML: " << w << " at '" << s.substr(i, 40) << "'"); }
    void blank() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    std::string word() { std::string r; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '-' || s[i] == ':')) r += s[i++]; if (r.empty()) bad("a name is missing"); return r; }
    std::string plain(const std::string& t) { std::string r; for (std::size_t k = 0; k < t.size(); k++) { if (t[k] == '<') bad("'<' in a value"); if (t[k] != '&') { r += t[k]; continue; } std::size_t e = t.find(';', k); if (e == std::string::npos) bad("'&' in a value"); std::string n = t.substr(k + 1, e - k - 1); if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n.size() > 1 && n[0] == '#') r += (char)std::strtol(n.c_str() + (n[1] == 'x' ? 2 : 1), nullptr, n[1] == 'x' ? 16 : 10); else bad("'&' in a value"); k = e; } return r; }
    Tag tag() {
        Tag t; if (s[i] != '<') bad("no tag"); i++; t.name = word();
        while (true) {
            std::size_t was = i; blank(); if (i >= s.size()) bad("the end"); if (s[i] == '/' || s[i] == '>') break; if (was == i) bad("attributes without a blank between");
            std::string k = word(); blank(); if (i >= s.size() || s[i] != '=') bad("no '='"); i++; blank(); char q = i < s.size() ? s[i] : 0; if (q != '"' && q != '\'') bad("no quotes"); std::size_t e = s.find(q, i + 1); if (e == std::string::npos) bad("the end"); if (t.at.count(k)) bad("an attribute twice"); t.at[k] = plain(s.substr(i + 1, e - i - 1)); i = e + 1;
        }
        if (s[i] == '/') { i++; if (i >= s.size() || s[i] != '>') bad("no '>'"); i++; return t; } i++;
        while (true) { std::size_t e = s.find('<', i); if (e == std::string::npos) bad(t.name + " does not end"); t.text += plain(s.substr(i, e - i)); i = e; if (s[i + 1] == '/') { i += 2; if (word() != t.name) bad("another tag ends"); blank(); if (i >= s.size() || s[i] != '>') bad("no '>'"); i++; return t; } if (s.compare(i, 4, "<!--") == 0) { std::size_t q = s.find("-->", i); if (q == std::string::npos) bad("the end"); i = q + 3; continue; } t.in.push_back(tag()); }
    }
    Tag all() { blank(); if (s.compare(i, 2, "<?") == 0) { std::size_t e = s.find("?>", i); if (e == std::string::npos) bad("the end"); i = e + 2; } blank(); if (i >= s.size()) bad("nothing"); Tag t = tag(); blank(); if (i < s.size()) bad("more than one tag"); return t; }
};
Tag readXml(const std::string& f) { std::ifstream is(f, std::ios::binary); CHECK(is.good(), f << " is missing"); Xml x; x.file = f.substr(f.rfind('/') + 1); x.s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); return x.all(); }
template <class T> std::vector<T> numbers(const Tag& t) { std::istringstream is(t.text); std::vector<T> r; std::string w; while (is >> w) { char* e; r.push_back((T)std::strtod(w.c_str(), &e)); CHECK(*e == 0, "'" << w << "' is no number"); } return r; }

Cells readCells(const std::string& f) {
    Tag t = readXml(f); std::string n = f.substr(f.rfind('/') + 1); CHECK_EQ(t.name, std::string("VTKFile"), n); CHECK_EQ(t.get("type"), std::string("UnstructuredGrid"), n);
    const Tag& u = t.one("UnstructuredGrid"); bool piece = false; for (auto& x : u.in) piece |= x.name == "Piece"; const Tag& p = piece ? u.one("Piece") : u;
    const Tag& pd = p.one("Points").one("DataArray"); CHECK_EQ(pd.get("NumberOfComponents"), std::string("3"), n); std::vector<double> x = numbers<double>(pd);
    CHECK_EQ(std::to_string(x.size() / 3), p.get("NumberOfPoints"), "declared points of " << n); CHECK(x.size() % 3 == 0, "half a point in " << n);
    std::vector<long> con, off, typ; int seen = 0; for (auto& a : p.one("Cells").in) { CHECK(a.name == "DataArray", "a " << a.name << " among the cells"); std::string k = a.get("Name"); std::vector<long> q = numbers<long>(a); seen++; if (k == "connectivity") con = q; else if (k == "offsets") off = q; else { CHECK(k == "types", "array " << k); typ = q; } } CHECK_EQ(seen, 3, "arrays of cells of " << n);
    CHECK_EQ(std::to_string(typ.size()), p.get("NumberOfCells"), "declared cells of " << n); CHECK_EQ(off.size(), typ.size(), "offsets of " << n); CHECK_EQ((long)con.size(), off.empty() ? 0 : off.back(), "last offset of " << n);
    Cells r; long at = 0; std::vector<bool> used(x.size() / 3); for (std::size_t i = 0; i < typ.size(); i++) { Cell c; c.type = (int)typ[i]; CHECK(off[i] >= at && off[i] <= (long)con.size(), "offset " << i << " of " << n); for (; at < off[i]; at++) { long k = con[(std::size_t)at]; CHECK(k >= 0 && k < (long)used.size(), "cell " << i << " of " << n << " refers to point " << k << " of " << used.size()); used[(std::size_t)k] = true; c.v.push_back(V3(x[3 * (std::size_t)k], x[3 * (std::size_t)k + 1], x[3 * (std::size_t)k + 2])); } r.push_back(c); }
    for (std::size_t i = 0; i < used.size(); i++) CHECK(used[i], "point " << i << " of " << n << " belongs to no cell"); return r;
}
Export readBack(const std::string& dir, const std::string& name) {
    Tag t = readXml(dir + "/" + name + ".pvd"); CHECK_EQ(t.name, std::string("VTKFile"), "collection"); CHECK_EQ(t.get("type"), std::string("Collection"), "collection"); Export r; std::set<std::string> files, parts;
    for (auto& d : t.one("Collection").in) { CHECK_EQ(d.name, std::string("DataSet"), "collection"); std::string f = d.get("file"); CHECK(files.insert(f).second, "data set " << f << " is listed twice"); parts.insert(d.get("part")); CHECK(!f.empty() && f[0] != '/' && f.compare(0, name.size() + 5, name + ".vtk/") == 0, "data set outside the export: " << f); r.push_back({plainName(d.get("group")), readCells(dir + "/" + f)}); }
    CHECK_EQ(parts.size(), r.size(), "parts of the collection are not numbered each"); return r;
}
std::set<std::string> written(const std::string& dir) { std::set<std::string> r; DIR* d = opendir(dir.c_str()); if (!d) return r; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(d); return r; }

void exported(pbt::Gen& g, const Data& d, const std::string& dir, const std::string& name, bool again) {
    std::string before = look(d); { Mute m; SEMBA::Exporter::VTK::Exporter e(&d, dir + "/" + name); } same(look(d), before, "after exporting");
    Export x = readBack(dir, name), w = asked(d); compare(x, w); if (!again) { CHECK_EQ(written(dir + "/" + name + ".vtk").size(), x.size(), "files written and data sets listed"); CHECK(written(dir) == (std::set<std::string>{name + ".vtk", name + ".pvd"}), "something else was written"); }
    std::map<std::string, int> k; bool twice = false; for (auto& q : w) twice |= ++k[q.first] > 1; g.label(twice, "one name twice"); g.label(w.empty(), "nothing to export");
}
}}
using namespace vtk;
using namespace exports;

PROP(projects, 3000, 60000, "the mesh has elements and there is a source, a request or a boundary") {
    std::unique_ptr<Data> d(project(g)); if (!d) { g.discard(); return; }
    Export w = asked(*d); std::size_t n = 0; for (auto& x : w) n += x.second.size(); bool other = false; for (auto& x : w) other |= x.first.find("EMSource") != std::string::npos || x.first.find("OutRq") != std::string::npos || x.first.find("@Boundary") != std::string::npos; g.nontrivial(n > 0 && other); g << " | "; for (auto& x : w) g << x.first << ":" << x.second.size() << " ";
    exported(g, *d, where(g), fileName(g), false);
}
PROP(again, 600, 10000, "both projects have elements") {
    // A second export under the same name replaces the first.
    std::unique_ptr<Data> a(project(g)), b(project(g)); if (!a || !b) { g.discard(); return; } std::string dir = where(g), f = fileName(g); g.nontrivial(!asked(*a).empty() && !asked(*b).empty());
    exported(g, *a, dir, f, false); exported(g, *b, dir, f, true); exported(g, *a, dir, f + "2", true);
}
PROP(kinds, 1200, 20000, "always") {
    // One element of every kind, each alone in its layer.
    std::unique_ptr<Data> d(new Data); d->physicalModels = new PM::Group<>(); d->physicalModels->add(new PM::Predefined::PEC(MatId(1), "m")); RDesc r; std::size_t c = 1, n = 1 + g.many(0, 11, 120); auto u = new SG::Mesh::Unstructured; d->mesh = u;
    for (std::size_t i = 0; i < n; i++) {
        EDesc e; e.id = i + 1; e.kind = g.range(0, KINDS - 1); e.lay = i + 1; e.mat = 1; std::size_t k = nCoords(e.kind); if (e.kind == POLYLINE) k = (std::size_t)g.range(2, 5); if (e.kind == POLYGON) k = (std::size_t)g.range(5, 7);
        u->layers().add(new Layer::Layer(LayerId(i + 1), "L" + std::to_string(i + 1))); std::vector<const CoordR3*> v;
        for (std::size_t q = 0; q < k; q++, c++) { auto x = new CoordR3(CoordId(c * 3), V3(g.coord(), g.coord(), g.coord())); u->coords().add(x); v.push_back(x); }
        if (e.kind == TET4) { V3 a = v[0]->pos(), b = v[1]->pos(), w = v[2]->pos(), z = v[3]->pos(); if (std::fabs(det3(sub(b, a), sub(w, a), sub(z, a))) < 1e-6) e.kind = QUAD4; }
        g << kindName(e.kind) << " "; g.label(kindName(e.kind)); u->elems().add(makeElem(e, v, u->layers().getId(LayerId(e.lay)), (*d->physicalModels)(0)));
    }
    g.nontrivial(); exported(g, *d, where(g), "k", false);
}
