// C24: malformed JSON projects are rejected cleanly, never misread.
//
// Well-formed random documents are damaged in one known way each; the parser
// must throw or return a project without a mesh. Arbitrary damage must never
// crash, and whatever is accepted must be consistent.
#include "look.h"
#include "project.h"
#include "parser/json/Parser.h"
#include <new>
#include <cstdlib>
// An allocation no machine grants is a bad_alloc, not an abort of the sanitizer.
void* operator new(std::size_t n) { if (n > (std::size_t(256) << 20)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace proj { namespace {
struct Mute { Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } ~Mute() { std::cerr.clear(); std::cout.clear(); } };
enum Outcome { THROWN, NOMESH, COMPLETE };
// Reads a text; what is accepted must hang together.
Outcome readAny(const std::string& t, const std::string& w) {
    std::unique_ptr<Data> p;
    { Mute m; try { std::istringstream is(t); p.reset(new Data(SEMBA::Parser::JSON::Parser().read(is))); } catch (const std::exception&) { return THROWN; } }
    CHECK(p->physicalModels && p->sources && p->outputRequests, w << ": accepted without sections");
    refs(*p, w); look(*p);
    if (p->mesh) { const SG::Grid3* r = nullptr; if (auto m = dynamic_cast<const SG::Mesh::Geometric*>(p->mesh)) r = &m->grid(); if (auto m = dynamic_cast<const SG::Mesh::Structured*>(p->mesh)) r = &m->grid(); if (r) for (std::size_t k = 0; k < 3; k++) { CHECK(!r->getPos(k).empty(), w << ": accepted with a grid without lines"); for (double x : r->getPos(k)) CHECK(std::isfinite(x), w << ": accepted with a grid line at " << x); } }
    if (!p->mesh) { CHECK(p->sources->empty() && p->outputRequests->empty(), w << ": sources or requests without a mesh"); return NOMESH; }
    return COMPLETE;
}
void rejected(pbt::Gen& g, const std::string& t, const std::string& w) { Outcome o = readAny(t, w); CHECK(o != COMPLETE, w << " was read as if complete"); g.label(o == THROWN, "exception"); g.label(o == NOMESH, "no mesh"); }

// A place of a document: the value, and where it stands.
struct Site { JV* in; std::size_t i; std::string path; JV& v() const { return in->m[i].second; } const std::string& key() const { return in->m[i].first; } };
void sites(JV& v, const std::string& path, std::vector<Site>& out) {
    for (std::size_t i = 0; i < v.m.size(); i++) {
        std::string p = path + (v.t == JV::ARR ? "[]" : (path.empty() ? "" : ".") + v.m[i].first);
        out.push_back({&v, i, p}); if (p != "solverOptions") sites(v.m[i].second, p, out); else for (std::size_t k = 0; k < v.m[i].second.m.size(); k++) out.push_back({&v.m[i].second, k, p + "." + v.m[i].second.m[k].first});
    }
}
bool starts(const std::string& s, const std::string& t) { return s.compare(0, t.size(), t) == 0; }
// What may be left out or is not looked at.
bool optional(const Site& s, bool kindMatters) {
    const std::string& p = s.path;
    if (p == "_format") return true; if (!kindMatters && (p == "solverOptions" || p == "materials")) return true;
    if (starts(p, "solverOptions.")) return p != "solverOptions.solver" && (p != "solverOptions.geometryScalingFactor");
    if (p == "sources[].defined") return true;
    if (starts(p, "materials[].") && (s.key() == "freqMin" || s.key() == "freqMax" || s.key() == "numberOfPoles") && !s.in->find("useSembaVectorFitting")->b) return true;
    if (starts(p, "connectorOnPoint[].") && s.key() == "materialId" && !kindMatters) return true;
    if (kindMatters) { if (s.key() == "transferFunctionFile" || starts(s.key(), "finalTime") || s.key() == "samplingPeriod") return false; return false; }
    if (s.key() == "name" && (starts(p, "materials[].") || starts(p, "connectorOnPoint[]."))) return !s.in->find("layers");
    if (p == "grids[].lowerPaddingMeshSize") return true;
    if (s.key() == "initialTime" || s.key() == "initialFrequency" || s.key() == "transferFunctionFile") return true;
    return false;
}
JV fresh(pbt::Gen& g, Doc* out = nullptr) { Doc d = genDoc(g); Writer w(g, g.flip()); if (out) *out = d; return w.doc(d); }
std::string shown(const JV& v) { std::string s; pbt::Gen* none = nullptr; (void)none; if (v.t == JV::STR) return "'" + v.s + "'"; if (v.t == JV::NUM) return jtext::fmt("%g", v.n); static const char* n[] = {"null", "a boolean", "", "", "a list", "an object"}; return n[v.t]; }
std::vector<std::string> tokens(const std::string& s) { std::istringstream is(s); std::vector<std::string> r; std::string t; while (is >> t) r.push_back(t); return r; }
std::size_t num(const std::string& s) { return (std::size_t)std::strtoull(s.c_str(), nullptr, 10); }
}}
using namespace proj;

PROP(truncated, 1500, 30000, "the text ends after its first section") {
    JV v = fresh(g); std::string t = jtext::text(g, v, g.flip()); std::size_t n = g.chance(1, 4) ? t.size() - 1 - (std::size_t)g.draw(std::min<std::size_t>(t.size(), 20)) : (std::size_t)g.draw(t.size()); g.nontrivial(n > 200); g << n << " of " << t.size() << " bytes: ..." << t.substr(n > 60 ? n - 60 : 0, std::min<std::size_t>(n, 60));
    CHECK(readAny(t.substr(0, n), "a truncated document") == THROWN, "a document cut after " << n << " of " << t.size() << " bytes was accepted");
}
PROP(version, 600, 6000, "another version is named") {
    JV v = fresh(g); int k = g.range(0, 3); JV* x = v.find("_version"); std::string was = x->s;
    if (k == 0) for (std::size_t i = 0; i < v.m.size(); i++) { if (v.m[i].first == "_version") { v.m.erase(v.m.begin() + (long)i); break; } }
    if (k == 1) x->s = g.oneOf<std::string>({"", was + " ", was + ".0", "0." + was, "1.0", was.substr(0, was.size() - 1), " " + was, "v" + was});
    if (k == 2) *x = g.oneOf<JV>({jn(std::strtod(was.c_str(), nullptr)), JV(), jo(), ja().add(js(was)), jb(true)});
    if (k == 3) { std::size_t i = (std::size_t)g.draw(was.size()); x->s[i] = x->s[i] == '9' ? '8' : '9'; if (x->s == was) x->s += "9"; }
    g << k << " " << shown(v.find("_version") ? *v.find("_version") : js("(missing)")); g.nontrivial(k != 0); CHECK(readAny(jtext::text(g, v, g.flip()), "another version") == THROWN, "a document of another version was accepted");
}
PROP(missing, 2500, 50000, "the missing field is inside a section") {
    JV v = fresh(g); std::vector<Site> s, c; sites(v, "", s); for (auto& x : s) if (x.in->t == JV::OBJ && !optional(x, false)) c.push_back(x);
    std::map<std::string, std::vector<Site>> by; for (auto& x : c) by[x.path].push_back(x); std::vector<std::string> k; for (auto& x : by) k.push_back(x.first); std::string p = g.pick(k); Site x = g.pick(by[p]);
    x.in->m.erase(x.in->m.begin() + (long)x.i); g << "without " << p; g.nontrivial(p.find('.') != std::string::npos); rejected(g, jtext::text(g, v, g.flip()), "a document without " + p);
}
PROP(kind, 2500, 50000, "the field is inside a section") {
    JV v = fresh(g); std::vector<Site> s, c; sites(v, "", s); for (auto& x : s) if (!optional(x, true)) c.push_back(x);
    std::map<std::string, std::vector<Site>> by; for (auto& x : c) by[x.path].push_back(x); std::vector<std::string> k; for (auto& x : by) k.push_back(x.first); std::string p = g.pick(k); Site x = g.pick(by[p]);
    JV::T t = x.v().t; JV inner = x.v(); std::vector<JV> other = {JV(), ja(), jo()}; if (t == JV::ARR) other.erase(other.begin() + 1); if (t == JV::OBJ) other.pop_back();
    if (t != JV::STR) other.push_back(js(g.oneOf<std::string>({"", "text", "yes"}))); if (t == JV::STR || t == JV::BOOL || t == JV::OBJ || t == JV::ARR) other.push_back(jn(7.5)); if (t == JV::STR || t == JV::ARR || t == JV::OBJ) other.push_back(jb(true)); if (t != JV::ARR) other.push_back(ja().add(inner)); if (t != JV::OBJ) other.push_back(jo().set("value", inner));
    JV r = g.pick(other); g << p << ": " << shown(x.v()) << " becomes " << shown(r); x.v() = r; g.nontrivial(p.find('.') != std::string::npos); rejected(g, jtext::text(g, v, g.flip()), "a document with " + shown(r) + " as " + p);
}
PROP(label, 2000, 40000, "always") {
    JV v = fresh(g); std::vector<Site> s, c; sites(v, "", s); static const std::set<std::string> keys = {"materialType", "wireType", "connectorType", "surfaceType", "anisotropicModel", "sourceType", "definitionMode", "type", "hardness", "shape", "excitationMode", "gidOutputType", "direction", "gridType"};
    for (auto& x : s) if (x.v().t == JV::STR && keys.count(x.key()) && x.path != "grids[].type" && !starts(x.path, "solverOptions")) c.push_back(x);
    if (c.empty()) { g.discard(); return; }
    std::map<std::string, std::vector<Site>> by; for (auto& x : c) by[x.path].push_back(x); std::vector<std::string> k; for (auto& x : by) k.push_back(x.first); std::string p = g.pick(k); Site x = g.pick(by[p]); std::string was = x.v().s, now;
    switch (g.range(0, 4)) { case 0: now = "x" + was; break; case 1: now = ""; break; case 2: now = "unknown_" + g.ident(); break; case 3: now = was == "Thin_gap" ? "thin_gap" : was + "x"; break; default: now = was.substr(0, was.size() - 1); }
    g << p << ": '" << was << "' becomes '" << now << "'"; g.label(x.key().c_str()); g.nontrivial(); x.v().s = now; rejected(g, jtext::text(g, v, g.flip()), "the label '" + now + "' as " + p);
}
PROP(dangling, 2000, 40000, "always") {
    Doc d; JV v = fresh(g, &d); std::size_t big = 1 + 12 * (std::size_t)(1 + g.draw(5)); for (auto& c : d.mesh.coords) big = std::max(big, c.first + 1); for (auto& e : d.mesh.elems) big = std::max(big, e.id + 1); for (auto& l : d.mesh.layers) big = std::max(big, l.first + 1); for (auto m : d.mesh.mats) big = std::max(big, m + 1); big += 100;
    std::vector<Site> s, c; sites(v, "", s); for (auto& x : s) if ((starts(x.path, "elements.") && x.v().t == JV::STR) || x.key() == "coordIds" || (x.key() == "elemIds" && !x.v().m.empty())) c.push_back(x);
    if (c.empty()) { g.discard(); return; }
    std::map<std::string, std::vector<Site>> by; for (auto& x : c) by[x.path].push_back(x); std::vector<std::string> k; for (auto& x : by) k.push_back(x.first); std::string p = g.pick(k); Site x = g.pick(by[p]);
    std::size_t absent = big; 
    if (x.v().t == JV::STR) { auto t = tokens(x.v().s); std::size_t i = 1 + (std::size_t)g.draw(t.size() - 1); if (i > 2 && g.chance(1, 6)) absent = 0; std::string was = t[i]; t[i] = std::to_string(absent); std::string o; for (auto& q : t) o += (o.empty() ? "" : " ") + q; g << p << ": '" << x.v().s << "' becomes '" << o << "'"; g.label(i == 1, "material"); g.label(i == 2, "layer"); g.label(i > 2, "coordinate"); x.v().s = o; }
    else if (x.v().t == JV::ARR) { std::size_t i = (std::size_t)g.draw(x.v().m.size()); if (g.chance(1, 6)) absent = 0; g << p << "[" << i << "] = " << absent; x.v().m[i].second = ji((long)absent); g.label("list of identifiers"); }
    else { if (g.chance(1, 6)) absent = 0; g << p << " = " << absent; x.v() = ji((long)absent); g.label("connector"); }
    g.nontrivial(); rejected(g, jtext::text(g, v, g.flip()), "a reference to something absent in " + p);
}
PROP(numbers, 2500, 50000, "always") {
    JV v = fresh(g); std::vector<Site> s, c; sites(v, "", s); static const std::set<std::string> keys = {"directionVector", "polarizationVector", "layerBox", "box", "numberOfCells", "stepSize", "lowerPadding", "upperPadding", "lowerPaddingMeshSize", "upperPaddingMeshSize", "localAxes", "corner", "boxSize", "nGridPoints", "origin", "relativePermittivityPrincipalAxes"};
    for (auto& x : s) if (x.v().t == JV::STR && (keys.count(x.key()) || x.path == "coordinates[]" || starts(x.path, "elements."))) c.push_back(x);
    std::map<std::string, std::vector<Site>> by; for (auto& x : c) by[x.path].push_back(x); std::vector<std::string> k; for (auto& x : by) k.push_back(x.first); std::string p = g.pick(k); Site x = g.pick(by[p]);
    std::string sp; for (char q : x.v().s) { if (q == '{' || q == '}') sp += std::string(" ") + q + " "; else sp += q; } auto t = tokens(sp); std::vector<std::size_t> at; for (std::size_t i = 0; i < t.size(); i++) if (t[i] != "{" && t[i] != "}") at.push_back(i);
    std::size_t i = g.pick(at); int how = g.range(0, 3); if (how == 0 && i == 0 && x.path == "coordinates[]") how = 1; // a number split in two would be complete again
    switch (how) { case 0: t.erase(t.begin() + (long)i); break; case 1: t[i] = g.oneOf<std::string>({"abc", "-", "x1", "?", ",", "."}); break; case 2: for (std::size_t q = 0; q < at.size(); q++) if (at[q] >= i) t[at[q]] = ""; break; default: t.clear(); }
    std::string o; for (auto& q : t) o += (o.empty() ? "" : " ") + q; g << p << ": '" << x.v().s << "' becomes '" << o << "'"; g.label(x.key().empty() ? p.c_str() : x.key().c_str()); g.nontrivial(); x.v().s = o; rejected(g, jtext::text(g, v, g.flip()), "'" + o + "' as " + p);
}
PROP(grids, 1500, 40000, "always") {
    // Grids without cells in some direction, or of no size that can be told.
    Doc d; JV v = fresh(g, &d); JV& r = v.find("grids")->m[0].second; int a = g.range(0, 2); std::string what; g.nontrivial();
    auto put = [&](const char* key, const std::string& now) { JV* x = r.find(key); std::string sp; for (char q : x->s) { if (q == '{' || q == '}') sp += std::string(" ") + q + " "; else sp += q; } auto t = tokens(sp); int i = 0; bool all = g.chance(1, 6); for (auto& w : t) if (w != "{" && w != "}" && (i++ == a || all)) w = now; std::string o; for (auto& w : t) o += w + " "; x->s = o; what = std::string(key) + " " + o; };
    switch (d.grid.k) {
    case 0: put("numberOfCells", g.oneOf<std::string>({"0", "-1", "-2", "-1000"})); break;
    case 1: put("stepSize", g.oneOf<std::string>({"-1", "-0.001", "-1e9", "1e-300"})); break;
    case 2: put("stepSize", g.oneOf<std::string>({"0", "-1", "-0.001", "1e-300"})); break;
    case 3: { const char* k = a == 1 ? "yCoordinates" : a == 2 ? "zCoordinates" : g.flip() ? "yCoordinates" : "zCoordinates"; r.find(k)->m.clear(); what = std::string("no ") + k; break; }
    case 4: put("nGridPoints", g.oneOf<std::string>({"0", "-1", "-2", "-1000"})); break;
    default: { static const char* n[] = {"xs", "ys", "zs"}; std::string o; int how = g.range(0, 4); for (int q = 0; q < 3; q++) { if (how == 0 && q == a) continue; o += std::string(o.empty() ? "" : ", ") + "\"" + n[q] + "\": "; o += q != a || how == 3 ? "[0, 1, 2]" : how == 1 ? "[]" : how == 2 ? "[0, \"one\", 2]" : "1"; } if (how == 3) o = o.substr(0, o.size() - 1 - (std::size_t)g.draw(6)); r.find("filename")->s = g.chance(1, 8) ? newFile(".json", "") + ".absent" : newFile(".json", o); what = "file with " + o; }
    }
    g << what; static const char* n[] = {"by cells", "by step", "fitted", "native", "native uniform", "file"}; g.label(n[d.grid.k]); g.label(d.grid.pad && d.grid.k < 3, "padding"); rejected(g, jtext::text(g, v, g.flip()), "a grid with " + what);
}
PROP(flat_layers, 800, 12000, "always") {
    // A plane wave needs a volume to enter.
    JV v; JV* box = nullptr; for (int q = 0; q < 12 && !box; q++) { v = fresh(g); std::vector<Site> s; sites(v, "", s); std::vector<JV*> c; for (auto& x : s) if (x.path == "sources[].layerBox") c.push_back(&x.v()); if (!c.empty()) box = g.pick(c); } if (!box) { g.discard(); return; }
    std::string sp; for (char q : box->s) { if (q == '{' || q == '}') sp += std::string(" ") + q + " "; else sp += q; } auto t = tokens(sp); std::vector<std::size_t> at; for (std::size_t i = 0; i < t.size(); i++) if (t[i] != "{" && t[i] != "}") at.push_back(i);
    CHECK_EQ(at.size(), (std::size_t)6, "numbers of a box"); int flat = g.range(1, 3), left = flat; for (int k = 0; k < 3; k++) if (g.draw((std::size_t)(3 - k)) < (std::size_t)left) { t[at[(std::size_t)k + 3]] = t[at[(std::size_t)k]]; left--; } std::string o; for (auto& q : t) o += (o.empty() ? "" : " ") + q; g << "'" << box->s << "' becomes '" << o << "'"; box->s = o; g.label(flat == 1 ? "surface" : flat == 2 ? "line" : "point"); g.nontrivial(); rejected(g, jtext::text(g, v, g.flip()), "a plane wave of the layer '" + o + "'");
}
PROP(structure, 2500, 60000, "some text of the document differs") {
    JV v = fresh(g); int n = g.range(1, 4);
    for (int q = 0; q < n; q++) {
        std::vector<Site> s; sites(v, "", s); if (s.empty()) break; Site x = g.pick(s); int k = g.range(0, 6); g << x.path << "/" << k << " ";
        static const std::vector<double> odd = {0, -1, 1, 2, 3, 0.5, 1e-3, -7, 100};
        if (k == 0) x.in->m.erase(x.in->m.begin() + (long)x.i);
        else if (k == 1) { auto copy = x.in->m[x.i]; x.in->m.insert(x.in->m.begin() + (long)x.i, copy); }
        else if (k == 2) { Site y = g.pick(s); JV c = y.v(); x.v() = c; g << "<-" << y.path << " "; }
        else if (k == 3) x.v() = g.oneOf<JV>({JV(), ja(), jo(), js(""), jb(false), jn(g.pick(odd)), ji(g.range(-2, 20))});
        else if (k == 4 && x.v().t == JV::STR) { auto t = tokens(x.v().s); if (!t.empty()) { t[(std::size_t)g.draw(t.size())] = jtext::fmt("%g", g.pick(odd)); std::string o; for (auto& w : t) o += w + " "; x.v().s = o; g << o; } }
        else if (k == 5) { std::size_t j = (std::size_t)g.draw(x.in->m.size()); std::swap(x.in->m[x.i].second, x.in->m[j].second); }
        else if (x.v().t == JV::NUM) { x.v() = jn(g.pick(odd)); g << x.v().n << " "; }
    }
    std::string t = jtext::text(g, v, g.flip()); g.nontrivial(); Outcome o = readAny(t, "a changed document"); g.label(o == THROWN ? "exception" : o == NOMESH ? "no mesh" : "accepted");
}
PROP(bytes, 2500, 60000, "the text differs from a document") {
    JV v = fresh(g); std::string t = jtext::text(g, v, g.flip()); int n = g.range(1, 5);
    for (int q = 0; q < n && !t.empty(); q++) {
        std::size_t i = (std::size_t)g.draw(t.size()), len = std::min<std::size_t>((std::size_t)g.draw(30), t.size() - i); int k = g.range(0, 5); g << k << "@" << i << " ";
        if (k == 0) t[i] = (char)g.range(0, 255); else if (k == 1) t.erase(i, len); else if (k == 2) t.insert(i, t.substr((std::size_t)g.draw(t.size()), len)); else if (k == 3) t[i] = (char)(t[i] ^ (1 << g.range(0, 7)));
        else if (k == 4) t.insert(i, g.oneOf<std::string>({"{", "}", "[", "]", "\"", ",", ":", "null", "-1", "0", "1e400", "\\", "\\u0000", "\\ud800", "\xff", "-", "e", ".", "nan", std::string(1, '\0')})); else t.resize(i);
    }
    g << "\n" << t; g.nontrivial(); Outcome o = readAny(t, "a damaged document"); g.label(o == THROWN ? "exception" : o == NOMESH ? "no mesh" : "accepted");
}
PROP(noise, 1500, 30000, "the text starts like a document") {
    std::string t; int k = g.range(0, 2); std::size_t n = g.len(0, 200);
    if (k == 0) for (std::size_t i = 0; i < n; i++) t += (char)g.range(0, 255);
    else { static const char* w[] = {"{", "}", "[", "]", ",", ":", "\"_version\"", "\"0.14\"", "\"materials\"", "\"mesh\"", "\"grids\"", "\"elements\"", "1", "-2.5e3", "null", "true", "\"\"", " ", "\n", "\"layers\""}; if (k == 2) t = "{\"_version\": \"" OPENSEMBA_VERSION "\","; for (std::size_t i = 0; i < n; i++) t += w[g.draw(20)]; }
    g << t; g.nontrivial(k == 2); readAny(t, "noise");
}
PROP(nested, 60, 600, "always") {
    std::size_t n = (std::size_t)std::pow(10.0, 2 + g.real(0, 3)); int k = g.range(0, 2); std::string t = g.flip() ? "{\"_version\": \"" OPENSEMBA_VERSION "\", \"solverOptions\": {\"solver\": \"s\", \"deep\": " : "{\"_version\": \"" OPENSEMBA_VERSION "\", \"x\": {\"y\": "; g << n << " levels of kind " << k; g.nontrivial(); bool close = g.flip(); std::string tail;
    for (std::size_t i = 0; i < n; i++) { bool a = k == 0 || (k == 2 && g.flip()); t += a ? "[" : "{\"a\":"; tail += a ? "]" : "}"; } t += "1"; if (close) { std::reverse(tail.begin(), tail.end()); t += tail + "}}"; } readAny(t, "a deep document");
}
