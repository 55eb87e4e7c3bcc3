// Random project documents: a description, its JSON, and the files it names.
#ifndef VERIF_PROJECT_H_
#define VERIF_PROJECT_H_
#include "mesh.h"
#include "json.h"
#include <array>
#include <fstream>
namespace proj {
using geo::V3; using geo::EDesc; using geo::RDesc; using pbt::Gen;
enum MKind { PEC, PMC, SMA, PML, CLASSIC, DISP, WIRE, WIRESP, WIREDISP, GAP, SHORT, OPEN, MATCHED, SRLC, PRLC, SLPRC, CONNDISP, SIBC, LAYERS, CRYSTAL, FERRITE, MKINDS };
inline const char* mname(int k) { static const char* n[] = {"PEC", "PMC", "SMA", "PML", "classic", "dispersive", "wire", "series-parallel wire", "dispersive wire", "gap", "short", "open", "matched", "sRLC", "pRLC", "sLpRC", "dispersive connector", "SIBC file", "multilayer", "crystal", "ferrite"}; return n[k]; }
struct Mat { int k = 0; std::size_t id = 0; bool named = true; std::string name, file; std::vector<double> p; V3 euler, origin, eps; std::vector<std::array<double, 4>> lay; bool fit = false; int poles = 0; };
struct MagD { int k = 0; double f0 = 0, f1 = 0; std::string file; std::vector<std::pair<double, double>> xy; };   // 0 gaussian 1 band limited 2 file
struct Box { V3 lo, hi; int dim() const { int n = 0; for (int d = 0; d < 3; d++) n += lo(d) != hi(d); return n; } };
enum SKind { VECTORS, ANGLES, RANDOMWAVES, GENERATOR, ONLINE, WAVEGUIDE, COAXIAL, SKINDS };
struct Src { int k = 0; MagD mag; Box box; V3 dir, pol; double ang[4]; int n = 0, m = 0; double delay = 0; bool type = false, hard = false; std::vector<std::size_t> ids; V3 origin; double rin = 0, rout = 0; };
enum RKind { POINT, LINE, SURFACE, BOX, FAR, RKINDS };
struct Dom { bool time = false, freq = false, log = false, tran = false; double t[3], f[3]; std::string file; };
struct Req { int k = 0; int type = 0; std::string name; Dom dom; std::vector<std::size_t> ids; Box box; int dir = 0, skip = 0; double ang[6]; };
struct Con { Mat mat; bool ident = false; std::size_t coord = 0; };
struct Grd { int k = 0; Box box; std::array<int, 3> n; V3 step; std::vector<double> pos[3]; int pad = 0; V3 plo, phi, slo, shi; std::string file; };
struct Doc {
    bool solver = false; JV settings; double scale = 1; std::string solverName;
    std::vector<Mat> mats; RDesc mesh; std::vector<std::string> layerText; Grd grid; std::vector<Con> cons; std::vector<Src> srcs; std::vector<Req> reqs;
};
inline const char* reqType(int t) { static const char* n[] = {"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "current", "surfaceCurrentDensity", "bulkCurrentElectric", "bulkCurrentMagnetic", "farField"}; return n[t]; }
inline std::string newFile(const std::string& ext, const std::string& text) { static int n = 0; std::string f = pbt::scratch() + "/p" + std::to_string(n++ % 64) + ext; std::ofstream(f) << text; return f; }
inline double val(Gen& g) { return g.oneOf<double>({1, 2.5, 0.5, 3e-9, 8.854e-12, 1e22}) * (g.flip() ? 1 : g.positive(1e-3, 1e3)); }
inline V3 vec(Gen& g) { return V3(g.simple(), g.simple(), g.simple()); }
inline Box genBox(Gen& g, int minDim, double unit) {
    Box b; int zero = g.range(0, 3 - minDim); std::vector<int> ax = {0, 1, 2}; g.shuffle(ax);
    for (int d = 0; d < 3; d++) { b.lo(d) = unit * g.range(-3, 3); b.hi(d) = b.lo(d) + unit * g.range(1, 4); }
    for (int i = 0; i < zero; i++) b.hi(ax[(std::size_t)i]) = b.lo(ax[(std::size_t)i]);
    return b;
}
inline MagD genMag(Gen& g) {
    MagD m; m.k = g.range(0, 2); m.f1 = std::pow(10.0, g.range(-1, 9)) * (1 + g.range(0, 4)); m.f0 = m.f1 * 0.1 * g.range(1, 8);
    if (m.k == 2) { std::ostringstream o; o.precision(17); double x = 0; for (int i = g.range(1, 4); i-- > 0;) { double y = g.simple(); m.xy.push_back({x, y}); o << x << " " << y << "\n"; x += 0.25 * g.range(1, 4); } m.file = newFile(".exc", o.str()); }
    return m;
}
inline Mat genMat(Gen& g, std::size_t id, int k) {
    Mat m; m.k = k; m.id = id; m.name = g.flip() ? g.ident() : g.text("aZ 0_-/\\\".{}", 1, 10);
    int n = k == CLASSIC ? 4 : k == WIRE ? 3 : k == WIRESP ? 7 : k == WIREDISP ? 1 : k == GAP ? 1 : k >= SRLC && k <= SLPRC ? 3 : k == CRYSTAL ? 1 : k == FERRITE ? 3 : k == LAYERS ? 2 : 0;
    for (int i = 0; i < n; i++) m.p.push_back(val(g));
    if (k == CLASSIC) for (int i = 0; i < 2; i++) m.p[(std::size_t)i] = 1 + (g.flip() ? 0 : g.positive(1e-3, 50));
    if (k == CLASSIC) for (int i = 2; i < 4; i++) if (g.flip()) m.p[(std::size_t)i] = 0;
    if (k == DISP) m.file = newFile(".disp", "1 2 3\n"); if (k == WIREDISP || k == CONNDISP) m.file = g.ident() + ".txt"; if (k == SIBC) m.file = g.ident() + ".mibc";
    if (k == PML || k == CRYSTAL || k == FERRITE) { m.euler = vec(g); m.origin = vec(g); for (int i = 0; i < 3; i++) m.eps(i) = 1 + 0.25 * g.range(0, 20); }
    if (k == LAYERS) { for (int i = g.range(1, 4); i-- > 0;) { std::array<double, 4> a = {{g.positive(1e-6, 1), 1 + 0.5 * g.range(0, 9), 1 + 0.5 * g.range(0, 9), 0.5 * g.range(0, 9)}}; m.lay.push_back(a); } m.fit = g.flip(); m.poles = g.range(1, 20); }
    return m;
}
inline Dom genDom(Gen& g) {
    Dom d; d.time = g.flip(); d.freq = !d.time || g.flip(); d.log = g.flip(); d.tran = d.freq && g.flip(); d.file = g.ident() + ".tf"; double u = std::pow(10.0, g.range(-9, 2));
    for (int i = 0; i < 3; i++) { d.t[i] = u * g.range(0, 50); d.f[i] = g.range(0, 50) / u; } return d;
}
inline JV genSetting(Gen& g, int depth) { int k = g.range(depth ? 0 : 1, 4); if (k == 0) { JV o = jo(); for (int i = g.range(0, 3); i-- > 0;) o.set(g.ident(), genSetting(g, depth - 1)); return o; } if (k == 1) return jb(g.flip()); if (k == 2) return ji(g.range(-1000, 1000)); if (k == 3) return jn(val(g)); return js(g.text("aZ 09-.,:", 0, 10)); }
inline void genGrid(Gen& g, Grd& r, double unit) {
    r.k = g.range(0, 5); r.box = genBox(g, 3, unit);
    for (int d = 0; d < 3; d++) {
        r.n[(std::size_t)d] = g.range(1, 6); double L = r.box.hi(d) - r.box.lo(d);
        r.step(d) = L / r.n[(std::size_t)d]; if (r.k == 2) r.step(d) *= g.oneOf<double>({1, 1.05, 0.97, 0.9999});
        double x = r.box.lo(d); for (int i = g.range(2, 6); i-- > 0;) { r.pos[d].push_back(x); x += unit * 0.25 * g.range(1, 6); }
    }
    if (r.k <= 2) r.pad = g.range(0, 2);
    for (int d = 0; d < 3; d++) { double* p[2] = {&r.plo(d), &r.phi(d)}; double* s[2] = {&r.slo(d), &r.shi(d)}; for (int b = 0; b < 2; b++) { double c = r.step(d) * g.oneOf<double>({1, 1, 0, 2, 0.5}); *s[b] = c; *p[b] = r.pad == 1 ? g.range(0, 5) : r.step(d) * g.range(0, 6); } }
    if (r.k == 5) { std::ostringstream o; o.precision(17); static const char* n[] = {"xs", "ys", "zs"}; for (int d = 0; d < 3; d++) { o << (d ? "," : "") << "\"" << n[d] << "\": ["; for (std::size_t i = 0; i < r.pos[d].size(); i++) o << (i ? "," : "") << r.pos[d][i]; o << "]\n"; } r.file = newFile(".json", o.str()); }
}
inline Doc genDoc(Gen& g, int maxElems = 10) {
    Doc d; double unit = g.oneOf<double>({1, 0.37, 1e-3, 250});
    d.solver = !g.chance(1, 6);
    if (d.solver) {
        d.solverName = g.ident(); d.scale = g.oneOf<double>({1, 1e-3, 0.0254, 2, 1000, 0.3}); d.settings = jo(); d.settings.set("solver", js(d.solverName)); d.settings.set("geometryScalingFactor", jn(d.scale));
        for (int i = g.range(0, 6); i-- > 0;) { std::string k = g.flip() ? g.ident() : g.oneOf<std::string>({"finalTime", "timeStep", "cfl", "flush", "runSimulation", "mesherOptions"}); d.settings.set(k, genSetting(g, 2)); }
        d.settings.set("solver", js(d.solverName)); d.settings.set("geometryScalingFactor", jn(d.scale)); g.label(d.scale != 1, "scaled");
    }
    // Mesh: the five kinds of the format.
    RDesc r = geo::genMesh<double>(g, maxElems, 14, unit); std::vector<EDesc> keep;
    for (auto e : r.elems) {
        using namespace geo;
        if (e.kind == NODE) continue; if (e.kind == POLYLINE) { e.kind = LINE2; e.c.resize(2); } if (e.kind == TRI6) { e.kind = TRI3; e.c.resize(3); } if (e.kind == POLYGON) { e.kind = QUAD4; e.c.resize(4); } if (e.kind == TET10) { e.kind = TRI3; e.c.resize(3); }
        keep.push_back(e);
    }
    r.elems = keep; std::size_t maxId = 0; for (auto& c : r.coords) maxId = std::max(maxId, c.first); std::size_t maxE = 0; for (auto& e : r.elems) maxE = std::max(maxE, e.id);
    std::vector<std::vector<std::size_t>> ports; double portZ = 0;
    if (g.flip()) { // faces in a plane of constant z, for ports
        int n = g.range(1, 3); double z = portZ = unit * g.range(0, 2), h = unit * g.range(1, 2); std::vector<std::size_t> ids;
        for (int i = 0; i < n; i++) { EDesc e; e.kind = geo::QUAD4; e.id = ++maxE; e.lay = r.layers.empty() ? 0 : g.pick(r.layers).first; e.mat = r.mats.empty() ? 0 : g.pick(r.mats); double x = unit * i; double q[4][2] = {{x, 0}, {x + unit, 0}, {x + unit, h}, {x, h}}; for (auto& v : q) { r.coords.push_back({++maxId, V3(v[0], v[1], z)}); e.c.push_back(maxId); } r.elems.push_back(e); ids.push_back(e.id); }
        ports.push_back(ids);
    }
    for (auto& l : r.layers) { std::string t = l.second; if (g.flip()) { t = g.text("ab/ _X.", 1, 8) + std::to_string(l.first); l.second = t; for (auto& c : l.second) if (c == ' ') c = '_'; } d.layerText.push_back(t); }
    d.mesh = r;
    for (auto m : r.mats) { d.mats.push_back(genMat(g, m, g.range(0, MKINDS - 1))); g.label(mname(d.mats.back().k)); }
    genGrid(g, d.grid, unit); { static const char* n[] = {"grid by cells", "grid by step", "fitted grid", "native grid", "native uniform grid", "grid file"}; g.label(n[d.grid.k]); g.label(d.grid.pad, "padding"); }
    auto idsOf = [&](int dim, bool bare) { std::vector<std::size_t> v; for (auto& e : d.mesh.elems) if (geo::dimOf(e.kind) == dim && (!bare || !e.mat) && g.flip()) v.push_back(e.id); return v; };
    for (int i = g.range(0, 2); i-- > 0;) { Con c; c.mat = genMat(g, 0, g.range(SHORT, SLPRC)); c.mat.named = g.flip(); c.ident = g.flip(); c.mat.id = 77; if (!c.mat.named) c.mat.name = ""; c.coord = g.pick(d.mesh.coords).first; d.cons.push_back(c); g.label("connector on point"); }
    for (int i = g.range(0, 4); i-- > 0;) {
        Src s; s.k = g.range(0, ports.empty() ? ONLINE : COAXIAL); s.mag = genMag(g);
        if (s.k <= RANDOMWAVES) s.box = genBox(g, 3, unit);
        if (s.k == VECTORS) { do { s.dir = vec(g); s.pol = vec(g); V3 c(s.dir(1) * s.pol(2) - s.dir(2) * s.pol(1), s.dir(2) * s.pol(0) - s.dir(0) * s.pol(2), s.dir(0) * s.pol(1) - s.dir(1) * s.pol(0)); s.pol = c; if (s.dir.norm() == 0 || s.pol.norm() == 0) { s.dir = V3(0.0, 0.0, 2.0); s.pol = V3(3.0, 0.0, 0.0); } } while (0); }
        if (s.k == ANGLES) { s.ang[0] = 15 * g.range(0, 12); s.ang[1] = 15 * g.range(0, 24); if (g.flip()) { s.ang[2] = s.ang[0] + 90; s.ang[3] = s.ang[1]; } else { s.ang[2] = 90; s.ang[3] = s.ang[1] + 90; } }
        s.n = g.range(1, 20); s.delay = 0.125 * g.range(0, 8); s.type = g.flip(); s.hard = g.flip(); s.m = g.range(0, 3);
        if (s.k == GENERATOR) for (int j = g.range(1, 3); j-- > 0;) s.ids.push_back(g.pick(d.mesh.coords).first);
        if (s.k == ONLINE) s.ids = idsOf(1, false);
        if (s.k >= WAVEGUIDE) s.ids = g.pick(ports);
        s.origin = V3(unit * 0.5, unit * 0.25, s.k >= WAVEGUIDE ? portZ : 0.0); s.rin = unit * 0.125 * g.range(1, 3); s.rout = s.rin * g.range(2, 4);
        static const char* n[] = {"wave by vectors", "wave by angles", "random waves", "generator", "source on line", "waveguide port", "coaxial port"}; g.label(n[s.k]); d.srcs.push_back(s);
    }
    for (int i = g.range(0, 4); i-- > 0;) {
        Req q; q.k = g.range(0, RKINDS - 1); q.type = q.k == FAR ? 8 : g.range(0, 7); q.name = g.flip() ? g.ident() : g.text("aZ /_-%.", 0, 9); q.dom = genDom(g); bool bulk = q.type == 6 || q.type == 7;
        if (q.k == POINT) for (int j = g.range(1, 3); j-- > 0;) q.ids.push_back(g.pick(d.mesh.coords).first);
        if (q.k == LINE) q.ids = idsOf(1, bulk); if (q.k == SURFACE) q.ids = idsOf(2, bulk);
        if (q.k == BOX) q.box = genBox(g, 0, unit); if (q.k == FAR) q.box = genBox(g, 3, unit);
        q.dir = g.range(0, 2); q.skip = g.range(0, 9); for (auto& a : q.ang) a = 7.5 * g.range(0, 48);
        static const char* n[] = {"request on points", "request on lines", "request on surfaces", "request on box", "far field"}; g.label(n[q.k]); g.label(bulk, "bulk current"); d.reqs.push_back(q);
    }
    return d;
}
// -------------------------------------------------------------- its document
struct Writer {
    Gen& g; bool fancy;
    Writer(Gen& g_, bool f) : g(g_), fancy(f) {}
    std::string sp(bool some = true) { return !fancy ? (some ? " " : "") : std::string((std::size_t)g.range(some ? 1 : 0, 3), ' '); }
    std::string num(double x) { return fancy ? jtext::real(g, x, false) : jtext::fmt("%.17g", x); }
    std::string list(const V3& v) { return sp(false) + num(v(0)) + sp() + num(v(1)) + sp() + num(v(2)) + sp(false); }
    std::string braced(const V3& v) { return "{" + list(v) + "}"; }
    std::string box(const Box& b) { std::string t = list(b.hi) + sp() + list(b.lo); return fancy && g.flip() ? t : "{" + t + "}"; }
    std::string ints(const std::array<int, 3>& n) { return "{" + sp(false) + std::to_string(n[0]) + sp() + std::to_string(n[1]) + sp() + std::to_string(n[2]) + "}"; }
    JV mat(const Mat& m, bool ident) {
        JV o = jo(); if (ident) o.set("materialId", ji((long)m.id)); if (m.named) o.set("name", js(m.name)); auto t = [&](const char* s) { o.set("materialType", js(s)); }; auto r = [&](const char* k, std::size_t i) { o.set(k, jn(m.p[i])); }; auto f = [&] { o.set("filename", js(m.file)); };
        auto axes = [&] { o.set("localAxes", js(braced(m.euler) + sp() + braced(m.origin))); };
        switch (m.k) {
        case PEC: t("PEC"); break; case PMC: t("PMC"); break; case SMA: t("SMA"); break; case PML: t("PML"); axes(); break;
        case CLASSIC: t("Classic"); r("permittivity", 0); r("permeability", 1); r("electricConductivity", 2); r("magneticConductivity", 3); break;
        case DISP: t("Dispersive"); f(); break;
        case WIRE: case WIRESP: case WIREDISP: t("Wire"); r("radius", 0); o.set("wireType", js(m.k == WIRE ? "Standard" : m.k == WIRESP ? "SeriesParallel" : "Dispersive")); if (m.k == WIREDISP) { f(); break; } r("resistance", 1); r("inductance", 2); if (m.k == WIRESP) { r("capacitance", 3); r("parallelResistance", 4); r("parallelInductance", 5); r("parallelCapacitance", 6); } break;
        case GAP: t("Thin_gap"); r("width", 0); break;
        case SHORT: t("Connector"); o.set("connectorType", js("Conn_short")); break; case OPEN: t("Connector"); o.set("connectorType", js("Conn_open")); break; case MATCHED: t("Connector"); o.set("connectorType", js("Conn_matched")); break;
        case SRLC: case PRLC: case SLPRC: t("Connector"); o.set("connectorType", js(m.k == SRLC ? "Conn_sRLC" : m.k == PRLC ? "Conn_pRLC" : "Conn_sLpRC")); r("resistance", 0); r("inductance", 1); r("capacitance", 2); break;
        case CONNDISP: t("Connector"); o.set("connectorType", js("Conn_dispersive")); f(); break;
        case SIBC: t("SIBC"); o.set("surfaceType", js("File")); f(); break;
        case LAYERS: { t("SIBC"); o.set("surfaceType", js("Layers")); JV a = ja(); for (auto& l : m.lay) a.add(jo().set("thickness", jn(l[0])).set("permittivity", jn(l[1])).set("permeability", jn(l[2])).set("elecCond", jn(l[3]))); o.set("layers", a); r("freqMin", 0); r("freqMax", 1); o.set("numberOfPoles", ji(m.poles)); o.set("useSembaVectorFitting", jb(m.fit)); break; }
        case CRYSTAL: t("Anisotropic"); axes(); o.set("anisotropicModel", js("Crystal")); o.set("relativePermittivityPrincipalAxes", js(fancy && g.flip() ? list(m.eps) : braced(m.eps))); r("crystalRelativePermeability", 0); break;
        default: t("Anisotropic"); axes(); o.set("anisotropicModel", js("Ferrite")); r("kappa", 0); r("ferriteRelativePermeability", 1); r("ferriteRelativePermittivity", 2);
        }
        return o;
    }
    JV grid(const Grd& r) {
        JV o = jo();
        if (r.k <= 2) {
            o.set("gridType", js("gridCondition")); o.set("type", js(r.k == 0 ? "Number_of_cells" : "Step_size")); o.set("layerBox", js(box(r.box)));
            if (r.k == 0) o.set("numberOfCells", js(ints(r.n))); else { o.set("stepSize", js(braced(r.step))); o.set("fitSizeToBox", jb(r.k == 2)); }
            if (r.pad) { o.set("boundaryPaddingType", js(r.pad == 1 ? "by_number_of_cells" : "by_distance")); o.set("lowerPadding", js(braced(r.plo))); o.set("upperPadding", js(braced(r.phi))); o.set("lowerPaddingMeshSize", js(braced(r.slo))); o.set("upperPaddingMeshSize", js(braced(r.shi))); }
        } else if (r.k <= 4) {
            o.set("gridType", js("nativeGiD")); o.set("corner", js(braced(r.box.lo))); o.set("boxSize", js(braced(V3(r.box.hi(0) - r.box.lo(0), r.box.hi(1) - r.box.lo(1), r.box.hi(2) - r.box.lo(2))))); o.set("nGridPoints", js(ints(r.n)));
            static const char* n[] = {"xCoordinates", "yCoordinates", "zCoordinates"}; for (int d = 0; d < 3; d++) { JV a = ja(); if (r.k == 3) for (auto x : r.pos[d]) a.add(jn(x)); o.set(n[d], a); }
        } else { o.set("gridType", js("positionsFromFile")); o.set("filename", js(r.file)); }
        return o;
    }
    JV mag(const MagD& m) { JV o = jo(); static const char* n[] = {"Gaussian", "Band_limited", "File"}; o.set("type", js(n[m.k])); if (m.k == 2) o.set("filename", js(m.file)); else o.set("frequencyMaximum", jn(m.f1)); if (m.k == 1) o.set("frequencyMinimum", jn(m.f0)); return o; }
    JV ids(const std::vector<std::size_t>& v) { JV a = ja(); for (auto i : v) a.add(ji((long)i)); return a; }
    JV src(const Src& s) {
        JV o = jo(); static const char* n[] = {"planewave", "planewave", "planewave", "generator", "sourceOnLine", "waveguidePort", "temPort"}; o.set("sourceType", js(n[s.k])); o.set("magnitude", mag(s.mag));
        if (s.k <= RANDOMWAVES) o.set("layerBox", js(box(s.box)));
        switch (s.k) {
        case VECTORS: o.set("definitionMode", js("by_vectors")); o.set("directionVector", js(braced(s.dir))); o.set("polarizationVector", js(braced(s.pol))); break;
        case ANGLES: o.set("definitionMode", js("by_angles")); o.set("directionTheta", jn(s.ang[0])); o.set("directionPhi", jn(s.ang[1])); o.set("polarizationAlpha", jn(s.ang[2])); o.set("polarizationBeta", jn(s.ang[3])); break;
        case RANDOMWAVES: o.set("definitionMode", js("randomized_multisource")); o.set("numberOfRandomPlanewaves", ji(s.n)); o.set("relativeVariationOfRandomDelay", jn(s.delay)); break;
        case GENERATOR: o.set("type", js(s.type ? "voltage" : "current")); o.set("coordIds", ids(s.ids)); break;
        case ONLINE: o.set("type", js(s.type ? "electricField" : "magneticField")); o.set("hardness", js(s.hard ? "hard" : "soft")); o.set("defined", js("OnElements")); o.set("elemIds", ids(s.ids)); break;
        case WAVEGUIDE: o.set("shape", js("Rectangular")); o.set("excitationMode", js(s.type ? "TE" : "TM")); o.set("firstMode", ji(s.m)); o.set("secondMode", ji(s.n % 4 + 1)); o.set("elemIds", ids(s.ids)); break;
        default: o.set("excitationMode", js(s.type ? "Voltage" : "Current")); o.set("origin", js(list(s.origin))); o.set("innerRadius", jn(s.rin)); o.set("outerRadius", jn(s.rout)); o.set("elemIds", ids(s.ids));
        }
        return o;
    }
    JV req(const Req& q) {
        JV o = jo(); static const char* n[] = {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface", "OutRq_on_layer", "Far_field"}; o.set("gidOutputType", js(n[q.k])); o.set("name", js(q.name)); o.set("type", js(reqType(q.type)));
        JV d = jo(); const Dom& m = q.dom; if (m.time) d.set("initialTime", jn(m.t[0])).set("finalTime", jn(m.t[1])).set("samplingPeriod", jn(m.t[2])); if (m.freq) { d.set("initialFrequency", jn(m.f[0])).set("finalFrequency", jn(m.f[1])).set("frequencyStep", jn(m.f[2])).set("logFrequencySweep", jb(m.log)); if (m.tran) d.set("transferFunctionFile", js(m.file)); } o.set("domain", d);
        if (q.type == 6 || q.type == 7) { static const char* a[] = {"x", "y", "z"}; o.set("direction", js(a[q.dir])); o.set("skip", ji(q.skip)); }
        if (q.k >= BOX) o.set("box", js(box(q.box))); else o.set("elemIds", ids(q.ids));
        if (q.k == FAR) { static const char* a[] = {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"}; for (std::size_t i = 0; i < 6; i++) o.set(a[i], jn(q.ang[i])); }
        return o;
    }
    JV doc(const Doc& d) {
        JV o = jo(); o.set("_format", js("Semba Data File in JSON format")); o.set("_version", js(OPENSEMBA_VERSION)); if (d.solver) o.set("solverOptions", d.settings);
        JV a = ja(); for (auto& m : d.mats) a.add(mat(m, true)); o.set("materials", a); a = ja(); a.add(grid(d.grid)); o.set("grids", a);
        a = ja(); for (std::size_t i = 0; i < d.mesh.layers.size(); i++) a.add(jo().set("id", ji((long)d.mesh.layers[i].first)).set("name", js(d.layerText[i]))); o.set("layers", a);
        a = ja(); for (auto& c : d.mesh.coords) a.add(js(sp(false) + std::to_string(c.first) + sp() + list(c.second))); o.set("coordinates", a);
        JV e = jo(); static const char* kn[] = {"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}; static const int kk[] = {geo::HEX8, geo::TET4, geo::QUAD4, geo::TRI3, geo::LINE2};
        for (std::size_t i = 0; i < 5; i++) { a = ja(); for (auto& x : d.mesh.elems) if (x.kind == kk[i]) { std::string t = sp(false) + std::to_string(x.id) + sp() + std::to_string(x.mat) + sp() + std::to_string(x.lay); for (auto c : x.c) t += sp() + std::to_string(c); a.add(js(t + sp(false))); } e.set(kn[i], a); } o.set("elements", e);
        a = ja(); for (auto& c : d.cons) a.add(mat(c.mat, c.ident).set("coordIds", ji((long)c.coord))); o.set("connectorOnPoint", a);
        a = ja(); for (auto& s : d.srcs) a.add(src(s)); o.set("sources", a); a = ja(); for (auto& q : d.reqs) a.add(req(q)); o.set("outputRequests", a);
        return o;
    }
};
} // namespace proj
#endif
