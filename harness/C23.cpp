// C23: reading a JSON project yields exactly the project that was written.
//
// A random project description is written as a document, in a plain and in a
// free notation, read with the library's parser and compared with the
// description, item by item.
#include "look.h"
#include "material.h"
#include "project.h"
#include "parser/json/Parser.h"
#include "math/function/BandLimited.h"
#include "source/magnitude/Numerical.h"
#include <map>
namespace proj { namespace {
struct Mute { Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); } ~Mute() { std::cerr.clear(); std::cout.clear(); } };
Data readText(const std::string& t) { Mute m; std::istringstream is(t); return SEMBA::Parser::JSON::Parser().read(is); }

void near(double a, double b, double abs, const std::string& what) { CHECK_NEAR(a, b, 1e-12, abs, what); }
void near(const V3& a, const V3& b, double abs, const std::string& what) { for (int i = 0; i < 3; i++) CHECK_NEAR(a(i), b(i), 1e-12, abs, what << " " << a << " instead of " << b); }
V3 times(const V3& a, double s) { return V3(a(0) * s, a(1) * s, a(2) * s); }
V3 unitOf(const V3& a) { return times(a, 1 / std::sqrt(a(0) * a(0) + a(1) * a(1) + a(2) * a(2))); }

// ------------------------------------------------------------------ settings
void sameSettings(const SEMBA::Solver::Settings& s, const JV& v, const std::string& w) {
    if (v.t == JV::OBJ) {
        CHECK(s.isObject(), w << " is no group"); CHECK_EQ(s.size(), v.m.size(), w << ": number of members");
        for (auto& x : v.m) { CHECK(s.existsName(x.first), w << "." << x.first << " is missing"); sameSettings(s(x.first), x.second, w + "." + x.first); }
        return;
    }
    CHECK(!s.isObject() && !s.isArray() && !s.isNull(), w << " is no value");
    if (v.t == JV::STR) CHECK_EQ(s.getString(), v.s, w);
    else if (v.t == JV::BOOL) { CHECK_EQ(s.getString(), std::string(v.b ? "1" : "0"), w); CHECK_EQ(s.getBool(), v.b, w); }
    else { CHECK_NEAR(s.getReal(), v.n, 1e-13, 0, w); if (v.integer) CHECK_EQ(s.getInt(), (int)v.n, w); }
}
// ----------------------------------------------------------------- materials
matl::Spec specOf(const Mat& m, std::size_t id) {
    matl::Spec s; s.id = id; s.name = m.name; s.named = true; s.file = m.file; s.p = m.p; s.euler = m.euler; s.origin = m.origin; s.eps = m.eps;
    static const int k[] = {matl::PEC, matl::PMC, matl::SMA, matl::VPML, matl::CLASSIC, matl::DISPFILE, matl::WIRE, matl::WIRESP, matl::WIREDISP, matl::GAP, matl::MPPRE, matl::MPPRE, matl::MPPRE, matl::MPRLC, matl::MPRLC, matl::MPRLC, matl::MPDISP, matl::SIBCFILE, matl::MULTI, matl::CRYSTAL, matl::FERRITE};
    s.k = k[m.k];
    s.type = m.k == SHORT ? MP::shortCircuit : m.k == OPEN ? MP::openCircuit : m.k == MATCHED ? MP::matched : m.k == SRLC ? MP::sRLC : m.k == PRLC ? MP::pRLC : MP::sLpRC;
    if (m.k == LAYERS) { s.lay = m.lay; s.fit = m.fit; s.ff = {m.p[0], m.p[1]}; s.nf = (std::size_t)m.poles; }
    return s;
}
// ---------------------------------------------------------------- excitation
double table(const std::vector<std::pair<double, double>>& xy, double t) {
    if (t <= xy.front().first) return xy.front().second; if (t >= xy.back().first) return xy.back().second;
    std::size_t i = 1; while (xy[i].first < t) i++;
    return xy[i - 1].second + (t - xy[i - 1].first) / (xy[i].first - xy[i - 1].first) * (xy[i].second - xy[i - 1].second);
}
void sameMag(const ::Mag* m, const MagD& w, const std::string& when) {
    CHECK(m != nullptr, when << ": no excitation"); CHECK_EQ(m->is<SS::Magnitude::Numerical>(), w.k == 2, when << ": excitation from a file");
    if (w.k == 0) { double s = 0.2 / w.f1; for (double u : {0.0, 3.0, 5.0, 6.0, 6.4, 8.0}) CHECK_NEAR(m->evaluate(u * s), std::exp(-0.5 * (u - 6) * (u - 6)), 1e-9, 1e-12, when << ": excitation"); }
    if (w.k == 1) { MF::BandLimited b(w.f0, w.f1); for (double u : {0.0, 19.0, 19.9, 20.0, 20.03, 21.5}) CHECK_NEAR(m->evaluate(u / w.f0), b(u / w.f0), 1e-9, 1e-9 * std::fabs(b(20 / w.f0)), when << ": excitation"); }
    if (w.k == 2) for (std::size_t i = 0; i < w.xy.size(); i++) { double x = w.xy[i].first; for (double t : {x, x + 0.0625, x - 0.0625}) CHECK_NEAR(m->evaluate(t), table(w.xy, t), 1e-10, 1e-12, when << ": excitation at " << t); }
}
// ----------------------------------------------------------------------- grid
SG::Grid3 gridOf(const Grd& r) {
    Mute mute; SG::BoxR3 box(r.box.lo, r.box.hi);
    if (r.k >= 3 && r.k != 4) { std::vector<double> p[3]; for (int d = 0; d < 3; d++) p[d] = r.pos[d]; return SG::Grid3(p); }
    SG::Grid3 g; SM::CVecI3 n(r.n[0], r.n[1], r.n[2]);
    if (r.k == 0 || r.k == 4) g = SG::Grid3(box, n);
    else { V3 step = r.step; if (r.k == 2) for (int d = 0; d < 3; d++) { double L = r.box.hi(d) - r.box.lo(d); step(d) = L / std::max(1.0, std::floor(L / step(d) + 0.5)); } g = SG::Grid3(box, step); }
    if (r.pad) {
        V3 lo = r.plo, hi = r.phi; if (r.pad == 1) for (int d = 0; d < 3; d++) { lo(d) *= r.slo(d); hi(d) *= r.shi(d); }
        g.enlarge({lo, hi}, {r.slo, r.shi});
    }
    return g;
}
// ----------------------------------------------------------------- everything
bool flat(double a) { return a == 0; }
void same(const Data& p, const Doc& d, const std::string& form) {
    const std::string w0 = " (" + form + " text)";
    CHECK_EQ(p.solver != nullptr, d.solver, "solver" << w0);
    if (d.solver) { CHECK_EQ(p.solver->getName(), d.solverName, "solver name" << w0); sameSettings(p.solver->getSettings(), d.settings, "settings" + w0); }
    const double s = d.solver ? d.scale : 1;
    // materials
    CHECK(p.physicalModels != nullptr, "no materials" << w0); CHECK_EQ(p.physicalModels->size(), d.mats.size() + d.cons.size(), "materials" << w0);
    for (auto& m : d.mats) { CHECK(p.physicalModels->existId(MatId(m.id)), "material " << m.id << " is missing" << w0); matl::check(p.physicalModels->getId(MatId(m.id)), specOf(m, m.id), "material" + w0); }
    // mesh
    auto m = dynamic_cast<const SG::Mesh::Geometric*>(p.mesh); CHECK(m != nullptr, "no mesh" << w0); refs(p, "as read" + w0);
    CHECK_EQ(m->layers().size(), d.mesh.layers.size(), "layers" << w0);
    for (auto& l : d.mesh.layers) { CHECK(m->layers().existId(LayerId(l.first)), "layer " << l.first << w0); CHECK_EQ(m->layers().getId(LayerId(l.first))->getName(), l.second, "layer name" << w0); }
    double ext = 0; for (auto& c : d.mesh.coords) for (int k = 0; k < 3; k++) ext = std::max(ext, std::fabs(c.second(k)));
    for (auto& x : d.srcs) for (int k = 0; k < 3; k++) ext = std::max(ext, std::max(std::fabs(x.box.lo(k)), std::fabs(x.box.hi(k))));
    for (auto& x : d.reqs) for (int k = 0; k < 3; k++) ext = std::max(ext, std::max(std::fabs(x.box.lo(k)), std::fabs(x.box.hi(k))));
    const double tol = 1e-10 * (1 + 0 * ext) * s;  // positions closer than 1e-10 are one to the library
    std::set<std::size_t> known;
    for (auto& c : d.mesh.coords) { CHECK(m->coords().existId(CoordId(c.first)), "coordinate " << c.first << w0); near(m->coords().getId(CoordId(c.first))->pos(), times(c.second, s), 0, "coordinate " + std::to_string(c.first) + w0); known.insert(c.first); }
    std::vector<V3> corners; auto addBox = [&](const Box& b) { for (int k = 0; k < 8; k++) corners.push_back(times(V3(k & 1 ? b.hi(0) : b.lo(0), k & 2 ? b.hi(1) : b.lo(1), k & 4 ? b.hi(2) : b.lo(2)), s)); };
    for (auto& x : d.srcs) if (x.k <= RANDOMWAVES) addBox(x.box); for (auto& x : d.reqs) if (x.k >= BOX) addBox(x.box);
    for (std::size_t i = 0; i < m->coords().size(); i++) if (!known.count(m->coords()(i)->getId().toInt())) {
        V3 v = m->coords()(i)->pos(); bool ok = false; for (auto& c : corners) ok = ok || (std::fabs(c(0) - v(0)) <= tol + 1e-12 * std::fabs(v(0)) && std::fabs(c(1) - v(1)) <= tol + 1e-12 * std::fabs(v(1)) && std::fabs(c(2) - v(2)) <= tol + 1e-12 * std::fabs(v(2)));
        CHECK(ok, "a coordinate nobody wrote: " << v << w0); }
    std::set<std::size_t> listed;
    for (auto& e : d.mesh.elems) {
        std::string w = "element " + std::to_string(e.id) + w0; CHECK(m->elems().existId(SG::ElemId(e.id)), w << " is missing"); auto x = m->elems().getId(SG::ElemId(e.id)); listed.insert(e.id);
        CHECK_EQ(std::string(kindName(kindOf(x))), std::string(kindName(e.kind)), w << ": kind"); CHECK_EQ(x->getLayerId().toInt(), e.lay, w << ": layer"); CHECK_EQ(x->getMatId().toInt(), e.mat, w << ": material"); CHECK_EQ(x->getLayer() != nullptr, e.lay != 0, w << ": layer"); CHECK_EQ(x->getModel() != nullptr, e.mat != 0, w << ": material");
        CHECK_EQ(x->numberOfCoordinates(), e.c.size(), w << ": vertices"); for (std::size_t i = 0; i < e.c.size(); i++) CHECK_EQ(x->getV(i)->getId().toInt(), e.c[i], w << ": vertex " << i);
    }
    // elements made for boxes, points and connectors
    std::set<const SG::Elem*> made;
    auto own = [&](const SG::Elem* e, const std::string& w) { CHECK(!listed.count(e->getId().toInt()), w << ": takes a listed element"); CHECK(made.insert(e).second, w << ": shares an element"); CHECK(e->getLayer() == nullptr, w << ": layer"); };
    auto isNode = [&](const SG::Elem* e, std::size_t c, const std::string& w) { auto n = dynamic_cast<const SG::NodR*>(e); CHECK(n != nullptr, w << ": not on a node"); CHECK_EQ(n->getV(0)->getId().toInt(), c, w << ": coordinate"); };
    auto isBox = [&](const SG::Elem* e, const Box& b, const std::string& w) {
        own(e, w); CHECK(e->getModel() == nullptr, w << ": material"); auto x = dynamic_cast<const SG::ElemR*>(e); CHECK(x != nullptr, w << ": element"); int n = b.dim(); static const int k[] = {geo::NODE, geo::LINE2, geo::QUAD4, geo::HEX8}; CHECK_EQ(std::string(kindName(kindOf(x))), std::string(kindName(k[n])), w << ": kind of its element");
        V3 lo = times(b.lo, s), hi = times(b.hi, s); std::set<std::string> seen;
        for (std::size_t i = 0; i < x->numberOfCoordinates(); i++) { std::string at; for (int c = 0; c < 3; c++) { double v = x->getV(i)->pos()(c); bool l = std::fabs(v - lo(c)) <= tol + 1e-12 * std::fabs(v), h = std::fabs(v - hi(c)) <= tol + 1e-12 * std::fabs(v); CHECK(l || h, w << ": vertex " << x->getV(i)->pos() << " is no corner of " << lo << " " << hi); at += l ? 'l' : 'h'; } CHECK(seen.insert(at).second, w << ": a corner twice"); }
    };
    // connectors
    std::size_t next = d.mats.empty() ? 0 : 0; for (auto& x : d.mats) next = std::max(next, x.id);
    std::vector<std::size_t> rest; for (std::size_t i = 0; i < p.physicalModels->size(); i++) { std::size_t id = (*p.physicalModels)(i)->getId().toInt(); bool is = false; for (auto& x : d.mats) is = is || x.id == id; if (!is) rest.push_back(id); }
    CHECK_EQ(rest.size(), d.cons.size(), "connectors" << w0); std::map<std::size_t, std::vector<const SG::ElemR*>> byMat;
    for (std::size_t i = 0; i < m->elems().size(); i++) if (!listed.count(m->elems()(i)->getId().toInt()) && m->elems()(i)->getModel()) byMat[m->elems()(i)->getMatId().toInt()].push_back(m->elems()(i));
    for (std::size_t i = 0; i < d.cons.size(); i++) {
        std::string w = "connector " + std::to_string(i) + w0; auto& e = byMat[rest[i]]; CHECK_EQ(e.size(), std::size_t(1), w << ": elements"); matl::check(p.physicalModels->getId(MatId(rest[i])), specOf(d.cons[i].mat, rest[i]), w);
        own(e[0], w); isNode(e[0], d.cons[i].coord, w);
    }
    // sources
    auto listedOnes = [&](const Elems& e, const std::vector<std::size_t>& ids, const std::string& w) { CHECK_EQ(e.size(), ids.size(), w << ": elements"); for (std::size_t i = 0; i < ids.size(); i++) CHECK_EQ(e(i)->getId().toInt(), ids[i], w << ": element " << i); };
    auto nodes = [&](const Elems& e, const std::vector<std::size_t>& ids, const std::string& w) { CHECK_EQ(e.size(), ids.size(), w << ": elements"); for (std::size_t i = 0; i < ids.size(); i++) { own(e(i), w); CHECK(e(i)->getModel() == nullptr, w << ": material"); isNode(e(i), ids[i], w); } };
    CHECK(p.sources != nullptr, "no sources" << w0); CHECK_EQ(p.sources->size(), d.srcs.size(), "sources" << w0);
    for (std::size_t i = 0; i < d.srcs.size(); i++) {
        auto& x = d.srcs[i]; const SS::Base* q = (*p.sources)(i); static const char* nm[] = {"plane wave", "plane wave by angles", "random plane waves", "generator", "source on line", "waveguide port", "coaxial port"}; std::string w = std::string(nm[x.k]) + " " + std::to_string(i) + w0;
        sameMag(q->getMagnitude(), x.mag, w); CHECK_EQ(q->getMagnitudeFilename(), x.mag.file, w << ": file of the excitation"); Elems e = q->elems();
        if (x.k <= RANDOMWAVES) { auto pw = dynamic_cast<const SS::PlaneWave*>(q); CHECK(pw != nullptr, w << ": kind"); CHECK_EQ(e.size(), std::size_t(1), w << ": elements"); isBox(e(0), x.box, w); CHECK_EQ(pw->isRandomic(), x.k == RANDOMWAVES, w << ": random");
            if (x.k == RANDOMWAVES) { CHECK_EQ(pw->getNumberOfRandomPlanewaves(), x.n, w << ": number of waves"); near(pw->getRelativeVariationOfRandomDelay(), x.delay, 0, w + ": delay"); }
            if (x.k == VECTORS) { near(unitOf(pw->getDirection()), unitOf(x.dir), 1e-12, w + ": direction"); near(unitOf(pw->getPolarization()), unitOf(x.pol), 1e-12, w + ": polarization"); near(pw->getPolarization(), x.pol, 1e-12, w + ": polarization"); }
            if (x.k == ANGLES) { double a[4]; for (int k = 0; k < 4; k++) a[k] = x.ang[k] * std::acos(-1.0) / 180; for (int k = 0; k < 2; k++) { V3 u(std::sin(a[2*k]) * std::cos(a[2*k+1]), std::sin(a[2*k]) * std::sin(a[2*k+1]), std::cos(a[2*k])); near(k ? pw->getPolarization() : pw->getDirection(), u, 1e-12, w + (k ? ": polarization" : ": direction")); } } }
        if (x.k == GENERATOR) { auto y = dynamic_cast<const SS::Generator*>(q); CHECK(y != nullptr, w << ": kind"); CHECK(y->getType() == (x.type ? SS::Generator::voltage : SS::Generator::current), w << ": type"); nodes(e, x.ids, w); }
        if (x.k == ONLINE) { auto y = dynamic_cast<const SS::OnLine*>(q); CHECK(y != nullptr, w << ": kind"); CHECK(y->getType() == (x.type ? SS::OnLine::electric : SS::OnLine::magnetic), w << ": type"); CHECK(y->getHardness() == (x.hard ? SS::OnLine::hard : SS::OnLine::soft), w << ": hardness"); listedOnes(e, x.ids, w); }
        if (x.k >= WAVEGUIDE) {
            listedOnes(e, x.ids, w); V3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300);
            for (auto id : x.ids) for (auto& el : d.mesh.elems) if (el.id == id) for (auto c : el.c) for (int k = 0; k < 3; k++) { lo(k) = std::min(lo(k), d.mesh.pos(c)(k) * s); hi(k) = std::max(hi(k), d.mesh.pos(c)(k) * s); }
            double size = std::max(hi(0) - lo(0), hi(1) - lo(1));
            if (x.k == WAVEGUIDE) {
                auto y = dynamic_cast<const SS::Port::WaveguideRectangular*>(q); CHECK(y != nullptr, w << ": kind"); CHECK(y->getExcitationMode() == (x.type ? SS::Port::Waveguide::TE : SS::Port::Waveguide::TM), w << ": mode"); CHECK_EQ(y->getMode().first, (std::size_t)x.m, w << ": first mode"); CHECK_EQ(y->getMode().second, (std::size_t)(x.n % 4 + 1), w << ": second mode");
                near(y->getOrigin(), lo, 1e-9 * size, w + ": origin"); near(y->getWidth(), hi(0) - lo(0), 1e-9 * size, w + ": width"); near(y->getHeight(), hi(1) - lo(1), 1e-9 * size, w + ": height");
            } else {
                auto y = dynamic_cast<const SS::Port::TEMCoaxial*>(q); CHECK(y != nullptr, w << ": kind"); CHECK(y->getExcitationMode() == (x.type ? SS::Port::TEM::voltage : SS::Port::TEM::current), w << ": mode"); near(y->getOrigin(), times(x.origin, s), 1e-9 * size, w + ": origin");
                std::string t = printed(*y); std::size_t at = t.find("Inner/Outer radii: "); CHECK(at != std::string::npos, w << ": radii are not printed"); double a = 0, b = 0; char c = 0; std::istringstream is(t.substr(at + 19)); is >> a >> c >> b; CHECK_NEAR(a, x.rin * s, 1e-5, 0, w << ": inner radius"); CHECK_NEAR(b, x.rout * s, 1e-5, 0, w << ": outer radius");
            }
        }
    }
    // output requests
    CHECK(p.outputRequests != nullptr, "no output requests" << w0); CHECK_EQ(p.outputRequests->size(), d.reqs.size(), "output requests" << w0);
    for (std::size_t i = 0; i < d.reqs.size(); i++) {
        auto& x = d.reqs[i]; const SO::Base* q = (*p.outputRequests)(i); std::string w = "request " + std::to_string(i) + w0; CHECK_EQ(q->getName(), x.name, w << ": name"); bool bulk = x.type == 6 || x.type == 7;
        static const SO::Base::Type ty[] = {SO::Base::electric, SO::Base::magnetic, SO::Base::electricFieldNormals, SO::Base::magneticFieldNormals, SO::Base::current, SO::Base::surfaceCurrentDensity, SO::Base::bulkCurrentElectric, SO::Base::bulkCurrentMagnetic, SO::Base::electricFarField}; CHECK_EQ((int)q->getType(), (int)ty[x.type], w << ": type " << reqType(x.type));
        auto& o = q->domain(); auto& k = x.dom; CHECK_EQ(o.isTimeDomain(), k.time, w << ": time domain"); CHECK_EQ(o.isFrequencyDomain(), k.freq, w << ": frequency domain"); CHECK_EQ(o.isUsingTransferFunction(), k.tran, w << ": transfer function");
        if (k.time) { near(o.getInitialTime(), k.t[0], 0, w + ": initial time"); near(o.getFinalTime(), k.t[1], 0, w + ": final time"); near(o.getSamplingPeriod(), k.t[2], 0, w + ": sampling period"); }
        if (k.freq) { near(o.getInitialFrequency(), k.f[0], 0, w + ": initial frequency"); near(o.getFinalFrequency(), k.f[1], 0, w + ": final frequency"); near(o.getFrequencyStep(), k.f[2], 0, w + ": frequency step"); CHECK_EQ(o.isLogFrequencySweep(), k.log, w << ": sweep"); }
        if (k.tran) CHECK_EQ(o.getTransferFunctionFile(), k.file, w << ": transfer function file");
        CHECK_EQ(dynamic_cast<const SO::BulkCurrent*>(q) != nullptr, bulk, w << ": kind"); CHECK_EQ(dynamic_cast<const SO::FarField*>(q) != nullptr, x.k == FAR, w << ": kind");
        if (bulk) { auto b = dynamic_cast<const SO::BulkCurrent*>(q); CHECK_EQ((int)b->getDir(), x.dir, w << ": direction"); CHECK_EQ((int)b->getSkip(), x.skip, w << ": skip"); }
        if (x.k == FAR) { auto f = dynamic_cast<const SO::FarField*>(q); double a[] = {f->getInitialTheta(), f->getFinalTheta(), f->getStepTheta(), f->getInitialPhi(), f->getFinalPhi(), f->getStepPhi()}; static const char* n[] = {"initial theta", "final theta", "theta step", "initial phi", "final phi", "phi step"}; for (int c = 0; c < 6; c++) near(a[c], x.ang[c] * std::acos(-1.0) / 180, 0, w + ": " + n[c]); }
        Elems e = q->elems(); if (x.k == POINT) nodes(e, x.ids, w); else if (x.k >= BOX) { CHECK_EQ(e.size(), std::size_t(1), w << ": elements"); isBox(e(0), x.box, w); } else listedOnes(e, x.ids, w);
    }
    CHECK_EQ(m->elems().size(), listed.size() + made.size(), "elements nobody wrote" << w0);
    SG::Grid3 gr = gridOf(d.grid); double span = 0; for (int c = 0; c < 3; c++) span = std::max(span, std::max(std::fabs(gr.getPos(c).front()), std::fabs(gr.getPos(c).back())));
    for (int c = 0; c < 3; c++) { auto a = m->grid().getPos(c), b = gr.getPos(c); CHECK_EQ(a.size(), b.size(), "grid lines of axis " << c << w0); for (std::size_t i = 0; i < b.size(); i++) CHECK_NEAR(a[i], b[i] * s, 1e-10, 1e-11 * span * s, "grid line " << i << " of axis " << c << w0); }
}
}}
PROP(readback, 3000, 60000, "a mesh with elements and at least one source, request or connector") {
    proj::Doc d = proj::genDoc(g); proj::Writer plain(g, false); std::string t = jtext::text(g, plain.doc(d), false); g << t; g.nontrivial(!d.mesh.elems.empty() && d.srcs.size() + d.reqs.size() + d.cons.size() > 0);
    Data p = proj::readText(t); proj::same(p, d, "plain");
    proj::Writer free(g, true); std::string u = jtext::text(g, free.doc(d), true); g << "\n" << u; Data q = proj::readText(u); proj::same(q, d, "free");
    std::string a = look(p), b = look(q); a.erase(0, a.find("\nmodels")); b.erase(0, b.find("\nmodels")); ::same(b, a, "in the free notation");
}
