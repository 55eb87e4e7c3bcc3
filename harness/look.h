// Whole projects: what they hold, written down, and random ones.
#ifndef VERIF_LOOK_H_
#define VERIF_LOOK_H_
#pragma GCC diagnostic ignored "-Wunused-function"
#include "pbt.h"
#include "mesh.h"

#include <memory>
#include <set>
#include <typeinfo>
#include <iostream>

#include "Data.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/Dipole.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/OutputRequest.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"

using namespace geo;
namespace SS = SEMBA::Source;
namespace SO = SEMBA::OutputRequest;
namespace SG = SEMBA::Geometry;
namespace SM = SEMBA::Math;
namespace PM = SEMBA::PhysicalModel;
namespace MF = SEMBA::Math::Function;
typedef SEMBA::Data Data;
typedef SG::Element::Group<const SG::Elem> Elems;
typedef SS::Magnitude::Magnitude Mag;
typedef PM::Multiport::Multiport MP;

namespace {

struct Capture {
    std::ostringstream o; std::streambuf *a, *b;
    Capture() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); }
    ~Capture() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
template <class T> std::string printed(const T& x) { Capture c; x.printInfo(); return c.o.str(); }

// ------------------------------------------------------------ observation

void lookSettings(std::ostream& o, const SEMBA::Solver::Settings& s) {
    if (s.isObject()) { o << "{"; for (std::size_t i = 0; i < s.size(); i++) { o << s.getName(i) << "="; lookSettings(o, s(s.getName(i))); o << ","; } o << "}"; }
    else if (s.isArray()) { o << "["; for (std::size_t i = 0; i < s.size(); i++) { lookSettings(o, s(i)); o << ","; } o << "]"; }
    else if (s.isNull()) o << "null";
    else if (s.isBool()) o << (s.getBool() ? "true" : "false");
    else if (s.isNumber()) o << s.getReal();
    else o << "'" << s.getString() << "'";
}
template <class E> void lookElems(std::ostream& o, const E& e) {
    for (std::size_t i = 0; i < e.size(); i++) {
        auto x = e(i);
        o << "\n elem " << x->getId().toInt() << " " << kindName(kindOf(x)) << " L" << x->getLayerId().toInt() << " M" << x->getMatId().toInt();
        if (x->getLayer()) o << " " << x->getLayer()->getName();
        if (x->getModel()) o << " " << x->getModel()->template castTo<PM::PhysicalModel>()->getName();
        for (std::size_t j = 0; j < x->numberOfCoordinates(); j++) o << " " << x->getV(j)->getId().toInt() << x->getV(j)->pos();
    }
}
template <class C> void lookCoords(std::ostream& o, const C& c) { for (std::size_t i = 0; i < c.size(); i++) o << "\n coord " << c(i)->getId().toInt() << c(i)->pos(); }
void lookLayers(std::ostream& o, const SG::Layer::Group<>& l) { for (std::size_t i = 0; i < l.size(); i++) o << "\n layer " << l(i)->getId().toInt() << " " << l(i)->getName(); }
void lookGrid(std::ostream& o, const SG::Grid3& g) { for (std::size_t d = 0; d < 3; d++) { o << "\n grid"; for (auto x : g.getPos(d)) o << " " << x; } }
void lookMesh(std::ostream& o, const SG::Mesh::Mesh* m) {
    if (auto s = dynamic_cast<const SG::Mesh::Structured*>(m)) {
        o << "structured"; lookCoords(o, s->coords()); lookElems(o, s->elems()); lookLayers(o, s->layers()); lookGrid(o, s->grid());
        for (std::size_t d = 0; d < 3; d++) for (std::size_t p = 0; p < 2; p++) { auto b = s->bounds()(d, p); o << "\n bound "; if (b) o << typeid(*b).name() << b->getId().toInt() << b->castTo<PM::PhysicalModel>()->getName(); else o << "none"; }
        return;
    }
    if (auto u = dynamic_cast<const SG::Mesh::Unstructured*>(m)) {
        auto gm = dynamic_cast<const SG::Mesh::Geometric*>(m);
        o << (gm ? "geometric" : "unstructured"); lookCoords(o, u->coords()); lookElems(o, u->elems()); lookLayers(o, u->layers()); if (gm) lookGrid(o, gm->grid());
    }
}
void lookModel(std::ostream& o, const PM::PhysicalModel* m) {
    o << "\n model " << typeid(*m).name() << " " << m->getId().toInt() << " " << m->getName() << printed(*m);
    if (auto c = dynamic_cast<const PM::Volume::Classic*>(m)) o << c->getRelativePermittivity() << " " << c->getRelativePermeability() << " " << c->getElectricConductivity() << " " << c->getMagneticConductivity();
    if (auto w = dynamic_cast<const PM::Wire::Wire*>(m)) o << w->getRadius();
    if (auto e = dynamic_cast<const PM::Wire::Extremes*>(m)) for (std::size_t i = 0; i < 2; i++) if (e->getExtreme(i)) { o << " end " << i; lookModel(o, e->getExtreme(i)); }
}
void lookIds(std::ostream& o, const Elems& e) { o << " on"; for (std::size_t i = 0; i < e.size(); i++) o << " " << e(i)->getId().toInt(); }
void lookSource(std::ostream& o, const SS::Base* s) {
    o << "\n source " << typeid(*s).name() << " " << s->getName();
    if (s->getMagnitude()) for (double t : {0.0, 0.3, 1.0, 2.5}) o << " " << s->getMagnitude()->evaluate(t); else o << " no excitation";
    lookIds(o, s->elems());
    if (auto p = dynamic_cast<const SS::PlaneWave*>(s)) { o << p->isRandomic(); if (p->isRandomic()) o << " " << p->getNumberOfRandomPlanewaves() << " " << p->getRelativeVariationOfRandomDelay(); else o << p->getPolarization() << p->getDirection(); }
    if (auto p = dynamic_cast<const SS::Generator*>(s)) o << " " << p->getType();
    if (auto p = dynamic_cast<const SS::OnLine*>(s)) o << " " << p->getType() << p->getHardness();
    if (auto p = dynamic_cast<const SS::Dipole*>(s)) o << printed(*p);
    if (auto p = dynamic_cast<const SS::Port::WaveguideRectangular*>(s)) o << " " << p->getExcitationMode() << p->getMode().first << p->getMode().second << p->getOrigin() << p->getWidth() << " " << p->getHeight();
    if (auto p = dynamic_cast<const SS::Port::TEMCoaxial*>(s)) { o << " " << p->getExcitationMode() << p->getOrigin() << printed(*p); }
}
void lookRequest(std::ostream& o, const SO::Base* r) {
    auto& d = r->domain();
    o << "\n request " << typeid(*r).name() << " " << r->getType() << " '" << r->getName() << "' " << d.getDomainType() << " " << d.getInitialTime() << " " << d.getFinalTime() << " " << d.getSamplingPeriod() << " "
      << d.getInitialFrequency() << " " << d.getFinalFrequency() << " " << d.getFrequencyStep() << " " << d.isLogFrequencySweep() << d.getTransferFunctionFile();
    lookIds(o, r->elems());
    if (auto b = dynamic_cast<const SO::BulkCurrent*>(r)) o << " " << b->getDir() << b->getSkip();
    if (auto f = dynamic_cast<const SO::FarField*>(r)) o << " " << f->getInitialTheta() << " " << f->getFinalTheta() << " " << f->getStepTheta() << " " << f->getInitialPhi() << " " << f->getFinalPhi() << " " << f->getStepPhi();
}
std::string look(const Data& d) {
    std::ostringstream o; o.precision(15);
    if (d.solver) { o << "solver " << d.solver->getName() << " "; lookSettings(o, d.solver->getSettings()); } else o << "no solver";
    if (d.physicalModels) { o << "\nmodels"; for (std::size_t i = 0; i < d.physicalModels->size(); i++) lookModel(o, (*d.physicalModels)(i)); } else o << "\nno models";
    o << "\nmesh "; if (d.mesh) lookMesh(o, d.mesh); else o << "none";
    if (d.sources) { o << "\nsources"; for (std::size_t i = 0; i < d.sources->size(); i++) lookSource(o, (*d.sources)(i)); } else o << "\nno sources";
    if (d.outputRequests) { o << "\nrequests"; for (std::size_t i = 0; i < d.outputRequests->size(); i++) lookRequest(o, (*d.outputRequests)(i)); } else o << "\nno requests";
    return o.str();
}
void same(const std::string& got, const std::string& want, const std::string& when) {
    if (got == want) return;
    std::istringstream a(got), b(want); std::string x, y;
    while (true) { bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y); if (!p) x = "(end)"; if (!q) y = "(end)"; if (x != y || (!p && !q)) break; }
    FAIL("the project looks otherwise " << when << ": '" << x << "' instead of '" << y << "'");
}

// Objects a project holds; references must lead to them.
typedef std::set<const void*> Set;
template <class M> void meshRefs(const M& m, const Data& d, Set& own, Set& elems, const std::string& when) {
    for (std::size_t i = 0; i < m.coords().size(); i++) own.insert(m.coords()(i));
    for (std::size_t i = 0; i < m.layers().size(); i++) own.insert(m.layers()(i));
    for (std::size_t i = 0; i < m.elems().size(); i++) {
        auto e = m.elems()(i); own.insert(e); elems.insert(static_cast<const SG::Elem*>(e));
        for (std::size_t j = 0; j < e->numberOfCoordinates(); j++) CHECK(m.coords().getId(e->getV(j)->getId()) == e->getV(j), "element " << e->getId().toInt() << " refers to a coordinate outside its mesh " << when);
        if (e->getLayer()) CHECK(m.layers().getId(e->getLayerId()) == e->getLayer(), "element " << e->getId().toInt() << " refers to a layer outside its mesh " << when);
        if (e->getModel()) CHECK(d.physicalModels && d.physicalModels->existId(e->getMatId()) && d.physicalModels->getId(e->getMatId()) == e->getModel(), "element " << e->getId().toInt() << " refers to a material outside its project " << when);
    }
}
Set refs(const Data& d, const std::string& when) {
    Set own, elems;
    if (d.solver) own.insert(d.solver);
    if (d.physicalModels) { own.insert(d.physicalModels); for (std::size_t i = 0; i < d.physicalModels->size(); i++) { auto m = (*d.physicalModels)(i); own.insert(m); if (auto e = dynamic_cast<const PM::Wire::Extremes*>(m)) for (std::size_t k = 0; k < 2; k++) if (e->getExtreme(k)) own.insert(e->getExtreme(k)); } }
    if (d.mesh) {
        own.insert(d.mesh);
        if (auto s = dynamic_cast<const SG::Mesh::Structured*>(d.mesh)) {
            meshRefs(*s, d, own, elems, when);
            for (std::size_t a = 0; a < 3; a++) for (std::size_t p = 0; p < 2; p++) if (auto b = s->bounds()(a, p)) CHECK(d.physicalModels && d.physicalModels->existId(b->getId()) && d.physicalModels->getId(b->getId()) == b, "a boundary refers to a material outside its project " << when);
        } else meshRefs(*dynamic_cast<const SG::Mesh::Unstructured*>(d.mesh), d, own, elems, when);
    }
    if (d.sources) { own.insert(d.sources); for (std::size_t i = 0; i < d.sources->size(); i++) { auto s = (*d.sources)(i); own.insert(s); if (s->getMagnitude()) own.insert(s->getMagnitude()); Elems e = s->elems(); for (std::size_t k = 0; k < e.size(); k++) CHECK(elems.count(e(k)), "source " << i << " refers to an element outside its project " << when); } }
    if (d.outputRequests) { own.insert(d.outputRequests); for (std::size_t i = 0; i < d.outputRequests->size(); i++) { auto r = (*d.outputRequests)(i); own.insert(r); Elems e = r->elems(); for (std::size_t k = 0; k < e.size(); k++) CHECK(elems.count(e(k)), "request " << i << " refers to an element outside its project " << when); } }
    return own;
}

// -------------------------------------------------------------- generation

SEMBA::Solver::Settings genSettings(pbt::Gen& g, int depth) {
    SEMBA::Solver::Settings s;
    int k = depth ? g.range(0, 5) : g.range(2, 5);
    if (k == 0) { s.setObject(); for (int i = g.range(0, 3); i-- > 0;) { std::string n = g.ident(); if (!s.existsName(n)) s.addMember(n, genSettings(g, depth - 1)); } }
    else if (k == 1) { s.setArray(); for (int i = g.range(0, 3); i-- > 0;) s.addValue(genSettings(g, depth - 1)); }
    else if (k == 2) s.setBool(g.flip());
    else if (k == 3) s.setInt((int)g.range(-50, 50));
    else if (k == 4) s.setReal((double)g.range(-50, 50) / 4);
    else s.setString(g.ident());
    return s;
}
PM::PhysicalModel* genModel(pbt::Gen& g, std::size_t n, const std::string& name) {
    MatId id(n); auto p = [&]() { return 1.0 + (double)g.range(0, 20) / 8; };
    switch (g.range(0, 11)) {
    case 0: return new PM::Predefined::PEC(id, name);
    case 1: return new PM::Volume::Classic(id, name, p(), p(), p() - 1, p() - 1);
    case 2: { std::vector<PM::Volume::PoleResidue> v; for (int i = g.range(0, 2); i-- > 0;) v.push_back({std::complex<double>(-p(), p()), std::complex<double>(p(), 0)}); return new PM::Volume::Dispersive(id, name, p(), p(), p(), 0.0, v); }
    case 3: return new PM::Volume::PML(id, name, SM::Axis::Local(V3(p(), p(), 0.0), V3(p(), 0.0, 0.0)));
    case 4: { std::vector<PM::Surface::Multilayer::Layer> l; for (int i = g.range(0, 3); i-- > 0;) l.emplace_back(p(), p(), p(), p()); return new PM::Surface::Multilayer(id, name, l); }
    case 5: return new PM::Wire::Wire(id, name, p() / 100, p(), p());
    case 6: { PM::Wire::Wire w(id, "base", p() / 100, p(), p()); PM::Multiport::RLC a(MatId(n + 100), "end", MP::sRLC, p(), p(), p()); PM::Multiport::Predefined b(MatId(n + 200), "short", MP::shortCircuit); int q = g.range(0, 3); return new PM::Wire::Extremes(name, w, q & 1 ? &a : nullptr, q & 2 ? &b : nullptr); }
    case 7: return new PM::Gap::Gap(id, name, p());
    case 8: return new PM::Multiport::RLC(id, name, MP::pRLC, p(), p(), p());
    case 9: return new PM::Bound::PEC(id);
    case 10: return new PM::Bound::PML(id);
    default: return new PM::Bound::Periodic(id);
    }
}
Mag* genMag(pbt::Gen& g) {
    int k = g.range(0, 2);
    if (k == 0) return nullptr;
    if (k == 1) return new Mag(new MF::Gaussian(0.5 * g.range(1, 4), 0.5 * g.range(0, 4), 0.25 * g.range(0, 2)));
    std::vector<std::pair<double, double>> v; double x = 0; for (int i = g.range(1, 4); i-- > 0;) { v.push_back({x, 0.5 * g.range(-3, 3)}); x += 0.5 * g.range(1, 3); }
    return new Mag(new MF::LinearInterpolation<double, double>(v));
}
template <class T> SG::Element::Group<const T> groupOf(const std::vector<SG::Elem*>& v) { SG::Element::Group<const T> r; for (auto e : v) r.add(static_cast<const SG::Elem*>(e)->castTo<T>()); return r; }
template <class T> SG::Element::Group<T> groupOfVar(const std::vector<SG::Elem*>& v) { SG::Element::Group<T> r; for (auto e : v) r.add(e->castTo<T>()); return r; }
std::vector<SG::Elem*> some(pbt::Gen& g, const std::vector<SG::Elem*>& v) { std::vector<SG::Elem*> r; for (auto e : v) if (g.flip()) r.push_back(e); return r; }
SO::Domain genDomain(pbt::Gen& g) { double a = g.range(0, 8), b = a + g.range(1, 8), c = 0.25 * g.range(1, 4); return SO::Domain(g.flip(), a, b, c, g.flip(), b, 2 * b, c, g.flip(), g.flip(), g.flip() ? g.ident() : ""); }

void addSource(pbt::Gen& g, Data& d, const std::vector<SG::Elem*>* by, const std::vector<SG::Elem*>& ports) {
    Mag* m = genMag(g); int n = g.range(1, 3);
    int k = g.range(0, ports.empty() ? 4 : 6); g.label("source " + std::to_string(k));
    switch (k) {
    case 0: d.sources->add(new SS::PlaneWave(m, groupOfVar<SG::Vol>(some(g, by[3])), V3(0.0, 0.0, 1.0), V3(n, 1.0, 0.0))); break;
    case 1: d.sources->add(new SS::PlaneWave(m, groupOfVar<SG::Vol>(some(g, by[3])), (SM::Int)n, 0.25 * n)); break;
    case 2: d.sources->add(new SS::Generator(m, groupOf<SG::Nod>(some(g, by[0])), g.flip() ? SS::Generator::voltage : SS::Generator::current, SS::Generator::hard)); break;
    case 3: d.sources->add(new SS::OnLine(m, groupOf<SG::Lin>(some(g, by[1])), g.flip() ? SS::OnLine::electric : SS::OnLine::magnetic, g.flip() ? SS::OnLine::hard : SS::OnLine::soft)); break;
    case 4: d.sources->add(new SS::Dipole(m, groupOfVar<SG::Vol>(some(g, by[3])), n, V3(0.0, 0.0, 1.0), V3(n, 0.0, 0.0))); break;
    case 5: { std::vector<SG::Elem*> p(1, g.pick(ports)); d.sources->add(new SS::Port::WaveguideRectangular(m, groupOf<SG::Surf>(p), g.flip() ? SS::Port::Waveguide::TE : SS::Port::Waveguide::TM, std::pair<size_t, size_t>(n, 1))); break; }
    default: { std::vector<SG::Elem*> p(1, g.pick(ports)); d.sources->add(new SS::Port::TEMCoaxial(m, groupOf<SG::Surf>(p), g.flip() ? SS::Port::TEM::voltage : SS::Port::TEM::current, V3(0.5, 0.5, 0.0), 0.125, 0.5)); }
    }
}
void addRequest(pbt::Gen& g, Data& d, const std::vector<SG::Elem*>* by) {
    int k = g.range(0, 6); g.label("request " + std::to_string(k)); std::string n = g.ident(); SO::Domain dom = genDomain(g);
    std::vector<SG::Elem*> any; for (int i = 0; i < 4; i++) { auto v = some(g, by[i]); any.insert(any.end(), v.begin(), v.end()); }
    switch (k) {
    case 0: d.outputRequests->add(new SO::OutputRequest<SG::Nod>(dom, SO::Base::electric, n, groupOfVar<SG::Nod>(some(g, by[0])))); break;
    case 1: d.outputRequests->add(new SO::OutputRequest<SG::Lin>(dom, SO::Base::current, n, groupOfVar<SG::Lin>(some(g, by[1])))); break;
    case 2: d.outputRequests->add(new SO::OutputRequest<SG::Surf>(dom, SO::Base::magnetic, n, groupOfVar<SG::Surf>(some(g, by[2])))); break;
    case 3: d.outputRequests->add(new SO::OutputRequest<SG::Vol>(dom, SO::Base::voltage, n, groupOfVar<SG::Vol>(some(g, by[3])))); break;
    case 4: d.outputRequests->add(new SO::OutputRequest<SG::Elem>(dom, SO::Base::electric, n, groupOfVar<SG::Elem>(any))); break;
    case 5: { std::vector<SG::Elem*> v; for (auto e : any) if (!e->getModel()) v.push_back(e); d.outputRequests->add(new SO::BulkCurrent(dom, n, groupOf<SG::Elem>(v), SM::Constants::y, (SM::UInt)g.range(0, 5))); break; }
    default: d.outputRequests->add(new SO::FarField(dom, n, groupOfVar<SG::Vol>(some(g, by[3])), g.range(0, 3), 4, 0.5, g.range(0, 3), 5, 0.25));
    }
}
template <class T> void flatQuad(MDesc<T>& m) { // a face in a plane of constant z, for ports
    typedef typename MDesc<T>::Vec Vec; std::size_t c = 1000; T z = (T)1;
    Vec v[4] = {Vec(T(0), T(0), z), Vec(T(2), T(0), z), Vec(T(2), T(2), z), Vec(T(0), T(2), z)};
    EDesc e; e.kind = QUAD4; e.id = 1000; e.lay = m.layers.empty() ? 0 : m.layers[0].first; e.mat = m.mats.empty() ? 0 : m.mats[0];
    for (auto& p : v) { m.coords.push_back({c, p}); e.c.push_back(c++); }
    m.elems.push_back(e);
}
SG::Grid3 genGrid(pbt::Gen& g) { std::vector<double> p[3]; for (auto& v : p) { double x = 0; for (int i = 0; i < 5; i++) { v.push_back(x); x += 0.5 * g.range(1, 3); } } return SG::Grid3(p); }
template <class E, class G> void classify(G& es, std::vector<SG::Elem*>* by, std::vector<SG::Elem*>& ports) {
    for (std::size_t i = 0; i < es.size(); i++) { E* e = es(i); by[dimOf(kindOf(e))].push_back(e); if (e->getId().toInt() == 1000) ports.push_back(e); }
}
struct Parts { std::vector<SG::Elem*> by[4], ports; };
void partsOf(const Data& d, Parts& p) {
    if (auto s = dynamic_cast<SG::Mesh::Structured*>(d.mesh)) classify<SG::ElemI>(s->elems(), p.by, p.ports);
    else if (auto u = dynamic_cast<SG::Mesh::Unstructured*>(d.mesh)) classify<SG::ElemR>(u->elems(), p.by, p.ports);
}
Data* genProject(pbt::Gen& g) {
    std::unique_ptr<Data> d(new Data);
    if (g.chance(4, 5)) { SEMBA::Solver::Settings s = genSettings(g, 3); d->solver = new SEMBA::Solver::Info(g.ident(), s); }
    int kind = g.range(0, 3);  // 0: no mesh 1: unstructured 2: geometric 3: structured
    if (kind == 0) kind = g.range(0, 3);
    static const char* n[] = {"no mesh", "unstructured", "geometric", "structured"}; g.label(n[kind]); g << n[kind];
    RDesc r; IDesc q; std::vector<std::size_t> mats;
    if (kind == 1 || kind == 2) { r = genMesh<SM::Real>(g, 10); if (g.flip()) flatQuad(r); mats = r.mats; }
    if (kind == 3) { q = genMesh<SM::Int>(g, 10); if (g.flip()) flatQuad(q); mats = q.mats; }
    if (kind == 0) { int k = g.range(0, 2); for (int i = 0; i < k; i++) mats.push_back((std::size_t)i + 1); }
    bool noModels = mats.empty() && g.flip();
    if (!noModels) { d->physicalModels = new PM::Group<>(); for (auto m : mats) d->physicalModels->add(genModel(g, m, "mat" + std::to_string(m))); } else g.label("no models");
    if (kind == 1 || kind == 2) {
        World<SM::Real> w; for (auto& c : r.coords) w.coords.add(new CoordR3(CoordId(c.first), c.second)); for (auto& l : r.layers) w.layers.add(new Layer::Layer(LayerId(l.first), l.second));
        for (auto& e : r.elems) { std::vector<const CoordR3*> v; for (auto c : e.c) v.push_back(w.coords.getId(CoordId(c))); w.elems.add(makeElem(e, v, e.lay ? w.layers.getId(LayerId(e.lay)) : nullptr, e.mat ? d->physicalModels->getId(MatId(e.mat)) : nullptr)); }
        if (kind == 1) d->mesh = new SG::Mesh::Unstructured(w.coords, w.elems, w.layers); else d->mesh = new SG::Mesh::Geometric(genGrid(g), w.coords, w.elems, w.layers);
        g << " " << r.str();
    }
    if (kind == 3) {
        World<SM::Int> w; for (auto& c : q.coords) w.coords.add(new CoordI3(CoordId(c.first), c.second)); for (auto& l : q.layers) w.layers.add(new Layer::Layer(LayerId(l.first), l.second));
        for (auto& e : q.elems) { std::vector<const CoordI3*> v; for (auto c : e.c) v.push_back(w.coords.getId(CoordId(c))); w.elems.add(makeElem(e, v, e.lay ? w.layers.getId(LayerId(e.lay)) : nullptr, e.mat ? d->physicalModels->getId(MatId(e.mat)) : nullptr)); }
        SG::BoundTerminations3 b;
        if (d->physicalModels && g.flip()) for (std::size_t a = 0; a < 3; a++) for (std::size_t p = 0; p < 2; p++) if (g.flip()) {
            MatId id(2000 + 2 * a + p); PM::PhysicalModel* m = nullptr; int k = g.range(0, 2);
            if (k == 0) m = new PM::Bound::PEC(id); else if (k == 1) m = new PM::Bound::PML(id); else m = new PM::Bound::Periodic(id);
            d->physicalModels->add(m); b.setBound(a, p, m); g.label("boundaries");
        }
        d->mesh = new SG::Mesh::Structured(genGrid(g), w.coords, w.elems, w.layers, b);
        g << " " << q.str();
    }
    Parts p; partsOf(*d, p);
    if (g.chance(5, 6)) { d->sources = new SS::Group<>(); for (int i = g.range(0, 3); i-- > 0;) addSource(g, *d, p.by, p.ports); g << " " << d->sources->size() << " sources"; }
    if (g.chance(5, 6)) { d->outputRequests = new SO::Group<>(); for (int i = g.range(0, 3); i-- > 0;) addRequest(g, *d, p.by); g << " " << d->outputRequests->size() << " requests"; }
    return d.release();
}

// ------------------------------------------------------------------ changes

std::string change(pbt::Gen& g, Data& d) {
    switch (g.range(0, 9)) {
    case 0: if (!d.mesh) return "nothing"; d.mesh->applyScalingFactor(2.0);
        if (d.sources) for (std::size_t i = 0; i < d.sources->size(); i++) { Elems e = (*d.sources)(i)->elems(); (*d.sources)(i)->set(e); } // ports follow their faces
        return "scaled";
    case 1: if (!d.physicalModels || d.physicalModels->empty()) return "nothing"; (*d.physicalModels)(g.draw(d.physicalModels->size()))->setName("renamed"); return "material renamed";
    case 2: if (!d.solver) return "nothing"; d.solver->setName("other"); d.solver->setSettings(genSettings(g, 1)); return "solver changed";
    case 3: if (!d.outputRequests || d.outputRequests->empty()) return "nothing"; (*d.outputRequests)(g.draw(d.outputRequests->size()))->setName("renamed"); return "request renamed";
    case 4: if (!d.sources) return "nothing"; { Parts p; partsOf(d, p); addSource(g, d, p.by, p.ports); } return "source added";
    case 5: if (!d.outputRequests) return "nothing"; { Parts p; partsOf(d, p); addRequest(g, d, p.by); } return "request added";
    case 6: if (!d.mesh) return "nothing";
        { LayerGroup* l = nullptr; if (auto s = dynamic_cast<SG::Mesh::Structured*>(d.mesh)) l = &s->layers(); else l = &dynamic_cast<SG::Mesh::Unstructured*>(d.mesh)->layers();
        if (l->existId(LayerId(500))) return "nothing"; l->add(new Layer::Layer(LayerId(500), "added")); }
        return "layer added";
    case 7: if (!d.mesh || !d.physicalModels || d.physicalModels->empty()) return "nothing";
        if (auto s = dynamic_cast<SG::Mesh::Structured*>(d.mesh)) { if (s->elems().empty()) return "nothing"; s->elems()(g.draw(s->elems().size()))->setModel((*d.physicalModels)(0)); }
        else { auto u = dynamic_cast<SG::Mesh::Unstructured*>(d.mesh); if (u->elems().empty()) return "nothing"; u->elems()(g.draw(u->elems().size()))->setModel((*d.physicalModels)(0)); }
        return "material of an element changed";
    case 8: if (!d.sources || d.sources->empty()) return "nothing"; *d.sources = SS::Group<>(); return "sources removed";
    default: if (!d.outputRequests || d.outputRequests->empty()) return "nothing"; *d.outputRequests = SO::Group<>(); return "requests removed";
    }
}
} // namespace
#endif
