// C21: output requests keep their domain, kind and target through copies.
//
// Model: a record of the arguments each request was built with, carried
// through a history of copies, assignments, replacements and destructions.
#include "pbt.h"
#include "mesh.h"

#include <cmath>
#include <memory>
#include <iostream>

#include "outputRequest/OutputRequest.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "physicalModel/predefined/PEC.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Hexahedron8.h"

using namespace geo;
namespace SO = SEMBA::OutputRequest;
namespace SG = SEMBA::Geometry;
namespace SM = SEMBA::Math;
typedef SG::Element::Group<const SG::Elem> Elems;
typedef SO::Domain Dom;

namespace {

struct Mute {
    Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }
    ~Mute() { std::cerr.clear(); std::cout.clear(); }
};

// --------------------------------------------------------------- domains

struct DRec {
    bool time; double t0, t1, dt;
    bool freq; double f0, f1, df; bool log;
    bool tran; std::string file;
    Dom make() const { return Dom(time, t0, t1, dt, freq, f0, f1, df, log, tran, file); }
    std::string str() const {
        std::ostringstream o; o.precision(17);
        o << "time " << time << " " << t0 << " " << t1 << " " << dt << " freq " << freq << " "
          << f0 << " " << f1 << " " << df << (log ? " log" : "") << " transfer " << tran << " '"
          << file << "'";
        return o.str();
    }
};

DRec genDom(pbt::Gen& g) {
    DRec d;
    d.time = g.flip(); d.freq = g.flip(); d.tran = g.flip(); d.log = g.flip();
    d.t0 = g.simple(); d.t1 = g.simple(); d.dt = g.simple();
    d.f0 = g.simple(); d.f1 = g.simple(); d.df = g.simple();
    d.file = g.flip() ? g.ident() : "";
    return d;
}

void sameDom(const Dom& x, const DRec& d, const std::string& w) {
    CHECK_EQ(x.isTimeDomain(), d.time, w + ": time domain");
    CHECK_EQ(x.getInitialTime(), d.t0, w + ": initial time");
    CHECK_EQ(x.getFinalTime(), d.t1, w + ": final time");
    CHECK_EQ(x.getSamplingPeriod(), d.dt, w + ": sampling period");
    CHECK_EQ(x.isFrequencyDomain(), d.freq, w + ": frequency domain");
    CHECK_EQ(x.getInitialFrequency(), d.f0, w + ": initial frequency");
    CHECK_EQ(x.getFinalFrequency(), d.f1, w + ": final frequency");
    CHECK_EQ(x.getFrequencyStep(), d.df, w + ": frequency step");
    CHECK_EQ(x.isLogFrequencySweep(), d.log, w + ": sweep");
    CHECK_EQ(x.isUsingTransferFunction(), d.tran, w + ": transfer function");
    if (d.tran) CHECK_EQ(x.getTransferFunctionFile(), d.file, w + ": transfer function file");
    // which domains are active
    static const Dom::Type type[8] = {Dom::NONE, Dom::TRAN, Dom::FREQ, Dom::FRTR,
                                      Dom::TIME, Dom::TITR, Dom::TIFR, Dom::ALL};
    CHECK(x.getDomainType() == type[4 * d.time + 2 * d.freq + d.tran], w + ": domain type");
}

// alters one field; false if the field does not count
void alter(pbt::Gen& g, DRec& d) {
    switch (g.range(0, d.tran ? 10 : 9)) {
    case 0: d.time = !d.time; break;
    case 1: d.t0 += 1; break;
    case 2: d.t1 += 1; break;
    case 3: d.dt += 1; break;
    case 4: d.freq = !d.freq; break;
    case 5: d.f0 += 1; break;
    case 6: d.f1 += 1; break;
    case 7: d.df += 1; break;
    case 8: d.log = !d.log; break;
    case 9: d.tran = !d.tran; break;
    default: d.file += "x"; break;
    }
}

// -------------------------------------------------------------- elements

struct Pool {
    std::vector<std::unique_ptr<SG::CoordR3>> c;
    std::unique_ptr<SEMBA::PhysicalModel::Predefined::PEC> pec;
    std::vector<const SG::Elem*> all[4], withMat[4];
    SG::Element::Group<SG::Elem> keep;
    const SG::CoordR3* coord(double x, double y, double z) {
        c.emplace_back(new SG::CoordR3(SG::CoordId(c.size() + 1), SM::CVecR3(x, y, z)));
        return c.back().get();
    }
    explicit Pool(int n) : pec(new SEMBA::PhysicalModel::Predefined::PEC(SEMBA::MatId(1), "pec")) {
        int id = 0;
        for (int k = 0; k < 2 * n; k++) {
            const SG::CoordR3* v[8];
            double x = 2 * k;
            v[0] = coord(x,0,0); v[1] = coord(x+1,0,0); v[2] = coord(x+1,1,0); v[3] = coord(x,1,0);
            v[4] = coord(x,0,1); v[5] = coord(x+1,0,1); v[6] = coord(x+1,1,1); v[7] = coord(x,1,1);
            const SEMBA::PhysicalModel::PhysicalModel* m = k % 2 ? pec.get() : nullptr;
            SG::Elem* e[4] = {
                new SG::NodR(SG::ElemId(++id), v, nullptr, m),
                new SG::LinR2(SG::ElemId(++id), v, nullptr, m),
                new SG::QuaR4(SG::ElemId(++id), v, nullptr, m),
                new SG::HexR8(SG::ElemId(++id), v, nullptr, m)};
            for (int i = 0; i < 4; i++) { keep.add(e[i]); (m ? withMat : all)[i].push_back(e[i]); }
        }
    }
};

std::vector<const SG::Elem*> subset(pbt::Gen& g, const std::vector<const SG::Elem*>& v) {
    std::vector<const SG::Elem*> r;
    for (auto e : v) if (g.flip()) r.push_back(e);
    g.shuffle(r);
    return r;
}
template<class T> SG::Element::Group<T> groupOf(const std::vector<const SG::Elem*>& v) {
    SG::Element::Group<T> r;
    for (auto e : v) r.add(const_cast<SG::Elem*>(e)->castTo<T>());
    return r;
}

// -------------------------------------------------------------- requests

enum RKind { NODES, LINES, SURFS, VOLS, ANY, BULK, FAR, RKINDS };

struct Rec {
    int kind; SO::Base::Type type; std::string name; DRec dom;
    std::vector<const SG::Elem*> elems;
    SM::Constants::CartesianAxis dir; SM::UInt skip;
    double th[3], ph[3];
};

const SO::Base::Type types[] = {SO::Base::electric, SO::Base::magnetic,
    SO::Base::electricFieldNormals, SO::Base::magneticFieldNormals,
    SO::Base::surfaceCurrentDensity, SO::Base::current, SO::Base::voltage,
    SO::Base::bulkCurrentElectric, SO::Base::bulkCurrentMagnetic};

std::vector<const SG::Elem*> everything(const Pool& p) {
    std::vector<const SG::Elem*> r;
    for (auto& v : p.all) r.insert(r.end(), v.begin(), v.end());
    return r;
}
std::vector<const SG::Elem*> domainOf(const Pool& p, int kind) {
    if (kind <= VOLS) return p.all[kind];
    if (kind == FAR) return p.all[3];
    return everything(p);
}

Rec genRec(pbt::Gen& g, const Pool& p) {
    Rec r; r.kind = (int)g.range(0, RKINDS - 1);
    r.type = types[g.range(0, 8)];
    if (r.kind == BULK) r.type = SO::Base::bulkCurrentElectric;
    if (r.kind == FAR) r.type = SO::Base::electricFarField;
    r.name = g.flip() ? g.ident() : g.text("ab /@#_.-\n%", 0, 8);
    r.dom = genDom(g);
    r.elems = subset(g, domainOf(p, r.kind));
    static const SM::Constants::CartesianAxis ax[] = {SM::Constants::x, SM::Constants::y, SM::Constants::z};
    r.dir = ax[g.range(0, 2)]; r.skip = (SM::UInt)g.range(0, 20);
    for (int i = 0; i < 3; i++) { r.th[i] = g.simple(); r.ph[i] = g.simple(); }
    static const char* n[] = {"nodes", "lines", "surfaces", "volumes", "mixed", "bulk current", "far field"};
    g << n[r.kind] << " type " << (int)r.type << " '" << r.name << "' with " << r.elems.size()
      << " elements, " << r.dom.str() << "\n";
    g.label(n[r.kind]);
    return r;
}

SO::Base* make(const Rec& r) {
    switch (r.kind) {
    case NODES: return new SO::OutputRequest<SG::Nod>(r.dom.make(), r.type, r.name, groupOf<SG::Nod>(r.elems));
    case LINES: return new SO::OutputRequest<SG::Lin>(r.dom.make(), r.type, r.name, groupOf<SG::Lin>(r.elems));
    case SURFS: return new SO::OutputRequest<SG::Surf>(r.dom.make(), r.type, r.name, groupOf<SG::Surf>(r.elems));
    case VOLS:  return new SO::OutputRequest<SG::Vol>(r.dom.make(), r.type, r.name, groupOf<SG::Vol>(r.elems));
    case ANY:   return new SO::OutputRequest<SG::Elem>(r.dom.make(), r.type, r.name, groupOf<SG::Elem>(r.elems));
    case BULK: {
        Elems e; for (auto x : r.elems) e.add(x);
        return new SO::BulkCurrent(r.dom.make(), r.name, e, r.dir, r.skip); }
    default: return new SO::FarField(r.dom.make(), r.name, groupOf<SG::Vol>(r.elems),
                                     r.th[0], r.th[1], r.th[2], r.ph[0], r.ph[1], r.ph[2]);
    }
}

void same(const SO::Base* s, const Rec& r, const std::string& w) {
    CHECK_EQ(s->getName(), r.name, w + ": name");
    CHECK(s->getType() == r.type, w + ": field kind");
    sameDom(s->domain(), r.dom, w);
    CHECK(s->domain() == r.dom.make(), w + ": domain not equal to the one given");
    Elems e = s->elems();
    CHECK_EQ(e.size(), r.elems.size(), w + ": number of elements");
    for (size_t i = 0; i < e.size(); i++) CHECK(e(i) == r.elems[i], w + ": element " + std::to_string(i));
    if (r.kind == BULK) {
        auto b = dynamic_cast<const SO::BulkCurrent*>(s);
        CHECK(b != nullptr, w + ": class");
        CHECK(b->getDir() == r.dir, w + ": direction");
        CHECK_EQ(b->getSkip(), r.skip, w + ": skip");
    }
    if (r.kind == FAR) {
        auto f = dynamic_cast<const SO::FarField*>(s);
        CHECK(f != nullptr, w + ": class");
        CHECK_EQ(f->getInitialTheta(), r.th[0], w + ": initial theta");
        CHECK_EQ(f->getFinalTheta(), r.th[1], w + ": final theta");
        CHECK_EQ(f->getStepTheta(), r.th[2], w + ": theta step");
        CHECK_EQ(f->getInitialPhi(), r.ph[0], w + ": initial phi");
        CHECK_EQ(f->getFinalPhi(), r.ph[1], w + ": final phi");
        CHECK_EQ(f->getStepPhi(), r.ph[2], w + ": phi step");
    }
}

template<class T> bool assignAs(SO::Base* a, SO::Base* b) {
    T *x = dynamic_cast<T*>(a), *y = dynamic_cast<T*>(b);
    if (!x || !y) return false;
    *x = *y;
    return true;
}
template<class T> SO::Base* copyAs(SO::Base* b) {
    const T* y = dynamic_cast<const T*>(b);
    return y ? new T(*y) : nullptr;
}

} // namespace

PROP(domain_equality, 4000, 150000, "the two domains differ in one field") {
    DRec a = genDom(g), b = a;
    int k = (int)g.range(0, 2);
    if (k == 1) { alter(g, b); g.nontrivial(); g.label("one field differs"); }
    if (k == 2) { b.file += "x"; g.label("file only"); }
    g << a.str() << "\n" << b.str() << "\n";
    Dom x = a.make(), y = b.make();
    sameDom(x, a, "first"); sameDom(y, b, "second");
    bool want = k == 0 || (k == 2 && !a.tran);
    CHECK((x == y) == want, want ? "alike but not equal" : "different but equal");
    CHECK((y == x) == want, "not symmetric");
    Dom c(y); CHECK(c == y, "copy differs");
    Dom e; CHECK(e == Dom(), "two empty domains");
    sameDom(e, DRec{false, 0, 0, 0, false, 0, 0, 0, false, false, ""}, "empty");
    e = x; CHECK(e == x, "assigned differs"); sameDom(e, a, "assigned");
    e = e; sameDom(e, a, "assigned to itself");
    // setters change one copy only
    e.setFinalTime(a.t1 + 2); e.setSamplingPeriod(a.dt + 3);
    sameDom(x, a, "after setting the copy");
    DRec s = a; s.t1 += 2; s.dt += 3;
    sameDom(e, s, "set");
    CHECK(!(e == x), "set but still equal");
}

PROP(history, 3000, 150000, "at least three operations on at least two requests") {
    Mute mute;
    Pool pool((int)g.range(1, 3));
    std::vector<std::unique_ptr<SO::Base>> s;
    std::vector<Rec> r;
    r.push_back(genRec(g, pool)); s.emplace_back(make(r.back()));
    int steps = (int)g.many(1, 12, 60), done = 0;
    for (int k = 0; k < steps; k++) {
        int i = s.empty() ? -1 : (int)g.range(0, s.size() - 1);
        int op = i < 0 ? 0 : (int)g.range(0, 9);
        std::string what;
        switch (op) {
        case 0: what = "built"; r.push_back(genRec(g, pool)); s.emplace_back(make(r.back())); break;
        case 1: {
            what = "cloned " + std::to_string(i);
            s.emplace_back(s[i]->cloneTo<SO::Base>()); Rec x = r[i]; r.push_back(x); break; }
        case 2: {
            what = "copied " + std::to_string(i);
            SO::Base *c = nullptr, *o = s[i].get();
            if (!c) c = copyAs<SO::BulkCurrent>(o);
            if (!c) c = copyAs<SO::FarField>(o);
            if (!c) c = copyAs<SO::OutputRequest<SG::Nod>>(o);
            if (!c) c = copyAs<SO::OutputRequest<SG::Lin>>(o);
            if (!c) c = copyAs<SO::OutputRequest<SG::Surf>>(o);
            if (!c) c = copyAs<SO::OutputRequest<SG::Vol>>(o);
            if (!c) c = copyAs<SO::OutputRequest<SG::Elem>>(o);
            s.emplace_back(c); Rec x = r[i]; r.push_back(x); break; }
        case 3: {
            int j = (int)g.range(0, s.size() - 1);
            what = "assigned " + std::to_string(i) + " to " + std::to_string(j);
            if (r[i].kind != r[j].kind) { what += " (other class: nothing)"; break; }
            SO::Base *a = s[j].get(), *b = s[i].get();
            if (assignAs<SO::BulkCurrent>(a, b) || assignAs<SO::FarField>(a, b) ||
                assignAs<SO::OutputRequest<SG::Nod>>(a, b) || assignAs<SO::OutputRequest<SG::Lin>>(a, b) ||
                assignAs<SO::OutputRequest<SG::Surf>>(a, b) || assignAs<SO::OutputRequest<SG::Vol>>(a, b) ||
                assignAs<SO::OutputRequest<SG::Elem>>(a, b)) { Rec x = r[i]; r[j] = x; g.label("assigned"); }
            break; }
        case 4:
            what = "destroyed " + std::to_string(i);
            s.erase(s.begin() + i); r.erase(r.begin() + i); g.label("destroyed"); break;
        case 5: {
            what = "set elements of " + std::to_string(i);
            std::vector<const SG::Elem*> v = subset(g, domainOf(pool, r[i].kind)), mix = v;
            if (r[i].kind <= VOLS && g.flip()) { // of another dimension: not taken
                auto o = subset(g, pool.all[(r[i].kind + 1) % 4]);
                mix.insert(mix.begin(), o.begin(), o.end());
                g.label("elements of other kinds offered");
            }
            Elems e; for (auto x : mix) e.add(x);
            s[i]->set(e); r[i].elems = v; break; }
        case 6: {
            what = "added elements to " + std::to_string(i);
            std::vector<const SG::Elem*> v;
            for (auto x : subset(g, domainOf(pool, r[i].kind)))
                if (std::find(r[i].elems.begin(), r[i].elems.end(), x) == r[i].elems.end()) v.push_back(x);
            Elems e; for (auto x : v) e.add(x);
            s[i]->add(e);
            r[i].elems.insert(r[i].elems.end(), v.begin(), v.end());
            break; }
        case 7:
            what = "renamed " + std::to_string(i);
            r[i].name = g.ident(); s[i]->setName(r[i].name); break;
        case 8:
            what = "domain changed of " + std::to_string(i);
            if (g.flip()) { r[i].dom.t1 += 1; s[i]->domain().setFinalTime(r[i].dom.t1); }
            else { r[i].dom = genDom(g); s[i]->domain() = r[i].dom.make(); }
            g.label("domain changed"); break;
        default:
            what = "printed " + std::to_string(i);
            s[i]->printInfo(); break;
        }
        g << what << "\n";
        done++;
        for (size_t q = 0; q < s.size(); q++)
            same(s[q].get(), r[q], "after '" + what + "', request " + std::to_string(q));
    }
    g.nontrivial(done >= 3 && s.size() >= 2);
}

// bulk currents are only defined where there is no material
PROP(bulk_current_material, 1500, 30000, "elements with and without material") {
    Pool pool((int)g.range(1, 3));
    Rec r = genRec(g, pool);
    r.kind = (int)g.range(NODES, ANY);
    int d = r.kind == ANY ? (int)g.range(0, 3) : r.kind;
    r.elems = subset(g, pool.all[d]);
    auto bad = subset(g, pool.withMat[d]);
    std::vector<const SG::Elem*> v = r.elems;
    v.insert(v.end(), bad.begin(), bad.end());
    g.shuffle(v); r.elems = v;
    r.type = types[g.range(0, 8)];
    bool bulk = r.type == SO::Base::bulkCurrentElectric || r.type == SO::Base::bulkCurrentMagnetic;
    g.nontrivial(bulk && !bad.empty() && bad.size() < v.size());
    std::unique_ptr<SO::Base> s;
    if (bulk && !bad.empty()) {
        g.label("refused");
        CHECK_THROWS(s.reset(make(r)), "bulk current over elements with material");
    } else {
        g.label("accepted");
        CHECK_NOTHROW(s.reset(make(r)), "accepted");
        same(s.get(), r, "request");
    }
}

// the sampling points of a sweep go from the first to the last value, evenly
// spaced, linearly or in decades
PROP(sweeps, 3000, 100000, "at least three points") {
    int n = (int)g.range(1, g.chance(1, 5) ? 2000 : 20);
    g.nontrivial(n >= 3);
    double u = std::pow(10.0, (double)g.range(-12, 12));
    double a = u * g.simple(), b = u * g.simple();
    g << n << " points from " << a << " to " << b << "\n";
    std::vector<double> v = SM::Util::linspace(std::pair<double, double>(a, b), (size_t)n);
    CHECK_EQ(v.size(), (size_t)n, "number of points");
    double tol = 1e-12 * (std::abs(a) + std::abs(b));
    CHECK_NEAR(v.back(), b, 0, tol, "last point");
    if (n > 1) {
        CHECK_NEAR(v[0], a, 0, tol, "first point");
        for (int i = 0; i < n; i++)
            CHECK_NEAR(v[i], a + (b - a) * ((double)i / (n - 1)), 0, tol, "point " + std::to_string(i));
        CHECK_NEAR(SM::Util::meanDifference(v), (b - a) / (n - 1), 0, 1e-11 * (std::abs(a) + std::abs(b)), "spacing");
    } else CHECK_EQ(SM::Util::meanDifference(v), 0.0, "spacing of one point");
    CHECK_NEAR(SM::Util::mean(v), n > 1 ? (a + b) / 2 : b, 0, 1e-11 * (std::abs(a) + std::abs(b)), "mean");
    CHECK_NEAR(SM::Util::sum(v), n * (n > 1 ? (a + b) / 2 : b), 0, 1e-11 * n * (std::abs(a) + std::abs(b)), "sum");
    // decades
    double p = (double)g.range(-15, 15) * (g.flip() ? 1 : 0.37), q = p + g.unit() * 10 - 3;
    std::vector<double> w = SM::Util::logspace(std::pair<double, double>(p, q), (size_t)n);
    std::vector<double> wi = SM::Util::logspace(std::pair<double, double>(p, q), n);
    CHECK_EQ(w.size(), (size_t)n, "number of logarithmic points");
    CHECK(w == wi, "the type of the count matters");
    for (int i = 0; i < n; i++) {
        double e = n > 1 ? p + (q - p) * ((double)i / (n - 1)) : q;
        CHECK_NEAR(w[i], std::pow(10.0, e), 1e-11, 0, "logarithmic point " + std::to_string(i));
    }
}
