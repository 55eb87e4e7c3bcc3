// C18: a plane wave is transverse and consistent with its definition.
//
// Reference: the definition itself, evaluated with plain arithmetic (unit
// direction, E = polarisation * excitation, H = d x E / Z0).
#include "pbt.h"
#include "mesh.h"

#include <cmath>
#include <memory>
#include <typeinfo>

#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "math/Constants.h"
#include "source/PlaneWave.h"
#include "geometry/element/Hexahedron8.h"

using namespace geo;
namespace SS = SEMBA::Source;
namespace SG = SEMBA::Geometry;
namespace SM = SEMBA::Math;
typedef SS::PlaneWave PW;
typedef SG::Element::Group<SG::Vol> Vols;
typedef std::pair<double, double> Ang;

namespace {

const double PI = 3.14159265358979323846;
const SM::CVecR3 ORIGIN(0.0, 0.0, 0.0);
// independent of the library's constants: CODATA vacuum impedance
const double Z0 = 376.730313668;

struct Sig {
    int kind; double a, b, c;
    std::vector<std::pair<double, double>> xy;
    std::unique_ptr<SM::FunctionRR> make() const {
        typedef std::unique_ptr<SM::FunctionRR> R;
        if (kind == 0) return R(new SM::Function::Gaussian(a, b, c));
        if (kind == 1) return R(new SM::Function::BandLimited(a, a + b));
        return R(new SM::Function::LinearInterpolation<double, double>(xy));
    }
    SS::Magnitude::Magnitude* mag() const {
        return new SS::Magnitude::Magnitude(make().release());
    }
};

Sig genSig(pbt::Gen& g) {
    Sig s; s.kind = (int)g.range(0, 2);
    s.a = std::pow(10.0, (double)g.range(-2, 2)) * (1 + g.unit());
    s.b = s.a * (0.5 + 3 * g.unit());
    s.c = g.flip() ? 0.0 : 0.3 / s.a;
    if (s.kind == 2) {
        double x = -2;
        for (int i = 0, n = (int)g.range(1, 5); i < n; i++) {
            s.xy.push_back(std::make_pair(x, g.simple()));
            x += 0.25 + g.unit();
        }
    }
    static const char* nm[] = {"gaussian", "band limited", "table"};
    g << "excitation " << nm[s.kind] << " " << s.a << " " << s.b << " " << s.c << "\n";
    return s;
}

double nrm(const V3& v) { return std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); }
V3 sc(const V3& v, double s) { V3 r = v; for (int i = 0; i < 3; i++) r[i] *= s; return r; }
V3 cr(const V3& a, const V3& b) {
    return V3(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]);
}
double dt(const V3& a, const V3& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
SM::CVecR3 cv(const V3& v) { return SM::CVecR3(v[0], v[1], v[2]); }
V3 vc(const SM::CVecR3& v) { return V3(v(0), v(1), v(2)); }
V3 pol(double th, double ph) {
    return V3(std::sin(th)*std::cos(ph), std::sin(th)*std::sin(ph), std::cos(th));
}

// unit direction, with a preference for axes and coordinate planes
V3 genUnit(pbt::Gen& g) {
    for (;;) {
        V3 v(0.0, 0.0, 0.0);
        int k = (int)g.range(0, 3);
        if (k == 0) v[g.range(0, 2)] = g.flip() ? 1 : -1;
        else if (k == 1) {
            int a = (int)g.range(0, 2);
            double t = 2 * PI * g.unit();
            v[a] = std::cos(t); v[(a + 1) % 3] = std::sin(t);
        } else if (k == 2) {
            for (int i = 0; i < 3; i++) v[i] = (double)g.range(-3, 3);
        } else for (int i = 0; i < 3; i++) v[i] = 2 * g.unit() - 1;
        double n = nrm(v);
        if (n > 0.05) return sc(v, 1 / n);
    }
}
// unit vector orthogonal to d
V3 genPerp(pbt::Gen& g, const V3& d) {
    int a = 0;
    for (int i = 1; i < 3; i++) if (std::abs(d[i]) < std::abs(d[a])) a = i;
    V3 e(0.0, 0.0, 0.0); e[a] = 1;
    V3 p = cr(d, e); p = sc(p, 1 / nrm(p));
    V3 q = cr(d, p);
    double t = g.flip() ? PI / 2 * (double)g.range(0, 3) : 2 * PI * g.unit();
    V3 r;
    for (int i = 0; i < 3; i++) r[i] = std::cos(t)*p[i] + std::sin(t)*q[i];
    // one Gram-Schmidt step removes the rounding
    double k = dt(r, d);
    for (int i = 0; i < 3; i++) r[i] -= k * d[i];
    return r;
}
double genScale(pbt::Gen& g) {
    double s = std::pow(10.0, (double)g.range(-9, 9));
    return g.flip() ? 1.0 : s * (1 + g.unit());
}
std::string s3(const V3& v) {
    std::ostringstream o; o.precision(17);
    o << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")"; return o.str();
}

void near3(const V3& got, const V3& want, double rel, const std::string& what) {
    double n = std::max(nrm(got), nrm(want));
    double e = 0;
    for (int i = 0; i < 3; i++) e = std::max(e, std::abs(got[i] - want[i]));
    CHECK(e <= rel * n + 1e-300, what + ": got " + s3(got) + " wanted " + s3(want));
}

// hexahedra and their coordinates
struct Elems {
    std::vector<std::unique_ptr<SG::CoordR3>> c;
    Vols group; // shares the elements' ownership with every other group
    explicit Elems(int n) {
        static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},
                                    {0,0,1},{1,0,1},{1,1,1},{0,1,1}};
        for (int k = 0; k < n; k++) {
            const SG::CoordR3* v[8];
            for (int i = 0; i < 8; i++) {
                c.emplace_back(new SG::CoordR3(SG::CoordId(8*k + i + 1),
                    SM::CVecR3(2*k + o[i][0], o[i][1], o[i][2])));
                v[i] = c.back().get();
            }
            group.add(new SG::HexR8(SG::ElemId(k + 1), v, nullptr, nullptr));
        }
    }
};

// everything a wave with direction d (unit) and polarisation p must satisfy
void checkWave(const PW& w, const V3& d, const V3& p, const Sig& s,
               const std::vector<double>& times, const std::string& when) {
    V3 D = vc(w.getDirection()), P = vc(w.getPolarization());
    CHECK_NEAR(nrm(D), 1.0, 1e-12, 0, when + ": direction is not a unit vector " + s3(D));
    near3(D, d, 1e-12, when + ": direction");
    near3(P, p, 1e-12, when + ": polarisation");
    CHECK(std::abs(dt(D, P)) <= 1e-11 * nrm(P), when + ": not transverse");
    CHECK(!w.isRandomic(), when + ": says it is random");
    CHECK_EQ(w.getNumberOfRandomPlanewaves(), 0, when + ": random count");
    // angles describe the same vectors
    near3(pol(w.getTheta(), w.getPhi()), d, 2e-8, when + ": theta, phi");
    near3(pol(w.getAlpha(), w.getBeta()), sc(p, 1/nrm(p)), 2e-8, when + ": alpha, beta");
    CHECK(w.getTheta() >= 0 && w.getTheta() <= PI + 1e-12, when + ": theta outside [0, pi]");
    CHECK(w.getAlpha() >= 0 && w.getAlpha() <= PI + 1e-12, when + ": alpha outside [0, pi]");
    std::unique_ptr<SM::FunctionRR> f = s.make();
    for (double t : times) {
        double m = (*f)(t);
        V3 E = vc(w.getElectricField(t));
        std::pair<SM::CVecR3, SM::CVecR3> em = w.getElectromagneticField(t);
        V3 E2 = vc(em.first), H = vc(em.second);
        near3(E, sc(p, m), 1e-12, when + ": electric field");
        near3(E2, E, 1e-14, when + ": electric field of the pair");
        V3 want = sc(cr(d, sc(p, m)), 1 / Z0);
        near3(H, want, 1e-6, when + ": magnetic field");
        // transversality, to rounding
        CHECK(std::abs(dt(H, d)) <= 1e-11 * nrm(H), when + ": H along the direction");
        CHECK(std::abs(dt(E, H)) <= 1e-11 * nrm(E) * nrm(H), when + ": E not orthogonal to H");
        if (nrm(E) > 1e-250) {
            V3 S = cr(E, H);
            CHECK(dt(S, d) > 0, when + ": power flows against the direction");
        }
    }
}

std::vector<double> genTimes(pbt::Gen& g, const Sig& s) {
    std::vector<double> t; t.push_back(0);
    for (int i = 0; i < 3; i++) {
        double base = s.kind == 0 ? s.b + s.a * (4*g.unit() - 2)
                    : s.kind == 1 ? 20.0/s.a + (2*g.unit() - 1)/s.a
                    : 4*g.unit() - 2;
        t.push_back(base);
    }
    return t;
}

void angleLabels(pbt::Gen& g, const V3& d) {
    int zeros = 0;
    for (int i = 0; i < 3; i++) zeros += std::abs(d[i]) < 1e-15;
    g.label(zeros == 2 ? "along an axis" : zeros == 1 ? "in a coordinate plane" : "oblique");
}

} // namespace

PROP(by_vectors, 3000, 150000, "direction not along an axis, or vectors not of unit length") {
    V3 d = genUnit(g), p = genPerp(g, d);
    double sd = genScale(g), sp = genScale(g);
    Sig s = genSig(g);
    std::vector<double> t = genTimes(g, s);
    angleLabels(g, d);
    if (sd != 1) g.label("direction not normalised");
    g << "direction " << s3(sc(d, sd)) << " polarisation " << s3(sc(p, sp)) << "\n";
    int zeros = 0;
    for (int i = 0; i < 3; i++) zeros += std::abs(d[i]) < 1e-15;
    g.nontrivial(zeros < 2 || sd != 1 || sp != 1);
    Elems el((int)g.range(0, 3));
    std::unique_ptr<PW> w;
    CHECK_NOTHROW(w.reset(new PW(s.mag(), el.group, cv(sc(d, sd)), cv(sc(p, sp)))),
                  "an orthogonal pair is accepted whatever its lengths");
    CHECK_EQ(w->size(), el.group.size(), "elements kept");
    for (size_t i = 0; i < w->size(); i++)
        CHECK((*w)(i) == el.group(i), "the wave's volumes are the ones given");
    checkWave(*w, d, sc(p, sp), s, t, "built from vectors");
}

PROP(by_angles, 3000, 150000, "oblique direction") {
    V3 d = genUnit(g), p = genPerp(g, d);
    Sig s = genSig(g);
    std::vector<double> t = genTimes(g, s);
    double n = nrm(p); p = sc(p, 1 / n);
    // the same direction has many pairs of angles
    double th = std::acos(std::max(-1.0, std::min(1.0, d[2])));
    double ph = std::atan2(d[1], d[0]);
    double al = std::acos(std::max(-1.0, std::min(1.0, p[2])));
    double be = std::atan2(p[1], p[0]);
    auto alias = [&](double& a, double& b) {
        int k = (int)g.range(0, 3);
        if (k == 1) b += 2 * PI * (double)g.range(-2, 2);
        if (k == 2) { a = -a; b += PI; }
        if (k == 3) { a = 2 * PI - a; b -= PI; }
        if (k > 1) g.label("angles outside the usual range");
    };
    alias(th, ph); alias(al, be);
    angleLabels(g, d);
    g << "direction angles " << th << " " << ph << " polarisation angles "
      << al << " " << be << "\n";
    // near the poles acos loses half of the digits, so that the angles
    // themselves may not be orthogonal: decide with the vectors they give
    V3 dd = pol(th, ph), pp = pol(al, be);
    if (std::abs(dt(dd, pp)) > 2e-15) { g.discard(); return; }
    g.nontrivial(std::abs(d[0]) > 1e-9 && std::abs(d[1]) > 1e-9 && std::abs(d[2]) > 1e-9);
    Elems el((int)g.range(0, 2));
    std::unique_ptr<PW> w;
    CHECK_NOTHROW(w.reset(new PW(s.mag(), el.group, Ang(th, ph), Ang(al, be))),
                  "an orthogonal pair of angles is accepted");
    checkWave(*w, dd, pp, s, t, "built from angles");
    CHECK_EQ(w->size(), el.group.size(), "elements kept");
    // and the wave built from those vectors is the same wave
    PW v(s.mag(), el.group, cv(dd), cv(pp));
    near3(vc(v.getDirection()), vc(w->getDirection()), 1e-14, "both definitions: direction");
    near3(vc(v.getPolarization()), vc(w->getPolarization()), 1e-14, "both definitions: polarisation");
    CHECK_NEAR(v.getTheta(), w->getTheta(), 0, 4e-8, "both definitions: theta");
    CHECK_NEAR(v.getAlpha(), w->getAlpha(), 0, 4e-8, "both definitions: alpha");
    for (double x : t) {
        auto a = v.getElectromagneticField(x), b = w->getElectromagneticField(x);
        near3(vc(a.first), vc(b.first), 1e-13, "both definitions: E");
        near3(vc(a.second), vc(b.second), 1e-13, "both definitions: H");
    }
}

PROP(rejected, 3000, 150000, "vectors not null") {
    V3 d = genUnit(g), p = genPerp(g, d);
    p = sc(p, 1 / nrm(p));
    double sd = genScale(g), sp = genScale(g);
    Sig s = genSig(g);
    Elems el(1);
    int k = (int)g.range(0, 4);
    if (k == 0) {
        g.label("null polarisation");
        CHECK_THROWS(PW(s.mag(), el.group, cv(sc(d, sd)), ORIGIN),
                     "null polarisation");
    } else if (k == 1) {
        g.label("null direction");
        CHECK_THROWS(PW(s.mag(), el.group, ORIGIN, cv(sc(p, sp))),
                     "null direction");
    } else if (k == 2) {
        g.label("both null");
        CHECK_THROWS(PW(s.mag(), el.group, ORIGIN, ORIGIN),
                     "null vectors");
    } else {
        // tilt the polarisation towards the direction
        double tilt = (k == 3 ? std::pow(10.0, -1 - 5 * g.unit()) : PI/2 * (0.1 + 0.9*g.unit()))
                      * (g.flip() ? 1 : -1);
        V3 q;
        for (int i = 0; i < 3; i++) q[i] = std::cos(tilt)*p[i] + std::sin(tilt)*d[i];
        g << "direction " << s3(sc(d, sd)) << " polarisation " << s3(sc(q, sp))
          << " tilted by " << tilt << "\n";
        g.nontrivial();
        g.label(k == 3 ? "slightly tilted" : "clearly tilted");
        bool typed = false, other = false;
        try { PW w(s.mag(), el.group, cv(sc(d, sd)), cv(sc(q, sp))); }
        catch (const SS::Error::PlaneWave::NotPerpendicular&) { typed = true; }
        catch (const std::exception&) { other = true; }
        CHECK(typed || other, "a wave that is not transverse was accepted");
        CHECK(typed, "reported with an error of another kind");
        // by angles
        V3 u = sc(q, 1/nrm(q));
        double th = std::acos(std::max(-1.0, std::min(1.0, d[2])));
        double al = std::acos(std::max(-1.0, std::min(1.0, u[2])));
        Ang a(th, std::atan2(d[1], d[0])), b(al, std::atan2(u[1], u[0]));
        if (std::abs(dt(pol(a.first, a.second), pol(b.first, b.second))) > 1e-7)
            CHECK_THROWS(PW(s.mag(), el.group, a, b), "angles that are not orthogonal");
    }
}

PROP(randomised, 1000, 20000, "at least one random wave") {
    int n = (int)g.range(0, 500);
    double rel = g.flip() ? g.unit() : 3*g.unit();
    Sig s = genSig(g);
    Elems el((int)g.range(0, 3));
    g << n << " random waves, variation of the delay " << rel << "\n";
    g.nontrivial(n > 0);
    PW w(s.mag(), el.group, (SM::Int)n, (SM::Real)rel);
    PW c(w);
    std::unique_ptr<SS::Base> k(w.clone());
    for (const PW* x : {(const PW*)&w, (const PW*)&c, dynamic_cast<const PW*>(k.get())}) {
        CHECK(x != nullptr, "clone is a plane wave");
        CHECK(x->isRandomic(), "is random");
        CHECK_EQ(x->getNumberOfRandomPlanewaves(), n, "number of random waves");
        CHECK_EQ(x->getRelativeVariationOfRandomDelay(), rel, "variation of the delay");
        CHECK_EQ(x->size(), el.group.size(), "elements");
        CHECK(*x->getMagnitude() == *w.getMagnitude(), "excitation");
    }
}

PROP(copies, 2000, 60000, "the copied wave carries elements") {
    V3 d = genUnit(g), p = genPerp(g, d);
    double sd = genScale(g);
    Sig s = genSig(g);
    std::vector<double> t = genTimes(g, s);
    Elems el((int)g.range(0, 3));
    g.nontrivial(el.group.size() > 0);
    std::unique_ptr<PW> w(new PW(s.mag(), el.group, cv(sc(d, sd)), cv(p)));
    std::unique_ptr<PW> c;
    int k = (int)g.range(0, 2);
    if (k == 0) { g.label("copied"); c.reset(new PW(*w)); }
    else if (k == 1) { g.label("cloned"); c.reset(w->clone()); }
    else {
        g.label("assigned");
        V3 d2 = genUnit(g), p2 = genPerp(g, d2);
        c.reset(new PW(genSig(g).mag(), Vols(), cv(d2), cv(p2)));
        *c = *w;
    }
    checkWave(*c, d, p, s, t, "copy");
    CHECK(c->getMagnitude() != w->getMagnitude(), "the copy has its own excitation");
    CHECK_EQ(c->size(), el.group.size(), "elements of the copy");
    if (g.flip()) {
        g.label("original destroyed");
        w.reset();
        checkWave(*c, d, p, s, t, "copy, with the original gone");
    } else {
        c.reset();
        checkWave(*w, d, p, s, t, "original, with the copy gone");
    }
}
