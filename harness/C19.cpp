// C19: port mode profiles satisfy the mode equations and the port geometry.
//
// Oracle: Maxwell's equations. The profiles are sampled and differentiated or
// integrated numerically; no closed form of a mode is used.
#include "pbt.h"
#include "mesh.h"

#include <cmath>
#include <memory>
#include <functional>
#include <array>

#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Triangle3.h"
#include "math/function/Gaussian.h"

using namespace geo;
namespace SP = SEMBA::Source::Port;
namespace SG = SEMBA::Geometry;
namespace SM = SEMBA::Math;
typedef SP::WaveguideRectangular WG;
typedef SP::TEMCoaxial Coax;
typedef std::pair<size_t, size_t> Mode;
typedef SG::Element::Group<const SG::Surf> Surfs;

namespace {

const double PI = 3.14159265358979323846;

SEMBA::Source::Magnitude::Magnitude* mag() {
    return new SEMBA::Source::Magnitude::Magnitude(new SM::Function::Gaussian(1.0, 2.0));
}

// a rectangle [x0,x1]x[y0,y1] at height z, tiled with quads or triangles
struct Rect {
    double x0, y0, x1, y1, z;
    bool integer;
};
std::string str(const Rect& r) {
    std::ostringstream o; o.precision(17);
    o << "[" << r.x0 << ", " << r.x1 << "] x [" << r.y0 << ", " << r.y1 << "] at z = "
      << r.z << (r.integer ? " (grid indices)" : "");
    return o.str();
}

struct Surface {
    std::vector<std::unique_ptr<SG::CoordR3>> cr;
    std::vector<std::unique_ptr<SG::CoordI3>> ci;
    Surfs group;
    bool up;
    void quad(int id, const V3& a, const V3& b, const V3& c, const V3& d, bool integer) {
        const V3 p[4] = {a, b, c, d};
        if (integer) {
            const SG::CoordI3* v[4];
            for (int i = 0; i < 4; i++) {
                ci.emplace_back(new SG::CoordI3(SG::CoordId(ci.size() + 1),
                    SM::CVecI3((int)p[i](0), (int)p[i](1), (int)p[i](2))));
                v[i] = ci.back().get();
            }
            group.add(new SG::QuaI4(SG::ElemId(id), v, nullptr, nullptr));
        } else {
            const SG::CoordR3* v[4];
            for (int i = 0; i < 4; i++) {
                cr.emplace_back(new SG::CoordR3(SG::CoordId(cr.size() + 1), p[i]));
                v[i] = cr.back().get();
            }
            group.add(new SG::QuaR4(SG::ElemId(id), v, nullptr, nullptr));
        }
    }
    void tri(int id, const V3& a, const V3& b, const V3& c) {
        const V3 p[3] = {a, b, c};
        const SG::CoordR3* v[3];
        for (int i = 0; i < 3; i++) {
            cr.emplace_back(new SG::CoordR3(SG::CoordId(cr.size() + 1), p[i]));
            v[i] = cr.back().get();
        }
        group.add(new SG::Tri3(SG::ElemId(id), v, nullptr, nullptr));
    }
};

Rect genRect(pbt::Gen& g, bool atOrigin) {
    Rect r; r.integer = g.chance(1, 3);
    if (r.integer) {
        r.x0 = atOrigin ? 0 : (double)g.range(-20, 20);
        r.y0 = atOrigin ? 0 : (double)g.range(-20, 20);
        r.x1 = r.x0 + (double)g.range(1, 30); r.y1 = r.y0 + (double)g.range(1, 30);
        r.z = (double)g.range(-5, 5);
    } else {
        double u = std::pow(10.0, (double)g.range(-3, 2));
        r.x0 = atOrigin ? 0 : u * (4*g.unit() - 2);
        r.y0 = atOrigin ? 0 : u * (4*g.unit() - 2);
        r.x1 = r.x0 + u * (0.1 + g.unit()); r.y1 = r.y0 + u * (0.1 + g.unit());
        r.z = g.flip() ? 0 : u * (2*g.unit() - 1);
    }
    return r;
}

void tile(pbt::Gen& g, const Rect& r, Surface& s) {
    int nx = (int)g.range(1, 3), ny = (int)g.range(1, 3);
    bool tris = !r.integer && g.chance(1, 3);
    s.up = g.flip();
    std::vector<double> xs{r.x0}, ys{r.y0};
    auto split = [&](std::vector<double>& v, double hi, int n) {
        double lo = v[0];
        for (int i = 1; i < n; i++) {
            double x = lo + (hi - lo) * i / n;
            if (r.integer) x = std::floor(x);
            if (x > v.back() && x < hi) v.push_back(x);
        }
        v.push_back(hi);
    };
    split(xs, r.x1, nx); split(ys, r.y1, ny);
    int id = 0;
    std::vector<std::vector<int>> cells;
    for (size_t i = 0; i + 1 < xs.size(); i++)
        for (size_t j = 0; j + 1 < ys.size(); j++) cells.push_back(std::vector<int>{(int)i, (int)j});
    g.shuffle(cells);
    for (auto& c : cells) {
        V3 p[4] = {V3(xs[c[0]], ys[c[1]], r.z), V3(xs[c[0]+1], ys[c[1]], r.z),
                   V3(xs[c[0]+1], ys[c[1]+1], r.z), V3(xs[c[0]], ys[c[1]+1], r.z)};
        if (!s.up) std::swap(p[1], p[3]);
        if (tris) { s.tri(++id, p[0], p[1], p[2]); s.tri(++id, p[0], p[2], p[3]); }
        else s.quad(++id, p[0], p[1], p[2], p[3], r.integer);
    }
    g.label(tris ? "triangles" : r.integer ? "integer quads" : "real quads");
}

typedef std::function<V3(const V3&)> Field;

double tol(const Rect& r) { // rounding of positions, relative to the size
    double far = std::max(std::max(std::abs(r.x0), std::abs(r.x1)),
                          std::max(std::abs(r.y0), std::abs(r.y1)));
    return 1e-14 * (1 + far / std::min(r.x1 - r.x0, r.y1 - r.y0));
}

void checkGeometry(const WG& w, const Rect& r, const Surface& s, const std::string& when) {
    double t = tol(r);
    CHECK_NEAR(w.getWidth(), r.x1 - r.x0, 100*t, 0, when + ": width");
    CHECK_NEAR(w.getHeight(), r.y1 - r.y0, 100*t, 0, when + ": height");
    V3 o = w.getOrigin();
    CHECK_NEAR(o(0), r.x0, 1e-13, 0, when + ": origin x");
    CHECK_NEAR(o(1), r.y0, 1e-13, 0, when + ": origin y");
    CHECK_NEAR(o(2), r.z, 1e-13, 0, when + ": origin z");
    V3 n = w.getNormal();
    CHECK_NEAR(n(0), 0.0, 0, 1e-9, when + ": normal x");
    CHECK_NEAR(n(1), 0.0, 0, 1e-9, when + ": normal y");
    CHECK_NEAR(n(2), s.up ? 1.0 : -1.0, 1e-9, 0, when + ": normal z");
    CHECK_EQ(w.size(), s.group.size(), when + ": number of elements");
}

// the profile of mode (m, n) on rectangle r
void checkMode(pbt::Gen& g, const Field& E, const Rect& r, bool te, Mode md,
               const std::string& when) {
    double a = r.x1 - r.x0, b = r.y1 - r.y0;
    double km = PI * md.first / a, kn = PI * md.second / b, k = std::max(km, kn);
    double t = 1e3 * tol(r) * (1 + md.first + md.second);
    auto at = [&](double x, double y) { return E(V3(r.x0 + x, r.y0 + y, r.z)); };
    // amplitude: the largest component found on a fine set of points
    double amp = 0, ax = 0, ay = 0;
    for (int i = 0; i <= 24; i++)
        for (int j = 0; j <= 24; j++) {
            V3 e = at(a * i / 24.0, b * j / 24.0);
            CHECK(std::isfinite(e(0)) && std::isfinite(e(1)) && std::isfinite(e(2)),
                  when + ": field is not finite");
            ax = std::max(ax, std::abs(e(0))); ay = std::max(ay, std::abs(e(1)));
            CHECK_NEAR(e(2), 0.0, 0, 1e-12, when + ": the profile of a port is transverse");
        }
    amp = std::max(ax, ay);
    bool exists = te || (md.first > 0 && md.second > 0);
    if (!exists) return;
    CHECK(amp > 1e-3, when + ": the mode has no field");
    for (int s = 0; s < 6; s++) {
        double u = s == 0 ? 0.5 : g.unit(), v = s == 1 ? 0.5 : g.unit();
        double x = a * u, y = b * v;
        V3 e = at(x, y);
        // walls
        V3 w0 = at(x, 0), w1 = at(x, b), w2 = at(0, y), w3 = at(a, y);
        CHECK_NEAR(w0(0), 0.0, 0, t * amp, when + ": tangential field at the lower wall");
        CHECK_NEAR(w1(0), 0.0, 0, t * amp, when + ": tangential field at the upper wall");
        CHECK_NEAR(w2(1), 0.0, 0, t * amp, when + ": tangential field at the left wall");
        CHECK_NEAR(w3(1), 0.0, 0, t * amp, when + ": tangential field at the right wall");
        // symmetry about the mid-planes
        double sm = md.first % 2 ? -1 : 1, sn = md.second % 2 ? -1 : 1;
        V3 mx = at(a - x, y), my = at(x, b - y);
        CHECK_NEAR(mx(0), sm * e(0), 0, t * amp, when + ": Ex mirrored in x");
        CHECK_NEAR(mx(1), -sm * e(1), 0, t * amp, when + ": Ey mirrored in x");
        CHECK_NEAR(my(0), -sn * e(0), 0, t * amp, when + ": Ex mirrored in y");
        CHECK_NEAR(my(1), sn * e(1), 0, t * amp, when + ": Ey mirrored in y");
        // derivatives by central differences, away from the walls
        double h = 2e-3 / k;
        x = a * (0.02 + 0.96 * u); y = b * (0.02 + 0.96 * v);
        h = std::min(h, 0.01 * std::min(a, b));
        V3 c = at(x, y), xp = at(x + h, y), xm = at(x - h, y), yp = at(x, y + h), ym = at(x, y - h);
        double div = (xp(0) - xm(0) + yp(1) - ym(1)) / (2 * h);
        double curl = (xp(1) - xm(1) - yp(0) + ym(0)) / (2 * h);
        double eps = (1e-4 + 10 * tol(r) / (h * k)) * k * amp;
        if (te) CHECK_NEAR(div, 0.0, 0, eps, when + ": divergence of a TE mode");
        else CHECK_NEAR(curl, 0.0, 0, eps, when + ": curl of a TM mode");
        // Helmholtz: laplacian = - (km^2 + kn^2) E; wide steps, compensated
        double H = std::min(0.02 / k, 0.015 * std::min(a, b));
        V3 XP = at(x + H, y), XM = at(x - H, y), YP = at(x, y + H), YM = at(x, y - H);
        for (int d = 0; d < 2; d++) {
            double lap = (XP(d) + XM(d) + YP(d) + YM(d) - 4 * c(d)) / (H * H);
            CHECK_NEAR(lap, -(km*km + kn*kn) * c(d), 0,
                       (1e-3 + 50 * tol(r) / (H*k*H*k)) * k * k * amp,
                       when + ": Helmholtz equation, component " + std::to_string(d));
        }
    }
}

Mode genMode(pbt::Gen& g) {
    Mode m;
    do { m = Mode((size_t)g.range(0, 5), (size_t)g.range(0, 5)); }
    while (m.first == 0 && m.second == 0 && (g.draw(2), true) && (m.first = 1, false));
    return m;
}

} // namespace

PROP(waveguide_modes, 2000, 80000, "both mode numbers non-zero") {
    Rect r = genRect(g, g.chance(1, 4));
    Surface s; tile(g, r, s);
    bool te = g.flip();
    Mode m = genMode(g);
    g << (te ? "TE" : "TM") << m.first << m.second << " on " << str(r) << "\n";
    g.label(te ? "TE" : "TM");
    g.nontrivial(m.first > 0 && m.second > 0);
    WG w(mag(), s.group, te ? WG::TE : WG::TM, m);
    CHECK(w.getExcitationMode() == (te ? WG::TE : WG::TM), "excitation mode");
    CHECK(w.getMode() == m, "mode numbers");
    checkGeometry(w, r, s, "port");
    checkMode(g, [&](const V3& p) { return w.getWeight(p); }, r, te, m, "port");
}

PROP(waveguide_copies, 1000, 30000, "elements replaced") {
    Rect r = genRect(g, false);
    Surface s; tile(g, r, s);
    bool te = g.flip();
    Mode m = genMode(g);
    g << (te ? "TE" : "TM") << m.first << m.second << " on " << str(r) << "\n";
    std::unique_ptr<WG> w(new WG(mag(), s.group, te ? WG::TE : WG::TM, m));
    std::unique_ptr<WG> c(g.flip() ? new WG(*w) : w->clone());
    w.reset();
    checkGeometry(*c, r, s, "copy");
    CHECK(c->getExcitationMode() == (te ? WG::TE : WG::TM), "excitation mode of the copy");
    CHECK(c->getMode() == m, "mode numbers of the copy");
    checkMode(g, [&](const V3& p) { return c->getWeight(p); }, r, te, m, "copy");
    if (g.flip()) {
        g.nontrivial();
        Rect q = genRect(g, false);
        Surface u; tile(g, q, u);
        g << "moved to " << str(q) << "\n";
        SG::Element::Group<const SG::Elem> e;
        e = u.group;
        c->set(e);
        checkGeometry(*c, q, u, "port moved to other elements");
        checkMode(g, [&](const V3& p) { return c->getWeight(p); }, q, te, m, "moved port");
    }
}

PROP(waveguide_rejected, 500, 10000, "the elements are not in one xy plane") {
    Mode m = genMode(g);
    int k = (int)g.range(0, 3);
    Rect r = genRect(g, false); r.integer = false;
    Surface s;
    if (k == 0) { // no elements
        g.label("no elements");
        CHECK_THROWS(WG(mag(), s.group, WG::TE, m), "a port without elements");
    } else if (k == 1) { // no mode
        g.label("mode 0,0");
        tile(g, r, s);
        CHECK_THROWS(WG(mag(), s.group, g.flip() ? WG::TE : WG::TM, Mode(0, 0)), "mode 0,0");
    } else {
        g.nontrivial();
        double z2 = r.z + (r.x1 - r.x0) * (0.05 + g.unit());
        if (k == 2) { // a plane orthogonal to x or y
            g.label("another plane");
            if (g.flip()) s.quad(1, V3(r.x0, r.y0, r.z), V3(r.x1, r.y0, r.z),
                                 V3(r.x1, r.y0, z2), V3(r.x0, r.y0, z2), false);
            else s.quad(1, V3(r.x0, r.y0, r.z), V3(r.x0, r.y1, r.z),
                        V3(r.x0, r.y1, z2), V3(r.x0, r.y0, z2), false);
        } else {
            g.label("not coplanar");
            s.quad(1, V3(r.x0, r.y0, r.z), V3(r.x1, r.y0, r.z),
                   V3(r.x1, r.y1, r.z), V3(r.x0, r.y1, r.z), false);
            s.quad(2, V3(r.x0, r.y0, z2), V3(r.x1, r.y0, z2),
                   V3(r.x1, r.y1, z2), V3(r.x0, r.y1, z2), false);
        }
        CHECK_THROWS(WG(mag(), s.group, WG::TE, m), "elements that are not in an xy plane");
    }
}

namespace {

double dotp(const V3& a, const V3& b) { return a(0)*b(0) + a(1)*b(1) + a(2)*b(2); }

// integral of the field along the straight segment p-q
double lineIntegral(const Field& F, const V3& p, const V3& q) {
    // 5 point Gauss-Legendre on 40 pieces
    static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831,
                                0.9061798459386640, -0.9061798459386640};
    static const double w[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665,
                                0.2369268850561891, 0.2369268850561891};
    const int n = 40;
    double res = 0;
    V3 d = (q - p);
    for (int i = 0; i < n; i++)
        for (int k = 0; k < 5; k++) {
            double t = (i + 0.5 + 0.5 * x[k]) / n;
            res += 0.5 * w[k] / n * dotp(F(p + d * t), d);
        }
    return res;
}

struct CoaxCase { Rect r; V3 o; double ri, ro; bool volt; };

CoaxCase genCoax(pbt::Gen& g) {
    CoaxCase c;
    c.r = genRect(g, g.chance(1, 5));
    double R = std::min(c.r.x1 - c.r.x0, c.r.y1 - c.r.y0) / 2;
    c.o = V3((c.r.x0 + c.r.x1) / 2, (c.r.y0 + c.r.y1) / 2, c.r.z);
    if (g.chance(1, 3)) { // off centre
        g.label("axis off centre");
        c.o = c.o + V3(R * 0.3 * (2*g.unit()-1), R * 0.3 * (2*g.unit()-1), 0);
        R *= 0.65;
    }
    c.ro = R * (0.5 + 0.5 * g.unit());
    c.ri = c.ro * (0.05 + 0.85 * g.unit());
    c.volt = g.flip();
    g << (c.volt ? "voltage" : "current") << " coaxial port on " << str(c.r) << " axis at "
      << c.o(0) << ", " << c.o(1) << " radii " << c.ri << " " << c.ro << "\n";
    g.label(c.volt ? "voltage" : "current");
    return c;
}

void checkCoax(pbt::Gen& g, const Field& F, const V3& o, double ri, double ro, bool volt,
               const std::string& when) {
    double far = std::sqrt(dotp(o, o)) / ri;
    double t = 1e-12 * (1 + far);
    double base = 0;
    for (int i = 0; i < 6; i++) {
        double ph = i == 0 ? PI / 2 * (double)g.range(0, 3) : 2 * PI * g.unit();
        double rho = i == 1 ? ri : i == 2 ? ro : ri + (ro - ri) * g.unit();
        V3 u(std::cos(ph), std::sin(ph), 0.0), v(-std::sin(ph), std::cos(ph), 0.0);
        V3 e = F(o + u * rho);
        double er = dotp(e, u), ep = dotp(e, v), n = std::abs(er) + std::abs(ep);
        CHECK_NEAR(e(2), 0.0, 0, t * n, when + ": field along the axis");
        if (volt) CHECK_NEAR(ep, 0.0, 0, t * n, when + ": voltage profile not radial");
        else CHECK_NEAR(er, 0.0, 0, t * n, when + ": current profile not azimuthal");
        double x = (volt ? er : ep) * rho;
        if (i == 0) base = x;
        CHECK_NEAR(x, base, 10 * t, 0, when + ": does not fall off as one over the distance");
    }
    if (volt) {
        // one volt along any path between the conductors: radial, then a
        // path with a corner at another angle
        double a = 2 * PI * g.unit(), b = a + 0.8 * (2 * g.unit() - 1);
        V3 ua(std::cos(a), std::sin(a), 0.0), ub(std::cos(b), std::sin(b), 0.0);
        CHECK_NEAR(lineIntegral(F, o + ua * ri, o + ua * ro), 1.0, 1e-6 + 10*t, 0,
                   when + ": volts between the conductors");
        double mid = ri + (ro - ri) * (0.3 + 0.5 * g.unit());
        CHECK_NEAR(lineIntegral(F, o + ua * ri, o + ub * mid) +
                   lineIntegral(F, o + ub * mid, o + ub * ro), 1.0, 1e-4 + 10*t, 0,
                   when + ": volts along a bent path");
    } else {
        // one ampere through any loop around the axis
        double a = 2 * PI * g.unit();
        int n = (int)g.range(3, 7);
        V3 c = o + V3(std::cos(a), std::sin(a), 0.0) * (0.2 * ro * g.unit());
        double sum = 0;
        std::vector<V3> p;
        for (int i = 0; i < n; i++) {
            double ph = a + 2 * PI * i / n;
            p.push_back(c + V3(std::cos(ph), std::sin(ph), 0.0) * ro);
        }
        for (int i = 0; i < n; i++) sum += lineIntegral(F, p[i], p[(i + 1) % n]);
        CHECK_NEAR(sum, 1.0, 1e-4 + 10*t, 0, when + ": amperes around the axis");
        // and none through a loop beside it
        V3 b = o + V3(std::cos(a), std::sin(a), 0.0) * (0.75 * ro);
        sum = 0;
        for (int i = 0; i < n; i++) {
            double ph = 2 * PI * i / n, ph2 = 2 * PI * (i + 1) / n;
            sum += lineIntegral(F, b + V3(std::cos(ph), std::sin(ph), 0.0) * (0.2 * ro),
                                b + V3(std::cos(ph2), std::sin(ph2), 0.0) * (0.2 * ro));
        }
        CHECK_NEAR(sum, 0.0, 0, 1e-4 + 10*t, when + ": amperes through a loop beside the axis");
    }
}

} // namespace

PROP(coaxial, 2000, 80000, "axis not at the origin") {
    CoaxCase c = genCoax(g);
    Surface s; tile(g, c.r, s);
    g.nontrivial(c.o(0) != 0 || c.o(1) != 0);
    std::unique_ptr<Coax> w(new Coax(mag(), s.group, c.volt ? Coax::voltage : Coax::current,
                                     c.o, c.ri, c.ro));
    auto F = [&](const V3& p) { return w->getWeight(p); };
    CHECK(w->getOrigin() == c.o, "origin");
    CHECK(w->getExcitationMode() == (c.volt ? Coax::voltage : Coax::current), "mode");
    checkCoax(g, F, c.o, c.ri, c.ro, c.volt, "port");
    V3 n = w->getNormal();
    CHECK_NEAR(n(2), s.up ? 1.0 : -1.0, 1e-9, 0, "normal");
    std::unique_ptr<Coax> k(g.flip() ? new Coax(*w) : w->clone());
    w.swap(k); k.reset();
    CHECK_EQ(w->size(), s.group.size(), "elements of the copy");
    CHECK(w->getOrigin() == c.o, "origin of the copy");
    CHECK(w->getExcitationMode() == (c.volt ? Coax::voltage : Coax::current), "mode of the copy");
    checkCoax(g, F, c.o, c.ri, c.ro, c.volt, "copy");
}

// moving the port to other elements moves and scales its axis and conductors
// with them; moving it to the same elements changes nothing
PROP(coaxial_moved, 1500, 60000, "moved to elements of another size") {
    CoaxCase c = genCoax(g);
    Surface s; tile(g, c.r, s);
    Coax w(mag(), s.group, c.volt ? Coax::voltage : Coax::current, c.o, c.ri, c.ro);
    auto F = [&](const V3& p) { return w.getWeight(p); };
    int times = (int)g.range(1, 3);
    Rect cur = c.r; V3 o = c.o; double ri = c.ri, ro = c.ro;
    std::vector<std::unique_ptr<Surface>> keep;
    for (int i = 0; i < times; i++) {
        Rect q = cur;
        double f = 1;
        V3 d(0.0, 0.0, 0.0);
        int k = (int)g.range(0, 2);
        if (k > 0) {
            f = k == 1 ? 1.0 : std::pow(10.0, (double)g.range(-3, 3)) * (0.5 + g.unit());
            d = V3((cur.x1 - cur.x0) * (2*g.unit() - 1), (cur.x1 - cur.x0) * (2*g.unit() - 1), 0.0);
            q.integer = false;
            q.x0 = f * cur.x0 + d(0); q.x1 = f * cur.x1 + d(0);
            q.y0 = f * cur.y0 + d(1); q.y1 = f * cur.y1 + d(1); q.z = f * cur.z;
            if (f != 1) g.nontrivial();
        }
        if (tol(q) > 1e-11) { g.discard(); return; }
        g << "moved to " << str(q) << "\n";
        keep.emplace_back(new Surface); tile(g, q, *keep.back());
        SG::Element::Group<const SG::Elem> e; e = keep.back()->group;
        w.set(e);
        o = o * f + d; ri *= f; ro *= f;
        cur = q;
        CHECK_EQ(w.size(), e.size(), "elements after the move");
        V3 got = w.getOrigin();
        for (int x = 0; x < 3; x++)
            CHECK_NEAR(got(x), o(x), 1e-9, 1e-9 * ro, "axis after the move");
        // the conductors scale too: one volt between them
        checkCoax(g, F, got, ri, ro, c.volt, "moved port");
    }
}
