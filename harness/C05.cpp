// C05: local frames and spherical angles are rigid, invertible changes of frame.
#include "pbt.h"
#include "math/axis/Local.h"
#include "math/vector/Spherical.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using pbt::Gen;
static const double pi = 3.14159265358979323846;
static CVecR3 vec(Gen& g) { CVecR3 v; for (int i = 0; i < 3; i++) v(i) = g.chance(1, 3) ? g.simple() : g.real(-50, 50); return v; }
static double angle(Gen& g) { return g.chance(1, 2) ? (g.integer(-8, 8) + 0.0) * pi / g.oneOf<double>({2.0, 3.0, 4.0}) : g.real(-20, 20); }
static MatR33 rotZ(double a) { MatR33 m; m(0, 0) = m(1, 1) = std::cos(a); m(0, 1) = std::sin(a); m(1, 0) = -std::sin(a); m(2, 2) = 1; return m; }
static MatR33 rotX(double a) { MatR33 m; m(1, 1) = m(2, 2) = std::cos(a); m(1, 2) = std::sin(a); m(2, 1) = -std::sin(a); m(0, 0) = 1; return m; }
static MatR33 mul(const MatR33& a, const MatR33& b) { MatR33 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r(i, j) += a(i, k) * b(k, j); return r; }
static CVecR3 mul(const MatR33& a, const CVecR3& b) { CVecR3 r; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) r(i) += a(i, k) * b(k); return r; }
static MatR33 tr(const MatR33& a) { MatR33 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = a(j, i); return r; }
static bool near(const CVecR3& a, const CVecR3& b, double t) { return (a - b).norm() <= t; }
static bool near(const MatR33& a, const MatR33& b, double t) { for (int i = 0; i < 9; i++) if (!(std::fabs(a.val(i) - b.val(i)) <= t)) return false; return true; }

PROP(local_frame, 20000, 900000, "all three rotations and an origin") {
    CVecR3 e(angle(g), angle(g), angle(g)), o = g.chance(1, 4) ? CVecR3() : vec(g), a = vec(g), b = vec(g);
    int z = g.range(0, 8); if (z >= 1 && z <= 3) e(z - 1) = 0.0; if (z == 4) e = CVecR3();
    g << "angles " << e << " origin " << o << " " << a << b;
    g.nontrivial(e(0) != 0 && e(1) != 0 && e(2) != 0 && o.norm() > 0 && a.norm() > 0); g.label(z == 4, "no rotation");
    Axis::Local f(e, o); const double s = 1e-11 * (1 + a.norm() + b.norm() + o.norm());
    CHECK(near(f.getEulerAngles(), e, 0) && near(f.getOrigin(), o, 0), "reports its angles and origin");
    MatR33 t = f.getTransformationMatrix(), I; I.eye();
    CHECK(near(mul(t, tr(t)), I, 1e-12) && near(mul(tr(t), t), I, 1e-12), "orthonormal");
    CHECK_NEAR(t.getDeterminant3x3(), 1.0, 1e-12, 0, "a rotation, no reflection");
    CHECK(near(t, mul(rotZ(e(2)), mul(rotX(e(1)), rotZ(e(0)))), 1e-12), "z-x-z rotation by its angles");
    CVecR3 A = f.convertToGlobal(a), B = f.convertToGlobal(b), O = f.convertToGlobal(CVecR3());
    CHECK(near(O, o, s), "local null vector is the origin");
    CHECK_NEAR((A - B).norm(), (a - b).norm(), 1e-10, s, "distance");
    CHECK_NEAR((A - O).dot(B - O), a.dot(b), 1e-9, s * (1 + a.norm() + b.norm()), "angle");
    CHECK(near((A - O) ^ (B - O), f.convertToGlobal(a ^ b) - O, 1e-9 * (1 + a.norm() * b.norm()) + s * 10 * (1 + a.norm() + b.norm())), "orientation");
    CHECK(near(mul(tr(t), A - o), a, s), "back to the local vector");
    if (z == 4) CHECK(near(A, a + o, s), "plain translation");
    CHECK(near(f.convertToGlobal(a + b) - O, (A - O) + (B - O), s * 4), "linear");
    MatR33 m, n; for (int i = 0; i < 9; i++) { m.val(i) = g.real(-5, 5); n.val(i) = g.simple(); }
    MatR33 M = f.convertToGlobal(m), N = f.convertToGlobal(n);
    CHECK(near(mul(tr(t), mul(M, t)), m, 1e-10), "tensor back to the local frame");
    CHECK(near(M, mul(t, mul(m, tr(t))), 1e-10), "similar tensor");
    CHECK(near(f.convertToGlobal(mul(m, n)), mul(M, N), 1e-9), "product of tensors");
    CHECK(near(mul(M, A - O), f.convertToGlobal(mul(m, a)) - O, 1e-9 * (1 + a.norm() + o.norm())), "tensor times vector");
    CHECK_NEAR(M(0, 0) + M(1, 1) + M(2, 2), m(0, 0) + m(1, 1) + m(2, 2), 1e-10, 1e-10, "trace"); CHECK_NEAR(M.getDeterminant3x3(), m.getDeterminant3x3(), 1e-9, 1e-9, "determinant");
    if (z == 4) CHECK(near(M, m, 1e-12), "no rotation");
    Axis::Local h(e); CHECK(near(h.getOrigin(), CVecR3(), 0) && near(h.convertToGlobal(a), A - o, s), "default origin");
    Axis::Local i; CHECK(near(i.convertToGlobal(a), a, 0) && near(i.getTransformationMatrix(), I, 0), "default frame");
}
PROP(spherical, 20000, 900000, "not on an axis") {
    CVecR3 v = vec(g); int k = g.range(0, 5); if (k < 3) v(k) = 0.0; if (k == 3) { int d = g.range(0, 2); for (int i = 0; i < 3; i++) if (i != d) v(i) = 0; } v *= g.oneOf<double>({1.0, 1e-6, 1e6});
    if (v.norm() == 0) g.discard();
    g << v; g.nontrivial(v(0) != 0 && v(1) != 0 && v(2) != 0);
    Vector::Spherical s; CHECK(s.radius == 0 && s.theta == 0 && s.phi == 0, "default");
    auto& r = (s = v); CHECK(&r == &s, "returns itself");
    double n = std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2));
    CHECK_NEAR(s.radius, n, 1e-13, 0, "radius"); CHECK_EQ(s.norm(), s.radius, "norm");
    CHECK(s.theta >= 0 && s.theta <= pi && s.phi >= -pi && s.phi <= pi, "canonical ranges");
    CHECK_NEAR(std::cos(s.theta), v(2) / n, 1e-12, 1e-12, "polar angle");
    if (std::hypot(v(0), v(1)) > 0) { CHECK_NEAR(std::cos(s.phi), v(0) / std::hypot(v(0), v(1)), 1e-12, 1e-12, "azimuth"); CHECK_NEAR(std::sin(s.phi), v(1) / std::hypot(v(0), v(1)), 1e-12, 1e-12, "azimuth"); }
    CHECK(near(s.convertToCartesian(), v, 1e-7 * n), "back to the vector");
    double th = g.real(1e-3, pi - 1e-3), ph = g.real(-pi + 1e-6, pi - 1e-6);
    Vector::Spherical u(th, ph); CHECK(u.radius == 1 && u.theta == th && u.phi == ph && u.norm() == 1, "unit vector of two angles");
    CVecR3 c = u.convertToCartesian(); CHECK(near(c, CVecR3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)), 1e-14), "cartesian components");
    Vector::Spherical w; w = c; CHECK_NEAR(w.theta, th, 0, 1e-7, "polar angle again"); CHECK_NEAR(w.phi, ph, 0, 1e-7, "azimuth again");
    // Fields in the spherical basis: rigid, radial part along the vector, azimuthal part horizontal.
    double ar = g.real(-5, 5), at = g.real(-5, 5), ap = g.real(-5, 5); CVecR3 f = u.convertSphericalVectorField(ar, at, ap);
    CHECK_NEAR(f.norm(), std::sqrt(ar * ar + at * at + ap * ap), 1e-12, 1e-14, "length of the field");
    CHECK_NEAR(f.dot(c), ar, 1e-11, 1e-11, "radial component"); CVecR3 er = u.convertSphericalVectorField(1, 0, 0), et = u.convertSphericalVectorField(0, 1, 0), ep = u.convertSphericalVectorField(0, 0, 1);
    CHECK(near(er, c, 1e-14), "radial direction"); CHECK(near(er ^ et, ep, 1e-13), "right handed"); CHECK(near(ep, CVecR3(-std::sin(ph), std::cos(ph), 0), 1e-14), "azimuthal direction"); CHECK(near(et, CVecR3(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), 1e-14), "polar direction");
    CHECK(near(f, er * ar + et * at + ep * ap, 1e-12), "linear in the components");
}
