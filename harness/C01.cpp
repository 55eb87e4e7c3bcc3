// C01: vector arithmetic obeys the vector-space and Euclidean laws.
#include "pbt.h"
#include "math/vector/Cartesian.h"
#include "math/util/Real.h"
#include <algorithm>
#include <complex>
using namespace SEMBA;
using namespace SEMBA::Math;
using pbt::Gen;
typedef std::complex<double> Cx;

template <class T> struct El;
template <> struct El<double> {
    static double gen(Gen& g) { return g.chance(1, 3) ? g.simple() : g.coord(); }
    static double nz(Gen& g) { double v = gen(g); return std::fabs(v) < 1e-3 ? 0.5 : v; }
};
template <> struct El<int> {
    static int gen(Gen& g) { return g.integer(-1000, 1000); }
    static int nz(Gen& g) { int v = gen(g); return v ? v : 3; }
};
template <> struct El<Cx> {
    static Cx gen(Gen& g) { double a = El<double>::gen(g); return Cx(a, g.chance(1, 4) ? 0.0 : El<double>::gen(g)); }
    static Cx nz(Gen& g) { Cx v = gen(g); return std::abs(v) < 1e-3 ? Cx(0.5, -1) : v; }
};
static bool same(double a, double b) { return pbt::near(a, b, 1e-14, 1e-300); }
static bool same(int a, int b) { return a == b; }
static bool same(Cx a, Cx b) { return std::abs(a - b) <= 1e-14 * std::max(std::abs(a), std::abs(b)); }

template <class T, std::size_t D> using V = Vector::Cartesian<T, D>;
template <class T, std::size_t D> V<T, D> gen(Gen& g) {
    V<T, D> r; for (std::size_t i = 0; i < D; i++) r(i) = El<T>::gen(g); return r;
}
template <class T, std::size_t D, class F> void is(const V<T, D>& v, F f, const char* what) {
    for (std::size_t i = 0; i < D; i++)
        CHECK(same(v.val[i], (T)f(i)), what << ": component " << i << " is " << v.val[i] << ", expected " << (T)f(i));
}

template <class T, std::size_t D> void componentwise(Gen& g) {
    typedef V<T, D> W;
    const W a = gen<T, D>(g), b = g.chance(1, 10) ? a : gen<T, D>(g);
    const T s = El<T>::gen(g), q = El<T>::nz(g);
    g << "a=" << a << " b=" << b << " s=" << s << " q=" << q;
    int nz = 0; for (std::size_t i = 0; i < D; i++) nz += (a.val[i] != T(0)) && (b.val[i] != T(0)) && a.val[i] != b.val[i];
    g.nontrivial(nz >= 2 && s != T(0));
    T av[D], bv[D]; for (std::size_t i = 0; i < D; i++) { av[i] = a.val[i]; bv[i] = b.val[i]; }
    auto kept = [&]() {
        is(a, [&](std::size_t i) { return av[i]; }, "the operation changed its left operand");
        is(b, [&](std::size_t i) { return bv[i]; }, "the operation changed its right operand");
    };
    is(a + b, [&](std::size_t i) { return av[i] + bv[i]; }, "a+b");
    is(a - b, [&](std::size_t i) { return av[i] - bv[i]; }, "a-b");
    is(a * b, [&](std::size_t i) { return av[i] * bv[i]; }, "a*b");
    is(a + s, [&](std::size_t i) { return av[i] + s; }, "a+s");
    is(a - s, [&](std::size_t i) { return av[i] - s; }, "a-s");
    is(s - a, [&](std::size_t i) { return s - av[i]; }, "s-a");
    is(a * s, [&](std::size_t i) { return av[i] * s; }, "a*s");
    is(a / q, [&](std::size_t i) { return av[i] / q; }, "a/q");
    is(W(a, b), [&](std::size_t i) { return bv[i] - av[i]; }, "vector from a to b");
    is(-a, [&](std::size_t i) { return T(0) - av[i]; }, "-a");
    kept();
    W m(a);
    is(-m, [&](std::size_t i) { return T(0) - av[i]; }, "-m");
    is(m, [&](std::size_t i) { return av[i]; }, "unary minus changed its operand");
    { W c(a); W& r = (c += b); CHECK(&r == &c, "returns itself"); is(c, [&](std::size_t i) { return av[i] + bv[i]; }, "a+=b"); }
    { W c(a); c -= b; is(c, [&](std::size_t i) { return av[i] - bv[i]; }, "a-=b"); }
    { W c(a); c *= b; is(c, [&](std::size_t i) { return av[i] * bv[i]; }, "a*=b"); }
    { W c(a); c += s; is(c, [&](std::size_t i) { return av[i] + s; }, "a+=s"); }
    { W c(a); c -= s; is(c, [&](std::size_t i) { return av[i] - s; }, "a-=s"); }
    { W c(a); c *= s; is(c, [&](std::size_t i) { return av[i] * s; }, "a*=s"); }
    { W c(a); c /= q; is(c, [&](std::size_t i) { return av[i] / q; }, "a/=q"); }
    { W c(a); c += c; is(c, [&](std::size_t i) { return av[i] + av[i]; }, "a+=a"); }
    { W c(a); c -= c; is(c, [&](std::size_t i) { return T(0); }, "a-=a"); }
    { W c(a); c = b; is(c, [&](std::size_t i) { return bv[i]; }, "assignment"); c(0) = q; }
    { W c(a); c = s; is(c, [&](std::size_t i) { return s; }, "assignment of a scalar"); }
    { W c(s); is(c, [&](std::size_t i) { return s; }, "from a scalar"); }
    { W c(av); is(c, [&](std::size_t i) { return av[i]; }, "from an array"); }
    { const T* p = av; W c(p); is(c, [&](std::size_t i) { return av[i]; }, "from a constant array"); }
    { W c; is(c, [&](std::size_t i) { return T(0); }, "default"); }
    kept();
    T dot = T(); double n2 = 0, scale = 0;
    for (std::size_t i = 0; i < D; i++) {
        dot += av[i] * bv[i]; n2 += std::norm(std::complex<double>(av[i]));
        scale += std::abs(av[i]) * (double)std::abs(bv[i]);
    }
    CHECK(std::abs(a.dot(b) - dot) <= 1e-13 * scale, "dot product " << a.dot(b) << ", expected " << dot);
    CHECK(a.dot(b) == b.dot(a), "dot product is symmetric");
    CHECK_NEAR(a.norm(), std::sqrt(n2), 1e-13, 1e-300, "norm");
    CHECK((a + b).norm() <= (a.norm() + b.norm()) * (1 + 1e-12), "triangle inequality");
    kept();
    W c(a); for (std::size_t i = 0; i < D; i++) { c[i] = c(i) + q; CHECK(same(c.val[i], av[i] + q), "element access"); }
    std::size_t n = (std::size_t)g.draw(2 * D + 1);
    W cp(a); cp.cyclicPermutation(n);
    for (std::size_t i = 0; i < D; i++) CHECK(cp.val[(i + n) % D] == av[i], "cyclic permutation by " << n);
    CHECK(a == a && !(a != a), "equal to itself");
    CHECK((a == b) == (b == a) && (a == b) != (a != b), "equality and inequality");
}
PROP(real2, 8000, 300000, "two unequal nonzero components") { componentwise<double, 2>(g); }
PROP(real3, 16000, 600000, "two unequal nonzero components") { componentwise<double, 3>(g); }
PROP(real4, 8000, 300000, "two unequal nonzero components") { componentwise<double, 4>(g); }
PROP(int2, 6000, 200000, "two unequal nonzero components") { componentwise<int, 2>(g); }
PROP(int3, 12000, 400000, "two unequal nonzero components") { componentwise<int, 3>(g); }
PROP(complex3, 12000, 400000, "two unequal nonzero components") { componentwise<Cx, 3>(g); }

// A vector in general, axis or plane position.
static CVecR3 gen3(Gen& g) {
    CVecR3 v = gen<double, 3>(g);
    int k = g.range(0, 4);
    if (k == 1) v((std::size_t)g.range(0, 2)) = 0.0;
    if (k == 2) { int d = g.range(0, 2); for (int i = 0; i < 3; i++) if (i != d) v(i) = 0.0; }
    return v;
}

PROP(euclidean, 20000, 800000, "vectors that are neither parallel nor orthogonal") {
    const CVecR3 a = gen3(g), b = g.chance(1, 8) ? a * El<double>::gen(g) : gen3(g), c = gen3(g);
    g << a << " " << b << " " << c;
    const CVecR3 x = a ^ b;
    const double na = a.norm(), nb = b.norm(), nc = c.norm(), e = 1e-12;
    g.nontrivial(x.norm() > 1e-3 * na * nb && std::fabs(a.dot(b)) > 1e-3 * na * nb);
    for (int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        CHECK_NEAR(x(i), a(j) * b(k) - a(k) * b(j), 0, 1e-13 * na * nb, "cross product component " << i);
    }
    CHECK_NEAR((b ^ a)(0), -x(0), 0, e * na * nb, "antisymmetric");
    CHECK_NEAR(x.dot(a), 0.0, 0, e * na * na * nb, "orthogonal to the first");
    CHECK_NEAR(x.dot(b), 0.0, 0, e * na * nb * nb, "orthogonal to the second");
    CHECK_NEAR(x.norm() * x.norm() + a.dot(b) * a.dot(b), na * na * nb * nb, 1e-11, 1e-300, "Lagrange identity");
    CHECK_NEAR((a ^ b).dot(c), (b ^ c).dot(a), 0, e * na * nb * nc, "triple product");
    CHECK_NEAR((a + b).dot(c), a.dot(c) + b.dot(c), 0, e * (na + nb) * nc, "dot is additive");
    CHECK_NEAR(a.dot(a), na * na, 1e-13, 1e-300, "a.a is the squared norm");
    CHECK(na >= 0 && (na == 0) == (a(0) == 0 && a(1) == 0 && a(2) == 0), "norm is zero only for the null vector");
    if (na > 1e-6) {
        CVecR3 u(a); CVecR3& r = u.normalize();
        CHECK(&r == &u, "normalises in place");
        CHECK_NEAR(u.norm(), 1.0, 1e-13, 0, "unit vector");
        for (int i = 0; i < 3; i++) CHECK_NEAR(u(i) * na, a(i), 1e-13, 1e-300, "same direction");
    }
    if (nc > 1e-6 && na > 1e-6 && nb > 1e-6) {      // a rotation about c keeps lengths and angles
        CVecR3 u(c); u.normalize(); double t = g.real(-7, 7);
        auto rot = [&](const CVecR3& v) { return v * std::cos(t) + (u ^ v) * std::sin(t) + u * (u.dot(v) * (1 - std::cos(t))); };
        CHECK_NEAR(rot(a).norm(), na, 1e-12, 0, "rotation keeps the length");
        CHECK_NEAR(rot(a).dot(rot(b)), a.dot(b), 0, 1e-11 * na * nb, "rotation keeps the angle");
        CVecR3 l = rot(a) ^ rot(b), m = rot(x);
        CHECK_NEAR((l - m).norm(), 0, 0, 1e-11 * na * nb, "rotation of the cross product");
    }
}

PROP(selection, 12000, 400000, "three distinct components of both signs") {
    CVecR3 a = gen3(g), b = gen3(g);
    g << a << " " << b;
    g.nontrivial(a(0) != a(1) && a(1) != a(2) && a(0) != a(2) && (a(0) < 0 || a(1) < 0 || a(2) < 0) && (a(0) > 0 || a(1) > 0 || a(2) > 0));
    CHECK_EQ(a.getMax(), std::max(a(0), std::max(a(1), a(2))), "largest component");
    CVecR3 m(a); m.setWithMinimalComponents(b);
    for (int i = 0; i < 3; i++) CHECK_EQ(m(i), std::min(a(i), b(i)), "minimum of component " << i);
    CVecR3 p(a); p.abs();
    for (int i = 0; i < 3; i++) CHECK_EQ(p(i), std::fabs(a(i)), "absolute value");
    CVecI3 ia = gen<int, 3>(g), ib = gen<int, 3>(g);
    CHECK_EQ(ia.getMax(), std::max(ia(0), std::max(ia(1), ia(2))), "largest component");
    CVecI3 im(ia); im.setWithMinimalComponents(ib);
    for (int i = 0; i < 3; i++) CHECK_EQ(im(i), std::min(ia(i), ib(i)), "minimum of component " << i);
    { CVecI3 ax(0, 0, 0), un(0, 0, 0); int d = g.range(0, 2), l = g.range(-1000, 1000); ax(d) = l; un(d) = l > 0 ? 1 : l < 0 ? -1 : 0; CVecI3& r = ax.normalize(); CHECK(&r == &ax, "normalises in place"); CHECK(ax(0) == un(0) && ax(1) == un(1) && ax(2) == un(2), "a vector of integers along an axis, of length " << l << ", is normalised to " << ax.toStr()); }
    CVecI3 ip(ia); ip.abs();
    for (int i = 0; i < 3; i++) CHECK_EQ(ip(i), std::abs(ia(i)), "absolute value");
    CVecR3 pi(a), mi(a); pi.setPlusInfty(); mi.setMinusInfty();
    CVecI3 ipi(ia), imi(ia); ipi.setPlusInfty(); imi.setMinusInfty();
    for (int i = 0; i < 3; i++) {
        CHECK(pi(i) > 1e300 && mi(i) < -1e300, "infinities bound every real");
        CHECK(ipi(i) == std::numeric_limits<int>::max() && imi(i) == std::numeric_limits<int>::min(), "extremes bound every integer");
    }
    std::size_t n = (std::size_t)g.draw(8);
    CVecI3 bin; bin.setAsBinary(n);
    CHECK_EQ(bin(0) * 4 + bin(1) * 2 + bin(2), (int)n, "binary digits, most significant first");
    for (int i = 0; i < 3; i++) CHECK(bin(i) == 0 || bin(i) == 1, "digit");
    CVecR4 b4; std::size_t n4 = (std::size_t)g.draw(16); b4.setAsBinary(n4);
    CHECK_EQ(b4(0) * 8 + b4(1) * 4 + b4(2) * 2 + b4(3), (double)n4, "binary digits of four");
}

PROP(mixed, 12000, 400000, "nonzero components") {
    CVecI3 i = gen<int, 3>(g); CVecR3 r = gen3(g); double q = El<double>::nz(g);
    g << i << " " << r << " " << q;
    g.nontrivial(i(0) != 0 && r(0) != 0);
    CVecR3 s = i + r, d = i / q, c(i);
    CVecI3 t(r); CVecC3 z(r); CVecR3 k; k = i; CVecI3 j; j = r;
    for (int n = 0; n < 3; n++) {
        CHECK(same(s(n), i(n) + r(n)), "integer plus real");
        CHECK(same(d(n), i(n) / q), "integer over real");
        CHECK(same(c(n), (double)i(n)) && same(k(n), (double)i(n)), "integer to real");
        CHECK_EQ(t(n), (int)r(n), "real to integer truncates"); CHECK_EQ(j(n), (int)r(n), "real to integer truncates");
        CHECK(z(n) == Cx(r(n), 0), "real to complex");
    }
    CVecR3 f; for (int n = 0; n < 3; n++) f(n) = g.integer(-50, 50) + g.oneOf<double>({0.0, 0.25, 0.75, 0.4999, 0.5001, 0.999, 1e-3});
    CVecR3 o = Util::round(f);
    for (int n = 0; n < 3; n++) CHECK_EQ(o(n), std::floor(f(n) + 0.5), "nearest integer of " << f(n));
    CVecR3 x(r(0), r(1), r(2)); CHECK(x(0) == r(0) && x(1) == r(1) && x(2) == r(2), "from three components");
}

// Values on a lattice: any two differ by nothing, by rounding or clearly.
static double lattice(Gen& g) { return g.integer(-6, 6) * g.oneOf<double>({1.0, 1.0, 0.125, 37.5, 1e-3}); }
PROP(order, 24000, 900000, "first components equal, another different") {
    CVecR3 v[3];
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) v[k](i) = (k > 0 && g.chance(1, 2)) ? v[k - 1](i) : lattice(g);
    bool bump = g.chance(1, 6);
    g << v[0] << v[1] << v[2];
    const CVecR3 &a = v[0], &b = v[1], &c = v[2];
    g.nontrivial(a(0) == b(0) && (a(1) != b(1) || a(2) != b(2)));
    auto lex = [](const CVecR3& p, const CVecR3& q) { return std::lexicographical_compare(p.val, p.val + 3, q.val, q.val + 3); };
    auto eq = [](const CVecR3& p, const CVecR3& q) { return p(0) == q(0) && p(1) == q(1) && p(2) == q(2); };
    CHECK_EQ(a == b, eq(a, b), "equality of separated vectors");
    CHECK_EQ(a != b, !eq(a, b), "inequality of separated vectors");
    CHECK_EQ(a < b, lex(a, b), "a<b"); CHECK_EQ(a > b, lex(b, a), "a>b");
    CHECK_EQ(a <= b, !lex(b, a), "a<=b"); CHECK_EQ(a >= b, !lex(a, b), "a>=b");
    CHECK(!(a < a) && !(a > a) && a <= a && a >= a, "irreflexive");
    CHECK(!((a < b) && (b < a)), "asymmetric");
    CHECK_EQ((int)(a < b) + (int)(a == b) + (int)(b < a), 1, "exactly one of less, equal, greater");
    if (a < b && b < c) CHECK(a < c, "transitive");
    if (bump) {                                  // rounding noise changes neither
        CVecR3 n(a); for (int i = 0; i < 3; i++) n(i) *= 1 + g.oneOf<double>({0.0, 2.2e-16, -2.2e-16});
        if ((n - a).norm() < 1e-14) { CHECK(n == a && !(n != a), "equal within rounding"); }
        CHECK(!(n < a) && !(a < n), "not ordered within rounding");
    }
    CVecI3 p(gen<int, 3>(g)), q(p);
    int ch = g.range(0, 3); if (ch < 3) q((std::size_t)ch) += g.integer(-2, 2);
    bool lt = std::lexicographical_compare(p.val, p.val + 3, q.val, q.val + 3), gt = std::lexicographical_compare(q.val, q.val + 3, p.val, p.val + 3);
    CHECK_EQ(p < q, lt, "integer order " << p << q); CHECK_EQ(p > q, gt, "integer order " << p << q);
    CHECK_EQ(p == q, !lt && !gt, "integer equality " << p << q); CHECK_EQ(p != q, lt || gt, "integer inequality " << p << q);
    CHECK_EQ(p <= q, !gt, "integer order"); CHECK_EQ(p >= q, !lt, "integer order");
    CVecC3 z(a), w(a); w((std::size_t)g.range(0, 2)) += Cx(0, g.oneOf<double>({0.5, -1e-3}));
    CHECK(z == z && z != w && !(z == w), "complex equality sees the imaginary part");
}

PROP(scalar_comparison, 12000, 500000, "close values") {
    int k = g.range(0, 3);
    double a = El<double>::gen(g), b;
    if (std::fabs(a) < 1e-6) a = 0.0;
    if (k == 0) b = El<double>::gen(g); else if (k == 1) b = a; else if (k == 2) b = a * (1 + g.oneOf<double>({1e-12, -1e-12, 1e-13}));
    else b = a * (1 + g.oneOf<double>({1e-8, -1e-8, 1e-3}));
    g << a << " " << b; g.nontrivial(k >= 2 && a != 0);
    using namespace Math::Util;
    bool close = a == b || (a != 0 && b != 0 && std::fabs(a - b) <= 1e-11 * std::fabs(a)), far = std::fabs(a - b) > 1e-9 * (std::fabs(a) + std::fabs(b)) && std::fabs(a - b) > 1e-12;
    if (close) CHECK(equal(a, b) && !lower(a, b) && !greater(a, b), "equal within the tolerance");
    if (far) {
        CHECK(!equal(a, b), "different"); CHECK_EQ(lower(a, b), a < b, "lower"); CHECK_EQ(greater(a, b), a > b, "greater");
    }
    CHECK_EQ(equal(a, b), equal(b, a), "symmetric");
    CHECK_EQ(notEqual(a, b), !equal(a, b), "notEqual"); CHECK_EQ(greater(a, b), lower(b, a), "greater is lower reversed");
    CHECK_EQ(lowerEqual(a, b), !greater(a, b), "lowerEqual"); CHECK_EQ(greaterEqual(a, b), !lower(a, b), "greaterEqual");
    CHECK_EQ((int)lower(a, b) + (int)equal(a, b) + (int)greater(a, b), 1, "trichotomy");
    CHECK_EQ(Math::Util::sign(a), a < 0 ? -1.0 : 1.0, "sign");
    CHECK_EQ(Math::Util::ceil(a), std::ceil(a), "ceiling");
    double n = g.integer(-20, 20), w = g.oneOf<double>({1e-3, 0.1});
    CHECK_EQ(Math::Util::ceil(n + w / 2, w), n, "ceiling forgives the given excess"); CHECK_EQ(Math::Util::ceil(n + w * 1.5, w), n + 1, "ceiling beyond the excess");
}

PROP(planes_axes, 16000, 500000, "one or two components vanish") {
    CVecR3 a = gen3(g), b = g.flip() ? gen3(g) : a;
    for (int i = 0; i < 3; i++) { if (std::fabs(a(i)) < 1e-9) a(i) = 0; }
    int share = g.range(0, 3); if (share < 3) b((std::size_t)share) = a((std::size_t)share);
    g << a << b;
    int z = (a(0) == 0) + (a(1) == 0) + (a(2) == 0);
    g.nontrivial(z == 1 || z == 2); g.label("zeros " + std::to_string(z));
    CHECK_EQ(a.isContainedInPlane(Constants::xy), a(2) == 0, "xy");
    CHECK_EQ(a.isContainedInPlane(Constants::yz), a(0) == 0, "yz");
    CHECK_EQ(a.isContainedInPlane(Constants::zx), a(1) == 0, "zx");
    CHECK_EQ(a.isContainedInPlane(), z > 0, "some plane");
    bool near0 = false, cop = false;
    for (int i = 0; i < 3; i++) { double d = std::fabs(a(i) - b(i)); if (d == 0) cop = true; else if (d < 1e-9) near0 = true; }
    if (!near0) CHECK_EQ(a.isCoplanar(b), cop, "coplanar with an axis plane");
    CVecI3 ia(a); CHECK_EQ(ia.isContainedInPlane(), ia(0) == 0 || ia(1) == 0 || ia(2) == 0, "integer in a plane");
    CVecC3 za(a); for (int i = 0; i < 3; i++) if (g.chance(1, 4)) za((std::size_t)i) = std::complex<double>(a(i), g.oneOf<double>({0, 1, -2}));
    CHECK_EQ(za.isContainedInPlane(Constants::xy), za(2) == 0.0, "complex in a plane"); CHECK_EQ(za.isContainedInPlane(Constants::yz), za(0) == 0.0, "complex in yz"); CHECK_EQ(za.isContainedInPlane(Constants::zx), za(1) == 0.0, "complex in zx"); CHECK_EQ(za.isContainedInPlane(), za(0) == 0.0 || za(1) == 0.0 || za(2) == 0.0, "complex in some plane");
    if (a.norm() < 1e-6) return;
    int best = 0; for (int i = 1; i < 3; i++) if (std::fabs(a(i)) > std::fabs(a(best))) best = i;
    if (z == 2) {
        CHECK(a.isInCartesianAxis(), "along an axis"); CHECK_EQ((int)a.getCartesianAxis(), best, "axis");
        g.label("axis");
    } else if (a.norm() - std::fabs(a(best)) > 1e-9) {
        CHECK(!a.isInCartesianAxis(), "not along an axis"); CHECK_THROWS(a.getCartesianAxis(), "no axis");
    }
    int d = g.range(0, 2); CVecI3 e; e(d) = g.flip() ? g.range(1, 9) : -g.range(1, 9);
    CHECK(e.isInCartesianAxis(), e); CHECK_EQ((int)e.getCartesianAxis(), d, "axis of an integer vector");
}
