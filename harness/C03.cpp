// C03: polynomial algebra and the simplex bases built on it are exact.
#include "pbt.h"
#include <array>
#include <algorithm>
#include "math/function/Polynomial.h"
#include "math/simplex/Line.h"
#include "math/simplex/Triangle.h"
#include "math/simplex/Tetrahedron.h"
#include <memory>
using namespace SEMBA;
using namespace SEMBA::Math;
using pbt::Gen;
typedef Function::Polynomial<double> Poly;

struct Ref {            // monomials as given
    std::size_t nv; std::vector<double> c; std::vector<std::vector<int>> p;
    double at(const std::vector<double>& x) const {
        double s = 0; for (std::size_t m = 0; m < c.size(); m++) { double t = c[m]; for (std::size_t v = 0; v < nv; v++) t *= std::pow(x[v], p[m][v]); s += t; } return s;
    }
    double size(const std::vector<double>& x) const {
        double s = 0; for (std::size_t m = 0; m < c.size(); m++) { double t = std::fabs(c[m]); for (std::size_t v = 0; v < nv; v++) t *= std::pow(std::fabs(x[v]), p[m][v]); s += t; } return s;
    }
    Ref d(std::size_t k) const {
        Ref r{nv, {}, {}}; for (std::size_t m = 0; m < c.size(); m++) if (p[m][k] > 0) { r.c.push_back(c[m] * p[m][k]); r.p.push_back(p[m]); r.p.back()[k]--; } return r;
    }
};
static Ref gen(Gen& g, std::size_t nv, int maxPow) {
    Ref r; r.nv = nv; std::size_t n = g.len(0, 6);
    for (std::size_t i = 0; i < n; i++) {
        r.c.push_back(g.chance(1, 6) ? 0.0 : g.chance(1, 2) ? g.simple() : g.real(-5, 5));
        if (i && g.chance(1, 5)) r.p.push_back(r.p[g.draw(i)]);
        else { std::vector<int> p(nv); for (auto& q : p) q = g.range(0, maxPow); r.p.push_back(p); }
    }
    return r;
}
static Poly P(const Ref& r) {
    Poly p(r.nv); for (std::size_t m = 0; m < r.c.size(); m++) { if (r.nv == 1 && m % 2) p.addMonomial(r.c[m], r.p[m][0]); else p.addMonomial(r.c[m], r.p[m]); } return p;
}
static double ev(const Poly& p, const std::vector<double>& x) {
    switch (x.size()) {
    case 1: { Vector::Cartesian<double, 1> v; v(0) = x[0]; return p.eval(v); }
    case 2: { CVecR2 v; for (int i = 0; i < 2; i++) v(i) = x[i]; return p.eval(v); }
    case 3: { CVecR3 v; for (int i = 0; i < 3; i++) v(i) = x[i]; return p.eval(v); }
    default: { CVecR4 v; for (int i = 0; i < 4; i++) v(i) = x[i]; return p.eval(v); }
    }
}
static std::vector<double> point(Gen& g, std::size_t n) { std::vector<double> x(n); for (auto& v : x) v = g.chance(1, 3) ? g.simple() : g.real(-3, 3); return x; }
static std::string str(const Ref& r) {
    std::ostringstream o; for (std::size_t m = 0; m < r.c.size(); m++) { o << r.c[m] << "*("; for (int q : r.p[m]) o << q << " "; o << ") "; } return o.str();
}
#define AT(POLY, X, VAL, SIZE, MSG) CHECK_NEAR(ev(POLY, X), VAL, 0, 1e-12 * (1 + (SIZE)), MSG)

PROP(algebra, 20000, 800000, "two monomials in two or more variables") {
    std::size_t nv = (std::size_t)g.range(1, 4); Ref a = gen(g, nv, 5); g << str(a) << "nv " << nv;
    g.nontrivial(nv > 1 && a.c.size() >= 2);
    Poly p = P(a); const Poly p0(p);
    auto x = point(g, nv); double s = a.size(x);
    AT(p, x, a.at(x), s, "value");
    CHECK_EQ(p.numberOfVariables(), nv, "variables"); CHECK_EQ(p.numberOfMonomials(), a.c.size(), "monomials");
    int mp = 0; for (std::size_t m = 0; m < a.c.size(); m++) { CHECK_EQ(p.monomialValue(m), a.c[m], "coefficient"); for (std::size_t v = 0; v < nv; v++) { CHECK_EQ(p.monomialPower(m, v), a.p[m][v], "power"); mp = std::max(mp, a.p[m][v]); } }
    CHECK_EQ(p.maxPower(), mp, "highest power");
    std::size_t k = (std::size_t)g.draw(nv); Ref da = a.d(k);
    { Poly q(p); q.derive(k); AT(q, x, da.at(x), da.size(x), "derivative with respect to " << k); std::size_t k2 = (std::size_t)g.draw(nv); Ref d2 = da.d(k2); q.derive(k2); AT(q, x, d2.at(x), d2.size(x), "second derivative"); Poly r(p); r.derive(k2); r.derive(k); AT(r, x, d2.at(x), d2.size(x), "derivatives commute"); }
    { Poly q(p); q.removeZeros(); AT(q, x, a.at(x), s, "without zero monomials"); for (std::size_t m = 0; m < q.numberOfMonomials(); m++) CHECK(q.monomialValue(m) != 0, "zero monomial left"); }
    { Poly q(p); double f = g.oneOf<double>({2, -0.5, 3, 1e3}); q /= f; AT(q, x, a.at(x) / f, s, "divided by " << f); }
    { Poly q(1); q = p; AT(q, x, a.at(x), s, "assigned"); CHECK(q == p, "assigned is equal"); q = q; CHECK(q == p, "self assignment"); std::vector<int> o(nv, 1); q.addMonomial(2.0, o); CHECK(!(q == p), "different"); AT(p, x, a.at(x), s, "copies are independent"); double sum = a.at(x), t = 2; for (double v : x) t *= v; AT(q, x, sum + t, s + std::fabs(t), "sum with a monomial"); }
    { std::unique_ptr<Poly> c(p.clone()); CHECK(*c == p && p == *c, "clone"); AT(*c, x, a.at(x), s, "clone"); }
    { Ref o(a); int how = g.range(0, 3); if (o.c.empty()) how = 0; std::size_t m = o.c.empty() ? 0 : (std::size_t)g.draw(o.c.size());
      if (how == 0) { o.c.push_back(1.0); o.p.push_back(std::vector<int>(nv, 1)); } else if (how == 1) o.c[m] += g.oneOf<double>({1.0, -0.5, 3.0}); else if (how == 2) o.p[m][g.draw(nv)] += g.range(1, 3); else { o.c.erase(o.c.begin() + (long)m); o.p.erase(o.p.begin() + (long)m); }
      const Poly q = P(o), same = P(a); CHECK(p == same && same == p, "equal to the same monomials"); CHECK(!(p == q) && !(q == p), "equal to " << str(o)); g.label(how == 2, "differs in a power only"); }
    if (nv < 4) {
        std::size_t nw = (std::size_t)g.range(1, 4 - (int)nv); Ref b = gen(g, nw, 4); auto y = point(g, nw); auto z(x); z.insert(z.end(), y.begin(), y.end());
        Poly e = p ^ P(b); CHECK_EQ(e.numberOfVariables(), nv + nw, "variables of the external product"); AT(e, z, a.at(x) * b.at(y), s * b.size(y), "external product with " << str(b));
        Poly f(p); f ^= P(b); AT(f, z, a.at(x) * b.at(y), s * b.size(y), "external product in place"); CHECK(p == p0, "operand unchanged");
    }
}
PROP(univariate, 16000, 600000, "both factors with two monomials") {
    Ref a = gen(g, 1, 6), b = gen(g, 1, 6); auto x = point(g, 1);
    g << str(a) << " and " << str(b) << " at " << x[0];
    g.nontrivial(a.c.size() >= 2 && b.c.size() >= 2);
    bool rep = false; for (std::size_t i = 0; i < a.p.size(); i++) for (std::size_t j = 0; j < i; j++) rep |= a.p[i] == a.p[j]; g.label(rep, "repeated power");
    const Poly p = P(a), q = P(b); double s = a.size(x) * b.size(x);
    Poly r = p * q; AT(r, x, a.at(x) * b.at(x), s, "product"); AT(q * p, x, a.at(x) * b.at(x), s, "product commutes");
    AT(p, x, a.at(x), a.size(x), "factor unchanged"); AT(q, x, b.at(x), b.size(x), "factor unchanged");
    Poly t(p); t *= q; AT(t, x, a.at(x) * b.at(x), s, "product in place"); t *= p; AT(t, x, a.at(x) * b.at(x) * a.at(x), s * a.size(x), "product of three");
    Ref da = a.d(0), db = b.d(0); r.derive(0); AT(r, x, da.at(x) * b.at(x) + a.at(x) * db.at(x), da.size(x) * b.size(x) + a.size(x) * db.size(x), "product rule");
    CHECK_NEAR(p(x[0]), a.at(x), 0, 1e-12 * (1 + a.size(x)), "as a function");
    Poly z(1); z.addMonomial(1.0, 0); AT(p * z, x, a.at(x), a.size(x), "times one");
    auto m = p.polynomialToMatrix(); AT(p.matrixToPolynomial(m), x, a.at(x), a.size(x), "through its coefficients");
    std::vector<double> v; for (std::size_t i = 0; i < m.nRows(); i++) v.push_back(m(i, 0));
    AT(z.vectorToPolynomial(v.data(), v.size(), 1), x, a.at(x), a.size(x), "from the vector of coefficients");
    Matrix::Dynamic<double> c(3, 2); double want = 0, w = g.real(-2, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { c(i, j) = g.simple(); want += c(i, j) * std::pow(x[0], i) * std::pow(w, j); }
    AT(z.matrixToPolynomial(c), (std::vector<double>{x[0], w}), want, 500, "from a matrix of coefficients");
}

static double silvester(int m, int n, double z) { double r = 1; for (int k = 0; k < m; k++) r *= (n * z - k) / (k + 1); return r; }
static double dSilvester(int m, int n, double z) { double s = 0; for (int i = 0; i < m; i++) { double r = n / (i + 1.0); for (int k = 0; k < m; k++) if (k != i) r *= (n * z - k) / (k + 1); s += r; } return s; }
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }

struct Info { std::size_t np, nsc, faces, nfp; };
template <class S> void basis(Gen& g, const S& s, int n, Info in, const char* name) {
    g << name << " order " << n;
    g.nontrivial(n >= 2); g.label(std::string(name) + std::to_string(n));
    std::vector<std::vector<int>> idx(in.np, std::vector<int>(in.nsc));
    std::set<std::vector<int>> seen;
    for (std::size_t i = 0; i < in.np; i++) {
        int sum = 0; for (std::size_t j = 0; j < in.nsc; j++) { idx[i][j] = (int)s.nodeIndex(i, j); sum += idx[i][j]; CHECK(idx[i][j] >= 0 && idx[i][j] <= n, "node index"); }
        CHECK_EQ(sum, n, "indices of node " << i << " add to the order"); CHECK(seen.insert(idx[i]).second, "node " << i << " is new");
    }
    double want = 1; for (std::size_t j = 1; j < in.nsc; j++) want = want * (n + j) / j;
    CHECK_EQ((double)in.np, want, "every node of the order is there");
    // A point of the simplex and one off it.
    std::vector<double> x(in.nsc), z(in.nsc); double t = 0; int kind = g.range(0, 2);
    for (auto& v : x) { v = kind == 0 && g.flip() ? 0.0 : g.unit() + 1e-3; t += v; } if (t == 0) { x[0] = 1; t = 1; } for (auto& v : x) v /= t;
    for (auto& v : z) v = g.real(-0.5, 1.5);
    for (std::size_t j = 0; j < in.nsc; j++) g << " " << x[j];
    double one = 0; std::vector<double> basisAt(in.np);
    for (std::size_t i = 0; i < in.np; i++) {
        double e = 1, ez = 1; for (std::size_t j = 0; j < in.nsc; j++) { e *= silvester(idx[i][j], n, x[j]); ez *= silvester(idx[i][j], n, z[j]); }
        double tol = 1e-10 * std::pow(4.0, n);
        basisAt[i] = ev(s.getLagr(i), x); one += basisAt[i];
        CHECK_NEAR(basisAt[i], e, 1e-9, tol, "basis function " << i); CHECK_NEAR(ev(s.getLagr(i), z), ez, 1e-9, tol, "basis function " << i << " as a polynomial");
        for (std::size_t f = 0; f < in.nsc; f++) {
            double d = dSilvester(idx[i][f], n, z[f]); for (std::size_t j = 0; j < in.nsc; j++) if (j != f) d *= silvester(idx[i][j], n, z[j]);
            CHECK_NEAR(ev(s.getDLagr(i, f), z), d, 1e-9, tol * 10, "derivative of " << i << " along " << f);
        }
    }
    CHECK_NEAR(one, 1.0, 0, 1e-9 * std::pow(4.0, n), "the basis sums to one");
    std::size_t node = (std::size_t)g.draw(in.np); std::vector<double> at(in.nsc); for (std::size_t j = 0; j < in.nsc; j++) at[j] = idx[node][j] / (double)n;
    for (std::size_t i = 0; i < in.np; i++) CHECK_NEAR(ev(s.getLagr(i), at), i == node ? 1.0 : 0.0, 0, 1e-9 * std::pow(4.0, n), "basis function " << i << " at node " << node);
    // Quadrature: exact for every monomial of degree up to the order; weights are the integrals of the basis.
    std::vector<double> w = s.getWeights(); CHECK_EQ(w.size(), in.np, "weights"); double ws = 0; for (double v : w) ws += v; CHECK_NEAR(ws, 1.0, 1e-9, 0, "weights add to one");
    std::vector<int> pw(in.nsc, 0); int left = g.range(0, n), total = left; for (int k = 0; k < left; k++) pw[g.draw(in.nsc)]++;
    double q = 0; for (std::size_t i = 0; i < in.np; i++) { double v = w[i]; for (std::size_t j = 0; j < in.nsc; j++) v *= std::pow(idx[i][j] / (double)n, pw[j]); q += v; }
    double ex = fact((int)in.nsc - 1) / fact(total + (int)in.nsc - 1); for (int p : pw) ex *= fact(p);
    CHECK_NEAR(q, ex, 1e-8, 1e-10, "quadrature of a monomial of degree " << total);
    // Faces: exactly the nodes whose opposite coordinate vanishes, each once.
    std::set<std::size_t> opposite;
    for (std::size_t f = 0; f < in.faces; f++) {
        std::set<std::size_t> nodes; for (std::size_t i = 0; i < in.nfp; i++) { std::size_t k = s.sideNode(f, i); CHECK(k < in.np, "node"); nodes.insert(k); }
        CHECK_EQ(nodes.size(), in.nfp, "face " << f << " has distinct nodes");
        std::size_t opp = in.nsc;
        for (std::size_t c = 0; c < in.nsc; c++) { std::set<std::size_t> zero; for (std::size_t i = 0; i < in.np; i++) if (idx[i][c] == 0) zero.insert(i); if (zero == nodes) opp = c; }
        CHECK(opp < in.nsc, "face " << f << " is opposite to a coordinate"); opposite.insert(opp);
    }
    CHECK_EQ(opposite.size(), in.faces, "every face is there");
    std::set<std::size_t> vs; for (std::size_t f = 0; f < in.faces; f++) { std::size_t v = s.vertex(f); CHECK(v < in.np && *std::max_element(idx[v].begin(), idx[v].end()) == n, "vertex " << f); vs.insert(v); }
    CHECK_EQ(vs.size(), in.faces, "vertices are distinct");
}
template <std::size_t N> void line(Gen& g) { static const Simplex::Line<N> s; basis(g, s, (int)N, Info{N + 1, 2, 2, 1}, "line"); }
template <std::size_t N> void tri(Gen& g) {
    static const Simplex::Triangle<N> s; basis(g, s, (int)N, Info{(N + 1) * (N + 2) / 2, 3, 3, N + 1}, "triangle");
    for (std::size_t i = 0; i < (N + 1) * (N + 2) / 2; i++) for (int j = 0; j < 3; j++) CHECK_NEAR(s.coordinate(i)(j), s.nodeIndex(i, j) / (double)N, 1e-14, 0, "coordinate of a node");
    for (std::size_t f = 0; f < 3; f++) { std::set<std::size_t> v; for (std::size_t i = 0; i < 2; i++) { std::size_t k = s.sideVertex(f, i); v.insert(k); bool corner = false, on = false; for (int j = 0; j < 3; j++) corner |= s.nodeIndex(k, j) == N; for (std::size_t m = 0; m <= N; m++) on |= s.sideNode(f, m) == k; CHECK(corner && on, "side vertex " << f << "," << i); } CHECK_EQ(v.size(), (std::size_t)2, "side vertices of " << f); }
}
template <std::size_t N> void tet(Gen& g) {
    static const Simplex::Tetrahedron<N> s; basis(g, s, (int)N, Info{(N + 1) * (N + 2) * (N + 3) / 6, 4, 4, (N + 1) * (N + 2) / 2}, "tetrahedron");
    for (std::size_t f = 0; f < 4; f++) {
        std::set<std::size_t> v;
        for (std::size_t i = 0; i < 3; i++) { std::size_t k = s.sideVertex(f, i); v.insert(k); bool corner = false, on = false; for (int j = 0; j < 4; j++) corner |= s.nodeIndex(k, j) == N; for (std::size_t m = 0; m < (N + 1) * (N + 2) / 2; m++) on |= s.sideNode(f, m) == k; CHECK(corner && on, "side vertex " << f << "," << i); }
        CHECK_EQ(v.size(), (std::size_t)3, "side vertices of " << f);
        for (std::size_t m = 0; m < (N + 1) * (N + 2) / 2; m++) for (int j = 0; j < 4; j++) { CHECK_NEAR(s.sideCoordinate(f, m)(j), s.nodeIndex(s.sideNode(f, m), j) / (double)N, 1e-14, 0, "coordinate of a face node"); CHECK_NEAR(s.coordinate(m)(j), s.nodeIndex(m, j) / (double)N, 1e-14, 0, "coordinate of a node"); }
    }
}
PROP(line_basis, 3000, 60000, "order two or more") {
    switch (g.range(1, 6)) { case 1: line<1>(g); break; case 2: line<2>(g); break; case 3: line<3>(g); break; case 4: line<4>(g); break; case 5: line<5>(g); break; default: line<6>(g); }
}
PROP(triangle_basis, 3000, 60000, "order two or more") {
    switch (g.range(1, 5)) { case 1: tri<1>(g); break; case 2: tri<2>(g); break; case 3: tri<3>(g); break; case 4: tri<4>(g); break; default: tri<5>(g); }
}
PROP(tetrahedron_basis, 1200, 30000, "order two or more") {
    switch (g.range(1, 4)) { case 1: tet<1>(g); break; case 2: tet<2>(g); break; case 3: tet<3>(g); break; default: tet<4>(g); }
}
