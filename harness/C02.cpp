// C02: matrix products, inverses, determinants and sorting are exact linear algebra.
#include "pbt.h"
#include "dies.h"
#include "math/matrix/Static.h"
#include "math/matrix/Dynamic.h"
#include <algorithm>
#include <complex>
using namespace SEMBA;
using namespace SEMBA::Math;
using pbt::Gen;
typedef std::complex<double> Cx;

// Reference matrices: vectors of rows.
template <class T> using M = std::vector<std::vector<T>>;
template <class T> M<T> zero(std::size_t r, std::size_t c) { return M<T>(r, std::vector<T>(c, T(0))); }
template <class T> M<T> mul(const M<T>& a, const M<T>& b) {
    M<T> r = zero<T>(a.size(), b[0].size());
    for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < b[0].size(); j++) {
        T s(0); for (std::size_t k = 0; k < b.size(); k++) s += a[i][k] * b[k][j]; r[i][j] = s;
    }
    return r;
}
template <class T> M<T> add(M<T> a, const M<T>& b, T f = T(1)) {
    for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < a[0].size(); j++) a[i][j] += f * b[i][j]; return a;
}
template <class T> M<T> scale(M<T> a, T f) { for (auto& r : a) for (auto& v : r) v *= f; return a; }
template <class T> M<T> tr(const M<T>& a) {
    M<T> r = zero<T>(a[0].size(), a.size());
    for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j]; return r;
}
static double elem(Gen& g, double*) { return g.chance(1, 2) ? g.simple() : g.real(-10, 10); }
static int elem(Gen& g, int*) { return g.integer(-20, 20); }
static Cx elem(Gen& g, Cx*) { double a = elem(g, (double*)0); return Cx(a, elem(g, (double*)0)); }
template <class T> M<T> gen(Gen& g, std::size_t r, std::size_t c) {
    M<T> m = zero<T>(r, c); for (auto& x : m) for (auto& v : x) v = elem(g, (T*)0); return m;
}
template <class T> std::string str(const M<T>& m) {
    std::ostringstream o; o << "["; for (auto& r : m) { for (auto& v : r) o << v << " "; o << "; "; } o << "]"; return o.str();
}
template <class T> bool varied(const M<T>& m) {
    std::vector<T> s; for (auto& r : m) for (auto& v : r) if (v != T(0) && std::find(s.begin(), s.end(), v) == s.end()) s.push_back(v);
    return s.size() >= 2;
}
template <class X, class T> void is(const X& x, const M<T>& m, const char* what, double tol = 1e-12) {
    std::size_t nc = m.empty() ? 0 : m[0].size();
    CHECK_EQ(x.nRows(), m.size(), what << ": rows");
    if (!m.empty()) CHECK_EQ(x.nCols(), nc, what << ": columns");
    CHECK_EQ(x.size(), m.size() * nc, what << ": size");
    double s = 0; for (auto& r : m) for (auto& v : r) s = std::max(s, (double)std::abs(v));
    for (std::size_t i = 0; i < m.size(); i++) for (std::size_t j = 0; j < nc; j++) {
        CHECK(std::abs(x(i, j) - m[i][j]) <= tol * std::max(1.0, s), what << ": (" << i << "," << j << ") is " << x(i, j) << ", expected " << m[i][j]);
        CHECK(x.val(i, j) == x(i, j) && x.val(i * nc + j) == x(i, j), what << ": element access");
    }
}
template <class T, std::size_t R, std::size_t C> Matrix::Static<T, R, C> S(const M<T>& m) {
    Matrix::Static<T, R, C> s; s.copy(m); return s;
}
template <class T> Matrix::Dynamic<T> D(const M<T>& m) {
    Matrix::Dynamic<T> d; d.copy(m); return d;
}

template <class T, std::size_t R, std::size_t C, std::size_t K> void fixedSize(Gen& g) {
    const M<T> a = gen<T>(g, R, C), b = gen<T>(g, R, C), c = gen<T>(g, C, K), v = gen<T>(g, C, 1);
    const T f = elem(g, (T*)0);
    g << str(a) << " " << str(b) << " " << str(c) << " " << f;
    g.nontrivial(varied(a) && varied(b) && varied(c) && f != T(0) && f != T(1));
    Matrix::Static<T, R, C> A = S<T, R, C>(a), B = S<T, R, C>(b);
    const Matrix::Static<T, R, C> A0(A);
    Matrix::Static<T, C, K> X = S<T, C, K>(c);
    is(A, a, "values"); is(A0, a, "copy"); is(Matrix::Static<T, R, C>(), zero<T>(R, C), "default is null");
    is(A + B, add(a, b), "A+B"); is(A * f, scale(a, f), "A*f"); is(A0 * X, mul(a, c), "A*X");
    is(A.transpose(), tr(a), "transpose");
    is(X.transpose() * A.transpose(), tr(mul(a, c)), "transpose of a product");
    Vector::Cartesian<T, C> w; for (std::size_t i = 0; i < C; i++) w(i) = v[i][0];
    auto y = A0 * w; M<T> yr = mul(a, v);
    CHECK_EQ(sizeof(y.val) / sizeof(T), R, "components of matrix times vector");
    for (std::size_t i = 0; i < R; i++) CHECK(std::abs(y.val[i] - yr[i][0]) < 1e-11, "matrix times vector: " << i);
    is(A0 * D(c), mul(a, c), "fixed times run-time size");
    { auto Z(A0); Z += B; is(Z, add(a, b), "A+=B"); } { auto Z(A0); Z -= B; is(Z, add(a, b, T(-1)), "A-=B"); }
    { auto Z(A0); Z *= f; is(Z, scale(a, f), "A*=f"); }
    { auto Z(A0); if (f != T(0)) { Z *= f; Z /= f; is(Z, a, "A*=f, A/=f"); } }
    { auto Z(A0); Z += 2.0; for (auto& r : const_cast<M<T>&>(b)) (void)r; M<T> e(a); for (auto& r : e) for (auto& q : r) q += T(2); is(Z, e, "A+=2"); }
    { Matrix::Static<T, R, C> Z; Z = A0; is(Z, a, "assignment"); Z = Z; is(Z, a, "self assignment"); Z(R - 1, 0) += T(1); CHECK(!(Z == A0), "different"); }
    is(A, a, "left operand"); is(B, b, "right operand"); is(X, c, "product operand");
    CHECK(A == A0, "equal"); CHECK_EQ(A == B, a == b, "equality");
    for (std::size_t i = 0; i < R; i++) CHECK(A.cpRowToVector(i) == a[i], "row " << i);
    for (std::size_t i = 0; i < R * C; i++) CHECK(A.val()[i] == a[i / C][i % C], "row-major storage");
    std::size_t r = (std::size_t)g.draw(R), k = (std::size_t)g.draw(C);
    { auto Z(A0); Z.cpToRow(r, b[r]); M<T> e(a); e[r] = b[r]; is(Z, e, "row replaced"); }
    { auto Z(A0); M<T> bt = tr(b), e = tr(a); Z.cpToCol(k, bt[k]); e[k] = bt[k]; is(Z, tr(e), "column replaced"); }
    { auto Z(A0); Z.zeros(); is(Z, zero<T>(R, C), "zeros"); }
}
PROP(static_square, 8000, 300000, "varied operands") { fixedSize<double, 3, 3, 3>(g); }
PROP(static_rect, 8000, 300000, "varied operands") { fixedSize<double, 4, 3, 2>(g); }
PROP(static_wide, 6000, 200000, "varied operands") { fixedSize<double, 2, 4, 3>(g); }
PROP(static_int, 6000, 200000, "varied operands") { fixedSize<int, 3, 4, 2>(g); }
PROP(static_complex, 6000, 200000, "varied operands") { fixedSize<Cx, 3, 3, 2>(g); }

template <class T> void runTime(Gen& g) {
    std::size_t R = 1 + g.many(0, 5, 20), C = 1 + g.many(0, 5, 20), K = 1 + g.many(0, 4, 20), L = 1 + g.len(0, 2);
    const M<T> a = gen<T>(g, R, C), b = g.chance(1, 12) ? a : gen<T>(g, R, C), c = gen<T>(g, C, K), d = gen<T>(g, K, L);
    const T f = elem(g, (T*)0);
    g << str(a) << " " << str(b) << " " << str(c) << " " << f;
    g.nontrivial(R != C && varied(a) && varied(b) && varied(c));
    Matrix::Dynamic<T> A = D(a), B = D(b), X = D(c), Y = D(d);
    const Matrix::Dynamic<T> A0(A);
    is(A, a, "values"); is(A0, a, "copy"); is(Matrix::Dynamic<T>(R, C), zero<T>(R, C), "starts null");
    is(A0 + B, add(a, b), "A+B"); is(A0 * X, mul(a, c), "A*X"); is(A0 * f, scale(a, f), "A*f");
    { auto P = A0 * X, Q = X * Y; is(P * Y, mul(mul(a, c), d), "(AX)Y", 1e-10); is(A0 * Q, mul(mul(a, c), d), "A(XY)", 1e-10); }
    { auto Z(A0); Z += B; is(Z, add(a, b), "A+=B"); } { auto Z(A0); Z *= f; is(Z, scale(a, f), "A*=f"); }
    { auto Z(A0); Z += f; M<T> e(a); for (auto& r : e) for (auto& q : r) q += f; is(Z, e, "A+=f"); }
    if (f != T(0)) { auto Z = A0 * f; is(Z / f, a, "A*f/f"); Z /= f; is(Z, a, "A*f, /=f"); }
    { auto Z(A0); auto& r = Z.transpose(); CHECK(&r == &Z, "in place"); is(Z, tr(a), "transpose"); is(Z.transpose(), a, "twice transposed"); }
    { Matrix::Dynamic<T> Z(1, 1); Z = A0; is(Z, a, "assignment"); Z(R - 1, C - 1) += T(1); is(A0, a, "copies are independent"); CHECK(!(Z == A0), "different"); Z = Z; Z = A0; is(Z, a, "again"); }
    { Matrix::Dynamic<T> Z(A0); Z = f; M<T> e(a); for (auto& r : e) for (auto& q : r) q = f; is(Z, e, "assignment of a scalar"); }
    { Matrix::Dynamic<T> Z(A0); Z = a[0]; M<T> e; for (auto& q : a[0]) e.push_back({q}); is(Z, e, "assignment of a vector"); }
    { std::vector<T*> p; M<T> m(a); for (auto& r : m) p.push_back(r.data()); is(Matrix::Dynamic<T>(R, C, p.data()), a, "from rows"); }
    is(A, a, "left operand"); is(B, b, "right operand"); is(X, c, "product operand");
    CHECK(A == A0, "equal"); CHECK_EQ(A == B, a == b, "equality"); CHECK_EQ(A0 < B, a < b, "lexicographic order");
    if (R != C || K != C) CHECK(!(A == D(gen<T>(g, C, R + (R == C)))), "different size is different");
    // Parts.
    std::size_t r0 = (std::size_t)g.draw(R), r1 = r0 + (std::size_t)g.draw(R - r0), c0 = (std::size_t)g.draw(C), c1 = c0 + (std::size_t)g.draw(C - c0);
    M<T> part; for (std::size_t i = r0; i <= r1; i++) part.push_back(std::vector<T>(a[i].begin() + c0, a[i].begin() + c1 + 1));
    std::pair<std::size_t, std::size_t> rr(r0, r1), cc(c0, c1);
    is(A0.sub(rr, cc), part, "sub"); is(A0.copy(r0, r1 + 1, c0, c1 + 1), part, "copy of a part");
    if (c1 - c0 + 1 < C) {
        M<T> e(a); for (auto& r : e) r.erase(r.begin() + c0, r.begin() + c1 + 1);
        is(A0.eliminateColumns(c0, c1), e, "eliminate columns");
    }
    for (std::size_t i = 0; i < R; i++) { CHECK(A.cpRowToVector(i) == a[i], "row"); for (std::size_t j = 0; j < C; j++) CHECK(*A.valPtr(i, j) == a[i][j], "pointer"); }
    { auto Z(A0); Z.cpToRow(r0, b[r0]); M<T> e(a); e[r0] = b[r0]; is(Z, e, "row replaced"); }
    { auto Z(A0); M<T> bt = tr(b), e = tr(a); Z.cpToCol(c0, bt[c0]); e[c0] = bt[c0]; is(Z, tr(e), "column replaced"); }
    // Kronecker product: mixed product property by definition.
    M<T> k = zero<T>(R * C, C * K);
    for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) for (std::size_t p = 0; p < C; p++) for (std::size_t q = 0; q < K; q++) k[i * C + p][j * K + q] = a[i][j] * c[p][q];
    is(A0.kron(X), k, "Kronecker product");
    // Convolution of columns.
    std::vector<T> u = tr(a)[0], w = tr(c)[0], cv(u.size() + w.size() - 1, T(0));
    for (std::size_t i = 0; i < u.size(); i++) for (std::size_t j = 0; j < w.size(); j++) cv[i + j] += u[i] * w[j];
    Matrix::Dynamic<T> U, W; U = u; W = w; M<T> cm; for (auto q : cv) cm.push_back({q});
    is(U.convolute(W), cm, "convolution"); is(W.convolute(U), cm, "convolution commutes");
    // Extremes, arrays.
    T mx = a[0][0]; for (auto& r : a) for (auto& q : r) mx = std::max(mx, q);
    CHECK_EQ(A.maxVal(), mx, "largest"); { M<T> t = tr(a); CHECK_EQ(A.maxValInCol(c0), *std::max_element(t[c0].begin(), t[c0].end()), "largest of a column"); }
    std::vector<double> rm(R * C), cmj(R * C); A.convertToArray(MATRICES_ROW_MAJOR, rm.data()); A.convertToArray(MATRICES_COL_MAJOR, cmj.data());
    for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) { CHECK(rm[i * C + j] == (double)a[i][j], "row major array"); CHECK(cmj[j * R + i] == (double)a[i][j], "column major array"); }
    // Reshape keeps the elements in row or column order.
    std::size_t n = R * C, nr = 1; for (std::size_t q = 1; q <= n; q++) if (n % q == 0 && g.flip()) nr = q;
    M<T> e1 = zero<T>(nr, n / nr), e2 = e1;
    for (std::size_t q = 0; q < n; q++) { e1[q / (n / nr)][q % (n / nr)] = a[q / C][q % C]; e2[q / (n / nr)][q % (n / nr)] = a[q % R][q / R]; }
    is(A.reshape(nr, n / nr), e1, "reshape"); is(A.reshape(nr, n / nr, 1), e1, "reshape by rows"); is(A.reshape(nr, n / nr, 2), e2, "reshape by columns");
    CHECK_EQ(A.isSquare(), R == C, "square");
    { auto Z(A0); Z.zeros(); is(Z, zero<T>(R, C), "zeros"); if (R == C) { Z.eye(); M<T> e = zero<T>(R, R); for (std::size_t i = 0; i < R; i++) e[i][i] = T(1); is(Z, e, "identity"); is(A0 * Z, a, "A*I"); } }
    { Matrix::Dynamic<T> Q(2, 3); Q.copy(D(gen<double>(g, 2, 2))); CHECK_EQ(Q.nCols(), (std::size_t)2, "copy resizes"); }
}
PROP(dynamic_real, 10000, 400000, "not square, varied operands") { runTime<double>(g); }
PROP(dynamic_int, 6000, 300000, "not square, varied operands") { runTime<int>(g); }

PROP(symmetry, 8000, 200000, "at least three rows") {
    std::size_t n = 1 + g.len(0, 5), c = g.chance(1, 5) ? n + 1 + g.len(0, 2) : n;
    M<double> a = gen<double>(g, n, c);
    for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < i && j < c; j++) a[i][j] = a[j][i];
    bool sym = n == c;
    if (g.flip() && n > 1 && c > 1) { std::size_t i = 1 + g.draw(n - 1), j = g.draw(i); a[i][j] += 1; sym = false; }
    g << str(a); g.nontrivial(n >= 3);
    Matrix::Dynamic<double> A = D(a);
    CHECK_EQ(A.isSymmetric(), sym, "symmetric"); A.transpose(); CHECK_EQ(A.isSymmetric(), sym, "symmetric, transposed"); A.transpose();
    if (n == c) {
        Matrix::Dynamic<double> T(A), Z(A); T.transpose(); CHECK((A + T).isSymmetric(), "A+A' is symmetric");
        Z.cpLowerTri2UpperTri(); CHECK(Z.isSymmetric(), "lower triangle copied");
        for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j <= i; j++) CHECK(Z(i, j) == a[i][j], "lower triangle kept");
    }
    if (c == 3) { auto v = A.convertToCartesianVector(); CHECK_EQ(v.size(), n, "vectors"); for (std::size_t i = 0; i < n; i++) for (int j = 0; j < 3; j++) CHECK(v[i](j) == a[i][j], "vector of a row"); }
    CVecR3 w(g.simple(), g.simple(), g.simple()); MatR33 I; I.eye(); I(0, 1) = 2; I.setInDiagonal(w);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(I(i, j) == (i == j ? w(i) : i == 0 && j == 1 ? 2.0 : 0.0), "diagonal set");
    Matrix::Static<Int, 3, 3> N; for (int i = 0; i < 9; i++) N.val(i) = g.integer(-9, 9);
    MatR33 Q; Q.assign(N); Matrix::Dynamic<Int> nd(3, 3); MatR33 P; Matrix::Dynamic<double> pd(3, 3);
    for (int i = 0; i < 9; i++) { CHECK(Q.val(i) == N.val(i), "assigned integers"); nd.val(i) = N.val(i); pd.val(i) = N.val(i) * 0.5; }
    P = nd; for (int i = 0; i < 9; i++) CHECK(P.val(i) == N.val(i), "run-time integers");
    P = pd; for (int i = 0; i < 9; i++) CHECK(P.val(i) == N.val(i) * 0.5, "run-time reals");
    Matrix::Static<double, 3, 3> A1, A2; for (int i = 0; i < 9; i++) { A1.val(i) = g.integer(0, 1); A2.val(i) = g.flip() ? A1.val(i) : g.integer(0, 1); }
    bool lt = std::lexicographical_compare(A1.val(), A1.val() + 9, A2.val(), A2.val() + 9);
    CHECK_EQ(A1 < A2, lt, "lexicographic order");
}

static long double det(std::vector<std::vector<long double>> m) {
    std::size_t n = m.size(); if (n == 1) return m[0][0];
    long double s = 0;
    for (std::size_t c = 0; c < n; c++) {
        auto q = m; q.erase(q.begin()); for (auto& r : q) r.erase(r.begin() + c);
        s += (c % 2 ? -1 : 1) * m[0][c] * det(q);
    }
    return s;
}
PROP(determinant, 12000, 500000, "no null determinant") {
    for (std::size_t n = 3; n <= 4; n++) {
        M<double> a = gen<double>(g, n, n), b = gen<double>(g, n, n);
        if (g.chance(1, 8)) a[n - 1] = a[0];
        g << str(a) << str(b);
        std::vector<std::vector<long double>> la, lb; for (auto& r : a) la.emplace_back(r.begin(), r.end()); for (auto& r : b) lb.emplace_back(r.begin(), r.end());
        double da = (double)det(la), db = (double)det(lb), s = 1, t = 1;
        for (std::size_t i = 0; i < n; i++) { double x = 0, y = 0; for (std::size_t j = 0; j < n; j++) { x += std::fabs(a[i][j]); y += std::fabs(b[i][j]); } s *= x + 1; t *= y + 1; }
        auto A = D(a), B = D(b); auto P = A * B;
        auto d = [n](const Matrix::Dynamic<double>& m) { return n == 3 ? m.getDeterminant3x3() : m.getDeterminant4x4(); };
        g.nontrivial(std::fabs(da) > 1e-3 && std::fabs(db) > 1e-3);
        CHECK_NEAR(d(A), da, 0, 1e-13 * s, "determinant of size " << n);
        CHECK_NEAR(d(P), da * db, 0, 1e-12 * s * t, "determinant of a product");
        auto T(A); T.transpose(); CHECK_NEAR(d(T), da, 0, 1e-13 * s, "determinant of the transpose");
        if (n == 3) CHECK_NEAR((S<double, 3, 3>(a).getDeterminant3x3()), da, 0, 1e-13 * s, "fixed size"); else CHECK_NEAR((S<double, 4, 4>(a).getDeterminant4x4()), da, 0, 1e-13 * s, "fixed size");
        std::swap(a[0], a[n - 1]); CHECK_NEAR(d(D(a)), -da, 0, 1e-13 * s, "swapping rows changes the sign");
    }
}

// Diagonally dominant, rows and columns shuffled, then scaled: well conditioned.
template <class T> M<T> wellConditioned(Gen& g, std::size_t n) {
    M<T> m = zero<T>(n, n); std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; i++) p[i] = i;
    g.shuffle(p);
    for (std::size_t i = 0; i < n; i++) {
        double s = 0; for (std::size_t j = 0; j < n; j++) if (j != p[i]) { if (g.chance(1, 3)) continue; m[i][j] = elem(g, (T*)0); s += std::abs(m[i][j]); }
        m[i][p[i]] = T((s * 1.5 + 1 + g.unit()) * (g.flip() ? -1 : 1));
    }
    return m;
}
template <class X, class T> void inverseIs(const X& inv, const M<T>& a) {
    std::size_t n = a.size();
    M<T> v = zero<T>(n, n), I = v; for (std::size_t i = 0; i < n; i++) { I[i][i] = T(1); for (std::size_t j = 0; j < n; j++) v[i][j] = inv(i, j); }
    is(D(mul(a, v)), I, "A times its inverse", 1e-10); is(D(mul(v, a)), I, "the inverse times A", 1e-10);
}
template <> void inverseIs(const MatC33& inv, const M<Cx>& a) {
    M<Cx> v = zero<Cx>(3, 3), I = v; for (int i = 0; i < 3; i++) { I[i][i] = 1; for (int j = 0; j < 3; j++) v[i][j] = inv(i, j); }
    is(S<Cx, 3, 3>(mul(a, v)), I, "A times its inverse", 1e-10); is(S<Cx, 3, 3>(mul(v, a)), I, "the inverse times A", 1e-10);
}
PROP(inverse, 12000, 500000, "at least three rows with interchanges") {
    std::size_t n = 1 + g.len(0, 6); auto a = wellConditioned<double>(g, n);
    g << str(a);
    bool inter = false; for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) if (j != i && std::fabs(a[i][j]) > std::fabs(a[i][i])) inter = true;
    g.nontrivial(n >= 3 && inter);
    auto A = D(a); auto I = A.invert(); is(A, a, "inverting returns a new matrix"); inverseIs(I, a);
    is(I.invert(), a, "inverse of the inverse", 1e-9);
    auto b = wellConditioned<double>(g, 3); auto B = S<double, 3, 3>(b); B.invert(); inverseIs(B, b);
    auto c = wellConditioned<double>(g, 4); auto C = S<double, 4, 4>(c); C.invert(); inverseIs(C, c);
    auto z = wellConditioned<Cx>(g, 3); auto Z = S<Cx, 3, 3>(z); Z.invert(); inverseIs(Z, z);
}
PROP(singular, 4000, 100000, "at least two rows") {
    std::size_t n = 1 + g.len(0, 4); M<double> a = zero<double>(n, n);
    for (auto& r : a) for (auto& v : r) v = g.integer(-3, 3);
    std::size_t i = (std::size_t)g.draw(n), j = (std::size_t)g.draw(n);
    int k = n == 1 ? 0 : g.range(0, 3);
    if (k == 0) for (auto& v : a[i]) v = 0;
    if (k == 1) for (auto& r : a) r[j] = 0;
    if (k >= 2) { if (i == j) j = (j + 1) % n; for (auto& r : a) for (auto& v : r) v = std::abs(v) > 1 ? 1 : v; a[i] = a[j]; if (n > 2) { // upper triangular but for the repeated row
            for (std::size_t r = 0; r < n; r++) if (r != i && r != j) { for (auto& v : a[r]) v = 0; a[r][r] = 1; } a[i] = a[j]; } }
    g << str(a); g.nontrivial(n >= 2); g.label("kind " + std::to_string(k));
    auto A = D(a); CHECK_THROWS(A.invert(), "singular");
    is(A, a, "unchanged");
    if (n == 3) { auto B = S<double, 3, 3>(a); CHECK_THROWS(B.invert(), "singular, fixed size"); }
}
PROP(qr, 6000, 200000, "at least three rows") {
    std::size_t n = 1 + g.len(0, 4); auto a = wellConditioned<double>(g, n); g << str(a); g.nontrivial(n >= 3);
    auto A = D(a); Matrix::Dynamic<double> Q(n, n), R(n, n);
    CHECK(A.factorizeQR_(Q, R), "factorises"); is(A, a, "unchanged");
    M<double> q = zero<double>(n, n), r = q, I = q;
    for (std::size_t i = 0; i < n; i++) { I[i][i] = 1; for (std::size_t j = 0; j < n; j++) { q[i][j] = Q(i, j); r[i][j] = R(i, j); if (j < i) CHECK(R(i, j) == 0, "R is upper triangular"); } }
    is(D(mul(tr(q), q)), I, "Q is orthogonal", 1e-9); is(D(mul(q, r)), a, "QR", 1e-9);
}

template <class T> void sorting(Gen& g) {
    std::size_t R = g.many(0, 14, 120), C = 1 + g.len(0, 4);
    int hi = g.oneOf<int>({1, 2, 5, 50});
    M<T> a = zero<T>(R, C); for (auto& r : a) for (auto& v : r) v = (T)(g.integer(-hi, hi) * (std::is_same<T, double>::value ? 0.5 : 1));
    if (g.chance(1, 4)) { std::sort(a.begin(), a.end()); if (g.flip()) std::reverse(a.begin(), a.end()); }
    std::size_t i = (std::size_t)g.draw(C), l = i + (std::size_t)g.draw(C - i);
    g << str(a) << " columns " << i << "-" << l;
    auto key = [&](const std::vector<T>& r) { return std::vector<T>(r.begin() + i, r.begin() + l + 1); };
    bool ties = false; { std::set<std::vector<T>> s; for (auto& r : a) ties |= !s.insert(key(r)).second; }
    g.nontrivial(R >= 4 && !std::is_sorted(a.begin(), a.end())); g.label(ties, "ties");
    auto rowsOf = [](const Matrix::Dynamic<T>& m) { M<T> r; for (std::size_t k = 0; k < m.nRows(); k++) r.push_back(m.cpRowToVector(k)); return r; };
    Matrix::Dynamic<T> A(R, C); for (std::size_t r = 0; r < R; r++) for (std::size_t c = 0; c < C; c++) A(r, c) = a[r][c];
    auto perm = [](M<T> x, M<T> y) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; };
    auto P(A); P.sortRows(i, l); M<T> p = rowsOf(P);
    CHECK(perm(p, a), "a permutation of the rows: " << str(p));
    for (std::size_t k = 1; k < p.size(); k++) CHECK(!(key(p[k]) < key(p[k - 1])), "sorted by the columns: " << str(p));
    M<T> full(a); std::sort(full.begin(), full.end());
    auto F(A); F.sortRows(); CHECK(rowsOf(F) == full, "sorted by all columns: " << str(rowsOf(F)));
    { auto O(A); O.sortRows_omp(i, l); M<T> o = rowsOf(O); CHECK(perm(o, a), "permutation"); for (std::size_t k = 1; k < o.size(); k++) CHECK(!(key(o[k]) < key(o[k - 1])), "sorted"); }
    M<T> uniq(full); uniq.erase(std::unique(uniq.begin(), uniq.end()), uniq.end());
    auto U(A); U.sortAndRemoveRepeatedRows(); CHECK(rowsOf(U) == uniq, "sorted without repetitions: " << str(rowsOf(U)));
    if (R > 0) {
        // Lookup by binary search in the sorted matrix.
        std::size_t at = (std::size_t)g.draw(R); std::vector<T> k = key(p[at]);
        if (g.flip()) k[(std::size_t)g.draw(k.size())] += (T)(g.integer(-2, 2));
        std::size_t want = R; for (std::size_t r = 0; r < R; r++) if (key(p[r]) == k) { want = r; break; }
        CHECK_EQ(P.findFirstOcurrenceInColumns(k.data(), i, k.size()), want, "first row with the key");
        std::size_t m = 1 + g.len(0, 5); M<T> b = zero<T>(m, C); for (auto& r : b) for (auto& v : r) v = (T)g.integer(-hi, hi);
        Matrix::Dynamic<T> B = D(b); B.sortRows(i, l); auto Q(P); Q.mergeSortedRows(B, i, l);
        M<T> q = rowsOf(Q), all(a); all.insert(all.end(), b.begin(), b.end());
        CHECK(perm(q, all), "merging keeps all rows: " << str(q)); for (std::size_t k2 = 1; k2 < q.size(); k2++) CHECK(!(key(q[k2]) < key(q[k2 - 1])), "merged in order: " << str(q));
    }
}
PROP(sort_real, 10000, 400000, "four unsorted rows") { sorting<double>(g); }
PROP(sort_int, 10000, 400000, "four unsorted rows") { sorting<int>(g); }

PROP(incompatible, 160, 2000, "every case") {
    std::size_t r = 1 + g.len(0, 3), c = 1 + g.len(0, 3), d = 1 + g.len(0, 3);
    int k = g.range(0, 3); g << k << " " << r << "x" << c << " " << d; g.nontrivial();
    Matrix::Dynamic<double> A(r, c), B(d, r), E(r + d, c), F(r, c + d);
    if (k == 0 && c != d) CHECK(dies([&] { auto P = A * B; }), "product of incompatible sizes");
    if (k == 1) { CHECK(dies([&] { auto P = A + E; }), "sum of different sizes"); CHECK(dies([&] { auto P = A + F; }), "sum of different sizes"); }
    if (k == 2) { CHECK(dies([&] { A += E; }), "sum of different sizes"); CHECK(dies([&] { A += F; }), "sum of different sizes"); }
    if (k == 3) { CHECK(!(A == E) && !(A == F) && !(E == A), "different sizes are different"); if (r != c) CHECK(dies([&] { A.invert(); }), "inverse of a rectangle"); }
}
