// C07: a grid locates every point in the cell that contains it.
#include "geo.h"
using namespace geo;
using Geometry::Grid;
using pbt::Gen;

// A coordinate of any kind relative to the lines.
static double genX(Gen& g, const Lines& l, bool inside) {
    int n = (int)l.size() - 1;
    int k = g.range(0, inside ? 4 : 7);
    int i = g.range(0, n - 1);
    double s = l[i + 1] - l[i];
    switch (k) {
    case 0: return l[g.range(0, n)];
    case 1: return l[i] + s * g.oneOf<double>({0.5, 0.25, 0.75, 0.125, 0.05, 0.95});
    case 2: return std::min(l[i + 1], l[i] + s * g.unit());
    case 3: return l[i] + s * g.oneOf<double>({0.002, 0.998, 0.02, 0.98, 1e-6, 1 - 1e-6});
    case 4: return g.flip() ? l.back() : l.front();
    case 5: return l.front() - (l[1] - l[0]) * g.oneOf<double>({0.5, 0.02, 3.0, 0.005});
    case 6: return l.back() + (l[n] - l[n - 1]) * g.oneOf<double>({0.5, 0.02, 3.0, 0.005});
    default: return g.flip() ? l.front() - 1e3 : l.back() + 1e3;
    }
}
static int cellOf(const Lines& l, double x) {       // half open; n for the last line and beyond
    return (int)(std::upper_bound(l.begin(), l.end(), x) - l.begin()) - 1;
}

PROP(natural_cell, 24000, 800000, "more than one cell and a point off the lines") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 30, g.oneOf<double>({1.0, 1e-3}));
    Geometry::Grid3 grid(l);
    int d = g.range(0, 2);
    double x = genX(g, l[d], false);
    g << str(l[d]) << " x=" << x;
    long i = -7; double rel = -7;
    bool in = grid.getNaturalCell(axis(d), x, i, rel);
    bool want = x >= l[d].front() && x < l[d].back();
    g.label(want, "inside"); g.label(x == l[d].back(), "on the upper bound");
    g.nontrivial(l[d].size() > 2 && want && x != l[d][cellOf(l[d], x)]);
    CHECK_EQ(in, want, "inside the half-open domain");
    if (want) {
        int c = cellOf(l[d], x);
        CHECK_EQ((int)i, c, "cell");
        CHECK(rel >= 0.0 && rel < 1.0, "fraction " << rel << " in [0,1)");
        CHECK_NEAR(l[d][c] + rel * (l[d][c + 1] - l[d][c]), x, 1e-12, 1e-12, "cell plus fraction gives the point");
    } else {
        CHECK_EQ((int)i, x < l[d].front() ? 0 : (int)l[d].size() - 1, "bound reported for a point outside");
    }
    CHECK_EQ(grid.isInto((std::size_t)d, x), x >= l[d].front() && x <= l[d].back(), "point in the closed domain");
}

PROP(fractional, 16000, 500000, "inside and off the lines") {
    Lines l[3]; V3 p; bool in = true, off = false;
    for (int d = 0; d < 3; d++) {
        l[d] = genLines(g, 12);
        p(d) = genX(g, l[d], !g.chance(1, 8));
        bool i1 = p(d) >= l[d].front() && p(d) <= l[d].back();
        if (!i1 && (std::fabs(p(d) - l[d].front()) < 1e-6 || std::fabs(p(d) - l[d].back()) < 1e-6)) g.discard();
        in = in && i1;
        if (i1 && p(d) != l[d][std::min<int>(cellOf(l[d], p(d)), (int)l[d].size() - 1)]) off = true;
        g << str(l[d]) << " ";
    }
    g << p;
    Geometry::Grid3 grid(l);
    g.label(in, "inside"); g.nontrivial(in && off);
    CHECK_EQ(grid.isInto(p), in, "inside the closed domain");
    bool got = !in;
    Math::CVecI3Fractional f = grid.getCVecI3Fractional(p, got);
    CHECK_EQ(got, in, "inside, as the fractional position says");
    if (!in) return;
    for (int d = 0; d < 3; d++) {
        int c = cellOf(l[d], p(d));
        CHECK(f.len_(d) >= 0 && f.len_(d) < 1.0, "fraction " << f.len_(d));
        CHECK(f(d) >= 0 && f(d) < (int)l[d].size(), "cell in the grid");
        double s = f(d) + 1 < (int)l[d].size() ? l[d][f(d) + 1] - l[d][f(d)] : 0.0;
        CHECK_NEAR(l[d][f(d)] + f.len_(d) * s, p(d), 1e-9, 1e-9, "cell plus fraction gives the point");
        // Points within rounding of a line may be taken to it.
        if (f(d) != c) CHECK_NEAR(l[d][f(d)], p(d), 1e-9, 1e-9, "cell");
    }
    V3 sp = f.getScalePos();
    for (int d = 0; d < 3; d++) CHECK_NEAR(sp(d), f(d) + f.len_(d), 1e-12, 1e-12, "position in cell units");
}

// Tolerant location: lines catch points within a hundredth of a cell.
PROP(cell_pair, 40000, 1200000, "inside and off the lines") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, d == 0 ? 20 : 3, g.oneOf<double>({1.0, 1e-3, 50.0}));
    Geometry::Grid3 grid(l);
    const Lines& q = l[0]; int n = (int)q.size() - 1;
    double x = genX(g, q, false);
    bool approx = g.flip(), err = g.flip();
    double tol = g.oneOf<double>({1e-2, 1e-2, 1e-3, 1e-6});
    g << str(q) << " x=" << x << " approx=" << approx << " tol=" << tol;
    double lo = q.front() - x, hi = x - q.back(), s0 = q[1] - q[0], s1 = q[n] - q[n - 1];
    bool below = lo > 0, above = hi > 0;
    // Outside, but within reach of the tolerance of the bound: either answer.
    bool fuzzy = (below && lo <= tol * s0 * 1.01) || (above && hi <= tol * s1 * 1.01);
    auto r = grid.getCellPair(0, x, approx, tol, &err);
    CHECK_EQ(grid.getCell(0, x, approx, tol), r.first, "cell alone");
    if (!fuzzy) CHECK_EQ(err, below || above, "outside is reported");
    if (below || above) {
        g.label("outside");
        if (!fuzzy) {
            CHECK_EQ(r.first, below ? 0 : n, "bound for a point outside");
            CHECK_NEAR(below ? q.front() + r.second * s0 : q.back() + r.second * s1, x, 1e-9, 1e-9, "distance to the bound");
        }
        return;
    }
    CHECK(r.first >= 0 && r.first <= n, "cell " << r.first << " in the grid");
    if (approx) CHECK(r.second > -0.5 - 1e-9 && r.second < 0.5 + 1e-9, "distance to the nearest line is " << r.second);
    else CHECK(r.second >= 0.0 && r.second < 1.0, "fraction " << r.second << " in [0,1)");
    double back, st;
    if (r.second >= 0) { st = r.first < n ? q[r.first + 1] - q[r.first] : 0.0; back = q[r.first] + r.second * st; }
    else { CHECK(r.first > 0, "line"); st = q[r.first] - q[r.first - 1]; back = q[r.first] + r.second * st; }
    double big = std::max(r.first < n ? q[r.first + 1] - q[r.first] : 0.0, r.first > 0 ? q[r.first] - q[r.first - 1] : 0.0);
    CHECK_NEAR(back, x, 1e-12, tol * big * 1.0001 + 1e-12, "cell plus distance gives the point");
    // Away from the lines the cell is the one that contains the point.
    int c = std::min(cellOf(q, x), n - 1);
    double f = (x - q[c]) / (q[c + 1] - q[c]);
    bool away = f > 0.35 && f < 0.65;
    if (f > 0 && f < 1) { g.nontrivial(); g.label(away, "away from the lines"); }
    double nextS = c + 2 <= n ? q[c + 2] - q[c + 1] : 0, prevS = c > 0 ? q[c] - q[c - 1] : 0;
    bool sure = (x - q[c]) > tol * 1.01 * std::max(prevS, q[c + 1] - q[c]) && (q[c + 1] - x) > tol * 1.01 * std::max(nextS, q[c + 1] - q[c]);
    if (sure) {
        if (!approx) { CHECK_EQ(r.first, c, "cell of a point off the lines"); CHECK_NEAR(r.second, f, 1e-9, 1e-9, "fraction"); }
        else if (f < 0.499) { CHECK_EQ(r.first, c, "nearest line"); CHECK_NEAR(r.second, f, 1e-9, 1e-9, "distance"); }
        else if (f > 0.501) { CHECK_EQ(r.first, c + 1, "nearest line"); CHECK_NEAR(r.second, f - 1.0, 1e-9, 1e-9, "distance"); }
    }
}
PROP(lines_are_cells, 16000, 500000, "more than one cell per axis") {
    Lines l[3]; I3 k; V3 p, m; bool multi = true;
    for (int d = 0; d < 3; d++) {
        l[d] = genLines(g, 12); k(d) = g.range(0, (int)l[d].size() - 1); p(d) = l[d][k(d)];
        multi = multi && l[d].size() > 2;
        g << str(l[d]) << " ";
    }
    g << k; g.nontrivial(multi);
    Geometry::Grid3 grid(l);
    bool err = true;
    auto r = grid.getCellPair(p, g.flip(), Geometry::Grid3::tolerance, &err);
    CHECK(!err, "line points are inside");
    CHECK(r.first == k, "cell " << r.first << " of a line point, expected " << k);
    for (int d = 0; d < 3; d++) CHECK_EQ(r.second(d), 0.0, "no distance to the line");
    CHECK(grid.getCell(p) == k, "cell of a line point");
    CHECK(grid.isCell(p), "a point on lines of every axis is a grid point");
    for (int d = 0; d < 3; d++) CHECK_EQ(grid.getPos(k)(d), p(d), "position of the line indices");
    // Moved off the lines of one axis it is no longer one.
    int d = g.range(0, 2); int c = std::min<int>(k(d), (int)l[d].size() - 2);
    m = p; m(d) = l[d][c] + (l[d][c + 1] - l[d][c]) * g.oneOf<double>({0.3, 0.5, 0.7});
    CHECK(!grid.isCell(m), "a point off the lines of axis " << d << " is no grid point");
    std::vector<V3> ps(g.range(1, 3), p);
    CHECK(grid.isCell(ps), "all are grid points");
    ps[g.range(0, (int)ps.size() - 1)] = m;
    CHECK(!grid.isCell(ps), "one is no grid point");
    // Outside there are no grid points.
    m = p; m(d) = g.flip() ? l[d].back() + 1.0 : l[d].front() - 1.0;
    CHECK(!grid.isCell(m), "no grid point outside");
    bool e2 = false; grid.getCellPair(m, g.flip(), Geometry::Grid3::tolerance, &e2);
    CHECK(e2, "outside in any axis is outside");
}
PROP(containing_box, 20000, 600000, "more than one cell per axis") {
    Lines l[3]; V3 p; bool multi = true;
    for (int d = 0; d < 3; d++) {
        l[d] = genLines(g, 12); p(d) = genX(g, l[d], true); multi = multi && l[d].size() > 2;
        g << str(l[d]) << " ";
    }
    g << p; g.nontrivial(multi);
    Geometry::Grid3 grid(l);
    Geometry::BoxI3 bi = grid.getBoxIContaining(p);
    Geometry::BoxR3 br = grid.getBoxRContaining(p);
    for (int d = 0; d < 3; d++) {
        int c = bi.getMin()(d);
        CHECK(c >= 0 && c + 1 < (int)l[d].size(), "cell " << c << " of axis " << d << " in the grid");
        CHECK_EQ(bi.getMax()(d), c + 1, "one cell");
        double slack = 0.0101 * std::max(l[d][c + 1] - l[d][c], c > 0 ? l[d][c] - l[d][c - 1] : 0.0);
        if (c + 2 < (int)l[d].size()) slack = std::max(slack, 0.0101 * (l[d][c + 2] - l[d][c + 1]));
        CHECK(p(d) >= l[d][c] - slack && p(d) <= l[d][c + 1] + slack, "cell [" << l[d][c] << "," << l[d][c + 1] << "] contains " << p(d));
        CHECK_EQ(br.getMin()(d), l[d][c], "box of the cell"); CHECK_EQ(br.getMax()(d), l[d][c + 1], "box of the cell");
    }
}
template <std::size_t D> static void anyDim(Gen& g) {
    Lines l[D]; Math::Vector::Cartesian<double,D> p; bool in = true;
    for (std::size_t d = 0; d < D; d++) { l[d] = genLines(g, 10); p(d) = genX(g, l[d], !g.chance(1, 6)); g << str(l[d]) << " "; }
    g << p; g.nontrivial(l[0].size() > 2);
    Grid<D> grid(l);
    for (std::size_t d = 0; d < D; d++) if (p(d) < l[d].front() || p(d) > l[d].back()) in = false;
    CHECK_EQ(grid.isInto(p), in, "inside the domain");
    auto r = grid.getCellPair(p, false, 1e-6);
    for (std::size_t d = 0; d < D; d++) {
        auto r1 = grid.getCellPair(d, p(d), false, 1e-6);
        CHECK_EQ(r.first(d), r1.first, "cell by axis"); CHECK_EQ(r.second(d), r1.second, "fraction by axis");
        CHECK_EQ(grid.getNumCells()(d), (int)l[d].size() - 1, "number of cells");
        CHECK_EQ(grid.getOrigin()(d), l[d][0], "origin");
        CHECK(grid.getPos(d) == l[d], "lines");
    }
}
PROP(one_dimension, 4000, 100000, "more than one cell") { anyDim<1>(g); }
PROP(two_dimensions, 4000, 100000, "more than one cell") { anyDim<2>(g); }

PROP(consistency, 12000, 300000, "more than one cell in some axis") {
    Lines l[3]; bool multi = false;
    for (int d = 0; d < 3; d++) { l[d] = genLines(g, 9); multi = multi || l[d].size() > 2; g << str(l[d]) << " "; }
    g.nontrivial(multi);
    Geometry::Grid3 a(l), b; b.setPos(l);
    Geometry::Grid3 c(a), grid; grid = b; (void)c;
    double mn = INFINITY; bool reg = true, cart = true;
    for (int d = 0; d < 3; d++) {
        CHECK(grid.getPos(d) == l[d] && a.getPos(d) == l[d] && c.getPos(d) == l[d], "lines are the ones given");
        std::vector<double> st = grid.getStep(d);
        CHECK_EQ(st.size() + 1, l[d].size(), "number of steps");
        bool r1 = true;
        for (std::size_t i = 0; i < st.size(); i++) {
            CHECK_EQ(st[i], l[d][i + 1] - l[d][i], "step"); CHECK_EQ(grid.getStep(d, (int)i), st[i], "single step");
            CHECK_EQ(grid.getPos(d, (int)i), l[d][i], "single line");
            mn = std::min(mn, st[i]);
            double q = st[i] / st[0], k = st[i] / (l[0][1] - l[0][0]);
            if ((std::fabs(q - 1) > 0.009 && std::fabs(q - 1) < 0.011) || (std::fabs(k - 1) > 0.009 && std::fabs(k - 1) < 0.011)) g.discard();
            if (std::fabs(q - 1) > 0.01) r1 = false;
            if (std::fabs(k - 1) > 0.01) cart = false;
        }
        CHECK_EQ(grid.isRegular(d), r1, "axis " << d << " is regular");
        reg = reg && r1;
        CHECK_EQ(grid.getNumCells()(d), (int)l[d].size() - 1, "number of cells");
        CHECK_EQ(grid.getOrigin()(d), l[d][0], "origin");
        CHECK_EQ(grid.getOffset()(d), 0, "offset");
    }
    g.label(reg, "regular"); g.label(cart, "cartesian");
    CHECK_EQ(grid.isRegular(), reg, "regular");
    CHECK_EQ(grid.isCartesian(), cart, "all steps are equal");
    CHECK_EQ(grid.getMinimumSpaceStep(), mn, "smallest step");
    CHECK(!grid.hasZeroSize(), "has cells"); CHECK(Geometry::Grid3().hasZeroSize(), "no cells");
    Geometry::BoxR3 bb = grid.getFullDomainBoundingBox(), b2 = grid.getBoundingBox(grid.getFullDomainBoundingCellBox());
    for (int d = 0; d < 3; d++) {
        CHECK(bb.getMin()(d) == l[d].front() && bb.getMax()(d) == l[d].back(), "bounding box");
        CHECK(b2.getMin()(d) == l[d].front() && b2.getMax()(d) == l[d].back(), "box of the cell bounding box");
    }
    std::vector<V3> all = grid.getPos();
    std::size_t n = l[0].size() * l[1].size() * l[2].size(), k = 0;
    CHECK_EQ(all.size(), n, "number of grid points");
    std::set<std::vector<double>> seen;
    for (k = 0; k < n; k++) seen.insert({all[k](0), all[k](1), all[k](2)});
    CHECK_EQ(seen.size(), n, "grid points are distinct");
    for (auto& s : seen) for (int d = 0; d < 3; d++) CHECK(std::binary_search(l[d].begin(), l[d].end(), s[d]), "grid point on lines");
    // A box of cells.
    I3 i0, i1; for (int d = 0; d < 3; d++) { i0(d) = g.range(0, (int)l[d].size() - 1); i1(d) = g.range(i0(d), (int)l[d].size() - 1); }
    Geometry::BoxR3 bx = grid.getBoundingBox(Geometry::BoxI3(i0, i1));
    for (int d = 0; d < 3; d++) CHECK(bx.getMin()(d) == l[d][i0(d)] && bx.getMax()(d) == l[d][i1(d)], "box of cells");
}
PROP(ranges, 16000, 400000, "some but not all the lines are in range") {
    Lines l[3]; V3 lo, hi; bool part = false;
    std::vector<double> cen[3];
    for (int d = 0; d < 3; d++) {
        l[d] = genLines(g, 8);
        double x = genX(g, l[d], false), y = genX(g, l[d], false);
        lo(d) = std::min(x, y); hi(d) = std::max(x, y);
        g << str(l[d]) << " [" << lo(d) << "," << hi(d) << "] ";
    }
    Geometry::Grid3 grid(l);
    for (int d = 0; d < 3; d++) {
        std::vector<double> want, got = grid.getPosInRange(d, lo(d), hi(d));
        for (std::size_t i = 0; i < l[d].size(); i++) {
            double s = i + 1 < l[d].size() ? l[d][i + 1] - l[d][i] : l[d][i] - l[d][i - 1];
            double q = l[d][i], t = 0.01 * s;
            bool in = q >= lo(d) && q <= hi(d);
            bool near = std::fabs(q - lo(d)) <= 0.99 * t || std::fabs(q - hi(d)) <= 0.99 * t;
            // The relative tolerance does not reach positions at zero.
            bool zero = std::fabs(q) < 1e-9 || std::fabs(lo(d)) < 1e-9 || std::fabs(hi(d)) < 1e-9;
            bool fuzzy = !in && (!near || zero) && (std::fabs(q - lo(d)) <= 1.01 * t || std::fabs(q - hi(d)) <= 1.01 * t);
            if (fuzzy) { if (std::find(got.begin(), got.end(), q) != got.end()) want.push_back(q); }
            else if (in || near) want.push_back(q);
        }
        CHECK(got == want, "lines in the range of axis " << d << ": got " << str(got) << ", expected " << str(want));
        if (!want.empty() && want.size() < l[d].size()) part = true;
        for (std::size_t i = 1; i < want.size(); i++) cen[d].push_back((want[i - 1] + want[i]) / 2);
    }
    g.nontrivial(part);
    std::vector<V3> c = grid.getCenterOfCellsInside(Geometry::BoxR3(lo, hi));
    std::set<std::vector<double>> a, b;
    for (auto& p : c) a.insert({p(0), p(1), p(2)});
    for (double x : cen[0]) for (double y : cen[1]) for (double z : cen[2]) b.insert({x, y, z});
    CHECK_EQ(c.size(), b.size(), "number of centres of cells inside"); CHECK(a == b, "centres of cells inside");
}
