// C08: building and padding grids keeps them valid and preserves the inner lines.
#include "geo.h"
using namespace geo;
using pbt::Gen;

static void increasing(const Lines& l) {
    for (std::size_t i = 1; i < l.size(); i++) CHECK(l[i] > l[i - 1], "lines increase: " << str(l));
}
PROP(from_counts, 16000, 400000, "more than one cell") {
    V3 a, b; I3 n; bool multi = false;
    for (int d = 0; d < 3; d++) {
        a(d) = g.coord(); b(d) = a(d) + g.positive(1e-3, 1e3); n(d) = (int)g.len(1, 60); multi = multi || n(d) > 1;
        if (b(d) <= a(d)) g.discard();
    }
    g << a << b << n; g.nontrivial(multi);
    Geometry::Grid3 grid(Geometry::BoxR3(a, b), n);
    CHECK(grid.getNumCells() == n, "number of cells");
    for (int d = 0; d < 3; d++) {
        Lines l = grid.getPos(d);
        double L = b(d) - a(d);
        increasing(l);
        CHECK_EQ(l[0], a(d), "first line");
        CHECK_NEAR(l.back(), b(d), 1e-12, 1e-12 * L, "last line");
        for (std::size_t i = 0; i < l.size(); i++) CHECK_NEAR(l[i], a(d) + L * i / n(d), 1e-12, 1e-12 * L, "equal cells");
        CHECK(grid.isRegular(d) , "regular");
    }
}
PROP(from_step, 24000, 600000, "more than one cell") {
    V3 a, b, s; bool multi = false; double ratio[3];
    for (int d = 0; d < 3; d++) {
        a(d) = g.coord(); s(d) = g.oneOf<double>({1.0, 0.1, 0.05, 0.25, 0.3, 0.7, 1e-3, 20.0});
        int k = (int)g.len(1, 60); 
        double L;
        if (g.chance(2, 3)) { L = k * s(d); if (g.flip()) s(d) = L / k; ratio[d] = k; }   // fits up to rounding
        else { ratio[d] = k - 1 + 0.02 + 0.96 * g.unit(); L = ratio[d] * s(d); }
        b(d) = a(d) + L; multi = multi || k > 1;
        if (b(d) - a(d) < 1e-4) g.discard();
    }
    g.nontrivial(multi);
    int zero = g.chance(1, 8) ? g.range(0, 2) : -1;
    if (zero >= 0) s(zero) = 0.0;
    g << a << b << s;
    Geometry::BoxR3 box(a, b);
    Geometry::Grid3 grid(box, s);
    CHECK(box == Geometry::BoxR3(a, b), "box unchanged");
    for (int d = 0; d < 3; d++) {
        Lines l = grid.getPos(d);
        if (d == zero) { CHECK_EQ(l.size(), (std::size_t)2, "one cell for a zero step"); continue; }
        increasing(l);
        bool fits = ratio[d] == std::floor(ratio[d]);
        g.label(fits, "fits");
        CHECK_EQ((int)l.size() - 1, (int)std::ceil(ratio[d]), "number of cells on axis " << d << " of a box of " << ratio[d] << " steps");
        CHECK_EQ(l[0], a(d), "first line");
        CHECK(l.back() >= b(d) - 1e-9 * s(d), "the grid covers the box: last line " << l.back() << ", box ends at " << b(d));
        CHECK(l.back() < b(d) + s(d) * (1 - 1e-9), "no needless cell");
        if (fits) CHECK_NEAR(l.back(), b(d), 1e-10, 1e-10, "exactly covers the box");
        for (std::size_t i = 0; i < l.size(); i++) CHECK_NEAR(l[i], a(d) + i * s(d), 1e-12, 1e-12, "equal cells of the given step");
    }
}
PROP(bad_positions, 800, 10000, "a list of lines is empty") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 5);
    Geometry::Grid3 grid(l);
    Lines m[3]; for (int d = 0; d < 3; d++) m[d] = genLines(g, 4);
    int e = g.range(0, 3);
    if (e < 3) { m[e].clear(); g.nontrivial(); CHECK_THROWS(grid.setPos(m), "axis " << e << " without lines"); return; }
    int o = g.range(0, 2); m[o].resize(1); double x = m[o][0];
    grid.setPos(m);
    CHECK_EQ(grid.getNumCells()(o), 1, "a single line makes one cell");
    CHECK(grid.getPos(o, 0) == x && grid.getPos(o, 1) == x, "of no length");
    for (int d = 0; d < 3; d++) if (d != o) CHECK(grid.getPos(d) == m[d], "other axes");
    CHECK_THROWS(Geometry::Grid3().getOrigin(), "origin of a grid without lines");
}

// Padding, against the geometric grading the code documents.
static void padded(const Lines& was, const Lines& is, int b, double pad, double siz, Gen& g) {
    increasing(is);
    CHECK(is.size() >= was.size(), "no line is lost");
    std::size_t add = is.size() - was.size();
    // Original lines, untouched and contiguous.
    std::size_t off = b == 0 ? add : 0;
    for (std::size_t i = 0; i < was.size(); i++)
        CHECK_EQ(is[i + off], was[i], "original line " << i << " after padding bound " << b);
    std::vector<double> st;      // new steps, from the domain outwards
    for (std::size_t k = 0; k < add; k++)
        st.push_back(b == 0 ? is[add - k] - is[add - k - 1] : is[was.size() + k] - is[was.size() + k - 1]);
    double sum = 0; for (double s : st) sum += s;
    double d12 = b == 0 ? was[1] - was[0] : was[was.size() - 1] - was[was.size() - 2];
    if (pad == 0.0 || siz > pad) { CHECK_EQ(add, (std::size_t)0, "nothing is added for no padding, or one smaller than the mesh size"); return; }
    CHECK(add > 0, "a padding adds cells");
    double same = siz == 0.0 || siz <= d12;
    if (siz != 0.0 && std::fabs(siz - d12) < 1e-6 * d12) same = -1;
    g.label(same == 1, "same step"); g.label(same == 0, "graded");
    if (same != 0) {
        if (same == 1 || add > 0) {
            double r = pad / d12;
            for (double s : st) CHECK_NEAR(s, d12, 1e-6, 1e-9, "padding with the step of the bound");
            if (same == 1) CHECK(sum >= pad - 0.0101 * d12 - 1e-9, "padding reached: " << sum << " of " << pad);
            CHECK(sum <= pad + d12 * (1 + 1e-9), "no more than one cell too much");
            (void)r;
        }
        return;
    }
    CHECK_NEAR(st.back(), siz, 1e-9, 1e-9, "the outermost cell has the requested size");
    CHECK(std::fabs(sum - pad) <= std::max(siz, d12) * (1 + 1e-9), "padding reached to within one cell: " << sum << " of " << pad);
    // Steps grow in a constant ratio, starting at the step of the bound.
    double ratio = st.size() > 1 ? st[0] / d12 : 1;
    CHECK(ratio >= 1 - 1e-6, "steps do not shrink outwards");
    for (std::size_t k = 1; k + 1 < st.size(); k++)
        CHECK_NEAR(st[k] / st[k - 1], ratio, 1e-5, 0, "constant growth of the steps");
    for (double s : st) CHECK(s <= 2 * siz, "step " << s << " beyond the requested size " << siz);
    if (add > 3) CHECK(st[add - 2] <= 1.35 * siz, "steps end at the requested size: " << st[add - 2]);
    if (add > 1) CHECK(sum - siz <= pad, "the graded cells fit in the padding");
}
static void genPad(Gen& g, double d12, double& pad, double& siz) {
    switch (g.range(0, 5)) {
    case 0: pad = 0.0; siz = g.flip() ? 0.0 : d12; break;
    case 1: siz = 0.0; pad = d12 * (g.flip() ? (double)g.range(1, 20) : 0.2 + 20 * g.unit()); break;
    case 2: siz = d12 * g.oneOf<double>({0.5, 0.25, 0.9}); pad = siz * (1 + 10 * g.unit()); break;
    case 3: siz = d12 * (1.2 + 3 * g.unit()); pad = siz * (1 + 20 * g.unit()); break;
    case 4: siz = d12 * std::exp(0.2 + 5 * g.unit()); pad = siz * std::exp(5 * g.unit()); break;
    default: siz = d12 * (1 + 3 * g.unit()); pad = siz * 0.99 * g.unit(); break;     // padding smaller than a cell
    }
}
PROP(enlarge_bound, 24000, 500000, "cells were added") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 6, g.oneOf<double>({1.0, 1e-3, 100.0}));
    Geometry::Grid3 grid(l);
    int d = g.range(0, 2), b = g.range(0, 1), n = (int)l[d].size();
    double d12 = b == 0 ? l[d][1] - l[d][0] : l[d][n - 1] - l[d][n - 2], pad, siz;
    genPad(g, d12, pad, siz);
    g << str(l[d]) << " bound " << b << " pad " << pad << " size " << siz;
    if (siz > 0 && pad / siz * 1.0 > 2000) g.discard();
    grid.enlargeBound(axis(d), bound(b), pad, siz);
    padded(l[d], grid.getPos(d), b, pad, siz, g);
    g.nontrivial(grid.getPos(d).size() > l[d].size());
    for (int e = 0; e < 3; e++) if (e != d) CHECK(grid.getPos(e) == l[e], "other axes are untouched");
}
PROP(enlarge, 12000, 300000, "cells were added on two sides or more") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 5);
    Geometry::Grid3 grid(l);
    std::pair<V3,V3> pad, siz; int sides = 0;
    for (int d = 0; d < 3; d++) {
        int n = (int)l[d].size(); double p, s;
        genPad(g, l[d][1] - l[d][0], p, s); if (s > 0 && p / s > 100) p = s * 100; pad.first(d) = p; siz.first(d) = s; sides += p > 0;
        genPad(g, l[d][n - 1] - l[d][n - 2], p, s); if (s > 0 && p / s > 100) p = s * 100; pad.second(d) = p; siz.second(d) = s; sides += p > 0;
        g << str(l[d]) << " ";
    }
    g << pad.first << siz.first << pad.second << siz.second;
    g.nontrivial(sides >= 2);
    grid.enlarge(pad, siz);
    for (int d = 0; d < 3; d++) {
        Lines is = grid.getPos(d);
        auto it = std::find(is.begin(), is.end(), l[d][0]);
        CHECK(it != is.end(), "first original line of axis " << d);
        std::size_t low = (std::size_t)(it - is.begin());
        CHECK(is.size() >= low + l[d].size(), "last original line of axis " << d);
        // One side at a time; a single cell axis pads its upper side from the same cell.
        Lines lowOnly(is.begin(), is.begin() + (long)(low + l[d].size())), upOnly(is.begin() + (long)low, is.end());
        padded(l[d], lowOnly, 0, pad.first(d), siz.first(d), g);
        padded(l[d], upOnly, 1, pad.second(d), siz.second(d), g);
    }
}
PROP(additional_steps, 8000, 200000, "more than one step") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 5);
    Geometry::Grid3 grid(l);
    int d = g.range(0, 2), b = g.range(0, 1);
    std::vector<double> st; int n = (int)g.len(1, 8); for (int i = 0; i < n; i++) st.push_back(g.positive(1e-2, 10));
    g << str(l[d]) << " + " << str(st) << " at " << b; g.nontrivial(n > 1);
    grid.setAdditionalSteps(axis(d), bound(b), st);
    Lines want = l[d];
    for (double s : st) if (b == 1) want.push_back(want.back() + s); else want.insert(want.begin(), want.front() - s);
    CHECK(grid.getPos(d) == want, "lines " << str(grid.getPos(d)) << ", expected " << str(want));
    for (int e = 0; e < 3; e++) if (e != d) CHECK(grid.getPos(e) == l[e], "other axes are untouched");
}
PROP(scaling, 8000, 200000, "the factor is not one") {
    Lines l[3]; for (int d = 0; d < 3; d++) l[d] = genLines(g, 8);
    Geometry::Grid3 grid(l), copy(grid);
    double f = g.positive(1e-6, 1e4); g << f; g.nontrivial(f != 1.0);
    grid.applyScalingFactor(f);
    for (int d = 0; d < 3; d++) {
        CHECK_EQ(grid.getPos(d).size(), l[d].size(), "number of lines");
        for (std::size_t i = 0; i < l[d].size(); i++) CHECK_NEAR(grid.getPos(d, (int)i), l[d][i] * f, 1e-14, 0, "scaled line");
        CHECK(copy.getPos(d) == l[d], "copy is independent");
    }
}
