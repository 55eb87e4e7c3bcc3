// C06: axis-aligned boxes behave as closed point sets.
#include "pbt.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
#include <algorithm>
using namespace SEMBA;
using Geometry::Box;
typedef Math::Vector::Cartesian<Math::Real,3> V3;
using pbt::Gen;

// Reference: closed interval product; empty when lo > hi anywhere.
template <class T, std::size_t D> struct Ref {
    double lo[D], hi[D];
    bool empty() const { for (std::size_t d = 0; d < D; d++) if (lo[d] > hi[d]) return true; return false; }
    bool has(const double* p) const {
        for (std::size_t d = 0; d < D; d++) if (p[d] < lo[d] || p[d] > hi[d]) return false;
        return true;
    }
};
template <class T> T lattice(Gen& g, double scale);
template <> double lattice<double>(Gen& g, double s) { return s * g.integer(-6, 6) / 2.0; }
template <> Math::Int lattice<Math::Int>(Gen& g, double) { return g.integer(-6, 6); }

template <class T, std::size_t D>
Box<T,D> genBox(Gen& g, Ref<T,D>& r, double s) {
    Math::Vector::Cartesian<T,D> a, b;
    for (std::size_t d = 0; d < D; d++) {
        a(d) = lattice<T>(g, s);
        b(d) = g.chance(1, 4) ? a(d) : lattice<T>(g, s);
        r.lo[d] = std::min(a(d), b(d)); r.hi[d] = std::max(a(d), b(d));
        g << "[" << a(d) << "," << b(d) << "]";
    }
    g << " ";
    if (g.flip()) return Box<T,D>(a, b);
    if (g.flip()) return Box<T,D>(std::make_pair(a, b));
    Box<T,D> res; res.set(std::make_pair(a, b));
    return res;
}
template <class T, std::size_t D>
void same(const Box<T,D>& b, const Ref<T,D>& r, const char* what) {
    for (std::size_t d = 0; d < D; d++) {
        CHECK(b.getMin()(d) == r.lo[d] && b.getMax()(d) == r.hi[d], what << ": axis " << d << " is ["
              << b.getMin()(d) << "," << b.getMax()(d) << "], expected [" << r.lo[d] << "," << r.hi[d] << "]");
    }
}
template <class T, std::size_t D> void sets(Gen& g) {
    const double s = g.oneOf<double>({1.0, 1e-3, 0.1, 1e4});
    Ref<T,D> ra, rb;
    Box<T,D> a = genBox<T,D>(g, ra, s), b;
    if (g.chance(1, 8)) { b = a; rb = ra; }
    else if (g.chance(1, 2)) {       // faces of the second box near those of the first
        Math::Vector::Cartesian<T,D> p, q;
        for (std::size_t d = 0; d < D; d++) {
            const bool in = std::is_integral<T>::value;
            const double h = in ? 1 : s / 2;
            int lo = (int)std::lround(ra.lo[d] / h), hi = (int)std::lround(ra.hi[d] / h);
            auto at = [&](int k) { return (T)(in ? (double)k : s * k / 2.0); };
            p(d) = at(lo + g.integer(-1, 1)); q(d) = at(hi + g.integer(-1, 1));
            if (g.chance(1, 10)) { p(d) = (T)ra.hi[d]; q(d) = at(hi + 1); }     // touching
            rb.lo[d] = std::min(p(d), q(d)); rb.hi[d] = std::max(p(d), q(d));
            g << "[" << p(d) << "," << q(d) << "]";
        }
        b = Box<T,D>(p, q);
    } else b = genBox<T,D>(g, rb, s);
    same(a, ra, "construction"); same(b, rb, "construction");
    Ref<T,D> ri, ru;
    bool meet = true, in = true, strictIn = true, eq = true;
    for (std::size_t d = 0; d < D; d++) {
        ri.lo[d] = std::max(ra.lo[d], rb.lo[d]); ri.hi[d] = std::min(ra.hi[d], rb.hi[d]);
        ru.lo[d] = std::min(ra.lo[d], rb.lo[d]); ru.hi[d] = std::max(ra.hi[d], rb.hi[d]);
        if (ri.lo[d] > ri.hi[d]) meet = false;
        if (rb.lo[d] < ra.lo[d] || rb.hi[d] > ra.hi[d]) in = false;
        if (!(rb.lo[d] > ra.lo[d] && rb.hi[d] < ra.hi[d])) strictIn = false;
        if (rb.lo[d] != ra.lo[d] || rb.hi[d] != ra.hi[d]) eq = false;
    }
    g.label(meet, "meet"); g.label(in, "included"); g.label(strictIn, "strictly inside"); g.label(eq, "equal");
    g.nontrivial(!eq);
    CHECK_EQ(a.isIntersected(b), meet, "intersection test");
    CHECK_EQ(b.isIntersected(a), meet, "intersection test is symmetric");
    CHECK_EQ(b <= a, in, "inclusion");
    CHECK_EQ(a > b, strictIn, "strict inclusion");
    CHECK_EQ(b < a, strictIn, "strict inclusion, reversed");
    CHECK_EQ(a == b, eq, "equality");
    Box<T,D> i = a.intersect(b), j = b.intersect(a), u = a, v = a, w = a;
    u += b; v << b;
    w << b.getMin(); w << b.getMax();
    if (meet) { same(i, ri, "intersection"); same(j, ri, "intersection"); }
    same(u, ru, "bounding with +="); same(v, ru, "bounding with << box"); same(w, ru, "bounding with << points");
    same(a, ra, "left operand unchanged"); same(b, rb, "right operand unchanged");
    // Membership.
    for (int k = 0; k < 6; k++) {
        Math::Vector::Cartesian<T,D> p; double q[D];
        for (std::size_t d = 0; d < D; d++) { p(d) = lattice<T>(g, s); q[d] = p(d); }
        CHECK_EQ(a.isInnerPoint(p), ra.has(q), "point membership");
        if (meet) CHECK_EQ(i.isInnerPoint(p), ra.has(q) && rb.has(q), "membership of the intersection");
        else CHECK(!(i.isInnerPoint(p)), "the intersection of disjoint boxes contains no point");
        if (ra.has(q) || rb.has(q)) CHECK(u.isInnerPoint(p), "membership of the bounding box");
    }
    for (std::size_t d = 0; d < D; d++) {
        CHECK_EQ((double)a.getLength()(d), (double)((T)ra.hi[d] - (T)ra.lo[d]), "length");
        CHECK_EQ((double)a.getBound(Math::Constants::L)(d), ra.lo[d], "lower bound");
        CHECK_EQ((double)a.getBound(Math::Constants::U)(d), ra.hi[d], "upper bound");
    }
    int diff = 0; for (std::size_t d = 0; d < D; d++) diff += ra.lo[d] != ra.hi[d];
    CHECK_EQ(a.isPoint(), diff == 0, "is a point"); CHECK_EQ(a.isLine(), diff == 1, "is a line");
    CHECK_EQ(a.isSurface(), diff == 2, "is a surface"); CHECK_EQ(a.isVolume(), diff == 3, "is a volume");
}
PROP(sets_real1, 12000, 360000, "the two boxes differ") { sets<double,1>(g); }
PROP(sets_real2, 12000, 360000, "the two boxes differ") { sets<double,2>(g); }
PROP(sets_real3, 48000, 1800000, "the two boxes differ") { sets<double,3>(g); }
PROP(sets_int2, 12000, 360000, "the two boxes differ") { sets<Math::Int,2>(g); }
PROP(sets_int3, 30000, 1200000, "the two boxes differ") { sets<Math::Int,3>(g); }

// A bounding box grown from nothing is the tightest one; unbounded and empty boxes.
PROP(hull_and_unbounded, 18000, 600000, "at least two distinct points") {
    int n = (int)g.len(1, 12);
    Geometry::BoxR3 h; Ref<double,3> r;
    for (int d = 0; d < 3; d++) { r.lo[d] = INFINITY; r.hi[d] = -INFINITY; }
    Geometry::BoxR3 inf; inf.setInfinity();
    std::vector<V3> ps;
    for (int k = 0; k < n; k++) {
        V3 p;
        for (int d = 0; d < 3; d++) { p(d) = g.coord(); r.lo[d] = std::min(r.lo[d], p(d)); r.hi[d] = std::max(r.hi[d], p(d)); }
        g << p << " ";
        CHECK(inf.isInnerPoint(p), "unbounded box contains every point");
        if (k == 0) CHECK(!h.isInnerPoint(p), "box of nothing contains no point");
        h << p; ps.push_back(p);
        same(h, r, "hull");
    }
    for (auto& p : ps) CHECK(h.isInnerPoint(p), "hull contains its points");
    g.nontrivial(!h.isPoint());
    Geometry::BoxR3 none, acc;
    acc += h;
    same(acc, r, "union with nothing");
    CHECK(h <= inf, "anything is inside the unbounded box");
    CHECK(h.isIntersected(inf) && inf.isIntersected(h), "unbounded box meets everything");
    CHECK(!h.isIntersected(none) && !none.isIntersected(h), "box of nothing meets nothing");
    same(h.intersect(inf), r, "intersection with everything");
    // An unbounded box on some sides only.
    V3 a = h.getMin(), b = h.getMax();
    int ax = g.range(0, 2); bool up = g.flip();
    if (up) b(ax) = INFINITY; else a(ax) = -INFINITY;
    Geometry::BoxR3 half(a, b);
    CHECK(h <= half, "half unbounded box includes the box");
    V3 far = ps[0]; far(ax) += up ? 1e6 : -1e6;
    CHECK(half.isInnerPoint(far), "half unbounded box extends");
    far = ps[0]; far(ax) = up ? a(ax) - 1.0 : b(ax) + 1.0;
    CHECK(!half.isInnerPoint(far), "half unbounded box is bounded on the other side");
}

PROP(corners, 30000, 1200000, "not a single point") {
    Ref<double,3> r; double s = g.oneOf<double>({1.0, 1e-3, 100.0});
    Geometry::BoxR3 a = genBox<double,3>(g, r, s);
    std::vector<int> fr; for (int d = 0; d < 3; d++) if (r.lo[d] != r.hi[d]) fr.push_back(d);
    g.nontrivial(!fr.empty());
    g.label(fr.size() == 1, "line"); g.label(fr.size() == 2, "surface"); g.label(fr.size() == 3, "volume");
    std::vector<V3> pos = a.getPos();
    CHECK_EQ(pos.size(), (std::size_t)1 << fr.size(), "number of corners");
    std::set<std::vector<double>> got, want;
    for (auto& p : pos) got.insert({p(0), p(1), p(2)});
    for (int m = 0; m < 8; m++) {
        std::vector<double> c(3);
        for (int d = 0; d < 3; d++) c[d] = (m >> d & 1) ? r.hi[d] : r.lo[d];
        want.insert(c);
    }
    CHECK(got == want, "set of corners");
    if (fr.size() >= 2) {       // corners go around a face (two faces for a volume)
        for (std::size_t f = 0; f < pos.size(); f += 4)
            for (std::size_t k = 0; k < 4; k++) {
                int diff = 0;
                for (int d = 0; d < 3; d++) diff += pos[f + k](d) != pos[f + (k + 1) % 4](d);
                CHECK_EQ(diff, 1, "consecutive corners of a face are joined by an edge");
            }
        if (fr.size() == 3) for (std::size_t k = 0; k < 4; k++) {
            int diff = 0;
            for (int d = 0; d < 3; d++) diff += pos[k](d) != pos[k + 4](d);
            CHECK_EQ(diff, 1, "opposite faces list their corners in the same order");
        }
    }
    if (fr.size() == 1) CHECK_EQ((int)a.getDirection(), fr[0], "direction of a line");
    else CHECK_THROWS(a.getDirection(), "direction of something that is not a line");
    if (fr.size() == 2) CHECK_EQ((int)a.getNormal(), 3 - fr[0] - fr[1], "normal of a surface");
    else CHECK_THROWS(a.getNormal(), "normal of something that is not a surface");
    for (int d = 0; d < 3; d++) for (int b = 0; b < 2; b++) {
        auto ax = Math::Constants::CartesianAxis(d); auto bd = Math::Constants::CartesianBound(b);
        std::vector<V3> q = a.getPosOfBound(ax, bd);
        CHECK_EQ(q.size(), (std::size_t)4, "corners of a bound");
        std::set<std::vector<double>> gs, ws;
        for (auto& p : q) gs.insert({p(0), p(1), p(2)});
        for (auto& c : want) if (c[d] == (b ? r.hi[d] : r.lo[d])) ws.insert(c);
        CHECK(gs == ws, "corners of bound " << b << " of axis " << d);
        if (fr.size() == 3) {
            Geometry::BoxR3 f = a.getBoundAsBox(ax, bd);
            Ref<double,3> rf = r; rf.lo[d] = rf.hi[d] = b ? r.hi[d] : r.lo[d];
            same(f, rf, "bound as a box");
            CHECK_EQ((int)f.getNormal(), d, "normal of a bound");
        }
    }
}

PROP(scale_convert, 18000, 600000, "scaled by a factor different from one") {
    Ref<double,3> r; Geometry::BoxR3 a = genBox<double,3>(g, r, 1.0);
    double f = g.positive(1e-6, 1e6); g << " x" << f;
    g.nontrivial(f != 1.0);
    Geometry::BoxR3 b = a; b.scale(f);
    for (int d = 0; d < 3; d++) {
        CHECK_NEAR(b.getMin()(d), r.lo[d] * f, 1e-14, 0, "scaled lower corner");
        CHECK_NEAR(b.getMax()(d), r.hi[d] * f, 1e-14, 0, "scaled upper corner");
    }
    same(a, r, "original of a scaled copy");
    Ref<Math::Int,3> ri; Geometry::BoxI3 i = genBox<Math::Int,3>(g, ri, 1.0);
    Geometry::BoxR3 c(i), e; e = i;
    for (int d = 0; d < 3; d++) {
        CHECK(c.getMin()(d) == ri.lo[d] && c.getMax()(d) == ri.hi[d], "conversion from integers");
        CHECK(e.getMin()(d) == ri.lo[d] && e.getMax()(d) == ri.hi[d], "assignment from integers");
    }
    Geometry::BoxI3 back(c); same(back, ri, "conversion to integers");
    i = i; same(i, ri, "self assignment");
}

// Cutting: the pieces are inside the box, tile it and are cut at every line.
static void tiles(const Geometry::BoxR3& a, const std::vector<Geometry::BoxR3>& v,
                  const std::vector<double> cuts[3], double slack, bool exact = false) {
    CHECK(!v.empty(), "a cut box has pieces");
    double dim[3], total = 0, ref = 1;
    for (int d = 0; d < 3; d++) dim[d] = a.getLength()(d);
    for (int d = 0; d < 3; d++) if (dim[d] > 0) ref *= dim[d];
    for (std::size_t k = 0; k < v.size(); k++) {
        double m = 1;
        for (int d = 0; d < 3; d++) {
            double lo = v[k].getMin()(d), hi = v[k].getMax()(d);
            CHECK(lo >= a.getMin()(d) - slack && hi <= a.getMax()(d) + slack, "piece " << k << " [" << lo << "," << hi
                  << "] leaves the box on axis " << d);
            if (dim[d] > 0) m *= hi - lo;
            for (double c : cuts[d])
                CHECK(!(c > lo + slack && c < hi - slack), "piece " << k << " is not cut at " << c << " on axis " << d);
        }
        total += m;
    }
    if (exact) for (auto& b : v) for (int d = 0; d < 3; d++) for (int k = 0; k < 2; k++) {
        double x = k ? b.getMax()(d) : b.getMin()(d);
        bool ok = std::fabs(x - a.getMin()(d)) < 1e-9 || std::fabs(x - a.getMax()(d)) < 1e-9;
        for (double c : cuts[d]) if (std::fabs(x - c) < 1e-9) ok = true;
        CHECK(ok, "piece is cut at " << x << " on axis " << d << ", which is no line");
    }
    CHECK_NEAR(total, ref, 1e-9, 0, "the measures of the pieces add up");
    for (std::size_t k = 0; k < v.size(); k++) for (std::size_t l = k + 1; l < v.size(); l++) {
        bool overlap = true; bool degenerate = false;
        for (int d = 0; d < 3; d++) {
            if (dim[d] == 0) continue;
            double lo = std::max(v[k].getMin()(d), v[l].getMin()(d)), hi = std::min(v[k].getMax()(d), v[l].getMax()(d));
            if (hi - lo <= slack) overlap = false;
        }
        (void)degenerate;
        bool allFlat = dim[0] == 0 && dim[1] == 0 && dim[2] == 0;
        if (!allFlat) CHECK(!overlap, "pieces " << k << " and " << l << " overlap");
        else FAIL("a point was cut in several pieces");
    }
}
PROP(chop_step, 18000, 360000, "cut into more than one piece") {
    Ref<double,3> r; double s = g.oneOf<double>({1.0, 1.0, 0.1, 10.0});
    Geometry::BoxR3 a = genBox<double,3>(g, r, s);
    V3 st; std::vector<double> cuts[3];
    for (int d = 0; d < 3; d++) {
        st(d) = g.chance(1, 6) ? 0.0 : s * g.oneOf<double>({0.5, 1.0, 2.0, 0.7, 3.0, 10.0});
        // Pieces are cut at the multiples of the step (no cut: step zero or larger than the box).
        if (st(d) > 0 && st(d) <= r.hi[d] - r.lo[d] && r.hi[d] > r.lo[d])
            for (double k = std::ceil(r.lo[d] / st(d)); k * st(d) <= r.hi[d]; k++) cuts[d].push_back(k * st(d));
    }
    g << "step " << st;
    double n = 1; for (int d = 0; d < 3; d++) n *= cuts[d].size() + 1;
    if (n > 700) g.discard();
    std::vector<Geometry::BoxR3> v = a.chop(st);
    g.nontrivial(v.size() > 1);
    tiles(a, v, cuts, 1e-9 * s);
    for (auto& b : v) for (int d = 0; d < 3; d++)
        if (st(d) > 0) CHECK(b.getLength()(d) <= st(d) * (1 + 1e-9), "pieces are at most one step long");
}
PROP(chop_grid, 18000, 360000, "cut into more than one piece") {
    Ref<double,3> r; Geometry::BoxR3 a = genBox<double,3>(g, r, 1.0);
    std::vector<double> pos[3];
    double n = 1;
    for (int d = 0; d < 3; d++) {
        double p = -4.0 + g.integer(-2, 2) * (g.flip() ? 0.5 : 0.37);
        int k = (int)g.many(2, 10, 100);
        for (int i = 0; i < k; i++) {
            double q = p;
            // A line may miss the face of the box by less than a hundredth of a cell.
            if (g.chance(1, 8)) q += g.oneOf<double>({1e-3, -1e-3, 1e-12, -1e-12});
            pos[d].push_back(q);
            p += g.oneOf<double>({0.5, 1.0, 1.5, 0.25, 0.8});
        }
        n *= k;
        g << "{"; for (double x : pos[d]) g << x << " "; g << "} ";
    }
    if (n > 600) g.discard();
    Geometry::Grid3 grid(pos);
    std::vector<Geometry::BoxR3> v = a.chop(grid);
    g.nontrivial(v.size() > 1);
    tiles(a, v, pos, 5e-3, true);
    for (auto& b : v) CHECK(b <= a || !(b > a), "piece inside");
}
