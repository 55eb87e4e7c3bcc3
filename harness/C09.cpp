// C09: structured positions are equivalent to physical positions.
#include "geo.h"
#include "geometry/coordinate/Coordinate.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#include <memory>
using namespace geo;
using namespace SEMBA::Geometry;
using pbt::Gen;

struct GridSpec { Lines l[3]; Grid3 grid; bool multi; };
static GridSpec genGrid(Gen& g, int cells) {
    GridSpec s; s.multi = true;
    double u = g.oneOf<double>({1.0, 1e-3, 30.0});
    for (int d = 0; d < 3; d++) { s.l[d] = genLines(g, cells, u); s.multi = s.multi && s.l[d].size() > 2; g << str(s.l[d]) << " "; }
    s.grid = Grid3(s.l);
    return s;
}
static I3 genIdx(Gen& g, const GridSpec& s) {
    I3 k; for (int d = 0; d < 3; d++) k(d) = g.range(0, (int)s.l[d].size() - 1);
    return k;
}
static double eps(const Lines& l) { return 1e-13 * (std::fabs(l.front()) + std::fabs(l.back())); }
static bool exact(const V3& a, const V3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }

PROP(grid_point_round_trip, 20000, 600000, "more than one cell on every axis") {
    GridSpec s = genGrid(g, 12); I3 k = genIdx(g, s);
    std::size_t id = (std::size_t)g.range(0, 1000);
    g << k << " id " << id; g.nontrivial(s.multi);
    for (int d = 0; d < 3; d++) g.label(k(d) == (int)s.l[d].size() - 1, "on the upper bound");
    CoordI3 c(CoordId(id), k);
    CHECK(c.pos() == k && c.getId() == CoordId(id), "built as given");
    std::unique_ptr<CoordR3> r(c.toUnstructured(s.grid));
    CHECK(r->getId() == c.getId(), "identifier in physical form");
    for (int d = 0; d < 3; d++) CHECK_EQ(r->pos()(d), s.l[d][k(d)], "physical position is the line");
    CHECK(r->isStructured(s.grid), "a point on lines is structured");
    std::unique_ptr<CoordI3> b(r->toStructured(s.grid));
    CHECK(b->getId() == c.getId() && b->pos() == k, "back: " << b->pos() << " expected " << k);
    CHECK(*b == c && !(*b != c), "the same coordinate");
    std::unique_ptr<CoordR3> r2(b->toUnstructured(s.grid));
    CHECK(exact(r2->pos(), r->pos()), "physical form again");
    // Forms that are already there.
    std::unique_ptr<CoordI3> cc(c.toStructured(s.grid)); CHECK(*cc == c, "structured form of a structured one");
    std::unique_ptr<CoordR3> rr(r->toUnstructured(s.grid)); CHECK(exact(rr->pos(), r->pos()) && rr->getId() == r->getId(), "physical form of a physical one");
    CHECK(c.pos() == k && c.getId() == CoordId(id), "the source is unchanged");
}
PROP(point_to_grid, 30000, 800000, "more than one cell on every axis and the point off the lines") {
    GridSpec s = genGrid(g, 10); V3 p; bool off = false, fuzzy = false, onl = true;
    I3 want; double step[3];
    for (int d = 0; d < 3; d++) {
        const Lines& l = s.l[d]; int i = g.range(0, (int)l.size() - 2); double st = l[i + 1] - l[i];
        double f = g.oneOf<double>({0.0, 1.0, 0.3, 0.7, 0.1, 0.9, 0.45, 0.55});
        if (g.chance(1, 3)) f = g.unit();
        p(d) = f == 1.0 ? l[i + 1] : l[i] + f * st;
        step[d] = st; want(d) = f < 0.5 ? i : i + 1;
        if (std::fabs(f - 0.5) < 1e-6) fuzzy = true;
        if (f > 0 && f < 1) off = true;
        // The tolerance is a hundredth of the cell below the line.
        double t = 0.0101 * std::max(st, i > 0 ? l[i] - l[i - 1] : 0.0);
        if (p(d) - l[i] > t && l[i + 1] - p(d) > t) onl = false; else if (f != 0 && f != 1) fuzzy = true;
    }
    if (fuzzy) g.discard();
    std::size_t id = (std::size_t)g.range(1, 9);
    g << p; g.nontrivial(s.multi && off);
    CoordR3 c(CoordId(id), p);
    CHECK_EQ(c.isStructured(s.grid), onl, "the point is on lines of every axis");
    std::unique_ptr<CoordI3> k(c.toStructured(s.grid));
    CHECK(k->getId() == c.getId(), "identifier");
    CHECK(k->pos() == want, "nearest grid point " << want << ", got " << k->pos());
    // Cell and fraction together lose nothing.
    bool err = true;
    auto pr = s.grid.getCellPair(p, false, 1e-9, &err);
    CHECK(!err, "inside");
    CoordRel rel(CoordId(id), pr.first, pr.second);
    std::unique_ptr<CoordR3> back(rel.toUnstructured(s.grid));
    for (int d = 0; d < 3; d++) CHECK_NEAR(back->pos()(d), p(d), 1e-12, 2e-9 * step[d] + eps(s.l[d]), "cell plus fraction is the point");
    CHECK(back->getId() == c.getId(), "identifier of the relative position");
}
PROP(relative, 30000, 800000, "more than one cell and an offset inside a cell") {
    GridSpec s = genGrid(g, 10); I3 k; V3 f, tot; bool off = false;
    for (int d = 0; d < 3; d++) {
        int n = (int)s.l[d].size() - 1;
        k(d) = g.range(0, n);
        f(d) = k(d) == n ? 0.0 : g.oneOf<double>({0.0, 0.5, 0.25, 0.75, 0.1, 0.999});
        if (k(d) < n && g.chance(1, 3)) f(d) = g.unit();
        if (f(d) > 0) off = true;
        tot(d) = k(d) + f(d);
    }
    std::size_t id = (std::size_t)g.range(1, 99);
    int how = g.range(0, 2);
    g << k << " + " << f << " how " << how; g.nontrivial(s.multi && off);
    CoordRel c = how == 0 ? CoordRel(CoordId(id), k, f) : how == 1 ? CoordRel(CoordId(id), tot) : CoordRel(tot);
    if (how == 2) c.setId(CoordId(id));
    for (int d = 0; d < 3; d++) {
        // Building from a sum may round to the next line.
        if (how == 0) { CHECK_EQ(c.pos()(d), k(d), "cell"); CHECK_EQ(c.rel()(d), f(d), "offset"); }
        else { CHECK_EQ(c.pos()(d), (int)std::floor(tot(d)), "cell"); CHECK_NEAR(c.rel()(d), tot(d) - std::floor(tot(d)), 1e-12, 1e-12, "offset"); }
        CHECK(c.rel()(d) >= 0 && c.rel()(d) < 1, "offset inside the cell");
    }
    CHECK_EQ(c.getId().toInt(), id, "identifier");
    std::unique_ptr<CoordR3> r(c.toUnstructured(s.grid));
    CHECK(r->getId() == c.getId(), "identifier in physical form");
    V3 want;
    for (int d = 0; d < 3; d++) {
        double st = k(d) + 1 < (int)s.l[d].size() ? s.l[d][k(d) + 1] - s.l[d][k(d)] : 0.0;
        want(d) = s.l[d][k(d)] + f(d) * st;
        CHECK_NEAR(r->pos()(d), want(d), 1e-12, 1e-12 * st + eps(s.l[d]), "axis " << d << " of the physical position");
    }
    CHECK(c.is<CoordI3>() && c.is<CoordRel>() && !c.is<CoordConf>(), "kind");
    // Copies.
    std::unique_ptr<CoordRel> cl(c.clone()); CoordRel cp(c), as; as = c;
    for (const CoordRel* q : {(const CoordRel*)cl.get(), (const CoordRel*)&cp, (const CoordRel*)&as}) {
        CHECK(q->pos() == c.pos() && exact(q->rel(), c.rel()) && q->getId() == c.getId(), "copy keeps cell, offset and identifier");
        CHECK(*q == c && c == *q, "copy is equal");
    }
    cl->rel()(g.range(0, 2)) += 0.125; CHECK(!(*cl == c) && exact(cp.rel(), c.rel()), "copy is independent");
}
PROP(conformal, 30000, 800000, "more than one cell and a positive length") {
    GridSpec s = genGrid(g, 10); I3 k = genIdx(g, s);
    int dir = g.range(0, 2); double len = 0;
    if (k(dir) + 1 < (int)s.l[dir].size()) { len = g.oneOf<double>({0.0, 0.5, 0.25, 1.0, 0.1, 1e-3}); if (g.chance(1, 3)) len = g.unit(); }
    if (len > 0 && len < 1e-6) len = 0;
    std::size_t id = (std::size_t)g.range(1, 99);
    g << k << " dir " << dir << " len " << len; g.nontrivial(s.multi && len > 0);
    CoordConf c(CoordId(id), k, axis(dir), len);
    CHECK(c.pos() == k && c.getDir() == axis(dir) && c.getLength() == len && c.getId() == CoordId(id), "built as given");
    std::unique_ptr<CoordR3> r(c.toUnstructured(s.grid));
    CHECK(r->getId() == c.getId(), "identifier in physical form");
    for (int d = 0; d < 3; d++) {
        double w = s.l[d][k(d)];
        if (d == dir && len > 0) w += len * (s.l[d][k(d) + 1] - s.l[d][k(d)]);
        CHECK_NEAR(r->pos()(d), w, 1e-12, eps(s.l[d]), "axis " << d << " of the physical position");
    }
    std::unique_ptr<CoordConf> cl(c.clone()); CoordConf cp(c), as; as = c;
    for (const CoordConf* q : {(const CoordConf*)cl.get(), (const CoordConf*)&cp, (const CoordConf*)&as}) {
        CHECK(q->pos() == k && q->getDir() == axis(dir) && q->getLength() == len && q->getId() == c.getId(), "copy keeps everything");
        CHECK(*q == c && c == *q, "copy is equal");
    }
    CoordConf e(axis(dir), len); e.setId(CoordId(id)); e.pos() = k;
    CHECK(e.getDir() == axis(dir) && e.getLength() == len && e == c, "built without a position");
    // Back to the edge position.
    std::unique_ptr<CoordI3> b(r->toStructured(s.grid));
    if (len < 0.49) CHECK(b->pos() == k, "the nearest grid point is the start of the edge: " << b->pos());
    else if (len > 0.51) { I3 k1 = k; k1(dir)++; CHECK(b->pos() == k1, "the nearest grid point is the end of the edge"); }
}
// Equality: kind, identifier, position and the offsets.
struct AnyC { int kind; std::size_t id; I3 k; V3 p; int dir; double len; };
static AnyC genAny(Gen& g) {
    AnyC a; a.kind = g.range(0, 3); a.id = (std::size_t)g.range(1, 2);
    for (int d = 0; d < 3; d++) { a.k(d) = g.range(0, 1); a.p(d) = g.oneOf<double>({0.0, 0.5}); }
    a.dir = g.range(0, 2); a.len = g.oneOf<double>({0.0, 0.5});
    return a;
}
static Coord* build(const AnyC& a) {
    switch (a.kind) {
    case 0: return new CoordR3(CoordId(a.id), a.p);
    case 1: return new CoordI3(CoordId(a.id), a.k);
    case 2: return new CoordRel(CoordId(a.id), a.k, a.p);
    default: return new CoordConf(CoordId(a.id), a.k, axis(a.dir), a.len);
    }
}
static bool same(const AnyC& a, const AnyC& b) {
    if (a.kind != b.kind || a.id != b.id) return false;
    bool k = a.k(0) == b.k(0) && a.k(1) == b.k(1) && a.k(2) == b.k(2);
    switch (a.kind) {
    case 0: return exact(a.p, b.p);
    case 1: return k;
    case 2: return k && exact(a.p, b.p);
    default: return k && a.dir == b.dir && a.len == b.len;
    }
}
PROP(equality, 40000, 1000000, "the two coordinates are of one kind") {
    AnyC a = genAny(g), b = a;
    switch (g.range(0, 8)) {                        // one field changed
    case 0: break;
    case 1: b.id = 3 - a.id; break;
    case 2: { int d = g.range(0, 2); b.k(d) = 1 - a.k(d); break; }
    case 3: { int d = g.range(0, 2); b.p(d) = a.p(d) + g.oneOf<double>({0.5, 1e-6}); break; }
    case 4: b.dir = (a.dir + 1) % 3; break;
    case 5: b.len = 0.75; break;
    case 6: b.kind = (a.kind + 1) % 4; break;
    case 7: b.k(0)++; b.k(1)--; break;              // changes that may cancel out
    default: b = genAny(g);
    }
    std::unique_ptr<Coord> x(build(a)), y(build(b));
    bool w = same(a, b);
    g << "kinds " << a.kind << "," << b.kind << " ids " << a.id << "," << b.id << " k " << a.k << "," << b.k << " p " << a.p << "," << b.p << " dir " << a.dir << "," << b.dir << " len " << a.len << "," << b.len;
    g.nontrivial(a.kind == b.kind); g.label(w, "equal"); g.label(!w, "different");
    CHECK_EQ(*x == *y, w, "equality");
    CHECK_EQ(*y == *x, w, "equality is symmetric");
    CHECK_EQ(*x != *y, !w, "inequality");
}

// A position as a cell and the parts of it that lie beyond its lower corner.
typedef Math::CVecI3Fractional Frac;
static Frac genFrac(Gen& g) {
    I3 c; V3 l;
    for (int d = 0; d < 3; d++) { c(d) = g.range(-40, 40); l(d) = g.chance(1, 3) ? 0.0 : g.chance(1, 3) ? g.oneOf<double>({0.5, 0.25, 0.75, 0.125, 0.999, 0.001}) : 0.001 + 0.998 * g.unit(); }
    return Frac(c, l);
}
static bool same(const Frac& a, const Frac& b) { bool r = true; for (int d = 0; d < 3; d++) r = r && a(d) == b(d) && a.len_(d) == b.len_(d); return r; }
static int rangeOf(const Frac& a) { int n = 0; for (int d = 0; d < 3; d++) n += a.len_(d) != 0; return n; }
PROP(fractional, 20000, 600000, "a position inside a cell, a side or an edge") {
    Frac a = genFrac(g), b = genFrac(g); const Frac a0 = a, b0 = b; int n = rangeOf(a);
    g << a.toStr() << " and " << b.toStr(); g.nontrivial(n > 0); static const char* at[] = {"on a node", "on an edge", "on a side", "inside"}; g.label(at[n]);
    CHECK(a.getRangeBase() == (std::size_t)n, "directions off the lines: " << a.getRangeBase());
    int off = -1, on = -1; for (int d = 0; d < 3; d++) (a.len_(d) != 0 ? off : on) = d;
    CHECK((int)a.getDirBase() == (n == 1 ? off + 1 : n == 2 ? on + 1 : 0), "direction of the edge or of the normal of the side: " << a.getDirBase());
    I3 o = I3(g.range(-9, 9), g.range(-9, 9), g.range(-9, 9)); V3 near = a.getRelativePosNearestNode(), mean = a.meanRelativePoint(b);
    for (int d = 0; d < 3; d++) {
        CHECK_NEAR(a.getScalePos()(d), a(d) + a.len_(d), 0, 1e-13, "position in cells"); CHECK_NEAR(a.getScalePos(o)(d), a(d) - o(d) + a.len_(d), 0, 1e-13, "position in cells from an origin");
        CHECK_EQ(near(d), a.len_(d) > 0.5 ? 1.0 : 0.0, "nearest node"); CHECK_NEAR(mean(d), 0.5 * (a.len_(d) + b.len_(d)), 0, 1e-15, "middle");
    }
    { Frac c = a, e; e = a; CHECK(same(c, a) && same(e, a) && c == a && e == a, "copies"); int d = g.range(0, 2); if (g.flip()) c(d) += 1; else c.len_(d) = c.len_(d) == 0 ? 0.5 : c.len_(d) / 2; CHECK(!(c == a), "another position is equal"); }
    CHECK(same(a, a0) && same(b, b0), "changed by questions");
    // Lengths of a cell or almost none.
    { Frac c = a; V3 was; for (int d = 0; d < 3; d++) { if (g.chance(1, 4)) c.len_(d) = g.oneOf<double>({1.0, 1.0 - 1e-12, 1e-12, 0.0}); was(d) = c(d) + c.len_(d); }
      Frac e = c; Frac& r = e.reduceCoords(); CHECK(&r == &e, "returns itself"); for (int d = 0; d < 3; d++) { CHECK_NEAR(e(d) + e.len_(d), was(d), 0, 1e-11, "a reduced position is another point"); CHECK(e.len_(d) >= 0 && e.len_(d) < 1 && (e.len_(d) == 0 || (e.len_(d) == c.len_(d) && e(d) == c(d))), "not reduced: " << e.toStr()); } Frac f = e; f.reduceCoords(); CHECK(same(f, e), "reduced again it is another"); }
    // Moves to a side, an edge or a node by the shortest way.
    { Frac c = a; Frac& r = c.reduceTopology(); CHECK(&r == &c, "returns itself"); if (n == 0) CHECK(same(c, a), "a node is moved"); else {
        double best = 9; for (int d = 0; d < 3; d++) if (a.len_(d) != 0) best = std::min(best, std::min(a.len_(d), 1 - a.len_(d)));
        CHECK(rangeOf(c) == n - 1, "moved to " << c.toStr()); int moved = 0; for (int d = 0; d < 3; d++) { double m = std::fabs(c(d) + c.len_(d) - a(d) - a.len_(d)); if (c(d) == a(d) && c.len_(d) == a.len_(d)) continue; moved++; CHECK_NEAR(m, best, 0, 1e-12, "moved by more than needed"); CHECK_EQ(c.len_(d), 0.0, "moved to a line"); } CHECK(moved == 1, "moved in " << moved << " directions"); } }
    { std::size_t k = (std::size_t)g.range(0, 3); Frac c = a, e = a; c.reduceTopology(k); for (int i = n; i > (int)k; i--) e.reduceTopology(); CHECK(same(c, e), "reduced to " << k << " directions: " << c.toStr() << " but one by one " << e.toStr()); }
    // Positions brought to what they have in common.
    { Frac c = a, e = b; c.join(e); for (int d = 0; d < 3; d++) { double w = a.len_(d) == 0 || b.len_(d) == 0 ? 0 : b.len_(d); CHECK(c.len_(d) == w && e.len_(d) == w && c(d) == a(d) && e(d) == b(d), "joined as " << c.toStr() << " and " << e.toStr()); } }
    { bool force = g.flip(), can = g.flip(), want = true; Frac e = b; V3 l; for (int d = 0; d < 3; d++) { if (a.len_(d) != 0 && b.len_(d) == 0) want = false; l(d) = a.len_(d) != 0 && b.len_(d) != 0 ? a.len_(d) : 0; }
      Frac& r = a.move(e, force, can); g.label(want, "can be moved"); CHECK(&r == &e && can == want && same(a, a0), "can be moved: " << can); for (int d = 0; d < 3; d++) CHECK(e(d) == b(d) && e.len_(d) == (want || force ? l(d) : b.len_(d)), "moved to " << e.toStr()); }
}
