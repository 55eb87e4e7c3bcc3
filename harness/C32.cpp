// C32: grouping of wires partitions wire segments into consistent polylines.
#include "mesh.h"
#include "util/wire/Group.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include <numeric>
#include <set>
using namespace geo;
using pbt::Gen;
namespace PM = SEMBA::PhysicalModel;
namespace Me = SEMBA::Geometry::Mesh;

struct Seg { std::size_t id, a, b, mat, lay; };          // from a to b
struct Mat { std::size_t id; int kind; std::string name; double radius; int ext[2]; };   // 0 wire, 1 with extremes, 2 connector, 3 other
struct Net { std::vector<std::size_t> nodes; std::vector<Seg> segs; std::vector<Mat> mats; std::vector<std::size_t> layers; std::vector<std::size_t> others;
    const Mat& mat(std::size_t id) const { for (auto& m : mats) if (m.id == id) return m; throw std::logic_error("material"); } };
static int typeOf(std::size_t id) { static const int t[] = {PM::Multiport::Multiport::shortCircuit, PM::Multiport::Multiport::matched, PM::Multiport::Multiport::openCircuit, PM::Multiport::Multiport::sRLC}; return t[id % 4]; }
static PM::Multiport::Multiport* port(std::size_t id) { auto t = (PM::Multiport::Multiport::Type)typeOf(id); std::string n = "port" + std::to_string(id); if (t == PM::Multiport::Multiport::sRLC) return new PM::Multiport::RLC(MatId(id), n, t, 1.5, 2.5, 3.5); return new PM::Multiport::Predefined(MatId(id), n, t); }
static bool samePort(const PM::Multiport::Multiport* p, std::size_t id) { if (id == 0) return p == nullptr; return p != nullptr && (int)p->getType() == typeOf(id) && p->getId().toInt() == id && p->getName() == "port" + std::to_string(id); }

static Net genNet(Gen& g) {
    Net n; int nl = g.range(1, 2); n.layers = genIds(g, (std::size_t)nl);
    std::size_t nm = (std::size_t)g.range(1, 3), np = (std::size_t)g.range(0, 2); auto mi = genIds(g, nm + np + 1);
    for (std::size_t i = 0; i < nm + np + 1; i++) { Mat m; m.id = mi[i]; m.kind = i == nm + np ? 3 : i >= nm ? 2 : g.chance(1, 4) ? 1 : 0; m.radius = g.oneOf<double>({1e-3, 0.5, 0.02}); m.name = "w" + std::to_string(m.id); m.ext[0] = g.flip() ? 101 : 0; m.ext[1] = g.flip() ? 102 : 0; n.mats.push_back(m); }
    auto ids = genIds(g, 260); std::size_t used = 0; std::set<std::pair<std::size_t, std::size_t>> pairs;
    auto fresh = [&] { n.nodes.push_back(ids[used++]); return n.nodes.back(); };
    auto add = [&](std::size_t a, std::size_t b, std::size_t m, std::size_t l) { if (a == b || pairs.count({a, b}) || pairs.count({b, a})) return false; pairs.insert({a, b}); n.segs.push_back(Seg{0, a, b, m, l}); return true; };
    int runs = 1 + (int)g.many(0, 3, 25); g << runs << " runs: ";
    for (int r = 0; r < runs; r++) {
        std::size_t m = n.mats[(std::size_t)g.draw(nm)].id, l = g.pick(n.layers), len = 1 + g.many(0, 4, 60); std::size_t at = n.nodes.empty() || g.chance(1, 2) ? fresh() : g.pick(n.nodes); bool back = g.chance(1, 4);
        for (std::size_t i = 0; i < len; i++) { std::size_t to = i + 1 == len && g.chance(1, 3) ? g.pick(n.nodes) : used < 200 ? fresh() : g.pick(n.nodes); if (g.chance(1, 8)) back = !back; if (g.chance(1, 10)) m = n.mats[(std::size_t)g.draw(nm)].id; if (g.chance(1, 12)) l = g.pick(n.layers); if (add(back ? to : at, back ? at : to, m, l)) at = to; }
    }
    // connectors point to the end they terminate; their other end is free
    std::vector<std::size_t> wireNodes(n.nodes);
    bool away = g.chance(1, 4); g.label(away, "connectors in any sense");   // others point to the end they terminate
    if (np) for (int k = g.range(0, 3); k-- > 0;) {
        std::size_t p = n.mats[nm + (std::size_t)g.draw(np)].id, node;
        std::vector<std::size_t> ends; for (auto x : wireNodes) { int c = 0; for (auto& s : n.segs) c += s.a == x || s.b == x; if (c == 1) ends.push_back(x); }
        node = ends.empty() || g.chance(1, 12) ? g.pick(wireNodes) : g.pick(ends); std::size_t l = n.layers[0]; for (auto& s : n.segs) if (s.a == node || s.b == node) l = s.lay; if (g.chance(1, 12)) l = g.pick(n.layers);
        if (used + 3 > ids.size()) break; std::size_t len = (std::size_t)(g.chance(1, 4) ? 2 : 1); for (std::size_t i = 0; i < len; i++) { std::size_t t = len == 1 && away && ends.size() > 1 && g.chance(1, 3) ? g.pick(ends) : fresh(); if (away && g.flip()) add(node, t, p, l); else add(t, node, p, l); node = t; }
    }
    auto ei = genIds(g, n.segs.size()); for (std::size_t i = 0; i < ei.size(); i++) n.segs[i].id = ei[i]; g.shuffle(n.segs);
    for (auto& s : n.segs) g << s.id << ":" << s.a << ">" << s.b << (n.mat(s.mat).kind == 2 ? " port" : n.mat(s.mat).kind == 1 ? " ext" : " wire") << s.mat << " L" << s.lay << "; ";
    return n;
}
static int rootOf(std::vector<int>& p, int i) { while (p[(std::size_t)i] != i) i = p[(std::size_t)i]; return i; }
// Which segments belong together, by the definition.
// A connector that leaves the end of a wire, and joins nothing else, may end that wire or be refused.
static std::vector<std::vector<std::size_t>> chains(const Net& n, bool& refused, bool& open) {
    open = false;
    std::vector<int> p(n.segs.size()); std::iota(p.begin(), p.end(), 0); std::vector<std::size_t> leaving; std::set<std::size_t> ended;
    for (auto x : n.nodes) {
        std::vector<std::size_t> at; for (std::size_t i = 0; i < n.segs.size(); i++) if (n.segs[i].a == x || n.segs[i].b == x) at.push_back(i);
        if (at.size() != 2) continue; const Seg &s = n.segs[at[0]], &t = n.segs[at[1]]; int ks = n.mat(s.mat).kind, kt = n.mat(t.mat).kind; bool through = (s.a == x) != (t.a == x), join;
        if (s.lay != t.lay) join = false;
        else if (ks != 2 && kt != 2) join = s.mat == t.mat && through;
        else if (ks == 2 && kt == 2) { join = s.mat == t.mat && !(s.a == x && t.a == x); open |= !join && (s.a == x || t.a == x); }
        else { const Seg& c = ks == 2 ? s : t; join = ks != 1 && kt != 1 && c.b == x; if (c.a == x) leaving.push_back(c.b); else if (join) ended.insert(x); }
        if (join) p[(std::size_t)rootOf(p, (int)at[0])] = rootOf(p, (int)at[1]);
    }
    for (auto x : leaving) open |= !ended.count(x);
    std::map<int, std::vector<std::size_t>> c; for (std::size_t i = 0; i < p.size(); i++) c[rootOf(p, (int)i)].push_back(i);
    std::vector<std::vector<std::size_t>> r; refused = false; for (auto& x : c) { bool wire = false; for (auto i : x.second) wire |= n.mat(n.segs[i].mat).kind != 2; refused |= !wire; r.push_back(x.second); }
    return r;
}
template <class T> struct MeshOf; template <> struct MeshOf<Math::Real> { template <class W> static Me::Mesh* make(const W& w) { return new Me::Unstructured(w.coords, w.elems, w.layers); } };
template <> struct MeshOf<Math::Int> { template <class W> static Me::Mesh* make(const W& w) { std::vector<Math::Real> p[3]; for (auto& x : p) for (int i = 0; i < 260; i++) x.push_back(i); Grid3 g(p); return new Me::Structured(g, w.coords, w.elems, w.layers); } };

template <class T> void wires(Gen& g) {
    Net n = genNet(g); MDesc<T> d; int q = 0; for (auto x : n.nodes) { typename MDesc<T>::Vec v; v(0) = (T)q; v(1) = (T)((q * q) % 37); v(2) = 1; d.coords.push_back({x, v}); q++; }
    for (auto l : n.layers) d.layers.push_back({l, "lay" + std::to_string(l)});
    for (auto& s : n.segs) d.elems.push_back(EDesc{LINE2, s.id, {s.a, s.b}, s.lay, 0});
    // elements that are no wires
    std::size_t top = 0; for (auto& s : n.segs) top = std::max(top, s.id); std::size_t extra = top;
    int no = n.segs.empty() ? 0 : g.range(0, 2); for (int i = 0; i < no; i++) { Seg s = g.pick(n.segs); bool line = g.flip(); extra++; d.elems.push_back(line ? EDesc{LINE2, extra, {s.a, s.b}, s.lay, 0} : EDesc{NODE, extra, {s.a}, s.lay, 0}); }
    std::unique_ptr<SEMBA::Data> smb(new SEMBA::Data); smb->physicalModels = new PM::Group<>;
    for (auto& m : n.mats) {
        std::unique_ptr<PM::Wire::Wire> w(new PM::Wire::Wire(MatId(m.id), m.name, m.radius, 0.25, 0.125));
        if (m.kind == 0) smb->physicalModels->add(w.release());
        else if (m.kind == 1) { std::unique_ptr<PM::Multiport::Multiport> l(m.ext[0] ? port((std::size_t)m.ext[0]) : nullptr), r(m.ext[1] ? port((std::size_t)m.ext[1]) : nullptr); smb->physicalModels->add(new PM::Wire::Extremes(m.name, *w, l.get(), r.get())); }
        else if (m.kind == 2) smb->physicalModels->add(port(m.id)); else smb->physicalModels->add(new PM::Predefined::PEC(MatId(m.id))); }
    { World<T> w; build(w, d); std::size_t pec = n.mats.back().id; for (auto& s : n.segs) w.elems.setModel(ElemId(s.id), smb->physicalModels->getId(MatId(s.mat))); if (no && g.flip()) w.elems.setModel(ElemId(extra), smb->physicalModels->getId(MatId(pec))); smb->mesh = MeshOf<T>::make(w); }
    typedef SEMBA::Util::Wire::Group<T> WG; auto* mesh = smb->mesh->template castTo<typename std::conditional<std::is_same<T, Math::Real>::value, Me::Unstructured, Me::Structured>::type>(); bool refused, open; auto want = chains(n, refused, open); std::unique_ptr<WG> wg;
    bool threw = false; try { wg.reset(new WG(*smb)); } catch (const std::exception&) { threw = true; }
    g.label(open, "a connector leaves the end of a wire"); if (!open) CHECK_EQ(threw, refused, "connectors that end no wire are refused, others are not"); g.label(threw, "refused"); if (threw) return;
    std::size_t joined = 0; for (auto& c : want) joined += c.size() > 1; g.nontrivial(joined >= 1 && want.size() >= 2); g.label(joined >= 1, "several segments in a wire");
    if (!open) CHECK_EQ(wg->numberOfWires(), want.size(), "number of wires"); std::set<std::set<std::size_t>> ws, gs; for (auto& c : want) { std::set<std::size_t> s; for (auto i : c) s.insert(n.segs[i].id); ws.insert(s); }
    std::set<std::size_t> once; std::map<std::size_t, std::set<std::string>> names; std::map<std::size_t, std::size_t> count;
    for (std::size_t i = 0; i < wg->numberOfWires(); i++) {
        auto* w = wg->getWire(i); auto ids = wg->getIdsOfWire(i); auto rev = wg->getRevOfWire(i); std::size_t N = ids.size(); std::string when = "wire " + std::to_string(i);
        std::set<std::size_t> s; std::vector<const Seg*> sg; for (auto id : ids) { s.insert(id.toInt()); const Seg* f = nullptr; for (auto& x : n.segs) if (x.id == id.toInt()) f = &x; CHECK(f != nullptr, "an existing segment"); sg.push_back(f); }
        CHECK_EQ(s.size(), N, "each segment once, " << when); if (open) for (auto id : s) CHECK(once.insert(id).second, "segment " << id << " is in two wires"); else CHECK(ws.count(s) == 1, "the segments of " << when << " belong together"); gs.insert(s); for (auto* x : sg) CHECK_EQ(x->lay, sg[0]->lay, "one layer"); CHECK_EQ(rev.size(), N, "directions of " << when); CHECK_EQ(w->numberOfCoordinates(), N + 1, "vertices of " << when);
        std::vector<std::size_t> v; for (std::size_t k = 0; k <= N; k++) { v.push_back(w->getV(k)->getId().toInt()); CHECK(w->getV(k) == mesh->coords().getId(CoordId(v.back())), "a coordinate of the mesh"); }
        // the segments follow the polyline, in its direction or against it
        bool fwd = true, bwd = true; for (std::size_t k = 0; k < N; k++) { auto fits = [&](std::size_t at) { const Seg& x = *sg[k]; return rev[k] ? x.b == v[at] && x.a == v[at + 1] : x.a == v[at] && x.b == v[at + 1]; }; if (!fits(k)) fwd = false; if (!fits(N - 1 - k)) bwd = false; }
        CHECK(fwd || bwd, "segments and directions follow the vertices of " << when); if (!fwd) { std::reverse(sg.begin(), sg.end()); std::reverse(rev.begin(), rev.end()); g.label("numbered against its direction"); }
        const Mat* wm = nullptr; for (std::size_t k = 0; k < N; k++) { const Mat& m = n.mat(sg[k]->mat); if (m.kind == 2) continue; if (wm) CHECK_EQ(m.id, wm->id, "one material"); wm = &m; CHECK(!rev[k] || open, "the polyline runs in the direction of the wire, " << when); }
        CHECK_EQ(w->getLayerId().toInt(), sg[0]->lay, "layer of " << when); CHECK_EQ(w->getId().toInt(), i + 1, "identifier of " << when); CHECK(w->getModel() != nullptr && w->getModel() == wg->getMat(MatId(i + 1)), "material of " << when);
        auto* x = wg->getMat(MatId(i + 1)); CHECK_EQ(x->getId().toInt(), i + 1, "identifier of its material"); CHECK_NEAR(x->getRadius(), wm->radius, 0, 0, "radius of " << when); CHECK_NEAR(x->getSeriesResistance(), 0.25, 0, 0, "resistance of " << when);
        if (wm->kind == 1) { bool loop = v.front() == v.back() && N > 1; CHECK_EQ(x->getName(), wm->name, "name of the material of " << when); bool ok = samePort(x->getExtreme(0), (std::size_t)wm->ext[0]) && samePort(x->getExtreme(1), (std::size_t)wm->ext[1]); if (!ok && loop) ok = samePort(x->getExtreme(1), (std::size_t)wm->ext[0]) && samePort(x->getExtreme(0), (std::size_t)wm->ext[1]); CHECK(ok || open, "end connections of the material of " << when); }
        else { count[wm->id]++; names[wm->id].insert(x->getName()); auto end = [&](const Seg& e) { return n.mat(e.mat).kind == 2 ? e.mat : 0; }; bool loop = N > 1 && v.front() == v.back(); if (N == 1 || !loop || end(*sg.front()) || end(*sg.back())) { std::size_t l = end(*sg.front()), r = end(*sg.back()); g.label(l || r, "connector"); CHECK(samePort(x->getExtreme(0), l), "first end connection of " << when); CHECK(samePort(x->getExtreme(1), r), "last end connection of " << when); } else CHECK(samePort(x->getExtreme(0), 0) && samePort(x->getExtreme(1), 0), "a closed wire"); g.label(loop, "closed wire"); }
    }
    if (open) CHECK_EQ(once.size(), n.segs.size(), "every segment in a wire"); else CHECK(gs == ws, "every segment in a wire"); for (auto& c : count) { std::set<std::string> w; for (std::size_t k = 1; k <= c.second; k++) w.insert(n.mat(c.first).name + "_" + std::to_string(k)); CHECK(names[c.first] == w, "names of the wires of a material"); }
}
PROP(wiresReal, 6000, 100000, "two wires and one of several segments") { wires<Math::Real>(g); }
PROP(wiresInt, 5000, 80000, "two wires and one of several segments") { wires<Math::Int>(g); }
