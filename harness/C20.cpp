// C20: sources keep their excitation, elements and kind through copies.
//
// Model: a record of what each source was built from. A history of copies,
// assignments, element replacements, conversions and destructions is applied
// to sources and records alike, and every surviving source is compared with
// its record after every step.
#include "pbt.h"
#include "mesh.h"

#include <cmath>
#include <memory>
#include <fstream>
#include <iostream>

#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "math/function/Polynomial.h"
#include "source/magnitude/Numerical.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/Dipole.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Hexahedron8.h"

using namespace geo;
namespace SS = SEMBA::Source;
namespace SG = SEMBA::Geometry;
namespace SM = SEMBA::Math;
namespace MF = SEMBA::Math::Function;
typedef SS::Magnitude::Magnitude Mag;
typedef SS::Magnitude::Numerical Num;
typedef SG::Element::Group<const SG::Elem> Elems;
typedef MF::LinearInterpolation<double, double> Table;

namespace {

struct Mute {
    Mute() { std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit); }
    ~Mute() { std::cerr.clear(); std::cout.clear(); }
};

// ------------------------------------------------------------ excitations

struct Exc {
    int kind;                 // 0 gaussian 1 band limited 2 table 3 file
    double a, b, c;
    std::vector<std::pair<double, double>> xy;
    std::string file;
    bool operator==(const Exc& o) const {
        if (kind != o.kind) return false;
        if (kind == 0) return a == o.a && b == o.b && c == o.c;
        if (kind == 1) return a == o.a && b == o.b;
        if (kind == 2) return xy == o.xy;
        return xy == o.xy && file == o.file;
    }
    double at(double t) const {
        if (kind == 0) {
            double z = (t - b) / a;
            return std::exp(-0.5 * z * z) * std::cos(2 * 3.14159265358979323846 * c * t);
        }
        if (kind == 1) return MF::BandLimited(a, b)(t); // checked by C04
        if (t <= xy.front().first) return xy.front().second;
        if (t >= xy.back().first) return xy.back().second;
        size_t i = 1;
        while (xy[i].first < t) i++;
        double u = (t - xy[i-1].first) / (xy[i].first - xy[i-1].first);
        return xy[i-1].second + u * (xy[i].second - xy[i-1].second);
    }
    double amp() const {
        double m = 1;
        for (auto& p : xy) m = std::max(m, std::abs(p.second));
        return m;
    }
    Mag* make() const {
        if (kind == 0) return new Mag(new MF::Gaussian(a, b, c));
        if (kind == 1) return new Mag(new MF::BandLimited(a, b));
        if (kind == 2) return new Mag(new Table(xy));
        std::ofstream f(file); f.precision(17);
        for (auto& p : xy) f << p.first << " " << p.second << "\n";
        f.close();
        return new Num(SEMBA::FileSystem::Project(file));
    }
    std::vector<double> times() const {
        std::vector<double> t{0};
        if (kind == 0) for (double u : {-3.0, -0.7, 0.0, 0.4, 2.0}) t.push_back(b + u * a);
        else if (kind == 1) for (double u : {-1.0, -0.1, 0.0, 0.03, 1.5}) t.push_back(20/a + u/a);
        else {
            t.push_back(xy.front().first - 1);
            for (size_t i = 0; i < xy.size(); i++) {
                t.push_back(xy[i].first);
                if (i) t.push_back((xy[i].first + 2*xy[i-1].first) / 3);
            }
            t.push_back(xy.back().first + 1);
        }
        return t;
    }
    std::string str() const {
        static const char* n[] = {"gaussian", "band limited", "table", "file"};
        std::ostringstream o; o << n[kind];
        if (kind < 2) o << "(" << a << ", " << b << ", " << c << ")";
        for (auto& p : xy) o << " " << p.first << ":" << p.second;
        if (kind == 3) o << " in " << file;
        return o.str();
    }
};

std::vector<std::pair<double, double>> genTable(pbt::Gen& g, double unit) {
    std::vector<std::pair<double, double>> v;
    double x = g.flip() ? 0 : (double)g.range(-3, 3);
    int n = 1 + (int)g.many(0, 5, 150);
    for (int i = 0; i < n; i++) {
        v.push_back(std::make_pair(x * unit, g.flip() ? (double)g.range(-3, 3) : g.simple()));
        x += g.flip() ? (double)g.range(1, 3) : 0.25 + g.unit();
    }
    return v;
}

Exc genExc(pbt::Gen& g, int kinds = 4) {
    Exc e; e.kind = (int)g.range(0, kinds - 1);
    double u = std::pow(10.0, (double)(3 * g.range(-3, 0)));
    e.a = e.b = e.c = 0;
    if (e.kind == 0) {
        e.a = u * (1 + (double)g.range(0, 4));
        e.b = e.a * (double)g.range(0, 6);
        e.c = g.flip() ? 0 : 0.25 / e.a;
    } else if (e.kind == 1) {
        e.a = (1 + (double)g.range(0, 4)) / u;
        e.b = e.a * (1.5 + (double)g.range(0, 5));
    } else e.xy = genTable(g, g.flip() ? 1.0 : u);
    if (e.kind == 3) {
        static int n = 0;
        e.file = pbt::scratch() + "/exc" + std::to_string(n++) + ".exc";
    }
    return e;
}

void sameExc(const Mag* m, const Exc& e, const std::string& when) {
    CHECK(m != nullptr, when + ": no excitation");
    CHECK(m->is<Num>() == (e.kind == 3), when + ": kind of excitation");
    for (double t : e.times())
        CHECK_NEAR(m->evaluate(t), e.at(t), 1e-9, 1e-10 * e.amp(),
                   when + ": excitation at " + std::to_string(t));
}

// ------------------------------------------------------------- elements

struct Pool {
    std::vector<std::unique_ptr<SG::CoordR3>> c;
    std::vector<const SG::Elem*> all[4]; // nodes, lines, surfaces, volumes
    SG::Element::Group<SG::Elem> keep;
    const SG::CoordR3* coord(double x, double y, double z) {
        c.emplace_back(new SG::CoordR3(SG::CoordId(c.size() + 1), SM::CVecR3(x, y, z)));
        return c.back().get();
    }
    explicit Pool(int n) {
        int id = 0;
        for (int k = 0; k < n; k++) {
            const SG::CoordR3* v[8];
            double x = 2 * k;
            v[0] = coord(x,0,0); v[1] = coord(x+1,0,0); v[2] = coord(x+1,1,0); v[3] = coord(x,1,0);
            v[4] = coord(x,0,1); v[5] = coord(x+1,0,1); v[6] = coord(x+1,1,1); v[7] = coord(x,1,1);
            SG::Elem* e[4] = {
                new SG::NodR(SG::ElemId(++id), v, nullptr, nullptr),
                new SG::LinR2(SG::ElemId(++id), v, nullptr, nullptr),
                new SG::QuaR4(SG::ElemId(++id), v, nullptr, nullptr),
                new SG::HexR8(SG::ElemId(++id), v, nullptr, nullptr)};
            for (int i = 0; i < 4; i++) { keep.add(e[i]); all[i].push_back(e[i]); }
        }
    }
};

std::vector<const SG::Elem*> subset(pbt::Gen& g, const std::vector<const SG::Elem*>& v,
                                    bool some) {
    std::vector<const SG::Elem*> r;
    for (auto e : v) if (g.flip()) r.push_back(e);
    if (some && r.empty()) r.push_back(v[0]);
    g.shuffle(r);
    return r;
}

template<class T> SG::Element::Group<const T> groupOf(const std::vector<const SG::Elem*>& v) {
    SG::Element::Group<const T> r;
    for (auto e : v) r.add(e->castTo<T>());
    return r;
}
SG::Element::Group<SG::Vol> vols(const std::vector<const SG::Elem*>& v) {
    SG::Element::Group<SG::Vol> r;
    for (auto e : v) r.add(const_cast<SG::Elem*>(e)->castTo<SG::Vol>());
    return r;
}

// -------------------------------------------------------------- sources

enum SKind { WAVE, RANDOM, GENERATOR, ONLINE, DIPOLE, WAVEGUIDE, COAXIAL, SKINDS };
const int dims[] = {3, 3, 0, 1, 3, 2, 2};
const char* names[] = {"PlaneWave", "PlaneWave", "Generator", "OnLine", "Dipole",
                       "Rectangular_waveguide_port", "Coaxial_TEM_port"};

struct Rec {
    int kind; bool hasExc; Exc exc;
    std::vector<const SG::Elem*> elems;
    int type, hard; // two choices each
    int m, n;
};

Rec genRec(pbt::Gen& g, const Pool& p) {
    Rec r; r.kind = (int)g.range(0, SKINDS - 1);
    r.hasExc = !g.chance(1, 8);
    if (r.hasExc) r.exc = genExc(g);
    r.elems = subset(g, p.all[dims[r.kind]], r.kind >= WAVEGUIDE);
    r.type = (int)g.range(0, 1); r.hard = (int)g.range(0, 1);
    r.m = (int)g.range(0, 3); r.n = (int)g.range(r.m ? 0 : 1, 3);
    g << names[r.kind] << " with " << r.elems.size() << " elements, "
      << (r.hasExc ? r.exc.str() : "no excitation") << ", type " << r.type << ", hardness "
      << r.hard << "\n";
    g.label(r.kind == RANDOM ? "random plane wave" : names[r.kind]);
    return r;
}

SS::Base* make(const Rec& r) {
    Mag* m = r.hasExc ? r.exc.make() : nullptr;
    switch (r.kind) {
    case WAVE: return new SS::PlaneWave(m, vols(r.elems), SM::CVecR3(0.0, 0.0, 1.0),
                                        SM::CVecR3(1.0 + r.m, r.n, 0.0));
    case RANDOM: return new SS::PlaneWave(m, vols(r.elems), (SM::Int)r.m, (SM::Real)(0.1 * r.n));
    case GENERATOR: return new SS::Generator(m, groupOf<SG::Nod>(r.elems),
        r.type ? SS::Generator::voltage : SS::Generator::current,
        r.hard ? SS::Generator::hard : SS::Generator::soft);
    case ONLINE: return new SS::OnLine(m, groupOf<SG::Lin>(r.elems),
        r.type ? SS::OnLine::electric : SS::OnLine::magnetic,
        r.hard ? SS::OnLine::hard : SS::OnLine::soft);
    case DIPOLE: return new SS::Dipole(m, vols(r.elems), 1.0 + r.m, SM::CVecR3(0.0, 0.0, 1.0),
                                       SM::CVecR3(r.n, 0.0, 0.0));
    case WAVEGUIDE: return new SS::Port::WaveguideRectangular(m, groupOf<SG::Surf>(r.elems),
        r.type ? SS::Port::Waveguide::TE : SS::Port::Waveguide::TM,
        std::pair<size_t, size_t>(r.m, r.n));
    default: return new SS::Port::TEMCoaxial(m, groupOf<SG::Surf>(r.elems),
        r.type ? SS::Port::TEM::voltage : SS::Port::TEM::current, SM::CVecR3(0.5, 0.5, 0.0),
        0.1 + 0.05 * r.m, 0.4);
    }
}

void sameSource(const SS::Base* s, const Rec& r, const std::string& when) {
    std::string w = when + ", " + names[r.kind];
    CHECK_EQ(s->getName(), std::string(names[r.kind]), w + ": name");
    if (r.hasExc) sameExc(s->getMagnitude(), r.exc, w);
    else CHECK(s->getMagnitude() == nullptr, w + ": an excitation appeared");
    CHECK_EQ(s->getMagnitudeFilename(),
             (r.hasExc && r.exc.kind == 3 ? r.exc.file : std::string()), w + ": file name");
    if (r.hasExc) CHECK(s->magnitudeIs<Num>() == (r.exc.kind == 3), w + ": magnitudeIs");
    Elems e = s->elems();
    CHECK_EQ(e.size(), r.elems.size(), w + ": number of elements");
    for (size_t i = 0; i < e.size(); i++)
        CHECK(e(i) == r.elems[i], w + ": element " + std::to_string(i));
    switch (r.kind) {
    case WAVE: {
        auto p = dynamic_cast<const SS::PlaneWave*>(s);
        CHECK(p && !p->isRandomic(), w + ": kind");
        CHECK(p->getPolarization() == SM::CVecR3(1.0 + r.m, r.n, 0.0), w + ": polarisation");
        CHECK(p->getDirection() == SM::CVecR3(0.0, 0.0, 1.0), w + ": direction");
        break; }
    case RANDOM: {
        auto p = dynamic_cast<const SS::PlaneWave*>(s);
        CHECK(p && p->isRandomic(), w + ": kind");
        CHECK_EQ(p->getNumberOfRandomPlanewaves(), r.m, w + ": number");
        CHECK_EQ(p->getRelativeVariationOfRandomDelay(), 0.1 * r.n, w + ": delay");
        break; }
    case GENERATOR: {
        auto p = dynamic_cast<const SS::Generator*>(s);
        CHECK(p != nullptr, w + ": kind");
        CHECK(p->getType() == (r.type ? SS::Generator::voltage : SS::Generator::current), w + ": type");
        break; }
    case ONLINE: {
        auto p = dynamic_cast<const SS::OnLine*>(s);
        CHECK(p != nullptr, w + ": kind");
        CHECK(p->getType() == (r.type ? SS::OnLine::electric : SS::OnLine::magnetic), w + ": type");
        CHECK(p->getHardness() == (r.hard ? SS::OnLine::hard : SS::OnLine::soft), w + ": hardness");
        break; }
    case DIPOLE: CHECK(dynamic_cast<const SS::Dipole*>(s) != nullptr, w + ": kind"); break;
    case WAVEGUIDE: {
        auto p = dynamic_cast<const SS::Port::WaveguideRectangular*>(s);
        CHECK(p != nullptr, w + ": kind");
        CHECK(p->getExcitationMode() == (r.type ? SS::Port::Waveguide::TE : SS::Port::Waveguide::TM),
              w + ": mode");
        CHECK((p->getMode() == std::pair<size_t, size_t>(r.m, r.n)), w + ": mode numbers");
        break; }
    default: {
        auto p = dynamic_cast<const SS::Port::TEMCoaxial*>(s);
        CHECK(p != nullptr, w + ": kind");
        CHECK(p->getExcitationMode() == (r.type ? SS::Port::TEM::voltage : SS::Port::TEM::current),
              w + ": mode");
        break; }
    }
}

template<class T> bool assignAs(SS::Base* a, SS::Base* b) {
    T* x = dynamic_cast<T*>(a);
    T* y = dynamic_cast<T*>(b);
    if (!x || !y) return false;
    *x = *y;
    return true;
}
template<class T> SS::Base* copyAs(const SS::Base* b) {
    const T* y = dynamic_cast<const T*>(b);
    return y ? new T(*y) : nullptr;
}

} // namespace

// a printed description tells apart what the sources have been told
PROP(description, 400, 6000, "sources on lines of the two hardnesses") {
    Pool pool(2);
    Rec a = genRec(g, pool); a.hasExc = false;
    Rec b = a;
    if (a.kind == ONLINE) { b.hard = !b.hard; g.nontrivial(); }
    else if (a.kind == GENERATOR || a.kind == WAVEGUIDE || a.kind == COAXIAL) b.type = !b.type;
    else { g.discard(); return; }
    std::unique_ptr<SS::Base> x(make(a)), x2(make(a)), y(make(b));
    std::string t[3];
    const SS::Base* s[3] = {x.get(), x2.get(), y.get()};
    for (int i = 0; i < 3; i++) {
        std::ostringstream o;
        std::streambuf* old = std::cout.rdbuf(o.rdbuf());
        s[i]->printInfo();
        std::cout.rdbuf(old);
        t[i] = o.str();
    }
    CHECK(t[0] == t[1], "two descriptions of the same source differ");
    CHECK(t[0] != t[2], "sources of different kinds are described alike: " + t[0]);
}

// ------------------------------------------------------------ the history

PROP(history, 3000, 150000, "at least three operations on at least two sources") {
    Mute mute;
    Pool pool((int)g.range(1, 4));
    std::vector<std::unique_ptr<SS::Base>> s;
    std::vector<Rec> r;
    int steps = (int)g.many(1, 12, 60), done = 0;
    r.push_back(genRec(g, pool)); s.emplace_back(make(r.back()));
    sameSource(s[0].get(), r[0], "built");
    for (int k = 0; k < steps; k++) {
        int i = s.empty() ? -1 : (int)g.range(0, s.size() - 1);
        int op = i < 0 ? 0 : (int)g.range(0, 7);
        std::string what;
        switch (op) {
        case 0: {
            what = "built"; r.push_back(genRec(g, pool)); s.emplace_back(make(r.back())); break; }
        case 1: {
            what = "cloned " + std::to_string(i);
            s.emplace_back(s[i]->cloneTo<SS::Base>()); Rec x = r[i]; r.push_back(x); break; }
        case 2: {
            what = "copied " + std::to_string(i);
            SS::Base* c = nullptr;
            if (!c) c = copyAs<SS::PlaneWave>(s[i].get());
            if (!c) c = copyAs<SS::Generator>(s[i].get());
            if (!c) c = copyAs<SS::OnLine>(s[i].get());
            if (!c) c = copyAs<SS::Dipole>(s[i].get());
            if (!c) c = copyAs<SS::Port::WaveguideRectangular>(s[i].get());
            if (!c) c = copyAs<SS::Port::TEMCoaxial>(s[i].get());
            s.emplace_back(c); Rec x = r[i]; r.push_back(x); break; }
        case 3: { // assign to another of the same class
            int j = (int)g.range(0, s.size() - 1);
            what = "assigned " + std::to_string(i) + " to " + std::to_string(j);
            SS::Base *a = s[j].get(), *b = s[i].get();
            if (assignAs<SS::PlaneWave>(a, b) || assignAs<SS::Generator>(a, b) ||
                assignAs<SS::OnLine>(a, b) || assignAs<SS::Dipole>(a, b) ||
                assignAs<SS::Port::WaveguideRectangular>(a, b) ||
                assignAs<SS::Port::TEMCoaxial>(a, b)) { Rec x = r[i]; r[j] = x; g.label("assigned"); }
            else what += " (other class: nothing)";
            break; }
        case 4: {
            what = "destroyed " + std::to_string(i);
            s.erase(s.begin() + i); r.erase(r.begin() + i); g.label("destroyed"); break; }
        case 5: { // set: elements of other dimensions are not taken
            what = "set elements of " + std::to_string(i);
            int d = dims[r[i].kind];
            std::vector<const SG::Elem*> v = subset(g, pool.all[d], r[i].kind >= WAVEGUIDE);
            std::vector<const SG::Elem*> mix = v;
            if (r[i].kind < WAVEGUIDE && g.flip()) {
                g.label("elements of other kinds offered");
                auto o = subset(g, pool.all[(d + 1) % 4], false);
                mix.insert(mix.begin(), o.begin(), o.end());
            }
            Elems e; for (auto x : mix) e.add(x);
            s[i]->set(e); r[i].elems = v; g.label("elements set"); break; }
        case 6: { // add elements not there yet
            what = "added elements to " + std::to_string(i);
            std::vector<const SG::Elem*> v;
            for (auto x : subset(g, pool.all[dims[r[i].kind]], false))
                if (std::find(r[i].elems.begin(), r[i].elems.end(), x) == r[i].elems.end())
                    v.push_back(x);
            if (r[i].kind >= WAVEGUIDE) { what += " (port: nothing)"; break; }
            Elems e; for (auto x : v) e.add(x);
            s[i]->add(e);
            r[i].elems.insert(r[i].elems.end(), v.begin(), v.end());
            g.label("elements added"); break; }
        default: { // excitation object swapped for its file form and back is checked elsewhere
            what = "printed " + std::to_string(i);
            s[i]->printInfo(); break; }
        }
        g << what << "\n";
        done++;
        for (size_t q = 0; q < s.size(); q++) {
            sameSource(s[q].get(), r[q], "after '" + what + "', source " + std::to_string(q));
            for (size_t p = 0; p < q; p++)
                if (s[p]->getMagnitude())
                    CHECK(s[p]->getMagnitude() != s[q]->getMagnitude(),
                          "after '" + what + "': two sources share an excitation");
        }
    }
    g.nontrivial(done >= 3 && s.size() >= 2);
}

// ------------------------------------------------- excitations as values

PROP(excitation_equality, 4000, 100000, "the two differ in one parameter") {
    Exc a = genExc(g), b = a;
    int k = (int)g.range(0, 2);
    if (k == 0) { b = genExc(g); g.label("unrelated"); }
    if (k == 1) {
        g.label("one parameter differs"); g.nontrivial();
        if (a.kind == 0) {
            int w = (int)g.range(0, 2);
            if (w == 0) b.a *= 1.5; else if (w == 1) b.b += a.a; else b.c += 1 / a.a;
        } else if (a.kind == 1) {
            if (g.flip()) b.a *= 0.5; else b.b *= 2;
        } else {
            size_t i = (size_t)g.range(0, a.xy.size() - 1);
            int w = (int)g.range(0, 2);
            if (w == 0) b.xy[i].second += 1;
            else if (w == 1) b.xy.push_back(std::make_pair(a.xy.back().first + 1, 0.0));
            else b.xy.back().first += 0.5;
            if (b.kind == 3) b.file += "x";
        }
    }
    if (k == 2) {
        g.label("the same definition");
        if (a.kind == 3 && g.chance(1, 3)) { b.file += "x"; g.label("same table in another file"); }
        else if (a.kind == 3 && g.chance(1, 3)) { b.kind = 2; b.file = ""; g.label("file and table"); }
    }
    g << a.str() << " and " << b.str() << "\n";
    std::unique_ptr<Mag> x(a.make()), y(b.make());
    bool want = a == b;
    CHECK((*x == *y) == want, want ? "alike but not equal" : "equal but not alike");
    CHECK((*y == *x) == want, "equality is not symmetric");
    CHECK(*x == *x, "not equal to itself");
    // copies are equal, independent and of the same class
    std::unique_ptr<Mag> c(x->cloneTo<Mag>());
    CHECK(*c == *x && *x == *c, "clone differs");
    CHECK((*c == *y) == want, "clone and another");
    sameExc(c.get(), a, "clone");
    if (a.kind == b.kind) {
        if (a.kind == 3) { *dynamic_cast<Num*>(c.get()) = *dynamic_cast<Num*>(y.get()); }
        else *c = *y;
        CHECK(*c == *y, "assigned differs");
        x.reset(); y.reset();
        sameExc(c.get(), b, "assigned, with the original gone");
    } else {
        x.reset();
        sameExc(c.get(), a, "clone, with the original gone");
    }
}

PROP(excitation_empty, 200, 2000, "always") {
    // an excitation that is still to be defined can be copied and assigned
    g.nontrivial();
    Exc e = genExc(g, 3);
    std::unique_ptr<Mag> d(e.make());
    Mag empty;
    Mag copy(empty);
    std::unique_ptr<Mag> cl(empty.cloneTo<Mag>());
    CHECK(empty == copy, "two undefined excitations");
    CHECK(!(empty == *d) && !(*d == empty), "an undefined and a defined excitation");
    copy = *d;
    sameExc(&copy, e, "assigned over an undefined one");
    copy = copy;
    sameExc(&copy, e, "assigned to itself");
    copy = empty;
    CHECK(copy == empty, "undefined again");
}

// --------------------------------------------------- excitations in files

PROP(read_from_file, 2000, 60000, "more than one sample") {
    Exc e = genExc(g); e.kind = 2;
    e.xy = genTable(g, std::pow(10.0, (double)(3 * g.range(-4, 1))));
    static int n = 0;
    e.file = pbt::scratch() + "/read" + std::to_string(n++ % 16) + ".exc";
    g.nontrivial(e.xy.size() > 1);
    g << e.str() << "\n";
    { // free format, samples in any order
        std::vector<std::pair<double, double>> v = e.xy;
        if (g.flip()) { g.shuffle(v); g.label("not sorted"); }
        std::ofstream f(e.file); f.precision(17);
        if (g.flip()) f << std::scientific;
        for (size_t i = 0; i < v.size(); i++)
            f << (g.flip() ? "" : "  ") << v[i].first << (g.flip() ? " " : "\t") << v[i].second
              << (g.chance(1, 6) ? " " : g.chance(1, 6) ? "\r\n" : "\n");
    }
    e.kind = 3;
    Num m((SEMBA::FileSystem::Project(e.file)));
    sameExc(&m, e, "read");
    for (double t : e.times())
        CHECK_NEAR(m.evaluate(t), e.at(t), 1e-9, 1e-10 * e.amp(), "evaluated as a file excitation");
    CHECK_EQ(m.getFilename(), e.file, "file name");
}

namespace {
void checkExported(const Mag& m, const Exc& e, double step, double final, const std::string& when) {
    // at every sampled time up to the final time
    double tol = 1e-7 * e.amp();
    for (int k = 0; k * step <= final * (1 + 1e-15) && k < 3000; k++) {
        double t = k * step;
        CHECK_NEAR(m.evaluate(t), e.at(t), 0, tol, when + ": sample " + std::to_string(k));
    }
}
}

PROP(written_to_file, 1500, 40000, "at least ten samples") {
    Mute mute;
    Exc e = genExc(g, 3);
    // a time step that resolves the excitation, or not, and a window that
    // may end anywhere
    double base = e.kind == 0 ? e.a : e.kind == 1 ? 1 / e.b
                : (e.xy.back().first - e.xy.front().first) / e.xy.size();
    if (base <= 0) base = std::pow(10.0, (double)g.range(-9, 0));
    double step = base * (g.flip() ? 0.25 : 0.05 + g.unit());
    if (e.kind == 2 && g.flip()) step = base / (double)g.range(1, 4);
    int n = (int)g.range(1, g.chance(1, 4) ? 400 : 40);
    double final = step * (g.flip() ? (double)n : n - 0.9 * g.unit());
    g << e.str() << " step " << step << " final time " << final << "\n";
    g.nontrivial(n >= 10);
    static int cnt = 0;
    std::string file = pbt::scratch() + "/out" + std::to_string(cnt++ % 16) + ".exc";
    SEMBA::FileSystem::Project project(file);
    std::unique_ptr<SS::Base> s(new SS::Generator(e.make(), SG::Element::Group<const SG::Nod>(),
        SS::Generator::voltage, SS::Generator::soft));
    std::unique_ptr<Num> out;
    CHECK_NOTHROW(out.reset(s->exportToFile(project, step, final)), "exported");
    checkExported(*out, e, step, final, "exported");
    CHECK_EQ(out->getFilename(), file, "file of the export");
    for (double t : e.times()) // the source itself is not altered
        CHECK_NEAR(s->getMagnitude()->evaluate(t), e.at(t), 1e-9, 1e-10*e.amp(), "source after the export");
    CHECK(!s->magnitudeIs<Num>(), "the source is not converted by an export");
    // the file alone gives the same excitation
    Num back((SEMBA::FileSystem::Project(file)));
    checkExported(back, e, step, final, "read back");
    CHECK(back == *out && *out == back, "the file read back is the exported excitation");
    // conversion in place
    s->convertToNumerical(project, step, final);
    CHECK(s->magnitudeIs<Num>(), "converted");
    CHECK_EQ(s->getMagnitudeFilename(), file, "file of the converted source");
    checkExported(*s->getMagnitude(), e, step, final, "converted");
    // converting and exporting again leave it as it is
    std::string other = file + "2";
    s->convertToNumerical(SEMBA::FileSystem::Project(other), step * 2, final);
    CHECK_EQ(s->getMagnitudeFilename(), file, "already converted");
    std::unique_ptr<Num> again(s->exportToFile(SEMBA::FileSystem::Project(other), step * 2, final));
    CHECK(*again == *s->getMagnitude(), "export of a converted source");
    Num built(SEMBA::FileSystem::Project(file + "3"), *again, step * 2, final);
    CHECK(built == *again && static_cast<const Mag&>(built) == *again, "made from an excitation that is sampled already");
    checkExported(built, e, step, final, "made from an excitation that is sampled already");
    s.reset();
    checkExported(*again, e, step, final, "export of a converted source that is gone");
}

PROP(default_step, 60, 600, "always") {
    // without a step the window is covered by a default number of samples
    Mute mute;
    g.nontrivial();
    Exc e; e.kind = 0; e.a = std::pow(10.0, (double)g.range(-9, 0)); e.b = e.a * (double)g.range(2, 5); e.c = 0;
    double final = 2 * e.b;
    std::string file = pbt::scratch() + "/default.exc";
    std::unique_ptr<Mag> m(e.make());
    std::unique_ptr<Num> out;
    CHECK_NOTHROW(out.reset(new Num(SEMBA::FileSystem::Project(file), *m, 0.0, final)), "exported");
    for (int k = 0; k < 50; k++) {
        double t = final * k / 50;
        CHECK_NEAR(static_cast<const Mag&>(*out).evaluate(t), e.at(t), 0, 1e-3, "default step");
    }
}
