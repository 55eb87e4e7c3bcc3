// Material models described as plain data, built with the library and compared.
#ifndef VERIF_MATERIAL_H_
#define VERIF_MATERIAL_H_
#include "pbt.h"
#include "geo.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Dispersive.h"
#include <fstream>
#include <memory>
namespace matl {
using namespace geo;
using pbt::Gen;
typedef SEMBA::PhysicalModel::Id MatId;
namespace PM = SEMBA::PhysicalModel;
typedef PM::PhysicalModel Base; typedef std::complex<double> Cx; typedef PM::Multiport::Multiport MP;
inline const double EPS0 = 8.85418782e-12, MU0 = 1.25663706e-6;

enum K { PEC, PMC, SMA, BPEC, BPMC, BPML, BSMA, BPER, BMUR1, BMUR2, CLASSIC, DISP, DISPFILE, CRYSTAL, FERRITE, VPML, MULTI, SIBC, SIBCFILE, WIRE, WIRESP, WIREDISP, GAP, MPPRE, MPRLC, MPDISP, EXTREMES, KS };
inline const char* kname(int k) { static const char* n[] = {"PEC", "PMC", "SMA", "bound PEC", "bound PMC", "bound PML", "bound SMA", "bound periodic", "bound Mur1", "bound Mur2", "classic", "dispersive", "dispersive file", "crystal", "ferrite", "volume PML", "multilayer", "SIBC", "SIBC file", "wire", "wire series-parallel", "wire dispersive", "gap", "predefined connector", "RLC connector", "dispersive connector", "wire with extremes"}; return n[k]; }
struct Spec { int k = 0; std::size_t id = 0; bool named = true; std::string name, file; std::vector<double> p; std::vector<std::pair<Cx, Cx>> poles; std::vector<std::array<double, 4>> lay; std::vector<std::pair<Cx, std::array<Cx, 4>>> zpoles; std::array<Cx, 4> z0, z1; V3 euler, origin, eps; int type = 0; bool fit = false; std::pair<double, double> ff; std::size_t nf = 0; std::shared_ptr<Spec> ext[2]; };
inline std::string fileWith(const std::string& ext) { std::string f = pbt::scratch() + "/f" + ext; static std::set<std::string> done; if (done.insert(f).second) std::ofstream(f) << "1 2 3\n"; return f; }
inline double val(Gen& g) { return g.oneOf<double>({0, 1, 1.0 + 1e-12, 2.5, 0.5}) * (g.flip() ? 1 : g.positive(1e-6, 1e6)); }
inline Cx cval(Gen& g) { return Cx(g.simple(), g.simple()); }
inline Spec gen(Gen& g, int k) {
    Spec s; s.k = k; s.id = 1 + (std::size_t)g.draw(50); s.name = g.ident(); s.named = k > SMA || g.flip();
    int n = k == CLASSIC ? 4 : k == DISP ? 3 : k == CRYSTAL ? 1 : k == FERRITE ? 3 : k == WIRE || k == EXTREMES ? 3 : k == WIRESP ? 7 : k == WIREDISP ? 1 : k == GAP ? 1 : k == MPRLC ? 3 : 0; for (int i = 0; i < n; i++) s.p.push_back(val(g));
    if (k == CLASSIC) for (int i = 0; i < 2; i++) if (s.p[(std::size_t)i] < 1 && !g.chance(1, 6)) s.p[(std::size_t)i] = 1;
    if (k == DISP) { if (g.flip()) s.p[2] = 0; int m = g.range(0, 3); for (int i = 0; i < m; i++) s.poles.push_back({g.chance(1, 4) ? Cx(0) : cval(g), cval(g)}); }
    if (k == DISPFILE) s.file = fileWith(g.oneOf<std::string>({".dat", ".txt", ""})); if (k == SIBCFILE) s.file = fileWith(".mibc"); if (k == WIREDISP || k == MPDISP) s.file = g.ident() + ".txt";
    if (k == CRYSTAL || k == FERRITE || k == VPML) { for (int i = 0; i < 3; i++) { s.euler(i) = g.chance(1, 3) ? 0 : g.real(-3, 3); s.origin(i) = g.chance(1, 2) ? 0 : g.coord(); s.eps(i) = 1 + val(g); } }
    if (k == MULTI) { std::size_t m = g.len(0, 5); for (std::size_t i = 0; i < m; i++) { std::array<double, 4> a; a[0] = g.positive(1e-6, 1); a[1] = 1 + val(g); a[2] = 1 + val(g); a[3] = val(g); s.lay.push_back(a); } s.fit = g.flip(); s.ff = {val(g), val(g)}; s.nf = (std::size_t)g.draw(9); }
    if (k == SIBC) { for (auto& z : s.z0) z = cval(g); for (auto& z : s.z1) z = cval(g); int m = g.range(0, 4); for (int i = 0; i < m; i++) { std::array<Cx, 4> a; for (auto& z : a) z = cval(g); s.zpoles.push_back({cval(g), a}); } }
    if (k == MPPRE) s.type = g.oneOf<int>({MP::shortCircuit, MP::openCircuit, MP::matched}); if (k == MPRLC) s.type = g.oneOf<int>({MP::sRLC, MP::sRLpC, MP::sRCpL, MP::sRpLC, MP::sLCpR, MP::sLpRC, MP::sCpLR, MP::pRLC});
    if (k == EXTREMES) for (auto& e : s.ext) if (g.chance(2, 3)) e.reset(new Spec(gen(g, g.oneOf<int>({MPPRE, MPRLC, MPDISP}))));
    g << kname(k) << " " << s.id << " '" << s.name << "'"; for (auto x : s.p) g << " " << x; for (auto& q : s.poles) g << " " << q.first << q.second; g << "; "; return s;
}
inline Math::MatC22 mat22(const std::array<Cx, 4>& a) { Math::MatC22 m; for (std::size_t i = 0; i < 4; i++) m(i / 2, i % 2) = a[i]; return m; }
inline Base* make(const Spec& s) {
    MatId id(s.id); const std::string& n = s.name; Math::Axis::Local loc(s.euler, s.origin); auto& p = s.p;
    switch (s.k) {
    case PEC: if (!s.named) return new PM::Predefined::PEC(id); return new PM::Predefined::PEC(id, n);
    case PMC: if (!s.named) return new PM::Predefined::PMC(id); return new PM::Predefined::PMC(id, n);
    case SMA: if (!s.named) return new PM::Predefined::SMA(id); return new PM::Predefined::SMA(id, n);
    case BPEC: return new PM::Bound::PEC(id); case BPMC: return new PM::Bound::PMC(id); case BPML: return new PM::Bound::PML(id); case BSMA: return new PM::Bound::SMA(id);
    case BPER: return new PM::Bound::Periodic(id); case BMUR1: return new PM::Bound::Mur1(id); case BMUR2: return new PM::Bound::Mur2(id);
    case CLASSIC: return new PM::Volume::Classic(id, n, p[0], p[1], p[2], p[3]);
    case DISP: return new PM::Volume::Dispersive(id, n, p[0], p[1], p[2], 0.0, std::vector<PM::Volume::PoleResidue>(s.poles.begin(), s.poles.end()));
    case DISPFILE: return new PM::Volume::Dispersive(id, n, SEMBA::FileSystem::Project(s.file));
    case CRYSTAL: return new PM::Volume::AnisotropicCrystal(id, n, loc, s.eps, p[0]);
    case FERRITE: return new PM::Volume::AnisotropicFerrite(id, n, loc, p[0], p[1], p[2]);
    case VPML: return new PM::Volume::PML(id, n, loc);
    case MULTI: { std::vector<PM::Surface::Multilayer::Layer> l; for (auto& a : s.lay) l.emplace_back(a[0], a[1], a[2], a[3]); std::vector<PM::Surface::Multilayer::FittingOptions> o; if (s.fit) o.emplace_back(s.ff, s.nf); return new PM::Surface::Multilayer(id, n, l, o); }
    case SIBC: { std::vector<PM::Surface::SIBC::PoleResidue> v; for (auto& z : s.zpoles) v.push_back({z.first, mat22(z.second)}); return new PM::Surface::SIBC(id, n, mat22(s.z0), mat22(s.z1), v); }
    case SIBCFILE: return new PM::Surface::SIBCFile(id, n, SEMBA::FileSystem::Project(s.file));
    case WIRE: return new PM::Wire::Wire(id, n, p[0], p[1], p[2]);
    case WIRESP: return new PM::Wire::Wire(id, n, p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
    case WIREDISP: return new PM::Wire::Wire(id, n, p[0], s.file);
    case GAP: return new PM::Gap::Gap(id, n, p[0]);
    case MPPRE: return new PM::Multiport::Predefined(id, n, (MP::Type)s.type);
    case MPRLC: return new PM::Multiport::RLC(id, n, (MP::Type)s.type, p[0], p[1], p[2]);
    case MPDISP: return new PM::Multiport::Dispersive(id, n, s.file);
    default: { PM::Wire::Wire w(id, "base", p[0], p[1], p[2]); std::unique_ptr<Base> e[2]; for (int i = 0; i < 2; i++) if (s.ext[i]) e[i].reset(make(*s.ext[i])); return new PM::Wire::Extremes(n, w, e[0] ? e[0]->castTo<MP>() : nullptr, e[1] ? e[1]->castTo<MP>() : nullptr); }
    }
}
#define KINDS_OF(X) X(PM::Predefined::Predefined, s.k <= SMA) X(PM::Predefined::PEC, s.k == PEC) X(PM::Predefined::PMC, s.k == PMC) X(PM::Predefined::SMA, s.k == SMA) \
    X(PM::Bound::Bound, s.k >= BPEC && s.k <= BMUR2) X(PM::Bound::PEC, s.k == BPEC) X(PM::Bound::PMC, s.k == BPMC) X(PM::Bound::PML, s.k == BPML) X(PM::Bound::SMA, s.k == BSMA) X(PM::Bound::Periodic, s.k == BPER) X(PM::Bound::Mur1, s.k == BMUR1) X(PM::Bound::Mur2, s.k == BMUR2) \
    X(PM::Volume::Volume, s.k >= CLASSIC && s.k <= VPML) X(PM::Volume::Classic, s.k == CLASSIC) X(PM::Volume::Dispersive, s.k == DISP || s.k == DISPFILE) X(PM::Volume::Anisotropic, s.k == CRYSTAL || s.k == FERRITE) X(PM::Volume::AnisotropicCrystal, s.k == CRYSTAL) X(PM::Volume::AnisotropicFerrite, s.k == FERRITE) X(PM::Volume::PML, s.k == VPML) \
    X(PM::Surface::Surface, s.k >= MULTI && s.k <= SIBCFILE) X(PM::Surface::Multilayer, s.k == MULTI) X(PM::Surface::SIBC, s.k == SIBC) X(PM::Surface::SIBCFile, s.k == SIBCFILE) \
    X(PM::Wire::Wire, (s.k >= WIRE && s.k <= WIREDISP) || s.k == EXTREMES) X(PM::Wire::Extremes, s.k == EXTREMES) X(PM::Gap::Gap, s.k == GAP) X(PM::Multiport::Multiport, s.k >= MPPRE && s.k <= MPDISP) X(PM::Multiport::Predefined, s.k == MPPRE) X(PM::Multiport::RLC, s.k == MPRLC) X(PM::Multiport::Dispersive, s.k == MPDISP)

inline V3 subv(const V3& a, const V3& b) { return V3(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }
inline void eq(double a, double b, const char* what, const std::string& when) { CHECK_NEAR(a, b, 1e-12, 0, what << " " << when); }
inline void eqc(Cx a, Cx b, const char* what, const std::string& when) { CHECK(a == b, what << " " << when << ": " << a << " != " << b); }
inline void sameMat(const Math::MatR33& got, const double w[3][3], const char* what, const std::string& when) { double m = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m = std::max(m, std::fabs(w[i][j])); for (std::size_t i = 0; i < 3; i++) for (std::size_t j = 0; j < 3; j++) CHECK_NEAR(got(i, j), w[i][j], 1e-9, 1e-9 * m, what << " (" << i << "," << j << ") " << when); }
// R D R^T, the columns of R being the local axes in space
inline void rotated(const Math::Axis::Local& l, const double d[3][3], double out[3][3]) { V3 c[3]; for (int i = 0; i < 3; i++) { V3 e(0.0); e(i) = 1; c[i] = subv(l.convertToGlobal(e), l.getOrigin()); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { out[i][j] = 0; for (int k = 0; k < 3; k++) for (int q = 0; q < 3; q++) out[i][j] += c[k](i) * d[k][q] * c[q](j); } }
inline void check(const Base* m, const Spec& s, const std::string& when0) {
    std::string when = std::string(kname(s.k)) + " " + when0; auto& p = s.p;
#define X(T, C) CHECK_EQ(m->is<T>(), (C), "kind " #T " of " << when);
    KINDS_OF(X)
#undef X
    CHECK_EQ(m->getId().toInt(), s.id, "identifier " << when); std::string n = s.name; static const char* bn[] = {"PEC", "PMC", "SMA", "PEC", "PMC", "PML", "SMA", "Periodic", "Mur1", "Mur2"};
    if (!s.named || (s.k >= BPEC && s.k <= BMUR2 && s.name.compare(0, 4, "set_") != 0)) n = s.name.compare(0, 4, "set_") == 0 ? s.name : bn[s.k]; CHECK_EQ(m->getName(), n, "name " << when);
    if (s.k == CLASSIC) {
        auto c = m->castTo<PM::Volume::Classic>(); eq(c->getRelativePermittivity(), p[0], "relative permittivity", when); eq(c->getRelativePermeability(), p[1], "relative permeability", when); eq(c->getElectricConductivity(), p[2], "electric conductivity", when); eq(c->getMagneticConductivity(), p[3], "magnetic conductivity", when);
        eq(c->getPermittivity(), p[0] * EPS0, "permittivity", when); eq(c->getPermeability(), p[1] * MU0, "permeability", when); CHECK_EQ(c->isVacuum(), p[0] == 1 && p[1] == 1 && p[2] == 0 && p[3] == 0, "vacuum " << when);
        if (p[0] > 0) eq(c->getImpedance(), std::sqrt(p[1] * MU0 / (p[0] * EPS0)), "impedance", when); else CHECK(std::isinf(c->getImpedance()), "impedance " << when);
        if (p[1] <= 0) CHECK(std::isinf(c->getAdmitance()), "admittance " << when); else if (p[0] > 0) eq(c->getAdmitance(), std::sqrt(p[0] * EPS0 / (p[1] * MU0)), "admittance", when); else CHECK_EQ(c->getAdmitance(), 0.0, "admittance " << when);
    } else if (s.k == DISP) {
        auto c = m->castTo<PM::Volume::Dispersive>(); std::vector<std::pair<Cx, Cx>> w(s.poles); if (p[2] != 0) w.insert(w.begin(), {Cx(0), Cx(p[2] / 2.0 / EPS0)}); CHECK_EQ(c->getPoleNumber(), w.size(), "poles " << when);
        std::vector<bool> used(w.size(), false); bool classic = w.empty() || (w.size() == 1 && w[0].first == Cx(0)); double sig = 0; for (std::size_t i = 0; i < w.size(); i++) { bool ok = false; for (std::size_t j = 0; j < w.size() && !ok; j++) if (!used[j] && c->getPole(i) == w[j].first && c->getResidue(i) == w[j].second) used[j] = ok = true; CHECK(ok, "pole " << i << " " << when << ": " << c->getPole(i) << c->getResidue(i)); }
        std::size_t zeros = 0; for (auto& x : w) if (x.first == Cx(0)) { zeros++; sig = x.second.real() * 2 * EPS0; } if (zeros <= 1) eq(c->getElectricConductivity(), sig, "static conductivity", when);
        CHECK_EQ(c->isClassic(), classic, "classic " << when); CHECK_EQ(c->isSimplyConductive(), classic, "conductive " << when); CHECK_EQ(c->isDispersive(), !classic, "dispersive " << when); CHECK(c->getFile().empty(), "no file " << when);
    } else if (s.k == DISPFILE) { auto c = m->castTo<PM::Volume::Dispersive>(); CHECK_EQ(std::string(c->getFile()), s.file, "file " << when); CHECK_EQ(c->getPoleNumber(), std::size_t(0), "poles " << when); CHECK(!c->isClassic() && !c->isSimplyConductive() && c->isDispersive(), "kind of material " << when);
    } else if (s.k == CRYSTAL || s.k == FERRITE) {
        auto a = m->castTo<PM::Volume::Anisotropic>(); Math::Axis::Local l = a->getLocalAxe(); for (int i = 0; i < 3; i++) { eq(l.getEulerAngles()(i), s.euler(i), "Euler angle", when); eq(l.getOrigin()(i), s.origin(i), "origin", when); }
        Math::Axis::Local own(s.euler, s.origin); double z[3][3] = {}, d[3][3] = {}, w[3][3]; sameMat(a->getElectricConductivityMat(), z, "electric conductivity", when); sameMat(a->getMagneticConductivityMat(), z, "magnetic conductivity", when);
        if (s.k == CRYSTAL) { auto c = m->castTo<PM::Volume::AnisotropicCrystal>(); for (int i = 0; i < 3; i++) { eq(c->getPrincipalAxesRelativePermittivity()(i), s.eps(i), "principal permittivity", when); d[i][i] = s.eps(i); } eq(c->getRelativePermeability(), p[0], "relative permeability", when);
            rotated(own, d, w); sameMat(a->getRelPermittivityMatR(), w, "permittivity tensor", when); double e[3][3] = {}; for (int i = 0; i < 3; i++) e[i][i] = p[0]; sameMat(a->getRelPermeabilityMatR(), e, "permeability tensor", when); }
        else { auto c = m->castTo<PM::Volume::AnisotropicFerrite>(); double e[3][3] = {}; for (int i = 0; i < 3; i++) e[i][i] = p[2]; sameMat(a->getRelPermittivityMatR(), e, "permittivity tensor", when); d[0][0] = d[1][1] = p[1]; d[2][2] = 1; rotated(own, d, w); sameMat(a->getRelPermeabilityMatR(), w, "permeability tensor", when); double k[3][3] = {}; k[0][1] = p[0]; k[1][0] = -p[0]; rotated(own, k, w); sameMat(c->getRelPermeabilityMatI(), w, "imaginary permeability", when); }
    } else if (s.k == VPML) { auto c = m->castTo<PM::Volume::PML>(); Math::Axis::Local own(s.euler, s.origin); V3 z = subv(own.convertToGlobal(V3(0, 0, 1)), s.origin); for (int i = 0; i < 3; i++) { eq(c->getOrientation().getEulerAngles()(i), s.euler(i), "Euler angle", when); eq(c->getOrientation().getOrigin()(i), s.origin(i), "origin", when); CHECK_NEAR(c->getGlobalZAxis()(i), z(i), 1e-9, 1e-9, "global z axis " << when); }
    } else if (s.k == MULTI) {
        auto c = m->castTo<PM::Surface::Multilayer>(); CHECK_EQ(c->getNumberOfLayers(), s.lay.size(), "layers " << when); CHECK_EQ(c->hasFittingOptions(), s.fit, "fitting options " << when);
        for (std::size_t i = 0; i < s.lay.size(); i++) { auto& a = s.lay[i]; eq(c->getThickness(i), a[0], "thickness", when); eq(c->getPermittivity(i), a[1] * EPS0, "permittivity", when); eq(c->getPermeability(i), a[2] * MU0, "permeability", when); eq(c->getElecCond(i), a[3], "conductivity", when); eq(c->getMagnCond(i), 0, "magnetic conductivity", when);
            auto l = c->getLayer(i); eq(l.getThickness(), a[0], "thickness", when); eq(l.getRelPermittivity(), a[1], "relative permittivity", when); eq(l.getRelPermeability(), a[2], "relative permeability", when); eq(l.getPermittivity(), a[1] * EPS0, "permittivity", when); eq(l.getPermeability(), a[2] * MU0, "permeability", when); eq(l.getElecCond(), a[3], "conductivity", when);
            std::istringstream is(c->printLayer(i)); double v[4]; CHECK(is >> v[0] >> v[1] >> v[2] >> v[3], "printed layer " << when); double w[4] = {a[3], a[1] * EPS0, a[2] * MU0, a[0]}; for (int q = 0; q < 4; q++) CHECK_NEAR(v[q], w[q], 1e-5, 0, "printed layer " << when); }
        if (s.fit) { auto f = c->getFittingOptions(); eq(f.getMinMaxFreq().first, s.ff.first, "lowest frequency", when); eq(f.getMinMaxFreq().second, s.ff.second, "highest frequency", when); CHECK_EQ(f.getNumberOfPoles(), s.nf, "fitted poles " << when); } else CHECK_THROWS(c->getFittingOptions(), "no fitting options " << when);
    } else if (s.k == SIBC) { auto c = m->castTo<PM::Surface::SIBC>(); CHECK_EQ(c->getNumberOfPoles(), s.zpoles.size(), "poles " << when); for (std::size_t q = 0; q < 4; q++) { eqc(c->getZInfinity()(q / 2, q % 2), s.z0[q], "impedance at infinity", when); eqc(c->getZLinear()(q / 2, q % 2), s.z1[q], "linear impedance", when); } auto v = c->getPoleZ(); CHECK_EQ(v.size(), s.zpoles.size(), "poles"); for (std::size_t i = 0; i < v.size(); i++) { eqc(v[i].first, s.zpoles[i].first, "pole", when); for (std::size_t q = 0; q < 4; q++) eqc(v[i].second(q / 2, q % 2), s.zpoles[i].second[q], "residue", when); }
    } else if (s.k == SIBCFILE) CHECK_EQ(std::string(m->castTo<PM::Surface::SIBCFile>()->getFile()), s.file, "file " << when);
    else if (s.k == GAP) eq(m->castTo<PM::Gap::Gap>()->getWidth(), p[0], "width", when);
    else if (s.k == MPPRE || s.k == MPRLC || s.k == MPDISP) { auto c = m->castTo<MP>(); CHECK_EQ((int)c->getType(), s.k == MPDISP ? (int)MP::dispersive : s.type, "type " << when); if (s.k == MPRLC) { auto r = m->castTo<PM::Multiport::RLC>(); eq(r->getR(), p[0], "resistance", when); eq(r->getL(), p[1], "inductance", when); eq(r->getC(), p[2], "capacitance", when); } if (s.k == MPDISP) CHECK_EQ(m->castTo<PM::Multiport::Dispersive>()->getFilename(), s.file, "file " << when); }
    else if (s.k >= WIRE) {
        auto c = m->castTo<PM::Wire::Wire>(); eq(c->getRadius(), p[0], "radius", when); CHECK_EQ(c->isSeriesParallel(), s.k == WIRESP, "series-parallel " << when); CHECK_EQ(c->isDispersive(), s.k == WIREDISP, "dispersive " << when); auto at = [&](std::size_t i) { return i < p.size() ? p[i] : 0.0; };
        eq(c->getSeriesResistance(), at(1), "series resistance", when); eq(c->getSeriesInductance(), at(2), "series inductance", when); eq(c->getSeriesCapacitance(), at(3), "series capacitance", when); eq(c->getParallelResistance(), at(4), "parallel resistance", when); eq(c->getParallelInductance(), at(5), "parallel inductance", when); eq(c->getParallelCapacitance(), at(6), "parallel capacitance", when); CHECK_EQ(c->getFilename(), s.file, "file " << when);
        if (s.k == EXTREMES) { auto x = m->castTo<PM::Wire::Extremes>(); for (std::size_t i = 0; i < 2; i++) { if (!s.ext[i]) CHECK(x->getExtreme(i) == nullptr, "no extreme " << i << " " << when); else { CHECK(x->getExtreme(i) != nullptr, "extreme " << i << " " << when); check(x->getExtreme(i), *s.ext[i], "at extreme " + std::to_string(i) + " " + when0); } } if (s.ext[0] && s.ext[1]) CHECK(x->getExtreme(0) != x->getExtreme(1), "separate extremes"); }
    }
}
#undef KINDS_OF
} // namespace matl
#endif
