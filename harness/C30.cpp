// C30: solver and mesher options reflect exactly the settings given.
#include "pbt.h"
#include "argument/Parser.h"
#include "solver/Options.h"
#include "mesher/Options.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
using namespace SEMBA;
typedef Solver::Settings Settings;

namespace opts { namespace {
struct Mute { std::stringstream out, err; std::streambuf *o, *e; Mute() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
double real(pbt::Gen& g) { return g.oneOf<double>({g.real(0, 100), g.real(0.01, 2) * std::pow(10.0, g.range(-15, 9)), 1.0 / 3, 0.5, 2.0, (double)g.range(1, 1000)}); }
// Stores a value in one of the ways settings are made.
void store(pbt::Gen& g, Settings& s, const std::string& n, double v) { if (g.flip()) { s(n).setReal(v); return; } char b[64]; snprintf(b, sizeof b, "%.17g", v); s(n).setString(b); }
void store(pbt::Gen& g, Settings& s, const std::string& n, bool v) { if (g.flip()) s(n).setBool(v); else s(n).setString(v ? "1" : "0"); }
void store(pbt::Gen& g, Settings& s, const std::string& n, int v) { if (g.flip()) s(n).setInt(v); else s(n).setString(std::to_string(v)); }
void store(pbt::Gen&, Settings& s, const std::string& n, const std::string& v) { s(n).setString(v); }
// The solver options as the settings should leave them.
struct Sol { bool run = true, byN = false, force = false, resume = false; double final = 0, dt = 0, cfl = 0.8, sampling = 0, flush = 0; int n = 0; std::string extra; };
void check(const Solver::Options& o, const Sol& m, const std::string& w) {
    CHECK_EQ(o.isRunSimulation(), m.run, w + ": run simulation"); CHECK_EQ(o.isForceRestarting(), m.force, w + ": force restarting"); CHECK_EQ(o.isResumeSimulation(), m.resume, w + ": resume simulation");
    CHECK_EQ(o.getTimeStep(), m.dt, w + ": time step"); CHECK_EQ(o.getCFL(), m.cfl, w + ": CFL"); CHECK_EQ(o.getSamplingPeriod(), m.sampling, w + ": sampling period"); CHECK_EQ(o.getFlush(), m.flush, w + ": flush"); CHECK_EQ(o.getAdditionalArguments(), m.extra, w + ": additional arguments");
    if (m.byN) { CHECK_EQ(o.getNumberOfTimeSteps(), (std::size_t)m.n, w + ": number of time steps"); CHECK_NEAR(o.getFinalTime(), m.n * m.dt, 1e-12, 0, w + ": final time from the number of steps"); }
    else { CHECK_EQ(o.getFinalTime(), m.final, w + ": final time"); double n = (double)o.getNumberOfTimeSteps(); if (m.dt == 0) CHECK_EQ(n, 0.0, w + ": steps without a time step"); else if (m.final / m.dt < 1e15) { CHECK(n * m.dt >= m.final * (1 - 1e-12), w + ": the steps end before the final time"); CHECK(n == 0 ? m.final == 0 : (n - 1) * m.dt <= m.final * (1 + 1e-12), w + ": more steps than the final time needs"); } }
}
const std::vector<std::string>& solverKeys() { static std::vector<std::string> k{"runSimulation", "finalTime", "numberOfTimeSteps", "timeStep", "cfl", "defaultSamplingPeriod", "forceRestarting", "resumeSimulation", "flush", "additionalArguments"}; return k; }
struct Val { std::string key; double r; bool b; int i; std::string s; };
Val genSolver(pbt::Gen& g, const std::string& k) { Val v; v.key = k; v.r = real(g); if (k == "finalTime" && g.chance(1, 8)) v.r = 0; v.b = g.flip(); v.i = g.range(0, 100000); v.s = g.oneOf<std::string>({"-mtln -groundwires", "x", "-a 1 -b \"2\"", "12", ""}); return v; }
void put(pbt::Gen& g, Settings& s, const Val& v) { const std::string& k = v.key; if (k == "runSimulation" || k == "forceRestarting" || k == "resumeSimulation") store(g, s, k, v.b); else if (k == "numberOfTimeSteps") store(g, s, k, v.i); else if (k == "additionalArguments") store(g, s, k, v.s); else store(g, s, k, v.r); }
void apply(Sol& m, const Val& v) { const std::string& k = v.key; if (k == "runSimulation") m.run = v.b; else if (k == "finalTime") { m.byN = false; m.final = v.r; } else if (k == "numberOfTimeSteps") { m.byN = true; m.n = v.i; } else if (k == "timeStep") m.dt = v.r; else if (k == "cfl") m.cfl = v.r; else if (k == "defaultSamplingPeriod") m.sampling = v.r; else if (k == "forceRestarting") m.force = v.b; else if (k == "resumeSimulation") m.resume = v.b; else if (k == "flush") m.flush = v.r; else m.extra = v.s; }
void set(Solver::Options& o, const Val& v) { const std::string& k = v.key; if (k == "runSimulation") o.setRunSimulation(v.b); else if (k == "finalTime") o.setFinalTime(v.r); else if (k == "numberOfTimeSteps") o.setNumberOfTimeSteps((std::size_t)v.i); else if (k == "timeStep") o.setTimeStep(v.r); else if (k == "cfl") o.setCFL(v.r); else if (k == "defaultSamplingPeriod") o.setSamplingPeriod(v.r); else if (k == "forceRestarting") o.setForceRestarting(v.b); else if (k == "resumeSimulation") o.setResumeSimulation(v.b); else if (k == "flush") o.setFlush(v.r); else o.setAdditionalArguments(v.s); }
std::string show(const Val& v) { std::ostringstream o; o << v.key << " r " << v.r << " b " << v.b << " i " << v.i << " s '" << v.s << "'\n"; return o.str(); }
void noise(pbt::Gen& g, Settings& s) { if (g.flip()) { s("somethingElse").setString("1"); s("Cfl").setReal(0.3); s("solver")("cfl").setReal(0.1); } if (g.chance(1, 4)) s(g.pick(solverKeys()) + "x").setString("5"); if (g.chance(1, 4)) s(g.oneOf<std::string>({"unset"})); }

// The mesher options.
struct Mesh { Mesher::Options::Mesher mesher = Mesher::Options::Mesher::DMesher; Mesher::Options::Mode mode = Mesher::Options::Mode::structured; bool contour = false, snap = false, unwanted = false, cells = false, vtk = false, msh = true, smb = false, slanted = false; double threshold = 1, forbidden = 1, scale = 1; int subgrid = 0; std::string bound[3][2]; };
struct MVal { std::string key; double r; bool b; int i; std::string s; };
const std::vector<std::string>& flags() { static std::vector<std::string> k{"contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires"}; return k; }
const std::vector<std::string>& bounds() { static std::vector<std::string> k{"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"}; return k; }
std::vector<std::string> mesherKeys() { std::vector<std::string> k = flags(); for (auto& b : bounds()) k.push_back(b); for (auto s : {"slantedThreshold", "mesher", "mode", "subgridPoints", "forbiddenLength", "geometryScalingFactor"}) k.push_back(s); return k; }
bool isFlag(const std::string& k) { return std::find(flags().begin(), flags().end(), k) != flags().end(); }
int boundOf(const std::string& k) { auto it = std::find(bounds().begin(), bounds().end(), k); return it == bounds().end() ? -1 : (int)(it - bounds().begin()); }
MVal genMesher(pbt::Gen& g, const std::string& k) { MVal v; v.key = k; v.r = real(g); v.b = g.flip(); v.i = g.range(0, 50); if (k == "mesher") v.s = g.oneOf<std::string>({"AMesher", "DMesher", "HMesher"}); else if (k == "mode") v.s = g.oneOf<std::string>({"Structured", "Relaxed", "Slanted", "Conformal"}); else v.s = g.oneOf<std::string>({"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"}); return v; }
void put(pbt::Gen& g, Settings& s, const MVal& v) { if (isFlag(v.key)) store(g, s, v.key, v.b); else if (boundOf(v.key) >= 0 || v.key == "mesher" || v.key == "mode") store(g, s, v.key, v.s); else if (v.key == "subgridPoints") store(g, s, v.key, v.i); else store(g, s, v.key, v.r); }
void apply(Mesh& m, const MVal& v) {
    const std::string& k = v.key; bool* f[] = {&m.contour, &m.snap, &m.unwanted, &m.cells, &m.vtk, &m.msh, &m.smb, &m.slanted}; if (isFlag(k)) { *f[std::find(flags().begin(), flags().end(), k) - flags().begin()] = v.b; return; }
    int b = boundOf(k); if (b >= 0) { m.bound[b / 2][b % 2] = v.s; return; }
    typedef Mesher::Options O; if (k == "mesher") m.mesher = v.s == "AMesher" ? O::Mesher::AMesher : v.s == "DMesher" ? O::Mesher::DMesher : O::Mesher::HMesher; else if (k == "mode") m.mode = v.s == "Structured" ? O::Mode::structured : v.s == "Relaxed" ? O::Mode::relaxed : v.s == "Slanted" ? O::Mode::slanted : O::Mode::conformal;
    else if (k == "slantedThreshold") m.threshold = v.r; else if (k == "subgridPoints") m.subgrid = v.i; else if (k == "forbiddenLength") m.forbidden = v.r; else m.scale = v.r;
}
std::string kind(const PhysicalModel::Bound::Bound* b) { using namespace PhysicalModel::Bound; if (!b) return ""; if (b->is<PEC>()) return "PEC"; if (b->is<PMC>()) return "PMC"; if (b->is<PML>()) return "PML"; if (b->is<Periodic>()) return "Periodic"; if (b->is<Mur1>()) return "MUR1"; if (b->is<Mur2>()) return "MUR2"; return "?"; }
void check(const Mesher::Options& o, const Mesh& m, const std::string& w) {
    CHECK(o.getMesher() == m.mesher, w + ": mesher"); CHECK(o.getMode() == m.mode, w + ": mode"); CHECK_EQ(o.isStructured(), m.mode == Mesher::Options::Mode::structured, w + ": structured"); CHECK_EQ(o.isRelaxed(), m.mode == Mesher::Options::Mode::slanted || m.mode == Mesher::Options::Mode::relaxed, w + ": relaxed");
    CHECK_EQ(o.isContourRefinement(), m.contour, w + ": contour refinement"); CHECK_EQ(o.isSnap(), m.snap, w + ": snap"); CHECK_EQ(o.isUnwantedConnectionsInfo(), m.unwanted, w + ": unwanted connections"); CHECK_EQ(o.isStructuredCellsInfo(), m.cells, w + ": structured cells"); CHECK_EQ(o.isVtkExport(), m.vtk, w + ": VTK export"); CHECK_EQ(o.isPostmshExport(), m.msh, w + ": post mesh export"); CHECK_EQ(o.isPostsmbExport(), m.smb, w + ": post smb export"); CHECK_EQ(o.isSlanted(), m.slanted, w + ": slanted wires");
    CHECK_EQ(o.getSlantedThreshold(), m.threshold, w + ": slanted threshold"); CHECK_EQ(o.getForbiddenLength(), m.forbidden, w + ": forbidden length"); CHECK_EQ(o.getScalingFactor(), m.scale, w + ": scaling factor"); CHECK_EQ(o.getSubgridPoints(), m.subgrid, w + ": subgrid points");
    for (std::size_t d = 0; d < 3; d++) for (std::size_t p = 0; p < 2; p++) { CHECK_EQ(kind(o.getBoundTermination(d, p)), m.bound[d][p], w + ": boundary " + bounds()[2 * d + p]); CHECK(o.getBoundTerminations()(d, p) == o.getBoundTermination(d, p), w + ": boundary terminations"); CHECK_EQ(Mesher::Options::toStr(o.getBoundTermination(d, p)), m.bound[d][p].empty() ? std::string("Undefined") : m.bound[d][p], w + ": name of the boundary"); }
}
template <class V, class F> std::vector<V> some(pbt::Gen& g, std::vector<std::string> keys, F f) { g.shuffle(keys); std::size_t n = g.chance(1, 6) ? keys.size() : g.len(0, keys.size()); std::vector<V> r; for (std::size_t i = 0; i < n; i++) r.push_back(f(g, keys[i])); return r; }
std::map<std::string, std::string> argsOf(const std::string& s) { std::map<std::string, std::string> r; std::istringstream is(s); std::string w, last; while (is >> w) { if (w.size() > 1 && w[0] == '-' && std::isalpha((unsigned char)w[1])) { CHECK(!r.count(w), "argument " + w + " twice in '" + s + "'"); r[last = w] = ""; } else { CHECK(last != "" && r[last] == "", "stray '" + w + "' in '" + s + "'"); r[last] = w; } } return r; }
}}
using namespace opts;

PROP(solver_settings_set_exactly_the_options_given, 6000, 80000, "at least two settings, and one left out") {
    std::vector<Val> v = some<Val>(g, solverKeys(), [](pbt::Gen& h, const std::string& k) { return genSolver(h, k); }); for (auto& x : v) g << show(x);
    Solver::Options o; check(o, Sol(), "defaults"); Settings s; noise(g, s); for (auto& x : v) put(g, s, x); Sol m; for (auto& k : solverKeys()) for (auto& x : v) if (x.key == k) apply(m, x); // of final time and number of steps the latter decides
    o.set(s); check(o, m, "after the settings"); o.set(s); check(o, m, "after the settings again"); Settings none; o.set(none); check(o, m, "after empty settings"); Solver::Options c(o), d; d = o; check(c, m, "copy"); check(d, m, "assigned"); check(Solver::Options(), Sol(), "another object"); g.nontrivial(v.size() >= 2 && v.size() < solverKeys().size());
}
PROP(a_history_of_solver_settings_and_setters_leaves_the_last_value_of_each, 3000, 40000, "at least three steps") {
    Solver::Options o; Sol m; std::size_t n = g.len(1, 12); for (std::size_t i = 0; i < n; i++) { Val v = genSolver(g, g.pick(solverKeys())); g << show(v); if (g.flip()) set(o, v); else { Settings s; noise(g, s); put(g, s, v); o.set(s); } apply(m, v); check(o, m, "after " + v.key); } g.nontrivial(n >= 3);
}
PROP(final_time_time_step_and_number_of_steps_agree, 4000, 60000, "a whole number of steps or a long time") {
    Solver::Options o; double dt = g.positive(1e-15, 10); bool whole = g.flip(); int n = g.range(1, 2000000); double t = whole ? n * dt : dt * g.real(0, 5000); g << "dt " << dt << " t " << t << " n " << n << "\n"; if (g.flip()) { o.setTimeStep(dt); o.setFinalTime(t); } else { o.setFinalTime(t); o.setTimeStep(dt); }
    double k = (double)o.getNumberOfTimeSteps(); CHECK_EQ(o.getFinalTime(), t, "final time"); if (whole) CHECK(std::fabs(k - n) <= 1, "steps of a whole number of time steps"); CHECK(k * dt >= t * (1 - 1e-12) && (k - 1) * dt <= t * (1 + 1e-12), "steps to reach the final time");
    Solver::Options q; if (g.flip()) { q.setTimeStep(dt); q.setNumberOfTimeSteps((std::size_t)n); } else { q.setNumberOfTimeSteps((std::size_t)n); q.setTimeStep(dt); } CHECK_EQ(q.getNumberOfTimeSteps(), (std::size_t)n, "number of steps"); CHECK_NEAR(q.getFinalTime(), n * dt, 1e-12, 0, "final time of the steps"); Solver::Options r; r.setTimeStep(dt); r.setFinalTime(q.getFinalTime()); CHECK(std::fabs((double)r.getNumberOfTimeSteps() - n) <= 1, "steps from the final time of the steps"); g.nontrivial(whole || t > 10 * dt);
}
PROP(the_solver_argument_text_has_exactly_the_options_that_differ_from_the_defaults, 4000, 60000, "at least one argument") {
    std::vector<Val> v = some<Val>(g, solverKeys(), [](pbt::Gen& h, const std::string& k) { return genSolver(h, k); }); Sol m; Solver::Options o; for (auto& x : v) { if (g.chance(1, 6) && x.key == "cfl") x.r = 0.8; if (g.chance(1, 6) && x.key == "flush") x.r = 0; g << show(x); set(o, x); apply(m, x); }
    auto a = argsOf(o.toArgsStr()); g << o.toArgsStr() << "\n"; auto want = [&](const std::string& k, bool there) { CHECK_EQ(a.count(k) != 0, there, "argument " + k + " in '" + o.toArgsStr() + "'"); return there; };
    std::size_t n = 0; if (want("-cfl", m.cfl != 0.8)) { n++; CHECK_NEAR(std::atof(a["-cfl"].c_str()), m.cfl, 1e-14, 0, "value of -cfl"); } if (want("-flush", m.flush != 0)) { n++; CHECK_NEAR(std::atof(a["-flush"].c_str()), m.flush, 1e-14, 0, "value of -flush"); } if (want("-s", m.force)) { n++; CHECK_EQ(a["-s"], std::string(), "value of -s"); }
    if (want("-r", m.resume)) { n++; double r = std::atof(a["-r"].c_str()); double q = m.dt != 0 ? m.final / m.dt : m.final; if (m.byN) CHECK_EQ(a["-r"], std::to_string(m.n), "value of -r of a number of steps"); else if (q < 1e15) CHECK(std::fabs(r - q) <= 1 && r <= q * (1 + 1e-9) && r == std::floor(r), "value of -r: " + a["-r"]); } CHECK_EQ(a.size(), n, "number of arguments in '" + o.toArgsStr() + "'");
    std::string text; { Mute mu; o.printInfo(); text = mu.out.str(); } auto line = [](const std::string& t, const std::string& k) { auto p = t.find(k); if (p == std::string::npos) FAIL("no " + k + " in " + t); auto e = t.find('\n', p); std::string x = t.substr(p + k.size(), e == std::string::npos ? e : e - p - k.size()); auto b = x.find_first_not_of(": "); return b == std::string::npos ? std::string() : x.substr(b); };
    for (auto& t : {text, o.toStr()}) { CHECK_EQ(line(t, "Run simulation"), std::string(m.run ? "1" : "0"), "run simulation shown"); CHECK_EQ(line(t, "Force restarting"), std::string(m.force ? "1" : "0"), "force restarting shown"); CHECK_EQ(line(t, "Resume simulation"), std::string(m.resume ? "1" : "0"), "resume simulation shown"); CHECK_EQ(line(t, "Additional arguments"), m.extra, "additional arguments shown"); CHECK_NEAR(std::atof(line(t, "Time step").c_str()), m.dt, 1e-5, 0, "time step shown"); CHECK_NEAR(std::atof(line(t, "Flush").c_str()), m.flush, 1e-5, 0, "flush shown"); CHECK_NEAR(std::atof(line(t, "ampling period").c_str()), m.sampling, 1e-5, 0, "sampling period shown"); }
    g.nontrivial(n > 0);
}
PROP(mesher_settings_set_exactly_the_options_given, 6000, 80000, "at least two settings, and one left out") {
    std::vector<MVal> v = some<MVal>(g, mesherKeys(), [](pbt::Gen& h, const std::string& k) { return genMesher(h, k); }); Settings s; noise(g, s); Mesh m; for (auto& x : v) { g << x.key << " r " << x.r << " b " << x.b << " i " << x.i << " s " << x.s << "\n"; put(g, s, x); apply(m, x); }
    std::unique_ptr<Mesher::Options> o(new Mesher::Options); check(*o, Mesh(), "defaults"); CHECK(!o->isGridStepSet() && o->getOutputName() == "", "grid step and output name by default"); o->set(s); check(*o, m, "after the settings"); o->set(s); check(*o, m, "after the settings again"); o->set(Settings()); check(*o, m, "after empty settings");
    std::string t; { Mute mu; o->printInfo(); t = mu.out.str(); } CHECK_EQ(t.find("structured mesh") != std::string::npos, m.mode == Mesher::Options::Mode::structured, "structured shown"); const char* ax[] = {"X", "Y", "Z"}; for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { std::string l = std::string(p ? "Upper " : "Lower ") + ax[d] + " Bound: " + (m.bound[d][p].empty() ? "Undefined" : m.bound[d][p]) + "\n"; CHECK(t.find(l) != std::string::npos, "not shown: " + l + t); }
    CHECK(!o->isGridStepSet(), "grid step not set"); Math::CVecR3 gs(real(g), real(g), real(g)); o->setGridStep(gs); bool some = false, none = true; for (int i = 0; i < 3; i++) { some = some || std::fabs(gs(i)) > 1e-12; none = none && gs(i) == 0; CHECK_EQ(o->getGridStep()(i), gs(i), "grid step"); } if (some || none) CHECK_EQ(o->isGridStepSet(), some, "grid step is set"); o->setOutputName("out"); CHECK_EQ(o->getOutputName(), std::string("out"), "output name"); check(*o, m, "after other setters"); check(Mesher::Options(), Mesh(), "another object"); g.nontrivial(v.size() >= 2 && v.size() < mesherKeys().size());
}
PROP(a_history_of_mesher_settings_and_setters_leaves_the_last_value_of_each, 3000, 40000, "at least three steps") {
    Mesher::Options o; Mesh m; std::size_t n = g.len(1, 12);
    for (std::size_t i = 0; i < n; i++) {
        MVal v = genMesher(g, g.pick(mesherKeys())); g << v.key << " r " << v.r << " b " << v.b << " i " << v.i << " s " << v.s << "\n"; apply(m, v); const std::string& k = v.key;
        if (boundOf(k) >= 0 || g.flip()) { Settings s; noise(g, s); put(g, s, v); o.set(s); } else if (k == "contourRefinement") o.setContourRefinement(v.b); else if (k == "snap") o.setSnap(v.b); else if (k == "unwantedConnectionsInfo") o.setUnwantedConnectionsInfo(v.b); else if (k == "structuredCellsInfo") o.setStructuredCellsInfo(v.b); else if (k == "vtkExport") o.setVtkExport(v.b); else if (k == "postmshExport") o.setPostmshExport(v.b); else if (k == "postsmbExport") o.setPostsmbExport(v.b); else if (k == "slantedWires") o.setSlanted(v.b);
        else if (k == "slantedThreshold") o.setSlantedThreshold(v.r); else if (k == "subgridPoints") o.setSubgridPoints(v.i); else if (k == "forbiddenLength") o.setForbiddenLength(v.r); else if (k == "geometryScalingFactor") o.setScalingFactor(v.r); else if (k == "mesher") o.setMesher(m.mesher); else o.setMode(m.mode);
        check(o, m, "after " + k);
    }
    g.nontrivial(n >= 3);
}
PROP(unrecognised_labels_and_values_of_another_type_are_rejected, 4000, 60000, "every case has one") {
    bool label = g.flip(); Settings s; std::string k, bad;
    if (label) { k = g.chance(1, 3) ? g.oneOf<std::string>({"mesher", "mode"}) : g.pick(bounds()); std::string good = genMesher(g, k).s; switch (g.range(0, 5)) { case 0: bad = good + "x"; break; case 1: bad = good.substr(0, good.size() - 1); break; case 2: bad = good; for (auto& c : bad) c = (char)(std::isupper((unsigned char)c) ? std::tolower(c) : std::toupper(c)); break; case 3: bad = ""; break; case 4: bad = " " + good; break; default: bad = g.oneOf<std::string>({"PEC2", "MUR", "MUR3", "SMA", "Undefined", "Unstructured", "GMesher", "0", "None", "NONE"}); } }
    else { std::vector<std::string> ks = mesherKeys(); bool mesher = g.flip(); std::vector<std::string> num; for (auto& x : mesher ? ks : solverKeys()) if (boundOf(x) < 0 && x != "mesher" && x != "mode" && x != "additionalArguments") num.push_back(x); k = g.pick(num); bad = g.oneOf<std::string>({"abc", "", "1x", "--", "true?", "1 2", "0.5m"}); g << k << " '" << bad << "'\n"; s(k).setString(bad); if (mesher) { Mesher::Options o; CHECK_THROWS(o.set(s), "a value of another type accepted for " + k); } else { Solver::Options o; CHECK_THROWS(o.set(s), "a value of another type accepted for " + k); check(o, Sol(), "after a refused value"); } g.nontrivial(true); return; }
    g << k << " '" << bad << "'\n"; s(k).setString(bad); Mesher::Options o; CHECK_THROWS(o.set(s), "label '" + bad + "' accepted for " + k); check(o, Mesh(), "after a refused label"); g.nontrivial(true);
}
PROP(solver_information_keeps_its_name_and_settings, 2000, 20000, "settings on both sides") {
    auto make = [&](std::size_t& n) { Settings s; auto v = some<Val>(g, solverKeys(), [](pbt::Gen& h, const std::string& k) { return genSolver(h, k); }); n = v.size(); for (auto& x : v) put(g, s, x); return s; }; std::size_t na, nb; Settings a = make(na), b = make(nb); std::string name = g.ident(); g << name << " " << na << " " << nb << "\n";
    auto eq = [&](const Settings& x, const Settings& y, const std::string& w) { for (auto& k : solverKeys()) { CHECK_EQ(x.existsName(k), y.existsName(k), w + ": " + k); if (x.existsName(k)) CHECK_EQ(x(k).getString(), y(k).getString(), w + ": " + k); } };
    Solver::Info i(name, a), c(i), e; CHECK_EQ(i.getName(), name, "name"); eq(i.getSettings(), a, "settings"); CHECK_EQ(c.getName(), name, "name of the copy"); eq(c.getSettings(), a, "settings of the copy"); Solver::Info m(std::move(c)); CHECK_EQ(m.getName(), name, "name after a move"); eq(m.getSettings(), a, "settings after a move"); e.setName(name); e.setSettings(b); CHECK_EQ(e.getName(), name, "name set"); eq(e.getSettings(), b, "settings set"); CHECK_EQ(Solver::Info(name).getName(), name, "name only");
    Solver::Info s = i + b; CHECK_EQ(s.getName(), name, "name of the sum"); for (auto& k : solverKeys()) { const Settings& w = b.existsName(k) ? b : a; CHECK_EQ(s.getSettings().existsName(k), w.existsName(k), "setting " + k + " of the sum"); if (w.existsName(k)) CHECK_EQ(s.getSettings()(k).getString(), w(k).getString(), "setting " + k + " of the sum"); } eq(i.getSettings(), a, "settings after the sum"); g.nontrivial(na && nb);
}
PROP(the_mesher_command_line_takes_exactly_its_four_options, 3000, 40000, "at least two options") {
    Mesher::Options o; Argument::Parser p; Argument::Group* in = g.flip() ? &p : &p.addGroup("mesher"); o.addArguments(*in); if (g.flip()) Solver::Options().addArguments(*in);
    CHECK(in->numOptions() == 4 && in->numPositions() == 0, "options declared: " << in->numOptions());
    bool has[4]; std::size_t n = 0; std::vector<std::vector<std::string>> parts; double step[3] = {0, 0, 0}, len = 0; std::string mode; int bad = g.chance(1, 4) ? g.range(0, 3) : -1; auto num = [&](double& x) { x = real(g); char b[64]; snprintf(b, sizeof b, "%.17g", x); return std::string(b); };
    for (int i = 0; i < 4; i++) { has[i] = g.flip() || (bad >= 0 && (bad == 3 ? 1 : bad + 1) == i); n += has[i]; }
    if (has[0]) parts.push_back({"--vtkexport"}); if (has[1]) { parts.push_back({"--gridstep", num(step[0]), num(step[1]), num(step[2])}); if (bad == 0) parts.back()[1 + g.draw(3)] = "x1"; if (bad == 3) parts.back().pop_back(); }
    if (has[2]) { mode = g.oneOf<std::string>({"Structured", "Relaxed", "Slanted", "Conformal"}); if (bad == 1) mode = g.oneOf<std::string>({"structured", "Relax", "Slanted ", "Conformals", "", "1"}); parts.push_back({"--mode", mode}); } if (has[3]) { parts.push_back({"--length", num(len)}); if (bad == 2) parts.back()[1] = g.oneOf<std::string>({"long", "1e", "1 m", ""}); }
    g.shuffle(parts); std::vector<std::string> line{"prog"}; for (auto& q : parts) line.insert(line.end(), q.begin(), q.end()); for (auto& w : line) g << "'" << w << "' "; g.nontrivial(n > 1 && bad < 0); g.label(bad >= 0, "refused"); if (n == 0) g.discard();
    Settings r; bool threw = false; { Mute m; std::stringstream e; std::streambuf* old = std::cerr.rdbuf(e.rdbuf()); try { r = p.parse(line); } catch (const std::exception&) { threw = true; } std::cerr.rdbuf(old); } CHECK_EQ(threw, bad >= 0, "refused"); if (threw) return;
    const Settings& s = in == &p ? r : r("mesher"); CHECK_EQ(s.existsName("VTK Export") && s("VTK Export").getBool(), has[0], "VTK export"); CHECK_EQ(s.existsName("gridstep"), has[1], "grid step"); CHECK_EQ(s.existsName("Mode"), has[2], "mode"); CHECK_EQ(s.existsName("Forbidden length"), has[3], "forbidden length");
    if (has[1]) { auto t = s("gridstep").get<double, double, double>(); CHECK(std::get<0>(t) == step[0] && std::get<1>(t) == step[1] && std::get<2>(t) == step[2], "values of the grid step"); } if (has[2]) CHECK_EQ(s("Mode").getString(), mode, "value of the mode"); if (has[3]) CHECK_EQ(s("Forbidden length").getReal(), len, "value of the forbidden length");
    check(o, Mesh(), "after declaring its options");
}
