// C04: excitation functions and their spectra are mathematically consistent.
#include "pbt.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "math/util/DTFT.h"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <map>
#include <memory>
using namespace SEMBA;
using namespace SEMBA::Math;
using Function::Gaussian;
using Function::BandLimited;
typedef Function::LinearInterpolation<double, double> Table;
typedef std::complex<double> Cx;
typedef std::vector<std::pair<double, Cx>> Samples;
using pbt::Gen;
static const double pi = 3.14159265358979323846;

PROP(gaussian, 20000, 800000, "delayed, at a time within six spreads") {
    double s = g.positive(1e-12, 1e3), d = s * g.oneOf<double>({0.0, 6.0, -2.0, 1.0, 40.0}) * (g.flip() ? 1.0 : g.unit());
    double f = g.chance(1, 2) ? 0.0 : g.oneOf<double>({0.1, 1.0, 3.0}) / s, u = g.real(-12, 12), t = d + u * s;
    g << "spread " << s << " delay " << d << " freq " << f << " t " << t;
    g.nontrivial(d != 0 && std::fabs(u) < 6 && u != 0); g.label(f != 0, "carrier");
    const Gaussian q(s, d, f);
    CHECK_EQ(q.getSpread(), s, "spread"); CHECK_EQ(q.getDelay(), d, "delay"); CHECK_EQ(q.getFreq(), f, "frequency");
    double env = std::exp(-0.5 * std::pow((t - d) / s, 2)), want = env * std::cos(2 * pi * f * t);
    CHECK_NEAR(q(t), want, 1e-9, 1e-9 * env * (1 + std::fabs(f * t)) + 1e-300, "value");
    CHECK_EQ(q.eval(t), q(t), "eval");
    CHECK(std::fabs(q(t)) <= 1.0, "bounded");
    const Gaussian p(s, d);
    CHECK_EQ(p.getFreq(), 0.0, "no carrier by default"); CHECK_EQ(p(d), 1.0, "peak at the delay");
    CHECK_NEAR(p(d + u * s), p(d - u * s), 1e-7, 1e-300, "symmetric about the delay");
    if (std::fabs(u) > 1e-6 && std::fabs(u) < 30) CHECK(p(d + u * s) < 1.0 && p(d + 1.5 * u * s) <= p(d + u * s), "decreases away from the delay");
    CHECK_NEAR(p(d + s), std::exp(-0.5), 1e-9, 0, "spread");
    Gaussian c(q); CHECK(c == q && q == c, "copy"); std::unique_ptr<Gaussian> k(q.clone()); CHECK(*k == q && (*k)(t) == q(t), "clone");
    int w = g.range(0, 2); Gaussian o(w == 0 ? s * 2 : s, w == 1 ? d + s : d, w == 2 ? f + 1 / s : f); CHECK(!(o == q), "another pulse");
    BandLimited b(1.0, 2.0); CHECK(!(q == b) && !(b == q), "another kind");
}
PROP(gaussian_bandwidth, 6000, 200000, "every case") {
    double f = g.positive(1e-3, 1e16); g << f; g.nontrivial();
    Gaussian p = Gaussian::buildFromMaximumFrequency(f);
    CHECK_EQ(p.getFreq(), 0.0, "no carrier");
    CHECK_NEAR(p.getSpread() * f, Gaussian::buildFromMaximumFrequency(1.0).getSpread(), 1e-12, 0, "bandwidth is proportional to the frequency");
    CHECK(std::fabs(p(0.0)) < 1e-6, "starts from a negligible value: " << p(0.0)); CHECK(p.getDelay() > 0 && p(p.getDelay()) == 1.0, "peaks after the start");
    // Share of the energy of the spectrum above f.
    double in = 0, out = 0, h = f / 200; for (int i = 0; i < 2000; i++) { double e = std::norm(p.getFourier((i + 0.5) * h)); (i < 200 ? in : out) += e; }
    CHECK(out < 0.1 * (in + out), "most energy is below the frequency: " << out / (in + out)); CHECK(std::abs(p.getFourier(0)) > 0 && std::abs(p.getFourier(f)) < 0.5 * std::abs(p.getFourier(0)), "half the amplitude is below");
    double bad = g.oneOf<double>({0.0, -1.0, -f}); CHECK_THROWS(Gaussian::buildFromMaximumFrequency(bad), "not positive");
}
PROP(gaussian_spectrum, 1500, 40000, "inside the bandwidth") {
    double s = g.positive(1e-10, 1e2), d = s * g.real(-3, 6), f = g.real(-0.8, 0.8) / s; g << s << " " << d << " " << f;
    g.nontrivial(std::fabs(f * s) < 0.4 && f != 0);
    Gaussian p(s, d); Cx sum; double h = s / 40;
    for (int i = -400; i <= 400; i++) { double t = d + i * h; sum += p(t) * std::exp(Cx(0, -2 * pi * f * t)) * h; }
    Cx got = p.getFourier(f);
    CHECK(std::min(std::abs(got - sum), std::abs(std::conj(got) - sum)) < 1e-7 * s, "transform is the integral of the pulse: " << got.real() << "," << got.imag() << " against " << sum.real() << "," << sum.imag());
    CHECK(std::abs(p.getFourier(-f) - std::conj(got)) < 1e-12 * s, "spectrum of a real pulse");
}
PROP(band_limited, 20000, 800000, "a pulse with at least a tenth of its peak") {
    double lo = g.positive(1e-3, 1e15), hi = lo * (1 + g.positive(1e-3, 1e3)); double delay = 20 / lo, sp = 10 / hi;
    double u = g.chance(1, 4) ? g.oneOf<double>({0.0, 1e-12, -1e-9, 1e-6}) : g.real(-8, 8), t = delay + u * sp;
    g << lo << " " << hi << " t=" << t;
    const BandLimited b(lo, hi);
    double v = b(t); CHECK(std::isfinite(v) && std::fabs(v) <= 1 + 1e-12, "finite and bounded: " << v);
    double x = t - delay, a = 2 * pi * (hi - lo) / 2 * x, want = (a == 0 ? 1 : std::sin(a) / a) * std::exp(-x * x / sp / sp / 2) * std::cos(2 * pi * (hi + lo) / 2 * x);
    g.nontrivial(std::fabs(want) > 0.1); g.label(x == 0, "at the delay");
    double noise = 1e-12 * (1 + hi * t);
    CHECK_NEAR(v, want, 1e-9, 1e-9 + noise, "value");
    CHECK_NEAR(b(delay), 1.0, 0, 1e-9, "peak at the delay");
    double e = 1e-5 / hi; CHECK_NEAR(b(t + e), v, 0, 5e-4 + noise, "continuous"); CHECK_NEAR(b(delay + e), b(delay), 0, 1e-6 + noise, "continuous at the delay"); CHECK_NEAR(b(delay - e), b(delay), 0, 1e-6 + noise, "continuous at the delay");
    CHECK_NEAR(b(delay + u * sp), b(delay - u * sp), 0, 1e-4 + noise * 10, "symmetric");
    for (double z : {0.0, -1.0, 1e6, 1e-30}) CHECK(std::isfinite(b(z * delay)), "finite at " << z);
    CHECK(b == BandLimited(lo, hi), "equal"); CHECK(!(b == BandLimited(lo, hi * 2)) && !(b == BandLimited(lo * 0.5, hi)), "different"); CHECK(!(b == Gaussian(1, 1)), "another kind");
    std::unique_ptr<BandLimited> k(b.clone()); CHECK(*k == b && (*k)(t) == v, "clone");
    CHECK_THROWS(BandLimited(hi, lo), "limits in the wrong order"); CHECK_THROWS(BandLimited(lo, lo), "no band"); CHECK_THROWS(BandLimited(0, hi), "null limit"); CHECK_THROWS(BandLimited(-lo, hi), "negative limit");
}

static double interp(const std::map<double, double>& m, double x) {
    auto it = m.lower_bound(x);
    if (it == m.end()) return m.rbegin()->second;
    if (it->first == x || it == m.begin()) return it->second;
    auto p = std::prev(it); return p->second + (it->second - p->second) * (x - p->first) / (it->first - p->first);
}
static std::string write(Gen& g, const std::vector<std::pair<double, double>>& v) {
    std::string path = pbt::scratch() + "/table.exc"; std::ofstream f(path);
    int fmt = g.range(0, 3); const char* sep = g.oneOf<const char*>({" ", "\t", "   ", "\n"}); const char* nl = g.oneOf<const char*>({"\n", "\r\n", "\n\n", " \n"});
    f << std::setprecision(17); if (fmt == 1) f << std::scientific; if (fmt == 2) f << std::showpos;
    if (fmt == 3) f << nl;
    for (std::size_t i = 0; i < v.size(); i++) { f << v[i].first << sep << v[i].second; if (i + 1 < v.size()) f << nl; }
    if (g.flip()) f << nl;
    return path;
}
PROP(table, 20000, 600000, "three points and an argument between two") {
    std::size_t n = 1 + g.many(0, 12, 200); std::vector<std::pair<double, double>> v; std::map<double, double> m;
    double sc = g.oneOf<double>({1.0, 1e-9, 1e6}), o = g.oneOf<double>({0.0, 1.0, -3.0});
    for (std::size_t i = 0; i < n; i++) { double x = sc * (o + (g.flip() ? g.integer(-10, 10) : g.real(-10, 10))), y = g.flip() ? g.simple() : g.real(-100, 100); if (m.count(x)) continue; m[x] = y; v.push_back({x, y}); }
    g.shuffle(v);
    for (auto& p : v) g << p.first << ":" << p.second << " ";
    Table a(v), f(write(g, v));
    CHECK(a == f, "read from a file is the same table"); CHECK(a == Table(v), "equal");
    std::vector<double> xs; for (auto& p : m) xs.push_back(p.first);
    double gap = 1e300; for (std::size_t i = 1; i < xs.size(); i++) gap = std::min(gap, xs[i] - xs[i - 1]);
    for (auto& p : m) { CHECK_EQ(a(p.first), p.second, "table point"); CHECK_EQ(f(p.first), p.second, "table point of the file"); }
    double lo = xs.front(), hi = xs.back(), ymax = 0; for (auto& p : m) ymax = std::max(ymax, std::fabs(p.second));
    CHECK_EQ(a(lo - sc * g.positive(1e-6, 1e6)), m.begin()->second, "before the first point"); CHECK_EQ(a(hi + sc * g.positive(1e-6, 1e6)), m.rbegin()->second, "after the last point");
    for (int k = 0; k < 4; k++) {
        double x = xs.size() > 1 ? lo + (hi - lo) * g.unit() : lo;
        if (g.chance(1, 3) && xs.size() > 1) { std::size_t i = (std::size_t)g.draw(xs.size() - 1); x = xs[i] + (xs[i + 1] - xs[i]) * g.oneOf<double>({0.5, 0.25, 0.9}); }
        g.nontrivial(m.size() >= 3 && !m.count(x));
        double tol = 1e-14 * (std::fabs(lo) + std::fabs(hi)) / gap * ymax * 20 + 1e-12 * ymax;
        CHECK_NEAR(a(x), interp(m, x), 1e-9, tol, "between points at " << x); CHECK_NEAR(f(x), a(x), 0, 0, "file and table"); CHECK_EQ(a.eval(x), a(x), "eval");
    }
    std::unique_ptr<Table> c(a.clone()); CHECK(*c == a, "clone");
    if (g.chance(1, 3)) { // a point given twice counts as given first, in memory and in a file
        std::vector<std::pair<double, double>> r(v); std::size_t k = 1 + g.len(0, 3); for (std::size_t i = 0; i < k; i++) { auto q = v[g.draw(v.size())]; q.second += g.flip() ? 1 : g.real(-10, 10); r.insert(r.begin() + (std::ptrdiff_t)g.draw(r.size() + 1), q); }
        std::map<double, double> first; for (auto& p : r) first.insert(p);
        Table ra(r), rf(write(g, r)); g.label("repeated points");
        CHECK(ra == rf, "read from a file is the same table, with points repeated"); for (auto& p : first) { CHECK_EQ(ra(p.first), p.second, "repeated point"); CHECK_EQ(rf(p.first), p.second, "repeated point of the file"); }
    }
    std::vector<std::pair<double, double>> w(v); w[g.draw(w.size())].second += 1; CHECK(!(Table(w) == a), "another value"); w = v; w.push_back({hi + sc, 0.0}); CHECK(!(Table(w) == a), "another point");
    CHECK(!(a == Gaussian(1, 1)), "another kind"); CHECK_THROWS(Table()(1.0), "no data"); CHECK_THROWS(Table(pbt::scratch() + "/none.exc"), "no file");
    { std::string e = pbt::scratch() + "/empty.exc"; std::ofstream(e) << (g.flip() ? "\n" : ""); CHECK_THROWS(Table t(e), "no data in the file"); }
}
static Cx sum(const Samples& d, double f) { Cx r; for (auto& p : d) r += p.second * std::polar(1.0, -2 * pi * f * p.first); return r * ((d.back().first - d.front().first) / (double)d.size()); }
PROP(dtft, 12000, 400000, "three samples with different values") {
    std::size_t n = 1 + g.many(0, 20, 200); Samples a, b, c; double t = g.simple(), h = g.positive(1e-3, 10), size = 0; bool uni = g.flip();
    Cx al(g.simple(), g.simple()); bool re = g.flip();
    for (std::size_t i = 0; i < n; i++) { Cx x(g.real(-5, 5), re ? 0.0 : g.real(-5, 5)), y(g.simple(), g.simple()); a.push_back({t, x}); b.push_back({t, y}); c.push_back({t, x * al + y}); size += std::abs(x) * (1 + std::abs(al)) + std::abs(y); t += uni ? h : h * (0.1 + g.unit()); }
    double f = g.chance(1, 5) ? 0.0 : g.real(-3, 3) / h, L = std::max(1e-9, a.back().first - a.front().first); g << n << " samples, f=" << f;
    g.nontrivial(n >= 3 && f != 0);
    double tol = 1e-11 * size * L * (1 + std::fabs(f * t));
    Cx A = Util::getDTFT(a, f), B = Util::getDTFT(b, f), C = Util::getDTFT(c, f);
    CHECK(std::abs(A - sum(a, f)) <= tol, "defining sum: " << A.real() << "," << A.imag());
    CHECK(std::abs(C - (A * al + B)) <= tol * (1 + std::abs(al)), "linear");
    if (re) CHECK(std::abs(Util::getDTFT(a, -f) - std::conj(A)) <= tol, "real data");
    double dt = g.real(-2, 2); Samples s(a); for (auto& p : s) p.first += dt;
    CHECK(std::abs(Util::getDTFT(s, f) - A * std::polar(1.0, -2 * pi * f * dt)) <= tol * 10 + 1e-9 * size * L, "a delay turns the phase");
}
