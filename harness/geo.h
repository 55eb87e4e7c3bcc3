// Shared generators for geometry.
#ifndef VERIF_GEO_H_
#define VERIF_GEO_H_
#include "pbt.h"
#include "geometry/Grid.h"
#include "geometry/Box.h"
#include <algorithm>
#include <vector>
namespace geo {
using namespace SEMBA;
typedef Math::Vector::Cartesian<Math::Real,3> V3;
typedef Math::Vector::Cartesian<Math::Int,3> I3;
typedef std::vector<double> Lines;
const auto AX = Math::Constants::x, AY = Math::Constants::y, AZ = Math::Constants::z;
inline Math::Constants::CartesianAxis axis(int d) { return Math::Constants::CartesianAxis(d); }
inline Math::Constants::CartesianBound bound(int b) { return Math::Constants::CartesianBound(b); }

// Strictly increasing lines, uniform or stretched.
inline Lines genLines(pbt::Gen& g, int maxCells, double unit = 1.0) {
    Lines r;
    int n = 1 + (int)g.many(0, (std::size_t)(maxCells - 1), (std::size_t)std::min(8 * maxCells, 200));
    double o = unit * g.oneOf<double>({0.0, 0.0, -1.0, 2.5, -7.25, 100.0});
    int kind = g.range(0, 2);
    double st = unit * g.oneOf<double>({1.0, 0.5, 0.1, 2.0, 0.37});
    r.push_back(o);
    for (int i = 0; i < n; i++) {
        double s = st;
        if (kind == 1) s = st * g.oneOf<double>({1.0, 0.25, 3.0, 0.6});
        if (kind == 2) s = st * (0.1 + 2.0 * g.unit());
        r.push_back(kind == 0 ? o + (i + 1) * st : r.back() + s);
    }
    return r;
}
inline std::string str(const Lines& l) {
    std::ostringstream o; o.precision(12); o << "{";
    for (std::size_t i = 0; i < l.size(); i++) o << (i ? " " : "") << l[i];
    o << "}"; return o.str();
}
} // namespace geo
#endif
