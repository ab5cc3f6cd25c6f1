// C09: interface and volume scattering strengths
// CONTRACT constant_matrix: bounded patches of 2x2 points
// CONTRACT lambert_matrix: bounded patches of 2x2 points
// CONTRACT chapman_matrix: bounded patches of 2x2 points
// SRCS: types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
#include "vp.h"
#include <usml/ocean/ocean.h>
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// any number of frequencies and any angles; f[k] is an arbitrary element
struct query {
    size_t n, k;
    double first, inc, di, ds, ai, as;
    seq_vector::csptr f;
    vector<double> one, swapped;
    query(double top) : n((size_t)vp_int("nf", 1, 1000000)), k(vp_index("kf", n)), first(vp_double("first", 10, 5000)), inc(vp_double("inc", 1, 1000)),
                        di(vp_double("de_incident", 0.001, top)), ds(vp_double("de_scattered", 0.001, top)), ai(vp_double("az_incident", -3, 3)), as(vp_double("az_scattered", -3, 3)),
                        f(new seq_linear(first, inc, n)), one(n), swapped(n) {
        vp_requires(first > 0 && inc > 0);
    }
    double value() const { return first + inc * (double)k; }
    wposition1 where() const { return wposition1(vp_double("lat", -80, 80), vp_double("lng", -180, 180), vp_double("alt", -5000, 0)); }
    // single point form, both directions
    double run(const scattering_model& m) {
        m.scattering(where(), f, di, ds, ai, as, &one);
        m.scattering(where(), f, ds, di, as, ai, &swapped);
        vp_ensures("one strength per frequency", one.size() == n && swapped.size() == n);
        vp_equal("reciprocal", swapped(k), one(k));
        return one(k);
    }
    // matrix form for a small patch of points
    double grid(const scattering_model& m) {
        const size_t R = 2, C = 2;
        size_t r = (size_t)vp_choice("row", R), c = (size_t)vp_choice("col", C);
        matrix<double> de(R, C), az(R, C);
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) {
            bool it = i == r && j == c;
            de(i, j) = it ? ds : vp_any2("de", (double)i, (double)j);
            az(i, j) = it ? as : vp_any2("az", (double)i, (double)j);
        }
        wposition p(R, C);
        matrix<vector<double> > out(R, C);
        m.scattering(p, f, di, de, ai, az, &out);
        vp_ensures("one strength per point and frequency", out.size1() == R && out.size2() == C && out(r, c).size() == n);
        return out(r, c)(k);
    }
};
VP_CONTRACT(constant) {
    double a = vp_double("amplitude", -60, 0);
    query q(1.5);
    vp_equal("strength", q.run(scattering_constant(a)), pow(10.0, a / 10));
}
VP_CONTRACT(lambert) {
    double bss = vp_double("bss", -40, 0);
    query q(1.5);
    double s = q.run(scattering_lambert(bss));
    vp_equal("strength", s, pow(10.0, bss / 10) * fabs(sin(q.di) * sin(q.ds)));
    vp_le("never negative", 0, s);
}
static double harris(double wind, double f, double g) {
    double beta = 158 * pow(wind * 1.94384449 * pow(f, 1.0 / 3), -0.58), deg = g * 180 / M_PI;
    return pow(10.0, (2.6 - 42.4 * log10(beta) + 3.3 * beta * log10(deg / 30 + 1e-6)) / 10);
}
VP_CONTRACT(chapman) {
    double w = vp_double("wind", 1, 20);
    query q(1.5);
    vp_requires(w > 0 && q.di >= 0 && q.ds >= 0);
    vp_equal("strength", q.run(scattering_chapman(w)), harris(w, q.value(), (q.di + q.ds) / 2));
}
VP_CONTRACT(constant_matrix) {
    double a = vp_double("amplitude", -60, 0);
    query q(1.5);
    vp_equal("strength", q.grid(scattering_constant(a)), pow(10.0, a / 10));
}
VP_CONTRACT(lambert_matrix) {
    double bss = vp_double("bss", -40, 0);
    query q(1.5);
    vp_equal("strength", q.grid(scattering_lambert(bss)), pow(10.0, bss / 10) * fabs(sin(q.di) * sin(q.ds)));
}
VP_CONTRACT(chapman_matrix) {
    double w = vp_double("wind", 1, 20);
    query q(1.5);
    vp_requires(w > 0 && q.di >= 0 && q.ds >= 0);
    vp_equal("strength", q.grid(scattering_chapman(w)), harris(w, q.value(), (q.di + q.ds) / 2));
}
