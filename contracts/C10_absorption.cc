// C10: absorption and ambient noise follow their formulas at every frequency
// SRCS: ocean/attenuation_thorp.cc ocean/attenuation_constant.cc ocean/ambient_wenz.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
#include "vp.h"
#include <usml/ocean/ocean.h>
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// any number of frequencies; f[k] is an arbitrary element
struct freqs {
    size_t n, k;
    double first, inc;
    seq_vector::csptr f;
    freqs() : n((size_t)vp_int("nf", 1, 1000000)), k(vp_index("kf", n)), first(vp_double("first", 10, 5000)), inc(vp_double("inc", 1, 1000)), f(new seq_linear(first, inc, n)) {
        vp_requires(first > 0 && inc > 0);
    }
    double value() const { return first + inc * (double)k; }
};
static double thorp(double f, double depth) {
    double F2 = f * f / 1e6;
    return 0.001 * (0.0033 + 0.11 * F2 / (1 + F2) + 44 * F2 / (4100 + F2) + 0.0003 * F2) * (1 - 5.88264e-6 * depth) / (1 - 0.00588264);
}
VP_CONTRACT(thorp_formula) {
    freqs q;
    size_t cols = 1 + (size_t)vp_choice("cols", 2), rows = 1 + (size_t)vp_choice("rows", 2), i = (size_t)vp_choice("i", 2), j = (size_t)vp_choice("j", 2);
    vp_requires(i < rows && j < cols);
    double z = vp_double("depth", 0, 11000), d = vp_double("distance", 0, 1e6);
    wposition loc(rows, cols, 10.0, 20.0, vp_double("alt", -5000, 0));
    loc.altitude(i, j, -z);
    matrix<double> dist(rows, cols);
    for (size_t a = 0; a < rows; ++a) for (size_t b = 0; b < cols; ++b) dist(a, b) = vp_any2("dist", a, b);
    dist(i, j) = d;
    matrix<vector<double> > att(rows, cols);
    for (size_t a = 0; a < rows; ++a) for (size_t b = 0; b < cols; ++b) att(a, b) = vector<double>(q.n);
    attenuation_thorp().attenuation(loc, q.f, dist, &att);
    double got = att(i, j)(q.k);
    vp_ensures("one loss per frequency", att(i, j).size() == q.n);
    vp_equal("thorp absorption", got, d * thorp(q.value(), z));
}
VP_CONTRACT(thorp_not_negative) {
    double f = vp_double("f", 10, 100000), z = vp_double("depth", 0, 11000), d = vp_double("distance", 0, 1e6);
    vp_requires(f > 0 && z >= 0 && z < 12000 && d >= 0);
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    wposition loc(1, 1, 10.0, 20.0, -z);
    matrix<double> dist(1, 1);
    dist(0, 0) = d;
    matrix<vector<double> > a(1, 1), b(1, 1);
    a(0, 0) = vector<double>(1);
    b(0, 0) = vector<double>(1);
    attenuation_thorp m;
    m.attenuation(loc, fr, dist, &a);
    vp_le("never negative", 0, a(0, 0)(0));
    double s = vp_double("s", 0, 10);
    dist(0, 0) = d * s;
    m.attenuation(loc, fr, dist, &b);
    vp_equal("linear in distance", b(0, 0)(0), s * a(0, 0)(0));
}
VP_CONTRACT(constant_formula) {
    freqs q;
    double c = vp_double("c", 0, 1e-3), d = vp_double("distance", 0, 1e6);
    size_t i = (size_t)vp_choice("i", 2), j = (size_t)vp_choice("j", 2);
    wposition loc(2, 2, 10.0, 20.0, vp_double("alt", -5000, 0));
    matrix<double> dist(2, 2);
    for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) dist(a, b) = vp_any2("dist", a, b);
    dist(i, j) = d;
    matrix<vector<double> > att(2, 2);
    for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) att(a, b) = vector<double>(q.n);
    attenuation_constant(c).attenuation(loc, q.f, dist, &att);
    vp_equal("constant absorption", att(i, j)(q.k), c * d * q.value());
}
static double db(double x) { return pow(10.0, 0.1 * x); }
VP_CONTRACT(wenz_formula) {
    freqs q;
    double wind = vp_double("wind", -1, 20);
    int ship = (int)vp_choice("shipping", 9), rain = (int)vp_choice("rain", 5);
    double f = q.value();
    vector<double> noise(q.n);
    ambient_wenz(wind, ship, rain).ambient(wposition1(), q.f, &noise);
    double x = log10(f), none = -300;
    double s = ship >= 1 && ship <= 7 ? 76 - 20 * (x - log10(30.0)) * (x - log10(30.0)) + 5 * (ship - 4) : none;
    double w = none, r = none;
    if (wind >= 0) {
        double speed = sqrt(21 * (wind / 0.51444444));
        w = f < 1000 ? 44 + speed + 17 * (3 - x) * (x - 2) : 95 + speed - 17 * x;
    }
    if (f >= 550 && f <= 15500) {
        if (rain == 1) r = 64.942 + 19.917 * x - 5.242 * x * x;
        if (rain == 2) r = 19.628 + 42.933 * x - 7.516 * x * x;
        if (rain == 3) r = 222.491 - 135.904 * x + 43.893 * x * x - 4.737 * x * x * x;
    }
    vp_ensures("one level per frequency", noise.size() == q.n);
    vp_equal("wenz noise", noise(q.k), db(107 - 30 * x) + db(-75 + 20 * x) + db(s) + db(w) + db(r));
}
VP_CONTRACT(constant_noise) {
    freqs q;
    double level = vp_double("level", -50, 100);
    vector<double> noise(1);
    ambient_constant(level).ambient(wposition1(), q.f, &noise);
    vp_ensures("one level per frequency", noise.size() == q.n);
    vp_equal("constant noise", noise(q.k), pow(10.0, 0.1 * level));
}
