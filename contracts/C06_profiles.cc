// C06: sound speed profiles and their gradients
// SRCS: ocean/profile_model.cc ocean/profile_linear.cc ocean/profile_munk.cc ocean/profile_n2.cc ocean/profile_catenary.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// CONTRACT attenuation_model: bounded 1x2 points
// CONTRACT mackenzie: bounded grid of 2x2x2 samples, arbitrary data
#include "vp.h"
#include <usml/ocean/ocean.h>
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// what every profile has to satisfy at one location: value and radial derivative of its formula
static void check(const profile_model& p, const wposition& loc, size_t i, size_t j, bool flat, double c, double g) {
    matrix<double> speed(loc.size1(), loc.size2()), only(loc.size1(), loc.size2());
    wvector grad(loc.size1(), loc.size2());
    // left over values of an earlier use must not survive
    grad.theta(i, j, vp_double("stale", -1, 1));
    grad.phi(i, j, 0.25);
    p.sound_speed(loc, &speed, &grad);
    p.sound_speed(loc, &only, nullptr);
    double R = wposition::earth_radius, r = R + loc.altitude(i, j);
    if (flat) { g = (g * r + c) / R; c = c * r / R; }
    vp_equal("speed", speed(i, j), c);
    vp_equal("speed without gradient", only(i, j), c);
    vp_equals("radial gradient", grad.rho(i, j), g, 1e-3);
    vp_equals("latitude gradient", grad.theta(i, j), 0, 1);
    vp_equals("longitude gradient", grad.phi(i, j), 0, 1);
}
static void earth() {
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    vp_requires(wposition::earth_radius > 1e6);
}
// a table of locations with one or two rows and any number of columns; element (i,k) is arbitrary
struct where {
    size_t n, k, i;
    double z;
    wposition loc;
    where(size_t rows) : n((size_t)vp_int("n", 1, 1000000)), k(vp_index("k", n)), i((size_t)vp_choice("row", rows)), z(vp_double("depth", 0, 5000)),
        loc(rows, n, 0.0, 0.0, vp_double("alt", -5000, 0)) { loc.altitude(i, k, -z); }
};
VP_CONTRACT(linear_two_layers) {
    earth();
    where w(2);
    double c0 = vp_double("c0", 1400, 1600), g0 = vp_double("g0", -1, 1), z1 = vp_double("z1", 0, 3000), g1 = vp_double("g1", -1, 1);
    profile_linear p(c0, g0, z1, g1);
    bool flat = vp_choice("flat", 2) == 1;
    p.flat_earth(flat);
    double z = w.z;
    check(p, w.loc, w.i, w.k, flat, z < z1 ? c0 + g0 * z : c0 + g0 * z1 + g1 * (z - z1), z < z1 ? -g0 : -g1);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(linear_one_layer) {
    earth();
    where w(1);
    double c0 = vp_double("c0", 1400, 1600), g0 = vp_double("g0", -1, 1);
    bool iso = vp_choice("isovelocity", 2) == 1, flat = vp_choice("flat", 2) == 1;
    if (iso) { profile_linear p(c0); p.flat_earth(flat); check(p, w.loc, w.i, w.k, flat, c0, 0); }
    else { profile_linear p(c0, g0); p.flat_earth(flat); check(p, w.loc, w.i, w.k, flat, c0 + g0 * w.z, -g0); }
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(n2) {
    earth();
    where w(2);
    double c0 = vp_double("c0", 1400, 1600), g0 = vp_double("g0", -1, 1);
    profile_n2 p(c0, g0);
    vp_requires(c0 > 0);
    double q = 1 + w.z * 2 * g0 / c0;
    vp_requires(q > 0);
    bool flat = vp_choice("flat", 2) == 1;
    p.flat_earth(flat);
    double c = c0 / sqrt(q);
    check(p, w.loc, w.i, w.k, flat, c, g0 * c / c0 / q);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(munk) {
    earth();
    where w(2);
    double axis = vp_double("axis", 100, 2000), scale = vp_double("scale", 500, 2000), c1 = vp_double("c1", 1400, 1600), e = vp_double("epsilon", 0, 0.01);
    vp_requires(scale > 0);
    profile_munk p(axis, scale, c1, e);
    bool flat = vp_choice("flat", 2) == 1;
    p.flat_earth(flat);
    double x = 2 * (w.z - axis) / scale;
    check(p, w.loc, w.i, w.k, flat, c1 * (1 + e * (x - 1 + exp(-x))), -c1 * e * (1 - exp(-x)) * 2 / scale);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(catenary) {
    earth();
    where w(2);
    double c1 = vp_double("c1", 1400, 1600), g1 = vp_double("g1", 5000, 20000), z1 = vp_double("z1", 0, 3000);
    vp_requires(g1 > 0);
    profile_catenary p(c1, g1, z1);
    bool flat = vp_choice("flat", 2) == 1;
    p.flat_earth(flat);
    double x = (w.z - z1) / g1;
    check(p, w.loc, w.i, w.k, flat, c1 * cosh(x), -c1 * sinh(x) / g1);
    wposition::earth_radius = 6371000.0;
}
// a grid whose interpolated value and derivatives are arbitrary functions of the location
template <size_t N> struct any_grid : data_grid<N> {
    double interpolate(const double l[], double* d) const override {
        double a = l[0], b = N > 1 ? l[N > 1 ? 1 : 0] : 0, c = N > 2 ? l[N > 2 ? 2 : 0] : 0;
        if (d) {
            d[0] = vp_any3("d0", a, b, c);
            if (N > 1) d[1] = vp_any3("d1", a, b, c);
            if (N > 2) d[2] = vp_any3("d2", a, b, c);
        }
        return vp_any3("c", a, b, c);
    }
};
template <size_t N> static void check_grid() {
    earth();
    size_t n = (size_t)vp_int("n", 1, 1000000), k = vp_index("k", n), i = (size_t)vp_choice("row", 2);
    wposition loc(2, n, 10.0, 20.0, vp_double("alt", -5000, 0));
    loc.altitude(i, k, vp_double("altk", -5000, 0));
    loc.theta(i, k, vp_double("theta", 0.1, 3));
    loc.phi(i, k, vp_double("phi", -3, 3));
    profile_grid<N> p(typename data_grid<N>::csptr(new any_grid<N>()));
    bool flat = vp_choice("flat", 2) == 1;
    p.flat_earth(flat);
    matrix<double> speed(2, n), only(2, n);
    wvector grad(2, n);
    grad.theta(i, k, vp_double("stale", -1, 1));
    grad.phi(i, k, 0.25);
    p.sound_speed(loc, &speed, &grad);
    p.sound_speed(loc, &only, nullptr);
    double R = wposition::earth_radius, r = loc.rho(i, k), t = N > 1 ? loc.theta(i, k) : 0, f = N > 2 ? loc.phi(i, k) : 0;
    double c = vp_any3("c", r, t, f), g = vp_any3("d0", r, t, f), s = 1;
    if (flat) { s = r / R; g = (g * r + c) / R; c = c * s; }
    vp_equal("speed", speed(i, k), c);
    vp_equal("speed without gradient", only(i, k), c);
    vp_equal("radial gradient", grad.rho(i, k), g);
    vp_equal("latitude gradient", grad.theta(i, k), N > 1 ? vp_any3("d1", r, t, f) : 0);
    vp_equal("longitude gradient", grad.phi(i, k), N > 2 ? vp_any3("d2", r, t, f) : 0);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(grid_1d) { check_grid<1>(); }
VP_CONTRACT(grid_2d) { check_grid<2>(); }
VP_CONTRACT(grid_3d) { check_grid<3>(); }
// the attenuation of a profile is that of its model, Thorp when there is none
struct any_loss : attenuation_model {
    void attenuation(const wposition& loc, const seq_vector::csptr& f, const matrix<double>& dist, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < loc.size1(); ++i)
            for (size_t j = 0; j < loc.size2(); ++j)
                for (size_t k = 0; k < f->size(); ++k) (*a)(i, j)(k) = vp_any3("loss", loc.rho(i, j), dist(i, j), (*f)(k));
    }
};
VP_CONTRACT(attenuation_model) {
    double f0 = vp_double("f", 10, 10000), df = vp_double("df", 1, 1000);
    seq_vector::csptr f(new seq_linear(f0, df, (size_t)2));
    wposition loc(1, 2, 10.0, 20.0, vp_double("alt", -5000, 0));
    matrix<double> dist(1, 2);
    dist(0, 0) = vp_double("d0", 0, 1e5);
    dist(0, 1) = vp_double("d1", 0, 1e5);
    matrix<vector<double> > a(1, 2);
    for (size_t j = 0; j < 2; ++j) a(0, j) = vector<double>(2);
    attenuation_model::csptr m(new any_loss());
    size_t how = (size_t)vp_choice("how", 4);
    if (how == 0) { profile_linear p(1500.0, m); p.attenuation(loc, f, dist, &a); }
    else if (how == 1) { profile_linear p(1500.0); p.attenuation(m); p.attenuation(loc, f, dist, &a); }
    else if (how == 2) { profile_munk p(1300.0, 1300.0, 1500.0, 7.37e-3, m); p.attenuation(loc, f, dist, &a); }
    else {
        profile_linear p(1500.0);
        p.attenuation(loc, f, dist, &a);
        matrix<vector<double> > b(1, 2);
        for (size_t j = 0; j < 2; ++j) b(0, j) = vector<double>(2);
        attenuation_thorp().attenuation(loc, f, dist, &b);
        for (size_t j = 0; j < 2; ++j) for (size_t k = 0; k < 2; ++k) vp_equal("default attenuation", a(0, j)(k), b(0, j)(k));
        return;
    }
    for (size_t j = 0; j < 2; ++j) for (size_t k = 0; k < 2; ++k)
        vp_equal("attenuation of the attached model", a(0, j)(k), vp_any3("loss", loc.rho(0, j), dist(0, j), (*f)(k)));
}
VP_CONTRACT(mackenzie) {
    // nine term equation at every node of the temperature and salinity grids
    double d0 = vp_double("depth", 0, 5000), dd = vp_double("step", 10, 100), T[8], S[8];
    vp_requires(dd > 0);
    vp_doubles("T", T, 8, -2, 30);
    vp_doubles("S", S, 8, 30, 40);
    seq_vector::csptr ax[3] = {seq_vector::csptr(new seq_linear(wposition::earth_radius - d0, -dd, (size_t)2)),
        seq_vector::csptr(new seq_linear(1.0, 0.1, (size_t)2)), seq_vector::csptr(new seq_linear(2.0, 0.1, (size_t)2))};
    auto *gt = new gen_grid<3>(ax), *gs = new gen_grid<3>(ax);
    for (size_t n = 0; n < 8; ++n) {
        size_t ix[3] = {n / 4, (n / 2) % 2, n % 2};
        gt->setdata(ix, T[n]);
        gs->setdata(ix, S[n]);
    }
    bool nearest = vp_choice("nearest", 2) == 1, limit = vp_choice("limit", 2) == 1;
    for (size_t n = 0; n < 3; ++n) { gt->interp_type(n, nearest ? interp_enum::nearest : interp_enum::linear); gt->edge_limit(n, limit); }
    data_grid<3>::csptr temp(gt), salt(gs);
    data_grid_mackenzie m(temp, salt);
    for (size_t n = 0; n < 8; ++n) {
        size_t ix[3] = {n / 4, (n / 2) % 2, n % 2};
        double D = n < 4 ? d0 : d0 + dd, t = T[n], s = S[n] - 35;
        vp_equals("mackenzie speed", m.data(ix), 1448.96 + 4.591 * t - 0.05304 * t * t + 2.374e-4 * t * t * t + 1.34 * s + 0.0163 * D + 1.675e-7 * D * D - 0.01025 * t * s - 7.139e-13 * t * D * D * D, 1e3);
    }
    for (size_t n = 0; n < 3; ++n) vp_ensures("same grid", m.interp_type(n) == temp->interp_type(n) && m.edge_limit(n) == limit && &m.axis(n) == &temp->axis(n));
}
