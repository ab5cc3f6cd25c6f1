// C11: ray equations and their integration
// SRCS: waveq3d/wave_front.cc waveq3d/ode_integ.cc ocean/profile_model.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -fno-access-control
// CONTRACT ray_equations: bounded fan of 2x2 rays
// CONTRACT start: bounded fan of 2x3 rays
// CONTRACT kutta: bounded fan of 2x2 rays
// CONTRACT adams: bounded fan of 2x2 rays
// CONTRACT aliased: bounded fan of 1x1 rays
// CONTRACT target_distance: bounded fan of 1x2 rays, 1x2 targets
#include "vp.h"
#include <usml/waveq3d/waveq3d.h>
#include <usml/waveq3d/wave_front.h>
#include <usml/waveq3d/ode_integ.h>
using namespace usml::waveq3d;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// an arbitrary sound speed field with its gradient and absorption
struct any_profile : profile_model {
    static double c(double r, double t, double p) { return vp_any3("c", r, t, p); }
    void sound_speed(const wposition& l, matrix<double>* s, wvector* g) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) {
                double r = l.rho(i, j), t = l.theta(i, j), p = l.phi(i, j);
                (*s)(i, j) = c(r, t, p);
                if (g) {
                    g->rho(i, j, vp_any3("cr", r, t, p));
                    g->theta(i, j, vp_any3("ct", r, t, p));
                    g->phi(i, j, vp_any3("cp", r, t, p));
                }
            }
    }
    void attenuation(const wposition& l, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) (*a)(i, j)(0) = vp_any3("a", l.rho(i, j), (*f)(0), d(i, j));
    }
};
static ocean_model::csptr ocean() { return ocean_model::csptr(new ocean_model(nullptr, nullptr, profile_model::csptr(new any_profile))); }
static seq_vector::csptr freq() { return seq_vector::csptr(new seq_linear(vp_double("freq", 100, 10000), 1.0, 1)); }

// state of the ray (i,j) of a fan: arbitrary location, direction and travelled distance
struct ray {
    double r, t, p, nr, nt, np;
    ray() : r(vp_double("rho", 6.36e6, 6.37e6)), t(vp_double("theta", 0.1, 3)), p(vp_double("phi", -3, 3)), nr(vp_double("nr", -5e-4, 5e-4)), nt(vp_double("nt", -5e-4, 5e-4)), np(vp_double("np", -5e-4, 5e-4)) {
        vp_requires(r > 0 && t > 0 && t < M_PI);
    }
    void put(wave_front& w, size_t i, size_t j) const {
        w.position.rho(i, j, r); w.position.theta(i, j, t); w.position.phi(i, j, p);
        w.ndirection.rho(i, j, nr); w.ndirection.theta(i, j, nt); w.ndirection.phi(i, j, np);
    }
};
// anything in the other rays
static void fill(wave_front& w, size_t i, size_t j) {
    for (size_t a = 0; a < w.num_de(); ++a) for (size_t b = 0; b < w.num_az(); ++b) if (a != i || b != j) {
        double x = (double)a, y = (double)b;
        w.position.rho(a, b, 6e6 + vp_any2("orho", x, y)); w.position.theta(a, b, vp_any2("otheta", x, y)); w.position.phi(a, b, vp_any2("ophi", x, y));
        w.ndirection.rho(a, b, vp_any2("onr", x, y)); w.ndirection.theta(a, b, vp_any2("ont", x, y)); w.ndirection.phi(a, b, vp_any2("onp", x, y));
    }
}
VP_CONTRACT(ray_equations) {
    seq_vector::csptr f = freq();
    wave_front w(ocean(), f, 2, 2);
    size_t i = (size_t)vp_choice("de", 2), j = (size_t)vp_choice("az", 2);
    ray q;
    fill(w, i, j);
    q.put(w, i, j);
    double dist = vp_double("distance", 0, 100);
    w.distance(i, j) = dist;
    w.phase(i, j)(0) = vp_double("stale", -1, 1);
    double c = any_profile::c(q.r, q.t, q.p), cr = vp_any3("cr", q.r, q.t, q.p), ct = vp_any3("ct", q.r, q.t, q.p), cp = vp_any3("cp", q.r, q.t, q.p);
    vp_requires(c > 0);
    w.update();
    vp_equal("sound speed", w.sound_speed(i, j), c);
    // dr/dt = c^2 n in spherical coordinates
    double c2 = c * c, s = sin(q.t), k = cos(q.t);
    vp_equal("drho/dt", w.pos_gradient.rho(i, j), c2 * q.nr);
    vp_equal("dtheta/dt", w.pos_gradient.theta(i, j), c2 * q.nt / q.r);
    vp_equal("dphi/dt", w.pos_gradient.phi(i, j), c2 * q.np / (q.r * s));
    // dn/dt = - grad(c)/c, with the rotation of the local axes along the ray
    vp_equal("dn_rho/dt", w.ndir_gradient.rho(i, j), -cr / c + c2 * (q.nt * q.nt + q.np * q.np) / q.r);
    vp_equal("dn_theta/dt", w.ndir_gradient.theta(i, j), -ct / (c * q.r) + c2 * (q.np * q.np * k / s - q.nr * q.nt) / q.r);
    vp_equal("dn_phi/dt", w.ndir_gradient.phi(i, j), -cp / (c * q.r * s) - c2 * q.np * (q.nr + q.nt * k / s) / q.r);
    // c^2 n.n = 1 is kept: d(c^2 n.n)/dt = 2 c dc/dt n.n + 2 c^2 n.dn/dt
    double nn = q.nr * q.nr + q.nt * q.nt + q.np * q.np;
    double dc = cr * w.pos_gradient.rho(i, j) + ct * w.pos_gradient.theta(i, j) + cp * w.pos_gradient.phi(i, j);
    double dn = q.nr * w.ndir_gradient.rho(i, j) + q.nt * w.ndir_gradient.theta(i, j) + q.np * w.ndir_gradient.phi(i, j);
    double g = cr * q.nr + ct * q.nt / q.r + cp * q.np / (q.r * s);
    vp_equals("unit direction is kept", 2 * c * dc * nn + 2 * c2 * dn, 2 * c * g * (c2 * nn - 1), 1);
    vp_equal("absorption", w.attenuation(i, j)(0), vp_any3("a", q.r, (*f)(0), dist));
    vp_equal("no phase change", w.phase(i, j)(0), 0);
}

VP_CONTRACT(start) {
    // all rays leave the source with their own direction, of length 1/c
    const size_t D = 2, A = 3;
    wave_front w(ocean(), freq(), D, A);
    size_t i = (size_t)vp_choice("de", D), j = (size_t)vp_choice("az", A);
    ray q;
    wposition1 pos;
    pos.rho(q.r); pos.theta(q.t); pos.phi(q.p);
    double d0 = vp_double("de0", -90, 90), dd = vp_double("dde", 0.1, 10), a0 = vp_double("az0", -180, 180), da = vp_double("daz", 0.1, 10);
    seq_vector::csptr de(new seq_linear(d0, dd, D)), az(new seq_linear(a0, da, A));
    vp_requires(dd > 0 && da > 0);
    double c = any_profile::c(q.r, q.t, q.p);
    vp_requires(c > 0);
    w.init_wave(pos, de, az);
    double d = (d0 + dd * (double)i) * M_PI / 180, a = (a0 + da * (double)j) * M_PI / 180;
    vp_equal("start rho", w.position.rho(i, j), q.r);
    vp_equal("start theta", w.position.theta(i, j), q.t);
    vp_equal("start phi", w.position.phi(i, j), q.p);
    vp_equals("up", w.ndirection.rho(i, j), sin(d) / c, 1e-3);
    vp_equals("south", w.ndirection.theta(i, j), -cos(d) * cos(a) / c, 1e-3);
    vp_equals("east", w.ndirection.phi(i, j), cos(d) * sin(a) / c, 1e-3);
    vp_ensures("counters start at zero", w.surface(i, j) == 0 && w.bottom(i, j) == 0 && w.caustic(i, j) == 0 && w.upper(i, j) == 0 && w.lower(i, j) == 0 && !w.on_edge(i, j));
    vp_ensures("losses and lengths start at zero", w.distance(i, j) == 0 && w.path_length(i, j) == 0 && w.attenuation(i, j).size() == 1 && w.attenuation(i, j)(0) == 0 && w.phase(i, j)(0) == 0);
}
// gradient of one component of a ray
struct comp {
    int what;
    size_t i, j;
    comp() : what((int)vp_choice("component", 6)), i((size_t)vp_choice("de", 2)), j((size_t)vp_choice("az", 2)) {}
    double get(wave_front& w) const {
        switch (what) {
            case 0: return w.position.rho(i, j);
            case 1: return w.position.theta(i, j);
            case 2: return w.position.phi(i, j);
            case 3: return w.ndirection.rho(i, j);
            case 4: return w.ndirection.theta(i, j);
            default: return w.ndirection.phi(i, j);
        }
    }
    void set(wave_front& w, double x) const {
        switch (what) {
            case 0: w.position.rho(i, j, x); break;
            case 1: w.position.theta(i, j, x); break;
            case 2: w.position.phi(i, j, x); break;
            case 3: w.ndirection.rho(i, j, x); break;
            case 4: w.ndirection.theta(i, j, x); break;
            default: w.ndirection.phi(i, j, x);
        }
    }
    void rate(wave_front& w, double x) const {
        switch (what) {
            case 0: w.pos_gradient.rho(i, j, x); break;
            case 1: w.pos_gradient.theta(i, j, x); break;
            case 2: w.pos_gradient.phi(i, j, x); break;
            case 3: w.ndir_gradient.rho(i, j, x); break;
            case 4: w.ndir_gradient.theta(i, j, x); break;
            default: w.ndir_gradient.phi(i, j, x);
        }
    }
    bool pos() const { return what < 3; }
};
VP_CONTRACT(kutta) {
    // y' = L y: one step multiplies by the exponential series up to third order, for any y and L
    ocean_model::csptr o = ocean();
    seq_vector::csptr f = freq();
    comp q;
    wave_front y0(o, f, 2, 2), y1(o, f, 2, 2), y2(o, f, 2, 2), y3(o, f, 2, 2);
    double y = vp_double("y", -1, 1), L = vp_double("L", -1, 1), dt = vp_double("dt", -1, 1), z = L * dt;
    q.set(y0, y); q.rate(y0, L * y);
    if (q.pos()) ode_integ::rk1_pos(dt, &y0, &y1); else ode_integ::rk1_ndir(dt, &y0, &y1);
    vp_equals("half step", q.get(y1), y * (1 + z / 2), 1);
    q.rate(y1, L * q.get(y1));
    if (q.pos()) ode_integ::rk2_pos(dt, &y0, &y1, &y2); else ode_integ::rk2_ndir(dt, &y0, &y1, &y2);
    vp_equals("predicted step", q.get(y2), y * (1 + z + z * z), 1);
    q.rate(y2, L * q.get(y2));
    if (q.pos()) ode_integ::rk3_pos(dt, &y0, &y1, &y2, &y3); else ode_integ::rk3_ndir(dt, &y0, &y1, &y2, &y3);
    vp_equals("third order step", q.get(y3), y * (1 + z + z * z / 2 + z * z * z / 6), 1);
}
VP_CONTRACT(adams) {
    // rate a + b t + c t^2 at t = -2h, -h, 0: the step to h is exact
    ocean_model::csptr o = ocean();
    seq_vector::csptr f = freq();
    comp q;
    wave_front y0(o, f, 2, 2), y1(o, f, 2, 2), y2(o, f, 2, 2), y3(o, f, 2, 2);
    double y = vp_double("y", -1, 1), a = vp_double("a", -1, 1), b = vp_double("b", -1, 1), c = vp_double("c", -1, 1), h = vp_double("h", 0, 1);
    q.set(y2, y);
    q.rate(y0, a - 2 * h * b + 4 * h * h * c); q.rate(y1, a - h * b + h * h * c); q.rate(y2, a);
    if (q.pos()) ode_integ::ab3_pos(h, &y0, &y1, &y2, &y3); else ode_integ::ab3_ndir(h, &y0, &y1, &y2, &y3);
    vp_equals("exact for quadratic rates", q.get(y3), y + a * h + b * h * h / 2 + c * h * h * h / 3, 1);
}
VP_CONTRACT(adams_distance) {
    // length of the step in local cartesian coordinates
    ocean_model::csptr o = ocean();
    seq_vector::csptr f = freq();
    wave_front y0(o, f, 1, 1), y1(o, f, 1, 1), y2(o, f, 1, 1), y3(o, f, 1, 1);
    ray q;
    q.put(y2, 0, 0);
    double a = vp_double("drho", -1500, 1500), b = vp_double("dtheta", -1e-3, 1e-3), c = vp_double("dphi", -1e-3, 1e-3), h = vp_double("h", 0, 1);
    wave_front* all[3] = {&y0, &y1, &y2};
    for (int i = 0; i < 3; ++i) { all[i]->pos_gradient.rho(0, 0, a); all[i]->pos_gradient.theta(0, 0, b); all[i]->pos_gradient.phi(0, 0, c); }
    ode_integ::ab3_pos(h, &y0, &y1, &y2, &y3);
    double u = h * a, v = h * b * q.r, w = h * c * q.r * sin(q.t);
    vp_le("distance is positive", 0, y3.distance(0, 0));
    vp_equal("distance", y3.distance(0, 0) * y3.distance(0, 0), u * u + v * v + w * w);
}
VP_CONTRACT(aliased) {
    // the last start up step may overwrite the front of its own intermediate step
    ocean_model::csptr o = ocean();
    seq_vector::csptr f = freq();
    wave_front y0(o, f, 1, 1), y1(o, f, 1, 1), y2(o, f, 1, 1), y3(o, f, 1, 1);
    comp q;
    vp_requires(q.i == 0 && q.j == 0);
    double dt = vp_double("dt", -1, 1);
    q.set(y0, vp_double("y0", -1, 1)); q.set(y1, vp_double("y1", -1, 1)); q.set(y2, vp_double("y2", -1, 1));
    q.rate(y0, vp_double("r0", -1, 1)); q.rate(y1, vp_double("r1", -1, 1)); q.rate(y2, vp_double("r2", -1, 1));
    if (q.pos()) { ode_integ::rk3_pos(dt, &y0, &y1, &y2, &y3); ode_integ::rk3_pos(dt, &y0, &y1, &y2, &y2, false); }
    else { ode_integ::rk3_ndir(dt, &y0, &y1, &y2, &y3); ode_integ::rk3_ndir(dt, &y0, &y1, &y2, &y2, false); }
    vp_equal("same step", q.get(y2), q.get(y3));
}

VP_CONTRACT(target_distance) {
    // squared distance of each ray from each target, haversines replaced by squared half angles
    double R = vp_double("target_rho", 6.36e6, 6.37e6), T = vp_double("target_theta", 0.1, 3), P = vp_double("target_phi", -3, 3);
    size_t t = (size_t)vp_choice("target", 2), j = (size_t)vp_choice("az", 2);
    wposition target(1, 2);
    matrix<double> st(1, 2);
    for (size_t n = 0; n < 2; ++n) {
        target.rho(0, n, n == t ? R : 6e6); target.theta(0, n, n == t ? T : 1.0); target.phi(0, n, n == t ? P : 0.5);
        st(0, n) = sin(target.theta(0, n));
    }
    wave_front w(ocean(), freq(), 1, 2, &target, &st);
    ray q;
    fill(w, 0, j);
    q.put(w, 0, j);
    w.update();
    double a = (q.t - T) / 2, b = (q.p - P) / 2;
    double want = q.r * q.r + R * R - 2 * q.r * R * (1 - 2 * (a * a + sin(T) * sin(q.t) * b * b));
    vp_ensures("one table per target", w.distance2.size1() == 1 && w.distance2.size2() == 2 && w.distance2(0, t).size1() == 1 && w.distance2(0, t).size2() == 2);
    vp_equals("squared distance", w.distance2(0, t)(0, j), fabs(want), 1e7);
}
