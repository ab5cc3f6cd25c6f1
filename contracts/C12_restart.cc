// C12: reflection of rays at the surface and the bottom
// SRCS: waveq3d/wave_queue.cc waveq3d/wave_front.cc waveq3d/ode_integ.cc waveq3d/reflection_model.cc waveq3d/reflection_notifier.cc waveq3d/spreading_ray.cc waveq3d/spreading_hybrid_gaussian.cc eigenrays/eigenray_notifier.cc eigenverbs/eigenverb_notifier.cc ocean/profile_model.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -fno-access-control
// CONTRACT surface_restart: bounded fan of one vertical ray, any sound speed that depends on depth
// CONTRACT bottom_restart: bounded fan of one vertical ray, any sound speed that depends on depth
#include "vp.h"
#include <usml/waveq3d/waveq3d.h>
#include <usml/waveq3d/wave_front.h>
#include <usml/waveq3d/reflection_model.h>
using namespace usml::waveq3d;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;
using namespace usml::eigenverbs;

// any sound speed that depends on depth only
struct any_profile : profile_model {
    void sound_speed(const wposition& l, matrix<double>* s, wvector* g) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) {
                (*s)(i, j) = vp_any1("c", l.rho(i, j));
                if (g) { g->rho(i, j, vp_any1("dc", l.rho(i, j))); g->theta(i, j, 0.0); g->phi(i, j, 0.0); }
            }
    }
    void attenuation(const wposition& l, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) (*a)(i, j)(0) = 0;
    }
};
// boundary with a given height (or a given distance below the ray) and normal, and any reflection loss
struct any_boundary : boundary_model {
    double h, nr, nt, np;
    bool below;
    any_boundary() : boundary_model(nullptr, nullptr), h(1000), nr(1), nt(0), np(0), below(true) {}
    void height(const wposition& l, matrix<double>* r, wvector* n) const override {}
    void height(const wposition1& l, double* r, wvector1* n) const override {
        *r = below ? l.rho() - h : h;
        if (n) { n->rho(nr); n->theta(nt); n->phi(np); }
    }
    static double loss(double f, double g) { return vp_any2("loss", f, g); }
    static double phase(double f, double g) { return vp_any2("phase", f, g); }
    void reflect_loss(const wposition1& l, const seq_vector::csptr& f, double angle, vector<double>* a, vector<double>* p) const override {
        for (size_t i = 0; i < f->size(); ++i) { (*a)(i) = loss((*f)(i), angle); if (p) (*p)(i) = phase((*f)(i), angle); }
    }
};
struct state {
    double r, t, p, nr, nt, np;
    static state any(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f) {
        return state{vp_double(a, 6.36e6, 6.37e6), vp_double(b, 0.5, 2.5), vp_double(c, -3, 3), vp_double(d, -4e-4, 4e-4), vp_double(e, -4e-4, 4e-4), vp_double(f, -4e-4, 4e-4)};
    }
};
static void put(wave_front* w, size_t i, const state& s) {
    w->position.rho(i, 0, s.r); w->position.theta(i, 0, s.t); w->position.phi(i, 0, s.p);
    w->ndirection.rho(i, 0, s.nr); w->ndirection.theta(i, 0, s.nt); w->ndirection.phi(i, 0, s.np);
}
static state get(const wave_front* w, size_t i) {
    return state{w->position.rho(i, 0), w->position.theta(i, 0), w->position.phi(i, 0), w->ndirection.rho(i, 0), w->ndirection.theta(i, 0), w->ndirection.phi(i, 0)};
}
static void same(const char* label, const state& a, const state& b) {
    vp_ensures(label, a.r == b.r && a.t == b.t && a.p == b.p && a.nr == b.nr && a.nt == b.nt && a.np == b.np);
}
struct heard : reflection_listener {
    int count = 0;
    double time, dt, grazing, speed, r, nr, nt, np, r0, nr0;
    size_t de, az, type;
    void reflect(double t, size_t d, size_t a, double x, double g, double c, const wposition1& pos, const wvector1& n, size_t ty) override {
        // name the place and direction of the hit (the values stay the same)
        wposition1& wp = const_cast<wposition1&>(pos);
        wvector1& wn = const_cast<wvector1&>(n);
        r0 = pos.rho(); nr0 = n.rho();
        if (ty == eigenverb_model::SURFACE) { wp.rho(vp_let(wp.rho())); wn.rho(vp_let(wn.rho())); }
        ++count; time = t; de = d; az = a; dt = x; grazing = g; speed = c; r = pos.rho(); nr = n.rho(); nt = n.theta(); np = n.phi(); type = ty;
    }
};
// a wave queue with two frequencies and D rays, one of which (number i) is of interest
struct setup {
    size_t i;
    double h, z;
    seq_vector::csptr f;
    any_boundary *top, *bot;
    wave_queue q;
    heard ear;
    wave_front* w[4];
    state other[4];
    setup(size_t D) : i((size_t)vp_choice("ray", D)), h(vp_double("h", 0.01, 1)), z(vp_double("z", 100, 3000)), f(new seq_linear(1000.0, 500.0, 2)), top(new any_boundary), bot(new any_boundary),
        q(ocean_model::csptr(new ocean_model(boundary_model::csptr(top), boundary_model::csptr(bot), profile_model::csptr(new any_profile))), f,
          wposition1(0.0, 0.0, -z), seq_vector::csptr(new seq_linear(0.0, 1.0, D)), seq_vector::csptr(new seq_linear(0.0, 1.0, 1)), h) {
        vp_requires(h > 0 && z > 1 && z < 10000);
        q.add_reflection_listener(&ear);
        w[0] = q._past; w[1] = q._prev; w[2] = q._curr; w[3] = q._next;
        for (int n = 0; n < 4; ++n) {
            if (D > 1) other[n] = get(w[n], 1 - i);
            w[n]->surface(i, 0) = 3; w[n]->bottom(i, 0) = 5;
        }
    }
    void unchanged() {
        for (int n = 0; n < 4; ++n) {
            same("other rays are left alone", get(w[n], 1 - i), other[n]);
            vp_ensures("counters of other rays are left alone", w[n]->surface(1 - i, 0) == 0 && w[n]->bottom(1 - i, 0) == 0);
        }
        for (size_t k = 0; k < 2; ++k) vp_ensures("losses of other rays are left alone", q._next->attenuation(1 - i, 0)(k) == 0 && q._next->phase(1 - i, 0)(k) == 0);
    }
};
static double a0(setup& s, size_t k) { return s.q._next->attenuation(s.i, 0)(k); }
static double p0(setup& s, size_t k) { return s.q._next->phase(s.i, 0)(k); }

// vertical rays: rate by the ray equations, textbook integration steps
struct ray { double r, n; };
static ray rate(ray y) { double c = vp_any1("c", y.r); return ray{c * c * y.n, -vp_any1("dc", y.r) / c}; }
static ray move(ray y, double h, ray k) { return ray{y.r + h * k.r, y.n + h * k.n}; }
static ray kutta(ray y, double h) {
    ray k1 = rate(y), k2 = rate(move(y, h / 2, k1)), k3 = rate(move(y, h, ray{2 * k2.r - k1.r, 2 * k2.n - k1.n}));
    return move(y, h / 6, ray{k1.r + 4 * k2.r + k3.r, k1.n + 4 * k2.n + k3.n});
}
static ray adams(double h, ray past, ray prev, ray curr) {
    ray a = rate(past), b = rate(prev), c = rate(curr);
    return move(curr, h / 12, ray{23 * c.r - 16 * b.r + 5 * a.r, 23 * c.n - 16 * b.n + 5 * a.n});
}
static void same(const char* l, const char* m, const wave_front* w, ray y) {
    vp_equal(l, w->position.rho(0, 0), y.r);
    vp_equals(m, w->ndirection.rho(0, 0), y.n, 1e-3);
}
static double taylor(double a, double b, double c, double h, double t) { return b + t * (c - a) / (2 * h) + t * t * (c + a - 2 * b) / (2 * h * h); }
static void restart(bool surface) {
    setup s(1);
    wave_front *w[3] = {s.q._prev, s.q._curr, s.q._next};
    double r[3], n[3], c[3];
    const char* name[3][3] = {{"r0", "n0", "c0"}, {"r1", "n1", "c1"}, {"r2", "n2", "c2"}};
    double b = vp_double("bottom", 6.36e6, 6.37e6), v = 0, z = 0;
    for (int k = 0; k < 3; ++k) {
        c[k] = surface || k == 0 ? vp_double(name[k][2], 1400, 1600) : c[0];
        vp_requires(c[k] > 0);
        if (surface) {
            r[k] = vp_double(name[k][0], 6.36e6, 6.371e6); n[k] = vp_double(name[k][1], -6e-4, 6e-4);
        } else { // straight down at constant speed
            if (k == 0) { v = vp_double("root_v", 2.5, 38); v *= v; z = vp_double("above", 0, 1000); }
            r[k] = b + z - v * s.h * (k - 1);
            n[k] = -v / (c[0] * c[0]);
        }
        w[k]->position.rho(0, 0, r[k]); w[k]->ndirection.rho(0, 0, n[k]); w[k]->sound_speed(0, 0) = c[k];
        w[k]->position.theta(0, 0, 1.0); w[k]->position.phi(0, 0, 0.5); w[k]->ndirection.theta(0, 0, 0.0); w[k]->ndirection.phi(0, 0, 0.0);
    }
    double R = wposition::earth_radius, t, path = s.q._next->path_length(0, 0);
    if (surface) {
        vp_requires(n[1] > 0 && c[1] * c[1] * n[1] > 0);
        t = (R - r[1]) / (c[1] * c[1] * n[1]);
        vp_ensures("reflected", s.q._reflection_model->surface_reflection(0, 0));
    } else {
        double under = vp_double("under", 0, 100);
        s.bot->below = false; s.bot->h = b;
        vp_requires(R - b > 300 * s.h && z > 0 && under > 0 && v > 6 && v > z + under && v / c[0] < 1 && v / c[0] > -1);
        t = z / v;
        vp_ensures("reflected", s.q._reflection_model->bottom_reflection(0, 0, under));
    }
    // collision point by second order interpolation
    vp_equal("time of the hit", s.ear.dt, t);
    vp_equal("place of the hit", s.ear.r0, taylor(r[0], r[1], r[2], s.h, t));
    vp_equal("speed at the hit", s.ear.speed, taylor(c[0], c[1], c[2], s.h, t));
    double in = taylor(n[0], n[1], n[2], s.h, t), c2 = s.ear.speed * s.ear.speed;
    vp_equals("direction at the hit", s.ear.nr0, surface ? in : c2 * in, 1e-3);
    // the fronts are rebuilt along the reflected path
    ray hit{s.ear.r, surface ? -s.ear.nr : 1 / s.ear.speed}, curr = kutta(hit, -t), prev = kutta(curr, -s.h), past = kutta(prev, -s.h);
    same("current position", "current direction", s.q.curr(), curr);
    same("previous position", "previous direction", s.q.prev(), prev);
    same("past position", "past direction", s.q.past(), past);
    same("next position", "next direction", s.q.next(), adams(s.h, past, prev, curr));
    vp_equal("path length is kept", s.q._next->path_length(0, 0), path);
}
VP_CONTRACT(surface_restart) { restart(true); }
VP_CONTRACT(bottom_restart) { restart(false); }
