// C12: reflection of rays at the surface and the bottom; integration steps are replaced by what C11 shows of them
// SRCS: waveq3d/wave_queue.cc waveq3d/wave_front.cc waveq3d/reflection_model.cc waveq3d/reflection_notifier.cc waveq3d/spreading_ray.cc waveq3d/spreading_hybrid_gaussian.cc eigenrays/eigenray_notifier.cc eigenverbs/eigenverb_notifier.cc ocean/profile_model.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -fno-access-control
// CONTRACT surface_mirror: bounded fan of two rays
// CONTRACT near_miss: bounded fan of two rays
// CONTRACT bottom_mirror: bounded fan of two rays
// CONTRACT beach: bounded fan of two rays
// CONTRACT counters: bounded fan of two rays
// CONTRACT no_crossing: bounded fan of two rays
#include "vp.h"
#include <usml/waveq3d/waveq3d.h>
#include <usml/waveq3d/wave_front.h>
#include <usml/waveq3d/reflection_model.h>
#include <usml/waveq3d/ode_integ.h>
using namespace usml::waveq3d;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;
using namespace usml::eigenverbs;

// any sound speed that depends on depth only
struct any_profile : profile_model {
    void sound_speed(const wposition& l, matrix<double>* s, wvector* g) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) {
                (*s)(i, j) = vp_any1("c", l.rho(i, j));
                if (g) { g->rho(i, j, vp_any1("dc", l.rho(i, j))); g->theta(i, j, 0.0); g->phi(i, j, 0.0); }
            }
    }
    void attenuation(const wposition& l, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) (*a)(i, j)(0) = 0;
    }
};
// boundary with a given height (or a given distance below the ray) and normal, and any reflection loss
struct any_boundary : boundary_model {
    double h, nr, nt, np;
    bool below;
    any_boundary() : boundary_model(nullptr, nullptr), h(1000), nr(1), nt(0), np(0), below(true) {}
    void height(const wposition& l, matrix<double>* r, wvector* n) const override {}
    void height(const wposition1& l, double* r, wvector1* n) const override {
        *r = below ? l.rho() - h : h;
        if (n) { n->rho(nr); n->theta(nt); n->phi(np); }
    }
    static double loss(double f, double g) { return vp_any2("loss", f, g); }
    static double phase(double f, double g) { return vp_any2("phase", f, g); }
    void reflect_loss(const wposition1& l, const seq_vector::csptr& f, double angle, vector<double>* a, vector<double>* p) const override {
        for (size_t i = 0; i < f->size(); ++i) { (*a)(i) = loss((*f)(i), angle); if (p) (*p)(i) = phase((*f)(i), angle); }
    }
};
// assumed contract of the integration steps: a step of no time changes nothing, any other step gives anything in the water
namespace usml { namespace waveq3d {
static double counter = 0;
static void step_pos(double dt, wave_front* a, wave_front* b) {
    counter += 1;
    for (size_t i = 0; i < a->num_de(); ++i) {
        double x = vp_any2("prho", counter, (double)i);
        b->position.rho(i, 0, dt == 0 ? a->position.rho(i, 0) : wposition::earth_radius - 1 - x * x);
        b->position.theta(i, 0, dt == 0 ? a->position.theta(i, 0) : 1 + vp_any2("ptheta", counter, (double)i));
        b->position.phi(i, 0, dt == 0 ? a->position.phi(i, 0) : vp_any2("pphi", counter, (double)i));
    }
}
static void step_ndir(double dt, wave_front* a, wave_front* b) {
    counter += 1;
    for (size_t i = 0; i < a->num_de(); ++i) {
        b->ndirection.rho(i, 0, dt == 0 ? a->ndirection.rho(i, 0) : vp_any2("pnr", counter, (double)i));
        b->ndirection.theta(i, 0, dt == 0 ? a->ndirection.theta(i, 0) : vp_any2("pnt", counter, (double)i));
        b->ndirection.phi(i, 0, dt == 0 ? a->ndirection.phi(i, 0) : vp_any2("pnp", counter, (double)i));
    }
}
void ode_integ::rk1_pos(double dt, wave_front* y0, wave_front* y1, bool) { step_pos(dt, y0, y1); }
void ode_integ::rk1_ndir(double dt, wave_front* y0, wave_front* y1, bool) { step_ndir(dt, y0, y1); }
void ode_integ::rk2_pos(double dt, wave_front* y0, wave_front*, wave_front* y2, bool) { step_pos(dt, y0, y2); }
void ode_integ::rk2_ndir(double dt, wave_front* y0, wave_front*, wave_front* y2, bool) { step_ndir(dt, y0, y2); }
void ode_integ::rk3_pos(double dt, wave_front* y0, wave_front*, wave_front*, wave_front* y3, bool) { step_pos(dt, y0, y3); }
void ode_integ::rk3_ndir(double dt, wave_front* y0, wave_front*, wave_front*, wave_front* y3, bool) { step_ndir(dt, y0, y3); }
void ode_integ::ab3_pos(double dt, wave_front*, wave_front*, wave_front* y2, wave_front* y3, bool) { step_pos(dt, y2, y3); }
void ode_integ::ab3_ndir(double dt, wave_front*, wave_front*, wave_front* y2, wave_front* y3, bool) { step_ndir(dt, y2, y3); }
} }
struct state {
    double r, t, p, nr, nt, np;
    static state any(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f) {
        return state{vp_double(a, 6.36e6, 6.37e6), vp_double(b, 0.5, 2.5), vp_double(c, -3, 3), vp_double(d, -4e-4, 4e-4), vp_double(e, -4e-4, 4e-4), vp_double(f, -4e-4, 4e-4)};
    }
};
static void put(wave_front* w, size_t i, const state& s) {
    w->position.rho(i, 0, s.r); w->position.theta(i, 0, s.t); w->position.phi(i, 0, s.p);
    w->ndirection.rho(i, 0, s.nr); w->ndirection.theta(i, 0, s.nt); w->ndirection.phi(i, 0, s.np);
}
static state get(const wave_front* w, size_t i) {
    return state{w->position.rho(i, 0), w->position.theta(i, 0), w->position.phi(i, 0), w->ndirection.rho(i, 0), w->ndirection.theta(i, 0), w->ndirection.phi(i, 0)};
}
static void same(const char* label, const state& a, const state& b) {
    vp_ensures(label, a.r == b.r && a.t == b.t && a.p == b.p && a.nr == b.nr && a.nt == b.nt && a.np == b.np);
}
struct heard : reflection_listener {
    int count = 0;
    double time, dt, grazing, speed, r, nr, nt, np;
    size_t de, az, type;
    void reflect(double t, size_t d, size_t a, double x, double g, double c, const wposition1& pos, const wvector1& n, size_t ty) override {
        ++count; time = t; de = d; az = a; dt = x; grazing = g; speed = c; r = pos.rho(); nr = n.rho(); nt = n.theta(); np = n.phi(); type = ty;
    }
};
// a wave queue with two frequencies and D rays, one of which (number i) is of interest
struct setup {
    size_t i;
    double h, z;
    seq_vector::csptr f;
    any_boundary *top, *bot;
    wave_queue q;
    heard ear;
    wave_front* w[4];
    state other[4];
    setup(size_t D) : i((size_t)vp_choice("ray", D)), h(vp_double("h", 0.01, 1)), z(vp_double("z", 100, 3000)), f(new seq_linear(1000.0, 500.0, 2)), top(new any_boundary), bot(new any_boundary),
        q(ocean_model::csptr(new ocean_model(boundary_model::csptr(top), boundary_model::csptr(bot), profile_model::csptr(new any_profile))), f,
          wposition1(0.0, 0.0, -z), seq_vector::csptr(new seq_linear(0.0, 1.0, D)), seq_vector::csptr(new seq_linear(0.0, 1.0, 1)), h) {
        vp_requires(h > 0 && z > 1 && z < 10000);
        q.add_reflection_listener(&ear);
        w[0] = q._past; w[1] = q._prev; w[2] = q._curr; w[3] = q._next;
        for (int n = 0; n < 4; ++n) {
            if (D > 1) other[n] = get(w[n], 1 - i);
            w[n]->surface(i, 0) = 3; w[n]->bottom(i, 0) = 5;
        }
    }
    void unchanged() {
        for (int n = 0; n < 4; ++n) {
            same("other rays are left alone", get(w[n], 1 - i), other[n]);
            vp_ensures("counters of other rays are left alone", w[n]->surface(1 - i, 0) == 0 && w[n]->bottom(1 - i, 0) == 0);
        }
        for (size_t k = 0; k < 2; ++k) vp_ensures("losses of other rays are left alone", q._next->attenuation(1 - i, 0)(k) == 0 && q._next->phase(1 - i, 0)(k) == 0);
    }
};
static double a0(setup& s, size_t k) { return s.q._next->attenuation(s.i, 0)(k); }
static double p0(setup& s, size_t k) { return s.q._next->phase(s.i, 0)(k); }

VP_CONTRACT(surface_mirror) {
    setup s(2);
    state y = state::any("rho", "theta", "phi", "nr", "nt", "np");
    y.r = wposition::earth_radius; // the ray is on the surface now
    double c = vp_any1("c", y.r), att = vp_double("att", 0, 10), ph = vp_double("ph", -3, 3);
    vp_requires(c > 0 && y.t > 0.1 && y.t < 3 && y.nr > 0);
    put(s.q._curr, s.i, y);
    s.q._curr->sound_speed(s.i, 0) = c;
    for (size_t k = 0; k < 2; ++k) { s.q._next->attenuation(s.i, 0)(k) = att; s.q._next->phase(s.i, 0)(k) = ph; }
    vp_ensures("reflected", s.q._reflection_model->surface_reflection(s.i, 0));
    double g = atan2(y.nr, sqrt(y.nt * y.nt + y.np * y.np));
    vp_ensures("listeners hear it once", s.ear.count == 1 && s.ear.de == s.i && s.ear.az == 0 && s.ear.type == eigenverb_model::SURFACE);
    vp_equal("grazing angle", s.ear.grazing, g);
    vp_ensures("incident state is reported", s.ear.time == 0 && s.ear.dt == 0 && s.ear.speed == c && s.ear.r == y.r && s.ear.nr == y.nr && s.ear.nt == y.nt && s.ear.np == y.np);
    same("mirrored at the surface", get(s.q._curr, s.i), state{y.r, y.t, y.p, -y.nr, y.nt, y.np});
    for (size_t k = 0; k < 2; ++k) {
        vp_equal("loss", a0(s, k), att + any_boundary::loss((*s.f)(k), g));
        vp_equal("phase", p0(s, k), ph - M_PI);
    }
    s.unchanged();
}
VP_CONTRACT(near_miss) {
    // rays that go down or level do not reflect from the surface
    setup s(2);
    state y = state::any("rho", "theta", "phi", "nr", "nt", "np"), old[4];
    vp_requires(y.nr <= 0);
    put(s.q._curr, s.i, y);
    for (int n = 0; n < 4; ++n) old[n] = get(s.w[n], s.i);
    vp_ensures("not reflected", !s.q._reflection_model->surface_reflection(s.i, 0));
    vp_ensures("not heard", s.ear.count == 0);
    for (int n = 0; n < 4; ++n) same("ray is left alone", get(s.w[n], s.i), old[n]);
    vp_ensures("no loss", a0(s, 0) == 0 && p0(s, 0) == 0);
    s.unchanged();
}
static void bottom(bool shallow) {
    setup s(2);
    state y = state::any("rho", "theta", "phi", "nr", "nt", "np");
    double c = vp_any1("c", y.r), att = vp_double("att", 0, 10), ph = vp_double("ph", -3, 3), depth = vp_double("under", 0, 100);
    double N[3] = {vp_double("Nr", 0.8, 1), vp_double("Nt", -0.3, 0.3), vp_double("Np", -0.3, 0.3)};
    vp_requires(c > 0 && y.t > 0.1 && y.t < 3 && y.r > 1e6);
    vp_requires(shallow ? wposition::earth_radius - y.r < 300 * s.h : wposition::earth_radius - y.r >= 300 * s.h);
    s.bot->below = false; s.bot->h = y.r; // the ray is on the bottom now
    s.bot->nr = N[0]; s.bot->nt = N[1]; s.bot->np = N[2];
    if (shallow) { // a steep shore instead of the real slope
        double L = sqrt(N[1] * N[1] + N[2] * N[2]);
        vp_requires(L > 0);
        N[0] = 0; N[1] /= L; N[2] /= L;
    }
    put(s.q._curr, s.i, y);
    s.q._curr->sound_speed(s.i, 0) = c;
    for (size_t k = 0; k < 2; ++k) { s.q._next->attenuation(s.i, 0)(k) = att; s.q._next->phase(s.i, 0)(k) = ph; }
    double c2 = c * c, dot = c2 * y.nr * N[0] + c2 * y.nt * N[1] + c2 * y.np * N[2];
    vp_requires(dot < -6 && (shallow || dot < -depth * N[0]) && dot / c > -1 && dot / c < 1); // comes in faster than the floor set for near misses
    vp_ensures("reflected", s.q._reflection_model->bottom_reflection(s.i, 0, depth));
    double g = asin(-dot / c);
    vp_ensures("listeners hear it once", s.ear.count == 1 && s.ear.de == s.i && s.ear.az == 0 && s.ear.type == eigenverb_model::BOTTOM);
    vp_equal("grazing angle", s.ear.grazing, g);
    vp_ensures("incident place is reported", s.ear.time == 0 && s.ear.dt == 0 && s.ear.speed == c && s.ear.r == y.r);
    state n = get(s.q._curr, s.i);
    vp_ensures("stays where it hits", n.r == y.r && n.t == y.t && n.p == y.p);
    // n - 2 (n.N) N with length 1/c
    double m[3] = {c2 * y.nr - 2 * dot * N[0], c2 * y.nt - 2 * dot * N[1], c2 * y.np - 2 * dot * N[2]}, len = sqrt(m[0] * m[0] + m[1] * m[1] + m[2] * m[2]) * c;
    vp_equals("mirrored up", n.nr, m[0] / len, 1e-3);
    vp_equals("mirrored south", n.nt, m[1] / len, 1e-3);
    vp_equals("mirrored east", n.np, m[2] / len, 1e-3);
    for (size_t k = 0; k < 2; ++k) {
        vp_equal("loss", a0(s, k), att + any_boundary::loss((*s.f)(k), g));
        vp_equal("phase", p0(s, k), ph + any_boundary::phase((*s.f)(k), g));
    }
    s.unchanged();
}
VP_CONTRACT(mirror_is_isometric) {
    // the length 1/c of the direction used above is that of the incident direction
    double n[3] = {vp_double("nr", -1, 1), vp_double("nt", -1, 1), vp_double("np", -1, 1)}, N[3] = {vp_double("Nr", -1, 1), vp_double("Nt", -1, 1), vp_double("Np", -1, 1)};
    double dot = n[0] * N[0] + n[1] * N[1] + n[2] * N[2], M = N[0] * N[0] + N[1] * N[1] + N[2] * N[2], mm = 0, mN = 0;
    for (int i = 0; i < 3; ++i) { double m = n[i] - 2 * dot * N[i]; mm += m * m; mN += m * N[i]; }
    vp_equal("length", mm, n[0] * n[0] + n[1] * n[1] + n[2] * n[2] + 4 * dot * dot * (M - 1)); // M = 1 for a unit normal
    vp_equal("across the boundary", mN, dot * (1 - 2 * M));
}
VP_CONTRACT(bottom_mirror) { bottom(false); }
VP_CONTRACT(beach) { bottom(true); }

VP_CONTRACT(counters) {
    // exactly the ray that crosses, and only once
    setup s(2);
    bool up = vp_choice("surface", 2) == 1;
    state y = state::any("rho", "theta", "phi", "nr", "nt", "np");
    double c = vp_any1("c", y.r), R = wposition::earth_radius;
    vp_requires(c > 0 && y.t > 0.1 && y.t < 3 && y.r < R - 400 && y.r > 1e6 && s.h < 0.5 && c * c * (y.nr * y.nr + y.nt * y.nt + y.np * y.np) == 1);
    put(s.q._curr, s.i, y);
    s.q._curr->sound_speed(s.i, 0) = c;
    if (up) {
        vp_requires(y.nr > 0);
        s.q._next->position.rho(s.i, 0, R + 1);
        vp_ensures("crosses the surface", s.q.detect_reflections_surface(s.i, 0));
    } else {
        vp_requires(c * c * y.nr < -6 && c * y.nr > -1 && c * y.nr < 1);
        s.q._next->position.rho(s.i, 0, y.r - 1);
        s.bot->below = false; s.bot->h = y.r;
        vp_ensures("crosses the bottom", s.q.detect_reflections_bottom(s.i, 0));
    }
    for (int n = 0; n < 4; ++n) vp_ensures("counted once on every front", s.w[n]->surface(s.i, 0) == (up ? 4 : 3) && s.w[n]->bottom(s.i, 0) == (up ? 5 : 6));
    vp_ensures("heard once", s.ear.count == 1);
    s.unchanged();
}
VP_CONTRACT(no_crossing) {
    // between the boundaries nothing happens
    setup s(2);
    state y = state::any("rho", "theta", "phi", "nr", "nt", "np"), old[4];
    double R = wposition::earth_radius;
    vp_requires(y.r <= R);
    put(s.q._next, s.i, y);
    s.bot->h = vp_double("clearance", 0, 1000);
    vp_requires(s.bot->h >= 0);
    for (int n = 0; n < 4; ++n) old[n] = get(s.w[n], s.i);
    vp_ensures("no surface reflection", !s.q.detect_reflections_surface(s.i, 0));
    vp_ensures("no bottom reflection", !s.q.detect_reflections_bottom(s.i, 0));
    for (int n = 0; n < 4; ++n) {
        same("ray is left alone", get(s.w[n], s.i), old[n]);
        vp_ensures("counters are left alone", s.w[n]->surface(s.i, 0) == 3 && s.w[n]->bottom(s.i, 0) == 5);
    }
    vp_ensures("not heard", s.ear.count == 0);
    s.unchanged();
}
