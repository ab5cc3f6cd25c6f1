// C11: start up and steps of the wave queue
// SRCS: waveq3d/wave_queue.cc waveq3d/wave_front.cc waveq3d/ode_integ.cc waveq3d/reflection_model.cc waveq3d/reflection_notifier.cc waveq3d/spreading_ray.cc waveq3d/spreading_hybrid_gaussian.cc eigenrays/eigenray_notifier.cc eigenverbs/eigenverb_notifier.cc ocean/profile_model.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -fno-access-control
// CONTRACT start_up: bounded fan of one ray, any sound speed that depends on depth, vertical ray
// CONTRACT steps: bounded fan of one ray, two steps, any sound speed that depends on depth, vertical ray
#include "vp.h"
#include <usml/waveq3d/waveq3d.h>
#include <usml/waveq3d/wave_front.h>
#include <usml/waveq3d/ode_integ.h>
using namespace usml::waveq3d;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// any sound speed that depends on depth only
struct any_profile : profile_model {
    void sound_speed(const wposition& l, matrix<double>* s, wvector* g) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) {
                (*s)(i, j) = vp_any1("c", l.rho(i, j));
                if (g) { g->rho(i, j, vp_any1("dc", l.rho(i, j))); g->theta(i, j, 0.0); g->phi(i, j, 0.0); }
            }
    }
    void attenuation(const wposition& l, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) (*a)(i, j)(0) = vp_any2("a", l.rho(i, j), d(i, j));
    }
};
struct deep_bottom : boundary_model {
    deep_bottom() : boundary_model(nullptr, nullptr) {}
    void height(const wposition& l, matrix<double>* h, wvector* n) const override {}
    void height(const wposition1& l, double* h, wvector1* n) const override { *h = 1e6; }
};

// state of a vertical ray, its rate by the ray equations, and the textbook integration steps
struct state { double r, n; };
static state rate(state y) { double c = vp_any1("c", y.r); return state{c * c * y.n, -vp_any1("dc", y.r) / c}; }
static state move(state y, double h, state k) { return state{y.r + h * k.r, y.n + h * k.n}; }
static state kutta(state y, double h) {
    state k1 = rate(y), k2 = rate(move(y, h / 2, k1)), k3 = rate(move(y, h, state{2 * k2.r - k1.r, 2 * k2.n - k1.n}));
    return move(y, h / 6, state{k1.r + 4 * k2.r + k3.r, k1.n + 4 * k2.n + k3.n});
}
static state adams(double h, state past, state prev, state curr) {
    state a = rate(past), b = rate(prev), c = rate(curr);
    return move(curr, h / 12, state{23 * c.r - 16 * b.r + 5 * a.r, 23 * c.n - 16 * b.n + 5 * a.n});
}
static state get(const wave_front* w) { return state{w->position.rho(0, 0), w->ndirection.rho(0, 0)}; }
static void same(const char* l1, const char* l2, const wave_front* w, state y) {
    vp_equal(l1, w->position.rho(0, 0), y.r);
    vp_equals(l2, w->ndirection.rho(0, 0), y.n, 1e-3);
    vp_equal("speed of every front is up to date", w->sound_speed(0, 0), vp_any1("c", w->position.rho(0, 0)));
}
struct setup {
    seq_vector::csptr f, de, az;
    double z, h;
    wposition1 pos;
    wave_queue q;
    setup() : f(new seq_linear(1000.0, 1.0, 1)), de(new seq_linear(90.0, 1.0, 1)), az(new seq_linear(0.0, 1.0, 1)),
              z(vp_double("depth", 10, 5000)), h(vp_double("h", 0.01, 1)), pos(vp_double("lat", -80, 80), vp_double("lng", -180, 180), -z),
              q(ocean_model::csptr(new ocean_model(boundary_model::csptr(new deep_bottom), boundary_model::csptr(new deep_bottom), profile_model::csptr(new any_profile))), f, pos, de, az, h) {
        vp_requires(z > 1 && z < 10000 && h > 0);
    }
};
VP_CONTRACT(start_up) {
    // fronts at 0, one and two steps back from third order steps, the next one from Adams-Bashforth
    setup s;
    double c = vp_any1("c", s.pos.rho());
    vp_requires(c > 0);
    state curr{s.pos.rho(), 1 / c}, prev = kutta(curr, -s.h), past = kutta(prev, -s.h);
    same("current position", "current direction", s.q.curr(), curr);
    same("previous position", "previous direction", s.q.prev(), prev);
    same("past position", "past direction", s.q.past(), past);
    same("next position", "next direction", s.q.next(), adams(s.h, past, prev, curr));
    vp_equal("time", s.q.time(), 0);
    vp_equal("position across the ray", s.q.next()->position.theta(0, 0), s.pos.theta());
    vp_equal("path so far", s.q.curr()->path_length(0, 0), 0);
    vp_equal("path after a step", s.q.next()->path_length(0, 0) * s.q.next()->path_length(0, 0), (s.q.next()->position.rho(0, 0) - s.pos.rho()) * (s.q.next()->position.rho(0, 0) - s.pos.rho()));
}
VP_CONTRACT(steps) {
    setup s;
    for (int n = 0; n < 2; ++n) {
        state past = get(s.q.past()), prev = get(s.q.prev()), curr = get(s.q.curr()), next = get(s.q.next());
        double path = s.q.next()->path_length(0, 0), loss = s.q.next()->attenuation(0, 0)(0), t = s.q.time();
        vp_requires(next.r < wposition::earth_radius && next.r > 1e6); // no reflection
        s.q.step();
        vp_equal("time advances", s.q.time(), t + s.h);
        vp_ensures("previous fronts are kept", get(s.q.past()).r == prev.r && get(s.q.past()).n == prev.n && get(s.q.prev()).r == curr.r && get(s.q.prev()).n == curr.n);
        vp_ensures("next becomes current", get(s.q.curr()).r == next.r && get(s.q.curr()).n == next.n);
        state want = adams(s.h, prev, curr, next);
        vp_equal("position after a step", s.q.next()->position.rho(0, 0), want.r);
        vp_equals("direction after a step", s.q.next()->ndirection.rho(0, 0), want.n, 1e-3);
        double d = s.q.next()->distance(0, 0);
        vp_equal("path grows by the distance of the step", s.q.next()->path_length(0, 0), path + d);
        vp_equal("absorption of the step is added", s.q.next()->attenuation(0, 0)(0), loss + vp_any2("a", s.q.next()->position.rho(0, 0), d));
        vp_ensures("counters are kept", s.q.next()->surface(0, 0) == 0 && s.q.next()->bottom(0, 0) == 0);
    }
}
