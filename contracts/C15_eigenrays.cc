// C15: eigenray collections keep, sum and rebase every eigenray
// SRCS: eigenrays/eigenray_collection.cc eigenrays/eigenray_notifier.cc ocean/profile_model.cc ocean/attenuation_thorp.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// CONTRACT keep: bounded histories of up to 4 eigenrays on a grid of 2 by 2 targets
// CONTRACT identify: bounded grids of 2 by 2 targets
// CONTRACT total_coherent: bounded lists of up to 2 eigenrays, one frequency
// CONTRACT total_power: bounded lists of up to 3 eigenrays, one frequency
// CONTRACT total_mixed: bounded lists of 2 eigenrays on one target, two frequencies
// CONTRACT reckon: bounded lists of 2 eigenrays, two frequencies
// CONTRACT listeners: bounded sets of up to 3 listeners
#include "vp.h"
#include <usml/eigenrays/eigenrays.h>
#include <usml/ocean/ocean.h>
using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;
typedef eigenray_model::csptr ray_t;

static const char* nm(const char* a, const char* b, const char* c, const char* d, int i) { return i == 0 ? a : i == 1 ? b : i == 2 ? c : d; }
#define N4(x, i) nm(x "0", x "1", x "2", x "3", i)
// any ray
static eigenray_model* any_ray(int i, const seq_vector::csptr& f) {
    eigenray_model* r = new eigenray_model;
    r->travel_time = vp_double(N4("time", i), 0.1, 90);
    r->frequencies = f;
    r->intensity.resize(f->size());
    r->phase.resize(f->size());
    for (size_t k = 0; k < f->size(); ++k) {
        r->intensity(k) = vp_double(k ? N4("pl1_", i) : N4("pl0_", i), 40, 120);
        r->phase(k) = vp_double(k ? N4("ph1_", i) : N4("ph0_", i), -6, 6);
    }
    r->source_de = vp_double(N4("sde", i), -90, 90);
    r->source_az = vp_double(N4("saz", i), -180, 180);
    r->target_de = vp_double(N4("tde", i), -90, 90);
    r->target_az = vp_double(N4("taz", i), -180, 180);
    r->surface = (int)vp_int(N4("surface", i), 0, 1000);
    r->bottom = (int)vp_int(N4("bottom", i), 0, 1000);
    r->caustic = (int)vp_int(N4("caustic", i), 0, 1000);
    r->upper = (int)vp_int(N4("upper", i), 0, 1000);
    r->lower = (int)vp_int(N4("lower", i), 0, 1000);
    return r;
}
static seq_vector::csptr freqs(size_t n) { double f = vp_double("f", 10, 5000), df = vp_double("df", 10, 1000); vp_requires(f > 0 && df > 0); return seq_vector::csptr(new seq_linear(f, df, n)); }
// every ray added to a target is listed there, in order, as it was given
VP_CONTRACT(keep) {
    seq_vector::csptr f(new seq_linear(1000.0, 1.0, (size_t)1));
    eigenray_collection c(f, wposition1(10, 20, -30), wposition(2, 2, 11, 21, -40));
    size_t n = (size_t)vp_choice("n", 5), row[4], col[4];
    ray_t ray[4];
    for (size_t i = 0; i < n; ++i) {
        size_t at = (size_t)vp_choice(N4("at", (int)i), 4);
        row[i] = at / 2; col[i] = at % 2;
        eigenray_model* r = new eigenray_model;
        r->travel_time = vp_double(N4("time", (int)i), 0.1, 90);
        vp_requires(r->travel_time > 0);
        ray[i] = ray_t(r);
        c.add_eigenray(row[i], col[i], ray[i], 7);
    }
    for (size_t a = 0; a < 2; ++a)
        for (size_t b = 0; b < 2; ++b) {
            const eigenray_list& l = c.eigenrays(a, b);
            auto it = l.begin();
            double first = 0;
            bool same = true;
            size_t count = 0;
            for (size_t i = 0; i < n; ++i)
                if (row[i] == a && col[i] == b) {
                    ++count;
                    same = same && it != l.end() && (*it++).get() == ray[i].get();
                    if (first == 0 || ray[i]->travel_time < first) first = ray[i]->travel_time;
                }
            vp_ensures("all rays of this target in order", same && l.size() == count && it == l.end());
            vp_equal("arrival of the first", c.initial_time(a, b), first);
        }
}
VP_CONTRACT(identify) {
    seq_vector::csptr f = freqs(3);
    wposition t(2, 2, 11, 21, -40);
    size_t i = (size_t)vp_choice("i", 2), j = (size_t)vp_choice("j", 2);
    double lat = vp_double("lat", -80, 80), lng = vp_double("lng", -170, 170), alt = vp_double("alt", -4000, 0);
    t.latitude(i, j, lat); t.longitude(i, j, lng); t.altitude(i, j, alt);
    matrix<uint64_t> id(2, 2);
    for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) id(a, b) = (uint64_t)(100 + 10 * a + b);
    uint64_t want = (uint64_t)vp_int("id", 1, 99), from = (uint64_t)vp_int("source", 0, 1000);
    id(i, j) = want;
    bool named = vp_choice("named", 2), coh = vp_choice("coherent", 2);
    eigenray_collection c(f, wposition1(10, 20, -30), t, from, named ? id : matrix<uint64_t>(), coh);
    vp_ensures("size", c.size1() == 2 && c.size2() == 2);
    vp_ensures("source", c.sourceID() == from && c.coherent() == coh && c.frequencies() == f);
    vp_ensures("target", c.targetID(i, j) == (named ? want : 0));
    wposition1 p = c.position(i, j);
    vp_ensures("position", p.rho() == t.rho(i, j) && p.theta() == t.theta(i, j) && p.phi() == t.phi(i, j));
    ray_t ray(new eigenray_model(*any_ray(0, f)));
    vp_requires(ray->travel_time > 0);
    c.add_eigenray(i, j, ray);
    eigenray_list l = c.find_eigenrays(want);
    vp_ensures("rays by target", named ? l.size() == 1 && l.front() == ray : l.size() == 0);
    vp_equal("arrival by target", c.find_initial_time(want), named ? ray->travel_time : 0);
    vp_ensures("any target", c.find_eigenrays(0).size() == (i == 0 && j == 0 ? 1u : 0u));
}
struct sums { double wgt = 0, time = 0, sde = 0, sx = 0, sy = 0, tde = 0, tx = 0, ty = 0;
    void add(double a, const eigenray_model* r) {
        wgt += a; time += a * r->travel_time; sde += a * r->source_de; tde += a * r->target_de;
        sx += a * sin(to_radians(r->source_az)); sy += a * cos(to_radians(r->source_az));
        tx += a * sin(to_radians(r->target_az)); ty += a * cos(to_radians(r->target_az));
    } };
static double power(double pl) { double a = pow(10.0, pl / -20.0); return a * a; }
static void averages(const eigenray_model& t, const sums& s) {
    vp_equal("mean travel time", t.travel_time, s.time / s.wgt);
    vp_equal("mean source angle", t.source_de, s.sde / s.wgt);
    vp_equal("mean target angle", t.target_de, s.tde / s.wgt);
    vp_equal("mean source azimuth", t.source_az, 90 - to_degrees(atan2(s.sy, s.sx)));
    vp_equal("mean target azimuth", t.target_az, 90 - to_degrees(atan2(s.ty, s.tx)));
}
static void counts(const eigenray_model& t, const eigenray_model* r) {
    vp_ensures("counts of the strongest ray", t.surface == r->surface && t.bottom == r->bottom && t.caustic == r->caustic && t.upper == r->upper && t.lower == r->lower);
}
VP_CONTRACT(total_coherent) {
    seq_vector::csptr f = freqs(1);
    size_t n = 1 + (size_t)vp_choice("n", 2);
    eigenray_collection c(f, wposition1(10, 20, -30), wposition(1, 1, 11, 21, -40));
    const eigenray_model* ray[2];
    double re = 0, im = 0;
    for (size_t i = 0; i < n; ++i) {
        ray[i] = any_ray((int)i, f);
        c.add_eigenray(0, 0, ray_t(ray[i]));
        double a = pow(10.0, ray[i]->intensity(0) / -20.0), p = 2 * M_PI * (*f)(0) * ray[i]->travel_time + ray[i]->phase(0);
        re += a * cos(p);
        im += a * sin(p);
    }
    double z = sqrt(re * re + im * im);
    vp_requires(z > 1e-15);
    c.sum_eigenrays();
    const eigenray_model& t = c.total(0, 0);
    vp_ensures("one total per frequency", t.intensity.size() == 1 && t.phase.size() == 1);
    vp_equal("phasor sum", t.intensity(0), -20 * log10(z));
    vp_equal("phase of the sum", t.phase(0), atan2(im, re));
}
VP_CONTRACT(total_power) {
    seq_vector::csptr f = freqs(1);
    size_t n = 1 + (size_t)vp_choice("n", 3);
    eigenray_collection c(f, wposition1(10, 20, -30), wposition(1, 1, 11, 21, -40), 0, matrix<uint64_t>(), false);
    const eigenray_model* ray[3];
    sums s;
    for (size_t i = 0; i < n; ++i) {
        ray[i] = any_ray((int)i, f);
        c.add_eigenray(0, 0, ray_t(ray[i]));
        s.add(power(ray[i]->intensity(0)), ray[i]);
    }
    vp_requires(s.wgt > 1e-30);
    c.sum_eigenrays();
    const eigenray_model& t = c.total(0, 0);
    vp_equal("power sum", t.intensity(0), -20 * log10(sqrt(s.wgt)));
    averages(t, s);
}
VP_CONTRACT(total_mixed) {
    seq_vector::csptr f = freqs(2);
    bool coh = vp_choice("coherent", 2);
    eigenray_collection c(f, wposition1(10, 20, -30), wposition(1, 2, 11, 21, -40), 0, matrix<uint64_t>(), coh);
    const eigenray_model *a = any_ray(0, f), *b = any_ray(1, f);
    size_t at = (size_t)vp_choice("at", 2);
    c.add_eigenray(0, at, ray_t(a));
    c.add_eigenray(0, at, ray_t(b));
    sums s;
    for (size_t k = 0; k < 2; ++k) { s.add(power(a->intensity(k)), a); s.add(power(b->intensity(k)), b); }
    c.sum_eigenrays();
    const eigenray_model &t = c.total(0, at), &none = c.total(0, 1 - at);
    vp_ensures("no counts without paths", none.surface == -1 && none.bottom == -1 && none.caustic == -1 && none.upper == -1 && none.lower == -1);
    vp_ensures("nearly silent without paths", none.intensity(0) == 300 && none.intensity(1) == 300);
    averages(t, s);
    // the first ray is the strongest at any frequency
    double p0 = power(a->intensity(0)), p1 = power(a->intensity(1));
    vp_requires(p0 > power(b->intensity(0)) && p0 > power(b->intensity(1)) && p0 > p1 && p0 > 0);
    counts(t, a);
}
// any sound speed and absorption
struct any_profile : profile_model {
    void sound_speed(const wposition& l, matrix<double>* s, wvector*) const override { (*s)(0, 0) = vp_any3("speed", l.rho(0, 0), l.theta(0, 0), l.phi(0, 0)); }
    void attenuation(const wposition&, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double> >* a) const override {
        for (size_t k = 0; k < f->size(); ++k) (*a)(0, 0)(k) = vp_any2("loss", (*f)(k), d(0, 0));
    }
};
struct place { double r, t, p; wposition1 pos() const { wposition1 w; w.rho(r); w.theta(t); w.phi(p); return w; } };
VP_CONTRACT(reckon) {
    seq_vector::csptr f = freqs(2);
    bool source = vp_choice("source", 2);
    place s{vp_double("sr", 6.36e6, 6.37e6), vp_double("st", 0.5, 2.5), vp_double("sp", -3, 3)}, t{vp_double("tr", 6.36e6, 6.37e6), vp_double("tt", 0.5, 2.5), vp_double("tp", -3, 3)};
    double dr = vp_double("dr", -100, 100), dt = vp_double("dt", -1e-5, 1e-5), dp = vp_double("dp", -1e-5, 1e-5);
    vp_requires(dp > -3 && dp < 3);
    place n = source ? s : t, old = n;
    // across the date line the longitude jumps
    int64_t turn = vp_choice("turn", 3);
    n.r += dr; n.t += dt; n.p += dp + (turn == 0 ? 0 : turn == 1 ? 2 * M_PI : -2 * M_PI);
    const double st = sin(old.t), moved = dr * dr + old.r * dt * (old.r * dt) + old.r * st * dp * (old.r * st * dp);
    wposition target(1, 2, 50, 60, -70);
    target.rho(0, 1, t.r); target.theta(0, 1, t.t); target.phi(0, 1, t.p);
    eigenray_collection c(f, s.pos(), target);
    const eigenray_model* ray[2] = {any_ray(0, f), any_ray(1, f)};
    eigenray_model before = *ray[1];
    c.add_eigenray(0, 1, ray_t(ray[0]));
    c.add_eigenray(0, 1, ray_t(ray[1]));
    double speed = vp_any3("speed", old.r, old.t, old.p);
    vp_requires(speed > 0);
    size_t i = (size_t)vp_choice("i", 2), k = (size_t)vp_choice("k", 2);
    eigenray_list l = c.dead_reckon(0, 1, source ? n.pos() : s.pos(), source ? t.pos() : n.pos(), profile_model::csptr(new any_profile));
    vp_ensures("same number of rays", l.size() == 2);
    auto it = l.begin();
    if (i) ++it;
    const eigenray_model *r = it->get(), *o = ray[i];
    vp_ensures("the collection keeps its rays", ray[1]->travel_time == before.travel_time && ray[1]->intensity(0) == before.intensity(0) && c.eigenrays(0, 1).size() == 2);
    vp_ensures("angles stay", r->source_de == o->source_de && r->source_az == o->source_az && r->target_de == o->target_de && r->target_az == o->target_az);
    vp_ensures("phases and counts stay", r->phase(k) == o->phase(k) && r->surface == o->surface && r->bottom == o->bottom && r->caustic == o->caustic && r->upper == o->upper && r->lower == o->lower);
    if (moved < 1e-6) {
        vp_ensures("nothing moved", r == o);
        return;
    }
    // up, south and east parts of the way along the ray: shorter when the source follows the ray, longer when the target does
    double de = to_radians(source ? o->source_de : o->target_de), az = to_radians(source ? o->source_az : o->target_az);
    double along = dr * sin(de) - old.r * dt * cos(de) * cos(az) + old.r * st * dp * cos(de) * sin(az);
    if (source) along = -along;
    vp_equal("travel time", r->travel_time, o->travel_time + along / speed);
    double r1 = o->travel_time * speed, r2 = r1 + along;
    vp_equal("propagation loss", r->intensity(k), o->intensity(k) + 20 * log10(r2) - 20 * log10(r1) + vp_any2("loss", (*f)(k), r2) - vp_any2("loss", (*f)(k), r1));
}
// listeners hear every ray exactly once, until they are removed
struct heard : eigenray_listener {
    int rays = 0, checks = 0;
    size_t a = 0, b = 0, run = 0;
    double time = 0;
    const eigenray_model* ray = nullptr;
    void add_eigenray(size_t t1, size_t t2, eigenray_model::csptr r, size_t id) override { ++rays; a = t1; b = t2; ray = r.get(); run = id; }
    void check_eigenrays(double t, size_t id) override { ++checks; time = t; run = id; }
};
VP_CONTRACT(listeners) {
    eigenray_notifier n;
    heard h[3];
    size_t num = (size_t)vp_choice("n", 4), gone = (size_t)vp_choice("gone", 4), i = (size_t)vp_choice("i", 3);
    bool twice = vp_choice("twice", 2);
    for (size_t k = 0; k < num; ++k) n.add_eigenray_listener(&h[k]);
    if (twice && num > 0) n.add_eigenray_listener(&h[0]);
    if (gone < 3) n.remove_eigenray_listener(&h[gone]);
    size_t left = num - (gone < num ? 1 : 0);
    vp_ensures("has listeners", n.has_eigenray_listeners() == (left > 0));
    ray_t r(new eigenray_model);
    size_t t1 = (size_t)vp_int("t1", 0, 99), t2 = (size_t)vp_int("t2", 0, 99), id = (size_t)vp_int("run", 0, 99);
    double time = vp_double("time", 0, 9);
    n.notify_eigenray_listeners(t1, t2, r, id);
    bool on = i < num && i != gone;
    vp_ensures("told once", h[i].rays == (on ? 1 : 0));
    if (on) vp_ensures("told everything", h[i].a == t1 && h[i].b == t2 && h[i].ray == r.get() && h[i].run == id);
    n.check_eigenray_listeners(time, id);
    vp_ensures("checked once", h[i].checks == (on ? 1 : 0) && (!on || h[i].time == time));
}
