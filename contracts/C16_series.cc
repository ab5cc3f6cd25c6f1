// C16: reverberation time series of a pair
// SRCS: rvbts/rvbts_collection.cc sensors/sensor_model.cc sensors/sensor_manager.cc sensors/sensor_pair.cc platforms/platform_model.cc platforms/platform_manager.cc platforms/motion_thresholds.cc beampatterns/bp_omni.cc beampatterns/bp_model.cc threads/thread_task.cc wavegen/wavefront_notifier.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc transmit/transmit_model.cc transmit/transmit_cw.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT sum: bounded to two eigenverbs and one receiver channel, for any number of times
// CONTRACT contribution: bounded to two receiver channels and up to two eigenverb frequencies, for any number of times
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverbs.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_collection.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/biverbs/biverb_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/wavegen/wavefront_generator.h>
using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::threads;
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::ublas;

namespace usml {
namespace types {
seq_rayfan::seq_rayfan(value_type first, value_type last, size_type, value_type, value_type) : seq_data(size_type(2)) { vector<double> v(2); v[0] = first; v[1] = last; init(v, 2); }
}
namespace wavegen {
wavefront_generator::wavefront_generator(sensor_model* source, const wposition& target_positions, const matrix<uint64_t>&, const seq_vector::csptr&,
    const seq_vector::csptr&, const seq_vector::csptr&, double time_step, double time_maximum, double intensity_threshold, int max_bottom, int max_surface, const std::string&)
    : _source(source), _source_position(source->position()), _target_positions(target_positions), _time_step(time_step), _time_maximum(time_maximum),
      _intensity_threshold(intensity_threshold), _max_bottom(max_bottom), _max_surface(max_surface) {}
void wavefront_generator::run() {}
}
namespace biverbs {
biverb_generator::biverb_generator(const sensor_pair::sptr&, const eigenverb_collection::csptr&, const eigenverb_collection::csptr&) {}
void biverb_generator::run() {}
}
namespace rvbts {
rvbts_generator::rvbts_generator(const sensor_pair::sptr&, const sensor_model::sptr&, const sensor_model::sptr&, const double, const biverb_collection::csptr&)
    : _source_speed(0), _receiver_speed(0) {}
void rvbts_generator::run() {}
}
namespace threads {
alignas(16) static char pool[sizeof(thread_pool)];
thread_pool* thread_controller::instance() { return (thread_pool*)pool; }
void thread_pool::run(const thread_task::ref&) {}
} }
static const char* nm(int i, const char* a, const char* b, const char* c = "") { return i == 0 ? a : i == 1 ? b : c; }
// any beam pattern: a function of arrival and steering in array coordinates and frequency
struct any_beam : public bp_model {
    int kind;
    any_beam(int k) : kind(k) {}
    static double level(int kind, double f, double r, double u, double sf, double sr, double su, double freq) {
        double x = vp_any4(nm(kind, "source beam", "receiver beam", "other beam"), vp_any3("arrival", f, r, u), vp_any3("steering", sf, sr, su), freq, 1500);
        return x * x;
    }
    void beam_level(const bvector& a, const seq_vector::csptr& f, vector<double>* level_, const bvector& s, double) const override {
        vp_ensures("one frequency", f->size() == 1 && level_->size() == 1);
        (*level_)[0] = level(kind, a.front(), a.right(), a.up(), s.front(), s.right(), s.up(), (*f)[0]);
    }
};
// any increasing axis, through the contract of find_index (C04); k is the time the contract looks at
struct axis : public seq_vector {
    size_t k;
    mutable int asked;
    static const char* name(int i) { static const char* n[4] = {"first", "last", "first2", "last2"}; return n[i & 3]; }
    axis(size_t n, size_t k) : seq_vector(n), k(k), asked(0) { vp_doubles("times", &_data[0], n, 0, 100); }
    size_type find_index(value_type v) const override {
        size_t n = _data.size(), i = (size_t)vp_int(name(asked++), 0, 99998);
        vp_requires(i + 1 < n);
        vp_requires(i == 0 || _data[i] <= v);
        vp_requires(i + 2 == n || v < _data[i + 1]);
        vp_requires(_data[i] < _data[i + 1]);
        if (k <= i) vp_requires(_data[k] <= _data[i]); else vp_requires(_data[k] >= _data[i + 1]);
        return i;
    }
};
static orientation turned(int i, double m[3][3]) {
    matrix<double> r(3, 3);
    static const char* n[2][9] = {{"s00", "s01", "s02", "s10", "s11", "s12", "s20", "s21", "s22"}, {"r00", "r01", "r02", "r10", "r11", "r12", "r20", "r21", "r22"}};
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) r(a, b) = m[a][b] = vp_double(n[i][3 * a + b], -1, 1);
    return orientation(r);
}
VP_CONTRACT(contribution) {
    double ms[3][3], mr[3][3];
    orientation so = turned(0, ms), ro = turned(1, mr);
    sensor_model::sptr s(new sensor_model((uint64_t)1, "source")), r(new sensor_model((uint64_t)2, "receiver"));
    s->src_beam(3, bp_model::csptr(new any_beam(0)));
    s->src_beam(1, bp_model::csptr(new any_beam(2)));
    int key[2] = {2 * (int)vp_choice("first key", 2), 3 + 2 * (int)vp_choice("second key", 2)};
    double st[2][3] = {{vp_double("sf0", -1, 1), vp_double("sr0", -1, 1), vp_double("su0", -1, 1)}, {vp_double("sf1", -1, 1), vp_double("sr1", -1, 1), vp_double("su1", -1, 1)}};
    for (int i = 0; i < 2; ++i) r->rcv_beam(key[i], bp_model::csptr(new any_beam(1 + i)), bvector(st[i][0], st[i][1], st[i][2]));
    size_t n = (size_t)vp_int("times", 2, 100000), k = vp_index("time", n);
    seq_vector::csptr times(new axis(n, k));
    wposition1 p;
    rvbts_collection c(s, p, so, 0, r, p, ro, 0, times);
    vp_ensures("a row for each channel, a column for each time", c.time_series().size1() == 2 && c.time_series().size2() == n);
    vp_ensures("silent at first", c.time_series()(0, k) == 0 && c.time_series()(1, k) == 0);

    biverb_model* v = new biverb_model();
    biverb_model::csptr vp(v);
    v->travel_time = vp_double("travel time", 0, 100); v->duration = vp_double("patch duration", 0.001, 1);
    v->source_de = vp_double("sde", -1.5, 1.5); v->source_az = vp_double("saz", -3, 3); v->receiver_de = vp_double("rde", -1.5, 1.5); v->receiver_az = vp_double("raz", -3, 3);
    int nf = 1 + (int)vp_choice("frequencies", 2);
    double f0 = vp_double("frequency", 100, 10000), df = vp_double("spacing", 10, 100), u = vp_double("part", 0, 1);
    vp_requires(f0 > 0 && df > 0 && 0 <= u && u <= 1);
    v->frequencies = seq_vector::csptr(new seq_linear(f0, df, (size_t)nf));
    v->power.resize(nf);
    v->power[0] = vp_double("power0", 1e-6, 1);
    if (nf == 2) v->power[1] = vp_double("power1", 1e-6, 1);
    double dur = vp_double("pulse", 0.01, 2), delay = vp_double("delay", 0, 20), sl = vp_double("source level", 1, 1e10);
    vp_requires(v->duration > 0 && dur > 0);
    transmit_model::csptr t(new transmit_cw("CW", dur, f0 + u * df, delay, sl, window::type::BOXCAR, 0, 0, 0, 3));
    double df_ = vp_double("steer front", -1, 1), dr_ = vp_double("steer right", -1, 1), du_ = vp_double("steer up", -1, 1);
    double power = nf == 1 ? v->power[0] : u * v->power[1] + (1 - u) * v->power[0];

    auto b = [&](int kind, double m[3][3], double de, double az, double x, double y, double z) {
        double w[3] = {cos(de) * cos(az), cos(de) * sin(az), sin(de)}, q[3];
        for (int i = 0; i < 3; ++i) q[i] = m[0][i] * w[0] + m[1][i] * w[1] + m[2][i] * w[2];
        return any_beam::level(kind, q[0], q[1], q[2], x, y, z, f0 + u * df);
    };
    double bs = b(0, ms, v->source_de, v->source_az, df_, dr_, du_);
    double T = v->duration + dur, tau = v->travel_time + delay + T, x = (*times)[k] - tau;
    double g = exp(-0.5 * (x / T) * (x / T)) / (T * sqrt(2 * M_PI));
    c.add_biverb(vp, t, bvector(df_, dr_, du_));
    for (int i = 0; i < 2; ++i) {
        double br = b(1 + i, mr, v->receiver_de, v->receiver_az, st[i][0], st[i][1], st[i][2]);
        double level = sl * bs * power * dur * br, got = c.time_series()((size_t)i, k);
        if (sl * bs < rvbts_collection::power_threshold || level < rvbts_collection::power_threshold) vp_equal("nothing below the threshold", got, 0);
        else if (fabs(x) < 5 * T) vp_equal("product of source level, power and both beams, spread over the duration", got, level * g);
        else vp_equal("no more than that in the tails", got * (got - level * g), 0);
    }
}
// contributions add up
VP_CONTRACT(sum) {
    sensor_model::sptr s(new sensor_model((uint64_t)1, "source")), r(new sensor_model((uint64_t)2, "receiver"));
    s->src_beam(0, bp_model::csptr(new bp_omni()));
    r->rcv_beam(7, bp_model::csptr(new bp_omni()));
    size_t n = (size_t)vp_int("times", 2, 100000), k = vp_index("time", n);
    seq_vector::csptr times(new axis(n, k));
    wposition1 p;
    rvbts_collection c(s, p, orientation(), 0, r, p, orientation(), 0, times);
    double total = 0;
    for (int i = 0; i < 2; ++i) {
        biverb_model* v = new biverb_model();
        biverb_model::csptr keep(v);
        v->travel_time = vp_double(nm(i, "travel0", "travel1"), 0, 100); v->duration = vp_double(nm(i, "patch0", "patch1"), 0.001, 1);
        v->source_de = v->source_az = v->receiver_de = v->receiver_az = 0;
        v->frequencies = seq_vector::csptr(new seq_linear(1000.0, 10.0, (size_t)1));
        v->power.resize(1);
        v->power[0] = vp_double(nm(i, "power0", "power1"), 1e-6, 1);
        double dur = vp_double(nm(i, "pulse0", "pulse1"), 0.01, 2), sl = vp_double(nm(i, "level0", "level1"), 1, 1e10);
        double T = v->duration + dur, x = (*times)[k] - (v->travel_time + T);
        vp_requires(v->duration > 0 && dur > 0 && fabs(x) < 5 * T && sl >= rvbts_collection::power_threshold && sl * v->power[0] * dur >= rvbts_collection::power_threshold);
        c.add_biverb(keep, transmit_model::csptr(new transmit_cw("CW", dur, 1000, 0, sl)), bvector(1, 0, 0));
        total += sl * v->power[0] * dur * exp(-0.5 * (x / T) * (x / T)) / (T * sqrt(2 * M_PI));
    }
    vp_equal("contributions add up", c.time_series()(0, k), total);
}
