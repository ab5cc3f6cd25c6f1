// C17: sensors recompute acoustics when moved by more than the thresholds
// SRCS: sensors/sensor_model.cc sensors/sensor_manager.cc sensors/sensor_pair.cc platforms/platform_model.cc platforms/platform_manager.cc platforms/motion_thresholds.cc beampatterns/bp_omni.cc beampatterns/bp_model.cc threads/thread_task.cc wavegen/wavefront_notifier.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT targets: bounded sets of two platforms and the sensor
// CONTRACT settings: bounded histories of two beams
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/sensors/sensors.h>
#include <usml/platforms/platforms.h>
#include <usml/wavegen/wavefront_generator.h>
#include <usml/threads/threads.h>
using namespace usml::beampatterns;
using namespace usml::sensors;
using namespace usml::platforms;
using namespace usml::threads;
using namespace usml::types;
using namespace usml::ublas;
using namespace usml::wavegen;

// background tasks are replaced by their contracts: requests are recorded
static int started;
static thread_task* task;
static sensor_model* asked;
static size_t asked_targets;
static double asked_lat[3], asked_lng[3], asked_alt[3];
static uint64_t asked_id[3];
static double asked_num[3];
static int asked_int[2];
static const seq_vector *asked_f, *asked_de, *asked_az;
namespace usml { namespace types {
// the default ray fan plays no part here (C04 proves it)
seq_rayfan::seq_rayfan(value_type first, value_type last, size_type, value_type, value_type) : seq_data(size_type(2)) { vector<double> v(2); v[0] = first; v[1] = last; init(v, 2); }
}
namespace wavegen {
wavefront_generator::wavefront_generator(sensor_model* source, const wposition& target_positions, const matrix<uint64_t>& targetIDs,
    const seq_vector::csptr& frequencies, const seq_vector::csptr& de_fan, const seq_vector::csptr& az_fan, double time_step,
    double time_maximum, double intensity_threshold, int max_bottom, int max_surface, const std::string& wavefront_file)
    : _source(source), _source_position(source->position()), _target_positions(target_positions), _time_step(time_step), _time_maximum(time_maximum),
      _intensity_threshold(intensity_threshold), _max_bottom(max_bottom), _max_surface(max_surface) {
    asked = source; asked_targets = target_positions.size1();
    vp_ensures("one identification per target", targetIDs.size1() == asked_targets && (asked_targets == 0 || (targetIDs.size2() == 1 && target_positions.size2() == 1)));
    for (size_t i = 0; i < asked_targets && i < 3; ++i) {
        asked_lat[i] = target_positions.latitude(i, 0); asked_lng[i] = target_positions.longitude(i, 0); asked_alt[i] = target_positions.altitude(i, 0);
        asked_id[i] = targetIDs(i, 0);
    }
    asked_f = frequencies.get(); asked_de = de_fan.get(); asked_az = az_fan.get();
    asked_num[0] = time_step; asked_num[1] = time_maximum; asked_num[2] = intensity_threshold;
    asked_int[0] = max_bottom; asked_int[1] = max_surface;
}
void wavefront_generator::run() {}
}
namespace threads {
alignas(16) static char pool[sizeof(thread_pool)];
thread_pool* thread_controller::instance() { return (thread_pool*)pool; }
void thread_pool::run(const thread_task::ref& t) { ++started; task = t.get(); }
} }

struct state { double lat, lng, alt, y, p, r; };
static double turn(double a) { a = fabs(a); return a > 180 ? 360 - a : a; }
VP_CONTRACT(thresholds) {
    sensor_model s((uint64_t)5, "sensor");
    s.compute_reverb(true);
    s.time_maximum(10);
    state a = {vp_double("lat", -80, 80), vp_double("lng", -180, 180), vp_double("alt", -5000, 0), vp_double("yaw", -179, 179), vp_double("pitch", -80, 80), vp_double("roll", -179, 179)};
    state b = {a.lat + vp_double("dlat", -0.02, 0.02), vp_double("lng2", -180, 180), a.alt + vp_double("dalt", -10, 10), vp_double("yaw2", -179, 179), vp_double("pitch2", -80, 80), vp_double("roll2", -179, 179)};
    vp_requires(-180 < a.y && a.y < 180 && -180 < b.y && b.y < 180 && -90 < a.p && a.p < 90 && -90 < b.p && b.p < 90 && -180 < a.r && a.r < 180 && -180 < b.r && b.r < 180);
    vp_requires(-180 <= a.lng && a.lng <= 180 && -180 <= b.lng && b.lng <= 180);
    orientation oa(a.y, a.p, a.r), ob(b.y, b.p, b.r), ya(oa), yb(ob);
    state u = {0, 0, 0, ya.yaw(), ya.pitch(), ya.roll()}, w = {0, 0, 0, yb.yaw(), yb.pitch(), yb.roll()};
    started = 0;
    s.update(1, wposition1(a.lat, a.lng, a.alt), oa, 3.0);
    vp_ensures("first update computes", started == 1);
    int64_t type = vp_choice("type", 3);
    bool redo = vp_choice("needs", 2);
    if (redo) s.set_needs_update();
    wposition1 pa(a.lat, a.lng, a.alt), pb(b.lat, b.lng, b.alt);
    s.update(2, pb, ob, 4.0, (platform_model::update_type_enum)type);
    bool far = fabs(pb.latitude() - pa.latitude()) >= 0.01 || turn(pb.longitude() - pa.longitude()) >= 0.01 || fabs(pb.altitude() - pa.altitude()) >= 5 ||
               turn(w.y - u.y) >= 5 || fabs(w.p - u.p) >= 5 || turn(w.r - u.r) >= 5;
    bool want = type == 1 || (type == 0 && (redo || far));
    if (want) vp_ensures("recomputed when moved beyond the thresholds", started == 2);
    else vp_ensures("not recomputed otherwise", started == 1);
    vp_ensures("motion stored anyway", s.time() == 2);
    vp_equal("speed stored anyway", s.speed(), 4.0);
    vp_equal("position stored anyway", s.position().rho(), pb.rho());
}
static const char* nm(int i, const char* a, const char* b) { return i == 0 ? a : b; }
// the acoustic targets in range, where they are, are asked for with the settings of the sensor
VP_CONTRACT(targets) {
    sensor_manager::reset();
    seq_vector::csptr f(new seq_linear(100.0, 10.0, (size_t)2)), de(new seq_linear(-10.0, 5.0, (size_t)5)), az(new seq_linear(0.0, 90.0, (size_t)5));
    sensor_manager::instance()->frequencies(f);
    sensor_model::sptr s(new sensor_model((uint64_t)5, "sensor"));
    bool reverb = vp_choice("reverb", 2), self = vp_choice("self", 2);
    s->compute_reverb(reverb); s->is_acoustic_target(self);
    double dt = vp_double("time step", 0.01, 1), tmax = vp_double("time max", 1, 90), thr = vp_double("threshold", -300, -100);
    int mb = (int)vp_int("bottoms", 0, 999), ms = (int)vp_int("surfaces", 0, 999);
    s->de_fan(de); s->az_fan(az); s->time_step(dt); s->time_maximum(tmax); s->intensity_threshold(thr); s->max_bottom(mb); s->max_surface(ms);
    bool near = vp_choice("near", 2), far = vp_choice("far", 2);
    double lo = near ? vp_double("min", 1, 10000) : 0, hi = far ? vp_double("max", 1, 100000) : 0;
    if (near) { vp_requires(lo >= 1); vp_requires(!(lo * lo < 2.220446049250313e-16)); }
    if (far) { vp_requires(hi >= 1); vp_requires(!(hi * hi < 2.220446049250313e-16)); }
    s->min_range(lo); s->max_range(hi);
    platform_model::sptr p[2];
    wposition1 at(vp_double("lat", -80, 80), vp_double("lng", -170, 170), vp_double("alt", -4000, 0)), q[2];
    bool is[2];
    for (int i = 0; i < 2; ++i) {
        q[i] = wposition1(vp_double(nm(i, "lat0", "lat1"), -80, 80), vp_double(nm(i, "lng0", "lng1"), -170, 170), vp_double(nm(i, "alt0", "alt1"), -4000, 0));
        p[i] = platform_model::sptr(new platform_model((uint64_t)(10 + i), "target", 0, q[i]));
        is[i] = vp_choice(nm(i, "target0", "target1"), 2);
        p[i]->is_acoustic_target(is[i]);
        platform_manager::instance()->add(p[i]);
    }
    platform_manager::instance()->add(s);
    started = 0; asked = nullptr;
    s->update(1, at, orientation(), 3.0);
    bool in[3] = {self && !near, false, false};
    for (int i = 0; i < 2; ++i) { double d2 = q[i].distance2(at); in[i + 1] = is[i] && d2 >= lo * lo && (!far || d2 <= hi * hi); }
    size_t n = (in[0] ? 1 : 0) + (in[1] ? 1 : 0) + (in[2] ? 1 : 0), k = 0;
    vp_ensures("started when there is something to compute", started == (n > 0 || reverb ? 1 : 0));
    if (started) {
        vp_ensures("started for this sensor", asked == s.get() && asked_f == f.get() && asked_de == de.get() && asked_az == az.get() && (thread_task*)s->wavefront_task().get() == task);
        vp_ensures("bounce limits", asked_int[0] == mb && asked_int[1] == ms);
        vp_equal("time step", asked_num[0], dt); vp_equal("maximum time", asked_num[1], tmax); vp_equal("intensity threshold", asked_num[2], thr);
        vp_ensures("number of targets", asked_targets == n);
        for (int i = 0; i < 3; ++i)
            if (in[i]) {
                vp_ensures("identification", asked_id[k] == (i ? (uint64_t)(9 + i) : 5));
                const wposition1& w = i ? q[i - 1] : at;
                vp_equal("latitude", asked_lat[k], w.latitude()); vp_equal("longitude", asked_lng[k], w.longitude()); vp_equal("altitude", asked_alt[k], w.altitude());
                ++k;
            }
    }
    // the next request cancels the one that is running
    if (started) {
        std::shared_ptr<wavefront_generator> first = s->wavefront_task();
        s->update(2, at, orientation(), 3.0, platform_model::FORCE_UPDATE);
        vp_ensures("a new task", started == 2 && s->wavefront_task() != first);
    }
}
VP_CONTRACT(settings) {
    sensor_model s((uint64_t)5, "sensor");
    vp_ensures("no beams", !s.is_source() && !s.is_receiver() && s.src_num_keys() == 0 && s.rcv_num_keys() == 0);
    bp_model::csptr b[2] = {bp_model::csptr(new bp_omni()), bp_model::csptr(new bp_omni())};
    int k[2] = {(int)vp_choice("key", 3), (int)vp_choice("key2", 3)};
    vp_ensures("one source beam", s.src_beam(k[0], b[0]) == 1);
    size_t n = k[0] == k[1] ? 1 : 2;
    vp_ensures("source beams", s.src_beam(k[1], b[1]) == n && s.src_num_keys() == n && s.src_keys().size() == n && s.is_source() && !s.is_receiver());
    bvector x(vp_double("f", -1, 1), vp_double("r", -1, 1), vp_double("u", -1, 1)), y(vp_double("f2", -1, 1), vp_double("r2", -1, 1), vp_double("u2", -1, 1));
    vp_ensures("one receiver beam", s.rcv_beam(k[0], b[0]) == 1);
    vp_equal("default steering", s.rcv_steering(k[0]).front(), 1.0);
    s.rcv_steering(k[0], y);
    vp_ensures("receiver beams", s.rcv_beam(k[1], b[1], x) == n && s.rcv_num_keys() == n && s.rcv_keys().size() == n && s.is_receiver());
    for (int i = 0; i < 2; ++i) {
        const bp_model* want = k[i] == k[1] ? b[1].get() : b[0].get();
        vp_ensures("beam of its channel", s.src_beam(k[i]).get() == want && s.rcv_beam(k[i]).get() == want);
        const bvector& v = k[i] == k[1] ? x : y;
        vp_equal("steering of its channel", s.rcv_steering(k[i]).front(), v.front());
        vp_equal("steering of its channel", s.rcv_steering(k[i]).right(), v.right());
        vp_equal("steering of its channel", s.rcv_steering(k[i]).up(), v.up());
    }
    int other = (int)vp_choice("other", 3);
    if (other != k[0] && other != k[1]) vp_ensures("no such beam", s.src_beam(other) == nullptr && s.rcv_beam(other) == nullptr);
    s.reset_src_beams();
    vp_ensures("source beams removed", !s.is_source() && s.is_receiver());
    s.reset_rcv_beams();
    vp_ensures("receiver beams removed", !s.is_source() && !s.is_receiver());
}
