// C16: every pulse of the schedule meets every bistatic eigenverb, steered from the host platform
// SRCS: rvbts/rvbts_generator.cc sensors/sensor_model.cc sensors/sensor_manager.cc sensors/sensor_pair.cc platforms/platform_model.cc platforms/platform_manager.cc platforms/motion_thresholds.cc beampatterns/bp_omni.cc beampatterns/bp_model.cc threads/thread_task.cc wavegen/wavefront_notifier.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc transmit/transmit_model.cc transmit/transmit_cw.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT schedule: bounded to two pulses and up to three bistatic eigenverbs on two interfaces
// CONTRACT steering: bounded to one pulse, one bistatic eigenverb and up to two hosts
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverb_generator.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/wavegen/wavefront_generator.h>
using namespace usml::biverbs;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::threads;
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::ublas;

static biverb_model::csptr verb[2][2];
static transmit_model::csptr pulse[2];
static int met[2][2][2], made;
static double want[2][3], tol;
static bool store[2][2];
static const biverb_collection* stored;
static const sensor_model *want_s, *want_r;
static double at[2][3], ms[3][3], mr[3][3], speeds[2], tt[3];
namespace usml {
namespace types {
seq_rayfan::seq_rayfan(value_type first, value_type last, size_type, value_type, value_type) : seq_data(size_type(2)) { vector<double> v(2); v[0] = first; v[1] = last; init(v, 2); }
}
namespace wavegen {
wavefront_generator::wavefront_generator(sensor_model* source, const wposition& target_positions, const matrix<uint64_t>&, const seq_vector::csptr&,
    const seq_vector::csptr&, const seq_vector::csptr&, double time_step, double time_maximum, double intensity_threshold, int max_bottom, int max_surface, const std::string&)
    : _source(source), _source_position(source->position()), _target_positions(target_positions), _time_step(time_step), _time_maximum(time_maximum),
      _intensity_threshold(intensity_threshold), _max_bottom(max_bottom), _max_surface(max_surface) {}
void wavefront_generator::run() {}
}
namespace biverbs {
biverb_generator::biverb_generator(const sensor_pair::sptr&, const eigenverb_collection::csptr&, const eigenverb_collection::csptr&) {}
void biverb_generator::run() {}
biverb_list biverb_collection::biverbs(size_t i) const {
    vp_ensures("interfaces of the collection", this == stored && i < 2);
    biverb_list l;
    for (int k = 0; k < 2; ++k) if (store[i][k]) l.push_back(verb[i][k]);
    return l;
}
}
namespace rvbts {
rvbts_collection::rvbts_collection(const sensor_model::sptr& source, const wposition1 source_pos, const orientation& source_orient, const double source_speed,
    const sensor_model::sptr& receiver, const wposition1 receiver_pos, const orientation& receiver_orient, const double receiver_speed, const seq_vector::csptr& travel_times)
    : _source(source), _source_pos(source_pos), _source_orient(source_orient), _source_speed(source_speed), _receiver(receiver), _receiver_pos(receiver_pos),
      _receiver_orient(receiver_orient), _receiver_speed(receiver_speed), _travel_times(travel_times) {
    vp_ensures("sensors of the pair", source.get() == want_s && receiver.get() == want_r);
    vp_equal("source position", source_pos.rho(), at[0][0]); vp_equal("source colatitude", source_pos.theta(), at[0][1]); vp_equal("source longitude", source_pos.phi(), at[0][2]);
    vp_equal("receiver position", receiver_pos.rho(), at[1][0]); vp_equal("receiver colatitude", receiver_pos.theta(), at[1][1]); vp_equal("receiver longitude", receiver_pos.phi(), at[1][2]);
    matrix<double> s = source_orient.rotation(), r = receiver_orient.rotation();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vp_equal("source orientation", s(i, j), ms[i][j]); vp_equal("receiver orientation", r(i, j), mr[i][j]); }
    vp_equal("source speed", source_speed, speeds[0]); vp_equal("receiver speed", receiver_speed, speeds[1]);
    vp_equal("first time", (*travel_times)[0], tt[0]); vp_equal("time increment", travel_times->increment(0), tt[1]);
}
void rvbts_collection::add_biverb(const biverb_model::csptr& v, const transmit_model::csptr& t, const bvector& steering) {
    ++made;
    int p = t == pulse[0] ? 0 : 1;
    vp_ensures("a pulse of the schedule", t == pulse[p]);
    bool known = false;
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) if (v == verb[i][k]) { ++met[i][k][p]; known = true; }
    vp_ensures("an eigenverb of the collection", known);
    vp_equal("steering front", steering.front(), want[p][0]); vp_equal("steering right", steering.right(), want[p][1]); vp_equal("steering up", steering.up(), want[p][2]);
}
}
namespace threads {
alignas(16) static char pool[sizeof(thread_pool)];
thread_pool* thread_controller::instance() { return (thread_pool*)pool; }
void thread_pool::run(const thread_task::ref&) {}
} }
static orientation turned(const char* const* n, double m[3][3]) {
    matrix<double> r(3, 3);
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) r(a, b) = m[a][b] = vp_double(n[3 * a + b], -1, 1);
    return orientation(r);
}
static void compute(bool steer) {
    static const char* n[4][9] = {{"s00", "s01", "s02", "s10", "s11", "s12", "s20", "s21", "s22"}, {"r00", "r01", "r02", "r10", "r11", "r12", "r20", "r21", "r22"},
                                  {"h00", "h01", "h02", "h10", "h11", "h12", "h20", "h21", "h22"}, {"t00", "t01", "t02", "t10", "t11", "t12", "t20", "t21", "t22"}};
    double mh[3][3], mt[3][3];
    sensor_manager::reset();
    int hosts = steer ? (int)vp_choice("hosts", 3) : 0, pulses = steer ? 1 : 2;
    sensor_model::sptr s(new sensor_model((uint64_t)1, "source")), r(new sensor_model((uint64_t)2, "receiver"));
    want_s = s.get(); want_r = r.get();
    platform_model::sptr h(new platform_model((uint64_t)3, "host")), top(new platform_model((uint64_t)4, "top"));
    orientation so, ro, ho, to;
    matrix<double> id = so.rotation();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ms[i][j] = mr[i][j] = id(i, j);
    if (steer) { so = turned(n[0], ms); ho = turned(n[2], mh); to = turned(n[3], mt); ro = turned(n[1], mr); }
    wposition1 ps(10, 20, -100), pr(11, 21, -200);
    if (!steer) {
        ps.rho(vp_double("rho", 6e6, 7e6)); ps.theta(vp_double("theta", 0.1, 3)); ps.phi(vp_double("phi", -3, 3));
        pr.rho(vp_double("rrho", 6e6, 7e6)); pr.theta(vp_double("rtheta", 0.1, 3)); pr.phi(vp_double("rphi", -3, 3));
    }
    at[0][0] = ps.rho(); at[0][1] = ps.theta(); at[0][2] = ps.phi(); at[1][0] = pr.rho(); at[1][1] = pr.theta(); at[1][2] = pr.phi();
    speeds[0] = vp_double("speed", 0, 10); speeds[1] = vp_double("rspeed", 0, 10);
    wposition1 anywhere(10, 20, -30);
    if (hosts >= 1) h->add_child(s, bvector(0, 0, 0), orientation());
    if (hosts == 2) top->add_child(h, bvector(0, 0, 0), orientation());
    h->update(1, anywhere, ho, 0, platform_model::NO_UPDATE);
    if (hosts == 2) top->update(1, anywhere, to, 0, platform_model::NO_UPDATE);
    s->update(1, ps, so, speeds[0], platform_model::NO_UPDATE);
    r->update(1, pr, ro, speeds[1], platform_model::NO_UPDATE);
    transmit_list list;
    for (int i = 0; i < pulses; ++i) {
        double de = steer ? vp_double("de", -90, 90) : 0, az = steer ? vp_double("az", -180, 180) : 0, d = de * M_PI / 180, a = az * M_PI / 180;
        pulse[i] = transmit_model::csptr(new transmit_cw("CW", 1, 1000, 0, 1, window::type::BOXCAR, 0, az, de, i));
        list.push_back(pulse[i]);
        double v[3] = {cos(d) * cos(a), cos(d) * sin(a), sin(d)}, w[3];
        if (hosts == 0) for (int k = 0; k < 3; ++k) want[i][k] = v[k];
        else {
            double(*m)[3] = hosts == 1 ? mh : mt;
            for (int k = 0; k < 3; ++k) w[k] = m[k][0] * v[0] + m[k][1] * v[1] + m[k][2] * v[2];
            for (int k = 0; k < 3; ++k) want[i][k] = ms[0][k] * w[0] + ms[1][k] * w[1] + ms[2][k] * w[2];
        }
    }
    s->transmit_schedule(list);
    tt[0] = steer ? 0 : vp_double("time minimum", 0, 10); tt[1] = 0.25; tt[2] = 40;
    r->time_minimum(tt[0]); r->time_maximum(tt[2]);
    sensor_pair::sptr pair(new sensor_pair(s, r));
    biverb_collection* b = new biverb_collection(0);
    biverb_collection::csptr bi(b);
    stored = b;
    int total = 0;
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) {
        verb[i][k] = biverb_model::csptr(new biverb_model());
        if (steer) store[i][k] = i == 1 && k == 0;
        else store[i][k] = i == 0 || k == 0 ? vp_choice(i == 0 ? k == 0 ? "b00" : "b01" : "b10", 2) : false;
        total += store[i][k];
        met[i][k][0] = met[i][k][1] = 0;
    }
    made = 0;
    rvbts_generator g(pair, s, r, tt[1], bi);
    // the sensors move on, the computation keeps the state it started from
    if (!steer) {
        s->update(2, anywhere, orientation(), 0, platform_model::NO_UPDATE);
        r->update(2, anywhere, orientation(), 0, platform_model::NO_UPDATE);
        if (vp_choice("aborted", 2)) {
            g.abort();
            g.run();
            vp_ensures("nothing is computed or told after an abort", made == 0 && pair->rvbts() == nullptr && !g.done());
            return;
        }
    }
    g.run();
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) for (int t = 0; t < pulses; ++t) vp_ensures("every pulse meets every eigenverb once", met[i][k][t] == (store[i][k] ? 1 : 0));
    vp_ensures("nothing else", made == pulses * total);
    vp_ensures("told", g.done() && pair->rvbts() != nullptr);
}
VP_CONTRACT(schedule) { compute(false); }
VP_CONTRACT(steering) { compute(true); }
