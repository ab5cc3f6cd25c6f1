// C16: bistatic eigenverbs of a pair combine every source patch near each receiver patch
// SRCS: biverbs/biverb_generator.cc sensors/sensor_model.cc sensors/sensor_manager.cc sensors/sensor_pair.cc ocean/ocean_shared.cc ocean/boundary_flat.cc platforms/platform_model.cc platforms/platform_manager.cc platforms/motion_thresholds.cc beampatterns/bp_omni.cc beampatterns/bp_model.cc threads/thread_task.cc wavegen/wavefront_notifier.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT combinations: bounded collections of two patches per interface and one volume layer
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverb_generator.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/wavegen/wavefront_generator.h>
using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::threads;
using namespace usml::types;
using namespace usml::ublas;

static eigenverb_model::csptr rcv[4][2], src[4][2];
static bool has[4][2], hit[4][2][2];
static const eigenverb_collection *srcs, *rcvs;
static int made, want_made;
static int pairs_s[32], pairs_r[32];
static size_t pairs_i[32];
static double pairs_a[32];
namespace usml {
namespace types {
seq_rayfan::seq_rayfan(value_type first, value_type last, size_type, value_type, value_type) : seq_data(size_type(2)) { vector<double> v(2); v[0] = first; v[1] = last; init(v, 2); }
}
namespace wavegen {
wavefront_generator::wavefront_generator(sensor_model* source, const wposition& target_positions, const matrix<uint64_t>&, const seq_vector::csptr&,
    const seq_vector::csptr&, const seq_vector::csptr&, double time_step, double time_maximum, double intensity_threshold, int max_bottom, int max_surface, const std::string&)
    : _source(source), _source_position(source->position()), _target_positions(target_positions), _time_step(time_step), _time_maximum(time_maximum),
      _intensity_threshold(intensity_threshold), _max_bottom(max_bottom), _max_surface(max_surface) {}
void wavefront_generator::run() {}
}
namespace rvbts {
rvbts_generator::rvbts_generator(const sensor_pair::sptr&, const sensor_model::sptr&, const sensor_model::sptr&, const double, const biverb_collection::csptr&)
    : _source_speed(0), _receiver_speed(0) {}
void rvbts_generator::run() {}
}
namespace threads {
alignas(16) static char pool[sizeof(thread_pool)];
thread_pool* thread_controller::instance() { return (thread_pool*)pool; }
void thread_pool::run(const thread_task::ref&) {}
}
namespace eigenverbs {
// what is stored, and what is near
eigenverb_list eigenverb_collection::eigenverbs(size_t i) const {
    eigenverb_list l;
    vp_ensures("receiver patches of an interface", this == rcvs && i < 4);
    for (int k = 0; k < 2; ++k) if (has[i][k]) l.push_back(rcv[i][k]);
    return l;
}
eigenverb_list eigenverb_collection::find_eigenverbs(const eigenverb_model::csptr& v, size_t i) const {
    eigenverb_list l;
    vp_ensures("source patches near a receiver patch of the interface", this == srcs && i < 4 && (v == rcv[i][0] || v == rcv[i][1]));
    int r = v == rcv[i][0] ? 0 : 1;
    for (int k = 0; k < 2; ++k) if (hit[i][r][k]) l.push_back(src[i][k]);
    return l;
}
void eigenverb_collection::add_eigenverb(eigenverb_model::csptr, size_t) {}
double eigenverb_collection::search_scale = 1.5;
}
namespace biverbs {
double biverb_collection::power_threshold = 1e-20;
void biverb_collection::add_biverb(const eigenverb_model::csptr& s, const eigenverb_model::csptr& r, const vector<double>& scatter, size_t i) {
    vp_ensures("patches of the same interface", made < 32 && i < 4 && (s == src[i][0] || s == src[i][1]) && (r == rcv[i][0] || r == rcv[i][1]) && scatter.size() == 1 && num_interfaces() == 4);
    pairs_s[made] = s == src[i][0] ? 0 : 1; pairs_r[made] = r == rcv[i][0] ? 0 : 1; pairs_i[made] = i; pairs_a[made] = scatter[0];
    ++made;
}
} }
static double strength(int kind, const wposition1& l, double di, double ds, double ai, double as) {
    return vp_any4(kind == 0 ? "bottom" : kind == 1 ? "surface" : "volume", l.rho() + vp_any2("place", l.theta(), l.phi()), di, ds, vp_any2("az", ai, as));
}
struct law : public scattering_model {
    int kind;
    law(int k) : kind(k) {}
    void scattering(const wposition1& l, const seq_vector::csptr&, double di, double ds, double ai, double as, vector<double>* a) const override { (*a)[0] = strength(kind, l, di, ds, ai, as); }
    void scattering(const wposition&, const seq_vector::csptr&, double, matrix<double>, double, matrix<double>, matrix<vector<double> >*) const override { vp_unreachable("scattering of a wavefront"); }
};
static eigenverb_model::csptr patch(const char* lat, const char* lng, const char* g, const char* d, const seq_vector::csptr& f) {
    auto* v = new eigenverb_model();
    v->position = wposition1(vp_double(lat, -80, 80), vp_double(lng, -170, 170), -100);
    v->grazing = vp_double(g, 0, 1.5); v->direction = vp_double(d, -7, 7);
    v->frequencies = f;
    return eigenverb_model::csptr(v);
}
// every source patch found near each receiver patch, with the scattering of the interface from one to the other
VP_CONTRACT(combinations) {
    sensor_manager::reset();
    seq_vector::csptr f(new seq_linear(1000.0, 1.0, (size_t)1));
    sensor_manager::instance()->frequencies(f);
    ocean_model* o = new ocean_model(boundary_model::csptr(new boundary_flat(0, nullptr, scattering_model::csptr(new law(1)))), boundary_model::csptr(new boundary_flat(-1000, nullptr, scattering_model::csptr(new law(0)))), nullptr);
    o->add_volume(volume_model::csptr(new volume_flat(200, 10, scattering_model::csptr(new law(2)))));
    ocean_shared::update(ocean_model::csptr(o));
    size_t at = (size_t)vp_choice("interface", 4);
    int nr = (int)vp_choice("receivers", 3);
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) has[i][k] = false;
    eigenverb_model::csptr r0 = patch("rlat0", "rlng0", "rgraz0", "rdir0", f), r1 = patch("rlat1", "rlng1", "rgraz1", "rdir1", f), s0 = patch("slat0", "slng0", "sgraz0", "sdir0", f), s1 = patch("slat1", "slng1", "sgraz1", "sdir1", f);
    for (int i = 0; i < 4; ++i) { rcv[i][0] = r0; rcv[i][1] = r1; src[i][0] = s0; src[i][1] = s1; }
    size_t also = at == 0 ? 3 : 0;  // a second interface with one patch of each
    has[also][0] = true; hit[also][0][0] = true; hit[also][0][1] = false;
    int want = 1;
    for (int r = 0; r < 2; ++r) {
        has[at][r] = r < nr;
        for (int k = 0; k < 2; ++k) { hit[at][r][k] = r < nr && vp_choice(r ? k ? "near11" : "near10" : k ? "near01" : "near00", 2); if (hit[at][r][k]) ++want; }
    }
    sensor_model::sptr a(new sensor_model((uint64_t)1, "source")), b(new sensor_model((uint64_t)2, "receiver"));
    a->compute_reverb(true); b->compute_reverb(true);
    sensor_pair::sptr pair(new sensor_pair(a, b));
    eigenverb_collection::csptr sc(new eigenverb_collection(1)), rc(new eigenverb_collection(1));
    srcs = sc.get(); rcvs = rc.get();
    made = 0;
    biverb_generator g(pair, sc, rc);
    bool stop = vp_choice("aborted", 2);
    if (stop) g.abort();
    g.run();
    if (stop) {
        vp_ensures("nothing is computed or told after an abort", made == 0 && pair->biverbs() == nullptr && !g.done());
        return;
    }
    vp_ensures("as many as found", made == want);
    vp_ensures("told", g.done() && pair->biverbs() != nullptr && pair->biverbs()->num_interfaces() == 4);
    for (int m = 0; m < made && m < 32; ++m) {
        const eigenverb_model &s = *(pairs_s[m] ? s1 : s0), &r = *(pairs_r[m] ? r1 : r0);
        vp_ensures("only those found", hit[pairs_i[m]][pairs_r[m]][pairs_s[m]]);
        for (int k = 0; k < m; ++k) vp_ensures("each once", pairs_s[m] != pairs_s[k] || pairs_r[m] != pairs_r[k] || pairs_i[m] != pairs_i[k]);
        vp_equal("scattering of the interface from source to receiver", pairs_a[m], strength(pairs_i[m] == 0 ? 0 : pairs_i[m] == 1 ? 1 : 2, r.position, s.grazing, r.grazing, s.direction, r.direction));
    }
}
