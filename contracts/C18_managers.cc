// C18: managers keep exactly the objects and sensor pairs implied by their history
// SRCS: sensors/sensor_model.cc sensors/sensor_manager.cc sensors/sensor_pair.cc platforms/platform_model.cc platforms/platform_manager.cc platforms/motion_thresholds.cc beampatterns/bp_omni.cc beampatterns/bp_model.cc threads/thread_task.cc wavegen/wavefront_notifier.cc eigenrays/eigenray_collection.cc eigenrays/eigenray_notifier.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc transmit/transmit_model.cc transmit/transmit_cw.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT objects: bounded histories of four operations on three objects
// CONTRACT platform_keys: bounded histories of three additions
// CONTRACT two_sensors: bounded to two sensors
// CONTRACT three_sensors: bounded to three sensors
// CONTRACT updates: bounded to one pair
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverb_generator.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts_generator.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/wavegen/wavefront_generator.h>
using namespace usml::beampatterns;
using namespace usml::biverbs;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::managed;
using namespace usml::platforms;
using namespace usml::rvbts;
using namespace usml::sensors;
using namespace usml::threads;
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::ublas;
using namespace usml::wavegen;

// background tasks are replaced by their contracts: requests are recorded
static int overlaps, series;
static sensor_pair* asked;
static const eigenverb_collection *asked_src, *asked_rcv;
static const sensor_model *asked_source, *asked_receiver;
static const biverb_collection* asked_biverbs;
static double asked_treverb;
static thread_task::ref task;
static bool cancelled;
static int started;
namespace usml {
namespace types {
// the default ray fan plays no part here (C04 proves it)
seq_rayfan::seq_rayfan(value_type first, value_type last, size_type, value_type, value_type) : seq_data(size_type(2)) { vector<double> v(2); v[0] = first; v[1] = last; init(v, 2); }
}
namespace wavegen {
wavefront_generator::wavefront_generator(sensor_model* source, const wposition& target_positions, const matrix<uint64_t>&, const seq_vector::csptr&,
    const seq_vector::csptr&, const seq_vector::csptr&, double time_step, double time_maximum, double intensity_threshold, int max_bottom, int max_surface, const std::string&)
    : _source(source), _source_position(source->position()), _target_positions(target_positions), _time_step(time_step), _time_maximum(time_maximum),
      _intensity_threshold(intensity_threshold), _max_bottom(max_bottom), _max_surface(max_surface) {}
void wavefront_generator::run() {}
}
namespace biverbs {
biverb_generator::biverb_generator(const sensor_pair::sptr& pair, const eigenverb_collection::csptr& src, const eigenverb_collection::csptr& rcv) {
    ++overlaps; asked = pair.get(); asked_src = src.get(); asked_rcv = rcv.get();
}
void biverb_generator::run() { cancelled = _abort; }
}
namespace rvbts {
rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair, const sensor_model::sptr& source, const sensor_model::sptr& receiver, const double treverb, const biverb_collection::csptr& biverbs)
    : _source_speed(0), _receiver_speed(0) {
    ++series; asked = pair.get(); asked_source = source.get(); asked_receiver = receiver.get(); asked_treverb = treverb; asked_biverbs = biverbs.get();
}
void rvbts_generator::run() { cancelled = _abort; }
}
namespace threads {
alignas(16) static char pool[sizeof(thread_pool)];
thread_pool* thread_controller::instance() { return (thread_pool*)pool; }
void thread_pool::run(const thread_task::ref& t) { ++started; task = t; }
} }

static const char* nm(int i, const char* a, const char* b, const char* c, const char* d = "") { return i == 0 ? a : i == 1 ? b : i == 2 ? c : d; }
struct counter : public manager_listener<platform_model> {
    mutable int added[4], removed[4];
    counter() { for (int i = 0; i < 4; ++i) added[i] = removed[i] = 0; }
    void notify_add(const platform_model* p) const override { ++added[p->keyID()]; }
    void notify_remove(uint64_t key) const override { ++removed[key]; }
};
VP_CONTRACT(objects) {
    manager_template<platform_model> m;
    counter hear, deaf;
    m.add_listener(&hear); m.add_listener(&deaf); m.remove_listener(&deaf);
    platform_model::sptr p[3], in[3];
    int add[3] = {0, 0, 0}, rem[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i) p[i] = platform_model::sptr(new platform_model((uint64_t)(i + 1), "platform"));
    for (int k = 0; k < 4; ++k) {
        int i = (int)vp_choice(nm(k, "a", "b", "c", "d"), 3);
        if (vp_choice(nm(k, "add a", "add b", "add c", "add d"), 2)) {
            bool thrown = false;
            uint64_t key = 0;
            try { key = m.add(p[i]); } catch (manager_template<platform_model>::duplicate_key&) { thrown = true; }
            vp_ensures("added unless there already", thrown == (in[i] != nullptr) && (thrown || key == p[i]->keyID()));
            if (!thrown) ++add[i];
            in[i] = p[i];
        } else {
            vp_ensures("removed if it was there", m.remove((uint64_t)(i + 1)) == (in[i] != nullptr));
            if (in[i] != nullptr) ++rem[i];
            in[i] = nullptr;
        }
    }
    size_t n = 0;
    for (int i = 0; i < 3; ++i) {
        vp_ensures("finds what was added and not removed", m.find((uint64_t)(i + 1)) == in[i]);
        vp_ensures("told once per addition", hear.added[i + 1] == add[i]);
        vp_ensures("told once per removal", hear.removed[i + 1] == rem[i]);
        vp_ensures("former listeners are not told", deaf.added[i + 1] == 0 && deaf.removed[i + 1] == 0);
        if (in[i] != nullptr) ++n;
    }
    std::list<platform_model::sptr> l = m.list();
    vp_ensures("lists as many", l.size() == n);
    for (const auto& x : l) vp_ensures("lists what it has", x == in[x->keyID() - 1]);
    vp_ensures("nothing else", m.find(7) == nullptr);
}
VP_CONTRACT(platform_keys) {
    platform_manager::reset();
    platform_manager* m = platform_manager::instance();
    vp_ensures("one instance", platform_manager::instance() == m && m->list().empty());
    platform_model::sptr p[3];
    uint64_t key[3];
    for (int i = 0; i < 3; ++i) {
        uint64_t ask = (uint64_t)vp_choice(nm(i, "k0", "k1", "k2"), 4);
        p[i] = platform_model::sptr(new platform_model(ask, "platform"));
        bool used = false, thrown = false;
        for (int j = 0; j < i; ++j) used = used || (ask != 0 && key[j] == ask);
        try { m->add(p[i]); } catch (...) { thrown = true; }
        vp_ensures("added unless the key is in use", thrown == used);
        key[i] = thrown ? 0 : p[i]->keyID();
        if (!thrown) {
            vp_ensures("asked for key", key[i] != 0 && (ask == 0 || key[i] == ask));
            for (int j = 0; j < i; ++j) vp_ensures("unique key", key[j] != key[i]);
            vp_ensures("found by its key", m->find(key[i]) == p[i]);
        }
    }
    platform_manager::reset();
    vp_ensures("empty after reset", platform_manager::instance()->list().empty());
}
struct sensor_t { sensor_model::sptr s; bool src, rcv, close, in; uint64_t group; };
static sensor_t make(int i, bool src, bool rcv, uint64_t group, bool close) {
    sensor_t x = {sensor_model::sptr(new sensor_model((uint64_t)(i + 1), "sensor")), src, rcv, close, false, group};
    bp_model::csptr b(new bp_omni());
    if (src) x.s->src_beam(0, b);
    if (rcv) x.s->rcv_beam(0, b);
    x.s->multistatic(group);
    x.s->time_maximum(10.0);
    x.s->min_range(close ? 0.0 : 100.0);
    return x;
}
struct deaf_listener : public update_listener<sensor_pair> { void notify_update(const sensor_pair*) override {} };
static void check(sensor_manager* m, const sensor_t* x, int n) {
    size_t count = 0;
    for (int i = 0; i < n; ++i) {
        size_t as_src = 0, as_rcv = 0;
        for (int j = 0; j < n; ++j) {
            auto is = [&](int a, int b) { return x[a].in && x[b].in && x[a].src && x[b].rcv && (a == b ? x[a].close : x[a].group > 0 && x[a].group == x[b].group); };
            sensor_pair::sptr p = m->find(sensor_pair::generate_hash_key((uint64_t)(i + 1), (uint64_t)(j + 1)));
            if (is(i, j)) {
                ++count;
                vp_ensures("pair of source and receiver", p != nullptr && p->source() == x[i].s && p->receiver() == x[j].s && p->complement(x[i].s) == x[j].s && p->complement(x[j].s) == x[i].s);
            } else vp_ensures("no other pair", p == nullptr);
            if (is(i, j)) ++as_src;
            if (is(j, i)) ++as_rcv;
        }
        pair_list ps = m->find_source((uint64_t)(i + 1)), pr = m->find_receiver((uint64_t)(i + 1));
        vp_ensures("pairs of a source", ps.size() == as_src);
        for (const auto& p : ps) vp_ensures("pairs of a source", p->source() == x[i].s);
        vp_ensures("pairs of a receiver", pr.size() == as_rcv);
        for (const auto& p : pr) vp_ensures("pairs of a receiver", p->receiver() == x[i].s);
        vp_ensures("sensors known", sensor_manager::find_sensor((uint64_t)(i + 1)) == (x[i].in ? x[i].s : nullptr));
    }
    vp_ensures("as many pairs", m->list().size() == count);
}
VP_CONTRACT(two_sensors) {
    sensor_manager::reset();
    sensor_manager* m = sensor_manager::instance();
    m->frequencies(seq_vector::csptr(new seq_linear(1000.0, 1.0, (size_t)1)));
    deaf_listener hear;
    sensor_t x[2];
    for (int i = 0; i < 2; ++i) {
        int64_t kind = vp_choice(nm(i, "kind0", "kind1", ""), 4);
        uint64_t group = (uint64_t)vp_choice(nm(i, "group0", "group1", ""), 3);
        x[i] = make(i, kind & 1, kind & 2, group, vp_choice(nm(i, "close0", "close1", ""), 2));
        m->add_sensor(x[i].s, i ? &hear : nullptr);
        x[i].in = true;
    }
    check(m, x, 2);
    int r = (int)vp_choice("removed", 2);
    m->remove_sensor(x[r].s, r ? &hear : nullptr);
    x[r].in = false;
    check(m, x, 2);
    m->add_sensor(x[r].s);
    x[r].in = true;
    check(m, x, 2);
}
VP_CONTRACT(three_sensors) {
    sensor_manager::reset();
    sensor_manager* m = sensor_manager::instance();
    m->frequencies(seq_vector::csptr(new seq_linear(1000.0, 1.0, (size_t)1)));
    sensor_t x[3];
    for (int i = 0; i < 3; ++i) {
        int64_t kind = vp_choice(nm(i, "kind0", "kind1", "kind2"), 3) + 1;
        uint64_t group = i ? (uint64_t)vp_choice(nm(i, "", "group1", "group2"), 2) + 1 : 1;
        x[i] = make(i, kind & 1, kind & 2, group, true);
        m->add_sensor(x[i].s);
        x[i].in = true;
    }
    check(m, x, 3);
    int r = (int)vp_choice("removed", 3);
    m->remove_sensor(x[r].s);
    x[r].in = false;
    check(m, x, 3);
}
VP_CONTRACT(refused) {
    sensor_manager::reset();
    sensor_manager* m = sensor_manager::instance();
    sensor_t x = make(0, true, true, 1, true);
    bool thrown = false;
    try { m->add_sensor(x.s); } catch (sensor_manager::freq_missing&) { thrown = true; }
    vp_ensures("needs frequencies", thrown);
    m->frequencies(seq_vector::csptr(new seq_linear(1000.0, 1.0, (size_t)1)));
    x.s->time_maximum(0.0);
    thrown = false;
    try { m->add_sensor(x.s); } catch (sensor_manager::time_maximum_missing&) { thrown = true; }
    vp_ensures("needs a maximum time", thrown);
    check(m, &x, 1);
    x.s->time_maximum(5.0);
    m->add_sensor(x.s);
    x.in = true;
    thrown = false;
    try { m->add_sensor(x.s); } catch (...) { thrown = true; }
    vp_ensures("refuses the same sensor twice", thrown);
    check(m, &x, 1);
}
struct pair_listener : public update_listener<sensor_pair> {
    int told; const sensor_pair* which;
    pair_listener() : told(0), which(nullptr) {}
    void notify_update(const sensor_pair* p) override { ++told; which = p; }
};
template <typename T> static std::shared_ptr<const T> mark(const char* p) { return std::shared_ptr<const T>(std::shared_ptr<void>(), (const T*)p); }
// wavefront, bistatic eigenverb and time series updates of a pair
VP_CONTRACT(updates) {
    task = nullptr;
    sensor_manager::reset();
    sensor_manager* m = sensor_manager::instance();
    seq_vector::csptr f(new seq_linear(1000.0, 1.0, (size_t)1));
    m->frequencies(f);
    bool mono = vp_choice("monostatic", 2);
    bool rev_s = vp_choice("source reverb", 2), rev_r = mono ? rev_s : vp_choice("receiver reverb", 2);
    sensor_t a = make(0, true, mono, 1, true), b = mono ? a : make(1, false, true, 1, true);
    a.s->compute_reverb(rev_s); b.s->compute_reverb(rev_r);
    wposition1 pa(vp_double("lat", -80, 80), vp_double("lng", -170, 170), vp_double("alt", -4000, 0)), pb(vp_double("lat2", -80, 80), vp_double("lng2", -170, 170), vp_double("alt2", -4000, 0));
    if (mono) pb = pa;
    a.s->update(1, pa, orientation(), 0, platform_model::NO_UPDATE);
    if (!mono) b.s->update(1, pb, orientation(), 0, platform_model::NO_UPDATE);
    pair_listener hear;
    m->add_sensor(a.s, &hear);
    if (!mono) m->add_sensor(b.s, &hear);
    sensor_pair::sptr p = m->find(sensor_pair::generate_hash_key(a.s->keyID(), b.s->keyID()));
    bool reverb = rev_s && rev_r;
    vp_ensures("the pair", p != nullptr && p->compute_reverb() == reverb && p->dirpaths() == nullptr && p->biverbs() == nullptr && p->rvbts() == nullptr);
    overlaps = series = started = 0;
    bool by_rcv = !mono && vp_choice("by receiver", 2);
    const sensor_model* by = by_rcv ? b.s.get() : a.s.get();
    matrix<uint64_t> ids(1, 2);
    ids(0, 0) = by_rcv ? a.s->keyID() : b.s->keyID(); ids(0, 1) = 77;
    wposition tpos(1, 2, 10, 20, -30);
    eigenray_model* r = new eigenray_model;
    r->travel_time = vp_double("time", 0.1, 90);
    vp_requires(r->travel_time > 0);
    r->frequencies = f;
    r->intensity.resize(1); r->phase.resize(1);
    r->intensity(0) = vp_double("pl", 40, 120); r->phase(0) = vp_double("phase", -3, 3);
    r->source_de = vp_double("sde", -90, 90); r->source_az = vp_double("saz", -180, 180);
    r->target_de = vp_double("tde", -90, 90); r->target_az = vp_double("taz", -180, 180);
    r->surface = 3; r->bottom = 4; r->caustic = 5; r->upper = 6; r->lower = 7;
    eigenray_model::csptr ray(r), stray(new eigenray_model(*r));
    bool coh = !by_rcv;
    eigenray_collection* c = new eigenray_collection(f, by->position(), tpos, by->keyID(), ids, coh);
    c->add_eigenray(0, 0, ray, 0); c->add_eigenray(0, 1, stray, 0);
    eigenray_collection::csptr rays(c);
    static char verbs[2], bi[2], ts[2];
    eigenverb_collection::csptr v0 = mark<eigenverb_collection>(verbs), v1 = mark<eigenverb_collection>(verbs + 1);
    (by_rcv ? b : a).s->notify_wavefront_listeners(by, rays, v0);
    eigenray_collection::csptr d = p->dirpaths();
    vp_ensures("direct paths kept", d != nullptr && d->size1() == 1 && d->size2() == 1 && d->coherent() == coh && d->frequencies() == f);
    vp_ensures("from the source to the receiver", d->sourceID() == a.s->keyID() && d->targetID(0, 0) == b.s->keyID());
    wposition1 to(d->position(0, 0));
    vp_equal("receiver latitude", to.latitude(), pb.latitude()); vp_equal("receiver longitude", to.longitude(), pb.longitude()); vp_equal("receiver altitude", to.altitude(), pb.altitude());
    vp_ensures("rays of this receiver only", d->eigenrays(0, 0).size() == 1);
    eigenray_model::csptr e = d->eigenrays(0, 0).front();
    vp_equal("source elevation", e->source_de, by_rcv ? r->target_de : r->source_de); vp_equal("source azimuth", e->source_az, by_rcv ? r->target_az : r->source_az);
    vp_equal("receiver elevation", e->target_de, by_rcv ? r->source_de : r->target_de); vp_equal("receiver azimuth", e->target_az, by_rcv ? r->source_az : r->target_az);
    vp_equal("travel time", e->travel_time, r->travel_time); vp_equal("loss", e->intensity(0), r->intensity(0)); vp_equal("phase", e->phase(0), r->phase(0));
    vp_ensures("history", e->surface == 3 && e->bottom == 4 && e->caustic == 5 && e->upper == 6 && e->lower == 7);
    vp_ensures("eigenverbs of the sides", p->src_eigenverbs() == (reverb && !by_rcv ? v0 : nullptr) && p->rcv_eigenverbs() == (reverb && (mono || by_rcv) ? v0 : nullptr));
    vp_ensures("told when there is no reverberation", hear.told == (reverb ? 0 : 1) && (reverb || hear.which == p.get()));
    vp_ensures("overlap when both sides are there", overlaps == (reverb && mono ? 1 : 0));
    if (reverb && !mono) {
        const sensor_model* other = by_rcv ? a.s.get() : b.s.get();
        matrix<uint64_t> none(1, 2); none(0, 0) = none(0, 1) = 99;
        (by_rcv ? a : b).s->notify_wavefront_listeners(other, eigenray_collection::csptr(new eigenray_collection(f, other->position(), tpos, other->keyID(), none, coh)), v1);
        vp_ensures("overlap once both sides are there", overlaps == 1 && p->src_eigenverbs() == (by_rcv ? v1 : v0) && p->rcv_eigenverbs() == (by_rcv ? v0 : v1));
    }
    if (overlaps) vp_ensures("overlap of this pair", started == 1 && asked == p.get() && asked_src == p->src_eigenverbs().get() && asked_rcv == p->rcv_eigenverbs().get());
    if (overlaps) {
        thread_task::ref first = task;
        (by_rcv ? b : a).s->notify_wavefront_listeners(by, rays, v0);
        first->run();
        vp_ensures("the overlap in progress is cancelled by the next", overlaps == 2 && task != first && cancelled);
        task->run();
        vp_ensures("the next is not", !cancelled);
    }
    // bistatic eigenverbs
    int told = hear.told;
    started = 0;
    biverb_collection::csptr bv = mark<biverb_collection>(bi);
    size_t n = (size_t)vp_choice("pulses", 3);
    double dur[2] = {vp_double("duration", 0.01, 10), vp_double("duration2", 0.01, 10)};
    vp_requires(dur[0] > 0 && dur[1] > 0);
    transmit_list pulses;
    for (size_t i = 0; i < n; ++i) pulses.push_back(transmit_model::csptr(new transmit_cw("pulse", dur[i], 1000.0)));
    a.s->transmit_schedule(pulses);
    vp_ensures("no time series without bistatic eigenverbs", series == 0);
    p->notify_update(&bv);
    vp_ensures("bistatic eigenverbs kept", p->biverbs() == bv);
    if (n == 0) vp_ensures("told when there is no schedule", series == 0 && hear.told == told + 1);
    else {
        vp_ensures("time series of this pair", series == 1 && started == 1 && hear.told == told && asked == p.get() && asked_source == a.s.get() && asked_receiver == b.s.get() && asked_biverbs == bv.get());
        double least = n == 2 && dur[1] < dur[0] ? dur[1] : dur[0];
        vp_equal("half of the shortest pulse per sample, at least 0.1 s", asked_treverb, least / 2 > 0.1 ? least / 2 : 0.1);
    }
    thread_task::ref first = task;
    // a new schedule restarts the time series if there was none or when forced
    int64_t type = vp_choice("force", 2);
    transmit_list next;
    next.push_back(transmit_model::csptr(new transmit_cw("next", 4.0, 1000.0)));
    a.s->transmit_schedule(next, type ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE);
    vp_ensures("restarted", series == (n == 0 ? 0 : 1) + (n == 0 || type ? 1 : 0));
    if (series == 2) {
        first->run();
        vp_ensures("the time series in progress is cancelled by the next", task != first && cancelled);
        task->run();
        vp_ensures("the next is not", !cancelled);
    }
    told = hear.told;
    rvbts_collection::csptr rv = mark<rvbts_collection>(ts);
    p->notify_update(&rv);
    vp_ensures("time series kept", p->rvbts() == rv);
    vp_ensures("told when all is done", hear.told == told + 1 && hear.which == p.get());
}
