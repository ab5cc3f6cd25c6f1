// C16: bistatic eigenverbs, overlap of source and receiver patches
// SRCS: biverbs/biverb_collection.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vp.h"
#include <usml/biverbs/biverbs.h>
#include <usml/eigenverbs/eigenverbs.h>
using namespace usml::biverbs;
using namespace usml::eigenverbs;
using namespace usml::types;
using namespace usml::ublas;

static const char* nm(int i, const char* a, const char* b) { return i == 0 ? a : b; }
static eigenverb_model* verb(int i, size_t n, const seq_vector::csptr& f, double lat, double lng) {
    auto* v = new eigenverb_model();
    v->travel_time = vp_double(nm(i, "src time", "rcv time"), 0, 90);
    v->frequencies = f;
    v->power = vector<double>(n);
    vp_doubles(nm(i, "src power", "rcv power"), &v->power[0], n, 1e-6, 1);
    v->length = vp_double(nm(i, "src length", "rcv length"), 1, 10000);
    v->width = vp_double(nm(i, "src width", "rcv width"), 1, 10000);
    vp_requires(v->length > 0 && v->width > 0);
    v->position = wposition1(lat, lng, vp_double(nm(i, "src alt", "rcv alt"), -5000, 0));
    v->grazing = vp_double(nm(i, "src grazing", "rcv grazing"), 0, 1.5);
    v->sound_speed = vp_double(nm(i, "src speed", "rcv speed"), 1400, 1600);
    vp_requires(v->sound_speed > 0);
    v->de_index = (size_t)vp_int(nm(i, "src de#", "rcv de#"), 0, 200);
    v->az_index = (size_t)vp_int(nm(i, "src az#", "rcv az#"), 0, 400);
    v->source_de = vp_double(nm(i, "src de", "rcv de"), -1.5, 1.5);
    v->source_az = vp_double(nm(i, "src az", "rcv az"), -3, 7);
    v->surface = (int)vp_int(nm(i, "src surface", "rcv surface"), 0, 99);
    v->bottom = (int)vp_int(nm(i, "src bottom", "rcv bottom"), 0, 99);
    v->caustic = (int)vp_int(nm(i, "src caustic", "rcv caustic"), 0, 99);
    v->upper = (int)vp_int(nm(i, "src upper", "rcv upper"), 0, 99);
    v->lower = (int)vp_int(nm(i, "src lower", "rcv lower"), 0, 99);
    return v;
}
// two patches are Gaussians in the plane with axes along their directions: the
// overlap is exp(-d M^-1 d / 2) / sqrt(det M), with M the sum of the covariances
VP_CONTRACT(overlap) {
    size_t n = (size_t)vp_int("frequencies", 1, 40);
    seq_vector::csptr f(new seq_linear(100.0, 10.0, n));
    auto* s = verb(0, n, f, vp_double("slat", -80, 80), vp_double("slng", -170, 170));
    auto* r = verb(1, n, f, vp_double("rlat", -80, 80), vp_double("rlng", -170, 170));
    r->direction = vp_double("rcv direction", -7, 7);
    double alpha = vp_double("tilt", -7, 7);
    s->direction = r->direction + alpha;
    eigenverb_model::csptr sp(s), rp(r);
    vector<double> scatter(n);
    vp_doubles("scatter", &scatter[0], n, 1e-6, 1);
    double bearing, range = r->position.gc_range(s->position, &bearing);
    if (range < 1e-6) bearing = 0;
    bearing -= r->direction;
    double y = range * cos(bearing), x = range * sin(bearing);  // along the length and the width of the receiver patch
    double c = cos(2 * alpha), t = sin(2 * alpha);
    double ls = s->length * s->length, ws = s->width * s->width, lr = r->length * r->length, wr = r->width * r->width;
    double syy = 0.5 * (ls * (1 + c) + ws * (1 - c)), sxx = 0.5 * (ls * (1 - c) + ws * (1 + c)), sxy = 0.5 * (ls - ws) * t;
    vp_fact("Pythagoras", c * c + t * t == 1);
    double myy = lr + syy, mxx = wr + sxx, mxy = sxy, det = ls * ws + lr * wr + lr * sxx + wr * syy;
    vp_equal("determinant of the sum", mxx * myy - mxy * mxy, det);
    double kappa = -0.5 * (x * x * myy + y * y * mxx - 2 * x * y * mxy) / det, overlap = exp(kappa) / sqrt(det);
    // variance along the length of the receiver of the product of both Gaussians
    double axx = 1 / wr + 0.5 * ((1 + c) / ws + (1 - c) / ls), var = axx / (det / (ls * ws * lr * wr));
    int64_t interface = vp_choice("interface", 4);
    biverb_collection b(1);
    vp_ensures("two interfaces and two for each volume layer", b.num_interfaces() == 4);
    b.add_biverb(sp, rp, scatter, (size_t)interface);
    vector<double> p(n);
    for (size_t k = 0; k < n; ++k) p[k] = 0.125 * s->power[k] * r->power[k] * scatter[k] * overlap;
    bool keep = norm_inf(p) >= biverb_collection::power_threshold;
    for (size_t i = 0; i < 4; ++i) vp_ensures("stored in its own interface, when strong enough", b.size(i) == (keep && i == (size_t)interface ? 1 : 0));
    if (!keep) return;
    auto list = b.biverbs((size_t)interface);
    vp_ensures("listed once", list.size() == 1);
    const biverb_model& v = *list.front();
    vp_equal("two way travel time", v.travel_time, s->travel_time + r->travel_time);
    vp_ensures("frequencies", v.frequencies.get() == f.get() && v.power.size() == n);
    size_t k = vp_index("frequency", n);
    vp_equal("power", v.power[k], p[k]);
    vp_equal("duration of the overlap", v.duration, 0.5 * cos(r->grazing) / r->sound_speed * sqrt(var));
    vp_ensures("receiver ray", v.de_index == r->de_index && v.az_index == r->az_index);
    vp_equal("source de", v.source_de, s->source_de);
    vp_equal("source az", v.source_az, s->source_az);
    vp_equal("receiver de", v.receiver_de, r->source_de);
    vp_equal("receiver az", v.receiver_az, r->source_az);
    vp_ensures("source history", v.source_surface == s->surface && v.source_bottom == s->bottom && v.source_caustic == s->caustic && v.source_upper == s->upper && v.source_lower == s->lower);
    vp_ensures("receiver history", v.receiver_surface == r->surface && v.receiver_bottom == r->bottom && v.receiver_caustic == r->caustic && v.receiver_upper == r->upper && v.receiver_lower == r->lower);
}
