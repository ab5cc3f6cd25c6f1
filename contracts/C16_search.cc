// C16: eigenverbs are kept by interface and searched for around a patch
// SRCS: eigenverbs/eigenverb_collection.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -I/verif/contracts/stand_in
// CONTRACT kept: bounded to three patches
// CONTRACT nearby: bounded to two patches
#include "vp.h"
#include <usml/eigenverbs/eigenverbs.h>
using namespace usml::eigenverbs;
using namespace usml::types;

static bool inside[2], closed, ring4;
static double cx[4], cy[4], px[2], py[2];
namespace boost { namespace geometry { namespace index {
bool selects(const double* r, std::size_t n, bool corrected, double x, double y, std::size_t k) {
    closed = corrected || (n == 5 && r[8] == r[0] && r[9] == r[1]);
    ring4 = n == 4 || n == 5;
    if (ring4) for (int i = 0; i < 4; ++i) { cx[i] = r[2 * i]; cy[i] = r[2 * i + 1]; }
    if (k < 2) { px[k] = x; py[k] = y; }
    return k < 2 && inside[k];
}
} } }
static eigenverb_model* patch(const char* lat, const char* lng) {
    auto* v = new eigenverb_model();
    v->position = wposition1(vp_double(lat, -80, 80), vp_double(lng, -170, 170), -100);
    return v;
}
VP_CONTRACT(kept) {
    size_t volumes = (size_t)vp_choice("volumes", 2);
    eigenverb_collection c(volumes);
    size_t n = c.num_interfaces();
    vp_ensures("two interfaces and two for each volume layer", n == 2 + 2 * volumes);
    eigenverb_model::csptr v[3] = {eigenverb_model::csptr(patch("lat0", "lng0")), eigenverb_model::csptr(patch("lat1", "lng1")), eigenverb_model::csptr(patch("lat2", "lng2"))};
    size_t at[3] = {(size_t)vp_choice("at0", 4), (size_t)vp_choice("at1", 4), (size_t)vp_choice("at2", 4)};
    vp_requires(at[0] < n && at[1] < n && at[2] < n);
    for (int k = 0; k < 3; ++k) c.add_eigenverb(v[k], at[k]);
    for (size_t i = 0; i < n; ++i) {
        auto l = c.eigenverbs(i);
        size_t want = (at[0] == i) + (at[1] == i) + (at[2] == i);
        vp_ensures("each is counted in its interface", c.size(i) == want && l.size() == want);
        for (int k = 0; k < 3; ++k) {
            size_t seen = 0;
            for (const auto& p : l) if (p == v[k]) ++seen;
            vp_ensures("each is listed in its interface", seen == (at[k] == i ? 1 : 0));
        }
    }
}
// the area is a diamond around the patch, search_scale times as long and wide
VP_CONTRACT(nearby) {
    eigenverb_collection c(0);
    eigenverb_model *a = patch("lat0", "lng0"), *b = patch("lat1", "lng1"), *o = patch("lat", "lng");
    o->length = vp_double("length", 1, 10000); o->width = vp_double("width", 1, 10000); o->direction = vp_double("direction", -7, 7);
    eigenverb_model::csptr pa(a), pb(b), po(o);
    size_t at = (size_t)vp_choice("interface", 2);
    c.add_eigenverb(pa, at); c.add_eigenverb(pb, at);
    inside[0] = vp_choice("first inside", 2); inside[1] = vp_choice("second inside", 2);
    ring4 = false;
    vp_ensures("nothing is found in another interface", c.find_eigenverbs(po, 1 - at).size() == 0);
    auto l = c.find_eigenverbs(po, at);
    vp_ensures("those inside are found", l.size() == (inside[0] ? 1 : 0) + (inside[1] ? 1 : 0) && (!inside[0] || l.front() == pa) && (!inside[1] || l.back() == pb));
    vp_ensures("four corners", ring4);
    vp_ensures("search area is a closed ring", closed);
    vp_ensures("points are longitude then latitude", px[0] == a->position.longitude() && py[0] == a->position.latitude());
    bool lat_first = px[0] == a->position.latitude();
    vp_equal("first patch latitude", lat_first ? px[0] : py[0], a->position.latitude()); vp_equal("first patch longitude", lat_first ? py[0] : px[0], a->position.longitude());
    vp_equal("second patch latitude", lat_first ? px[1] : py[1], b->position.latitude()); vp_equal("second patch longitude", lat_first ? py[1] : px[1], b->position.longitude());
    for (int i = 0; i < 4; ++i) {
        wposition1 p(o->position, 1.5 * (i % 2 ? o->width : o->length), o->direction + i * M_PI_2);
        vp_equal("corner latitude", lat_first ? cx[i] : cy[i], p.latitude());
        vp_equal("corner longitude", lat_first ? cy[i] : cx[i], p.longitude());
    }
}
