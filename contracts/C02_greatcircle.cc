// C02: great circle range, bearing and direct problem
// SRCS: types/wposition1.cc types/wvector1.cc types/wposition.cc types/wvector.cc
#include "vp.h"
#include <usml/types/types.h>
using namespace usml::types;
using namespace usml::ublas;
VP_CONTRACT(geo_gc) {
    double lat1 = vp_double("lat1", -80, 80), lng1 = vp_double("lng1", -180, 180), alt = vp_double("alt1", -5000, 100);
    double lat2 = vp_double("lat2", -80, 80), lng2 = vp_double("lng2", -180, 180);
    vp_requires(-90 <= lat1 && lat1 <= 90 && -90 <= lat2 && lat2 <= 90 && alt > -wposition::earth_radius);
    wposition1 a(lat1, lng1, alt), b(lat2, lng2, 0);
    double brg = 0;
    double r = a.gc_range(b, &brg);
    double R = wposition::earth_radius + alt;
    vp_equal("range without bearing", a.gc_range(b), r);
    // chord of the angle on the unit sphere
    double s = sin(0.5 * r / R);
    wvector1 u(1, a.theta(), a.phi()), v(1, b.theta(), b.phi());
    vp_equal("haversine", 4 * s * s, u.distance2(v));
    vp_le("range>=0", 0, r);
}
VP_CONTRACT(geo_bearing) {
    double lat1 = vp_double("lat1", -80, 80), lng1 = vp_double("lng1", -180, 180), alt = vp_double("alt1", -5000, 100);
    double lat2 = vp_double("lat2", -80, 80), lng2 = vp_double("lng2", -180, 180);
    vp_requires(-90 <= lat1 && lat1 <= 90 && -90 <= lat2 && lat2 <= 90 && alt > -wposition::earth_radius);
    wposition1 a(lat1, lng1, alt), b(lat2, lng2, 0);
    double brg = 0;
    double r = a.gc_range(b, &brg);
    double R = wposition::earth_radius + alt;
    double c1 = cos(to_radians(lat1)), s1 = sin(to_radians(lat1)), c2 = cos(to_radians(lat2)), s2 = sin(to_radians(lat2));
    double dl = to_radians(lng2) - to_radians(lng1);
    vp_requires(r / R > 1.001e-6 && c1 > 1e-9 && fabs(to_radians(lat1)) > 1.001e-10);
    double E = sin(dl) * c2, N = c1 * s2 - s1 * c2 * cos(dl);
    double h = sqrt(E * E + N * N);
    vp_equal("bearing east component", sin(brg) * h, E);
    vp_equal("bearing north component", cos(brg) * h, N);
    vp_le("bearing >= 0", 0, brg);
    vp_le("bearing < 2pi", brg, 2 * M_PI);
}
VP_CONTRACT(geo_direct) {
    double lat1 = vp_double("lat1", -80, 80), lng1 = vp_double("lng1", -180, 180), alt = vp_double("alt1", -5000, 100);
    double d = vp_double("range", 1000, 1e6), brg = vp_double("bearing", -3, 3);
    vp_requires(-90 < lat1 && lat1 < 90 && alt > -wposition::earth_radius);
    wposition1 a(lat1, lng1, alt), b(a, d, brg);
    double R = wposition::earth_radius + alt;
    double c1 = cos(to_radians(lat1)), s1 = sin(to_radians(lat1)), cd = cos(d / R), sd = sin(d / R);
    vp_lemma("cos(lat1)>0", c1 > 0);
    vp_equal("altitude kept", b.altitude(), alt);
    double lat2 = to_radians(b.latitude()), dl = to_radians(b.longitude()) - to_radians(lng1);
    // unit vector of the destination in the meridian frame of the start
    vp_equal("polar", sin(lat2), s1 * cd + c1 * sd * cos(brg));
    vp_equal("meridian", cos(lat2) * cos(dl), c1 * cd - s1 * sd * cos(brg));
    vp_equal("east", cos(lat2) * sin(dl), sin(brg) * sd);
}
// the start point is on the equator (known finding: the bearing is forced to north)
VP_CONTRACT(geo_bearing_equator) {
    double lng1 = vp_double("lng1", -180, 180), alt = vp_double("alt1", -5000, 100);
    double lat2 = vp_double("lat2", -80, 80), lng2 = vp_double("lng2", -180, 180);
    vp_requires(-90 <= lat2 && lat2 <= 90 && alt > -wposition::earth_radius);
    wposition1 a(0.0, lng1, alt), b(lat2, lng2, 0);
    double brg = 0;
    double r = a.gc_range(b, &brg);
    double R = wposition::earth_radius + alt;
    double c2 = cos(to_radians(lat2)), s2 = sin(to_radians(lat2));
    double dl = to_radians(lng2) - to_radians(lng1);
    vp_requires(r / R > 1.001e-6);
    double E = sin(dl) * c2, N = s2;
    double h = sqrt(E * E + N * N);
    vp_equal("equator bearing east component", sin(brg) * h, E);
    vp_equal("equator bearing north component", cos(brg) * h, N);
}
