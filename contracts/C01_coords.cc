// C01: earth coordinates, distances and directions
// SRCS: types/wposition1.cc types/wvector1.cc types/wposition.cc types/wvector.cc
#include "vp.h"
#include <usml/types/types.h>
using namespace usml::types;
using namespace usml::ublas;
static wvector1 anyv(const char* r, const char* t, const char* p) {
    return wvector1(vp_double(r, 1, 100), vp_double(t, 0.1, 3), vp_double(p, -3, 3));
}
static double X(const wvector1& v) { return v.rho() * sin(v.theta()) * cos(v.phi()); }
static double Y(const wvector1& v) { return v.rho() * sin(v.theta()) * sin(v.phi()); }
static double Z(const wvector1& v) { return v.rho() * cos(v.theta()); }

VP_CONTRACT(geo_scalar) {
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    double lat = vp_double("lat", -89, 89), lng = vp_double("lng", -360, 360), alt = vp_double("alt", -5000, 1000);
    wposition1 p(lat, lng, alt);
    vp_equal("rho", p.rho(), wposition::earth_radius + alt);
    vp_equal("theta", p.theta(), (90.0 - lat) * M_PI / 180.0);
    vp_equal("phi", p.phi(), lng * M_PI / 180.0);
    vp_equal("lat round trip", p.latitude(), lat);
    vp_equal("lng round trip", p.longitude(), lng);
    vp_equal("alt round trip", p.altitude(), alt);
}
VP_CONTRACT(geo_dot) {
    wvector1 a = anyv("r1", "t1", "p1"), b = anyv("r2", "t2", "p2");
    double cart = X(a) * X(b) + Y(a) * Y(b) + Z(a) * Z(b);
    vp_equal("dot is Cartesian", a.dot(b), cart);
    vp_equal("dot symmetric", a.dot(b), b.dot(a));
    vp_equal("dotnorm", a.dotnorm(b) * a.rho() * b.rho(), cart);
    double dx = X(a) - X(b), dy = Y(a) - Y(b), dz = Z(a) - Z(b);
    dx = vp_let(dx); dy = vp_let(dy); dz = vp_let(dz);
    vp_lemma("chord >= 0", dx * dx + dy * dy + dz * dz >= 0);
    vp_equal("distance2 is chord^2", a.distance2(b), dx * dx + dy * dy + dz * dz);
    vp_equal("distance", a.distance(b), sqrt(dx * dx + dy * dy + dz * dz));
    vp_equal("distance symmetric", a.distance(b), b.distance(a));
    vp_equal("distance to self", a.distance(a), 0.0);
    vp_le("distance non negative", 0, a.distance(b));
}

VP_CONTRACT(geo_setters) {
    // every coordinate is stored independently of the others
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    double lat = vp_double("lat", -89, 89), lng = vp_double("lng", -360, 360), alt = vp_double("alt", -5000, 1000);
    wposition1 p(1, 2, 3);
    switch (vp_choice("order", 3)) {
        case 0: p.latitude(lat); p.longitude(lng); p.altitude(alt); break;
        case 1: p.altitude(alt); p.latitude(lat); p.longitude(lng); break;
        default: p.longitude(lng); p.altitude(alt); p.latitude(lat); break;
    }
    vp_equal("latitude", p.latitude(), lat);
    vp_equal("longitude", p.longitude(), lng);
    vp_equal("altitude", p.altitude(), alt);
    wposition1 q(p);
    wvector1 v(p);
    wposition1 r(v);
    vp_equal("copy rho", q.rho(), p.rho());
    vp_equal("copy theta", q.theta(), p.theta());
    vp_equal("copy phi", q.phi(), p.phi());
    vp_equal("from vector lat", r.latitude(), lat);
    vp_equal("from vector lng", r.longitude(), lng);
    vp_equal("from vector alt", r.altitude(), alt);
    p.clear();
    vp_equal("clear", fabs(p.rho()) + fabs(p.theta()) + fabs(p.phi()), 0);
}
VP_CONTRACT(geo_earth_radius) {
    // radius of curvature in the WGS84 ellipsoid
    double lat = vp_double("lat", -90, 90);
    wposition::compute_earth_radius(lat);
    double a = 6378137.0, f = 1.0 / 298.257223563, s = sin(to_radians(lat));
    double e2 = f * (2.0 - f), w2 = 1.0 - e2 * s * s;
    vp_lemma("w2>0", w2 > 0.9);
    // geometric mean of the meridional and prime vertical radii: R = a sqrt(1-e2)/(1-e2 sin^2)
    double R = wposition::earth_radius;
    vp_ensures("positive", R > 0);
    double w = sqrt(w2), w4 = w2 * w2;
    vp_lemma("w2 = w^2", w * w == w2);
    vp_near("gaussian radius", R * R * w4, a * a * (1 - e2), 1000.0);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(geo_grid) {
    // matrix of positions: same conversions and metrics as single points, for an arbitrary element of
    // a matrix of one or two rows and any number of columns
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    size_t rows = 1 + (size_t)vp_choice("rows", 2), i = (size_t)vp_choice("i", 2);
    vp_requires(i < rows);
    size_t cols = (size_t)vp_int("cols", 1, 1000000), j = vp_index("j", cols);
    wposition g(rows, cols);
    vp_ensures("shape", g.size1() == rows && g.size2() == cols);
    matrix<double> mlat(rows, cols), mlng(rows, cols), malt(rows, cols);
    vp_doubles("mlat", &mlat(0, 0), rows * cols, -89, 89);
    vp_doubles("mlng", &mlng(0, 0), rows * cols, -180, 180);
    vp_doubles("malt", &malt(0, 0), rows * cols, -5000, 1000);
    double lat = vp_double("lat", -89, 89), lng = vp_double("lng", -180, 180), alt = vp_double("alt", -5000, 1000);
    bool whole = vp_choice("whole", 2) == 1;
    if (whole) { mlat(i, j) = lat; mlng(i, j) = lng; malt(i, j) = alt; }
    g.latitude(mlat); g.longitude(mlng); g.altitude(malt);
    if (!whole) { g.latitude(i, j, lat); g.longitude(i, j, lng); g.altitude(i, j, alt); }
    wposition1 o(vp_double("olat", -89, 89), vp_double("olng", -180, 180), vp_double("oalt", -5000, 1000));
    matrix<double> alat = g.latitude(), alng = g.longitude(), aalt = g.altitude();
    matrix<double> dt(rows, cols), dn(rows, cols), ds(rows, cols), d2(rows, cols);
    g.dot(o, dt);
    g.dotnorm(o, dn);
    g.distance(o, ds);
    g.distance2(o, d2);
    wposition1 p(lat, lng, alt), e(g, i, j);
    wvector1 w(g, i, j);
    vp_equal("rho", g.rho(i, j), p.rho());
    vp_equal("theta", g.theta(i, j), p.theta());
    vp_equal("phi", g.phi(i, j), p.phi());
    vp_equal("latitude", g.latitude(i, j), lat);
    vp_equal("longitude", g.longitude(i, j), lng);
    vp_equals("altitude", g.altitude(i, j), alt, 1);
    vp_equal("latitude matrix", alat(i, j), lat);
    vp_equal("longitude matrix", alng(i, j), lng);
    vp_equals("altitude matrix", aalt(i, j), alt, 1);
    vp_equal("element rho", e.rho(), p.rho());
    vp_equal("element theta", e.theta(), p.theta());
    vp_equal("element phi", e.phi(), p.phi());
    vp_equal("vector element", w.rho() + w.theta() + w.phi(), p.rho() + p.theta() + p.phi());
    vp_equal("dot", dt(i, j), p.dot(o));
    vp_equal("dotnorm", dn(i, j), p.dotnorm(o));
    vp_equals("distance2", d2(i, j), p.distance2(o), 1e5);
    vp_equals("distance", ds(i, j), p.distance(o), 1e5);
    wposition one(o);
    vp_ensures("single point shape", one.size1() == 1 && one.size2() == 1);
    vp_equal("single point", one.rho(0, 0) + one.theta(0, 0) + one.phi(0, 0), o.rho() + o.theta() + o.phi());
}
VP_CONTRACT(geo_grid_fill) {
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    double lat = vp_double("lat", -89, 89), lng = vp_double("lng", -180, 180), alt = vp_double("alt", -5000, 1000);
    size_t rows = 1 + (size_t)vp_choice("rows", 2), i = (size_t)vp_choice("i", 2);
    vp_requires(i < rows);
    size_t cols = (size_t)vp_int("cols", 1, 1000000), j = vp_index("j", cols);
    wposition g(rows, cols, lat, lng, alt);
    vp_ensures("shape", g.size1() == rows && g.size2() == cols);
    vp_equal("latitude", g.latitude(i, j), lat);
    vp_equal("longitude", g.longitude(i, j), lng);
    vp_equals("altitude", g.altitude(i, j), alt, 1);
}
VP_CONTRACT(dir_angles) {
    // depression/elevation and azimuth of a ray direction (up, south, east)
    double up = vp_double("up", -1, 1), south = vp_double("south", -1, 1), east = vp_double("east", -1, 1);
    vp_requires(up * up + south * south + east * east > 1e-6);
    wvector1 d(up, south, east);
    double de, az;
    d.direction(&de, &az);
    double h = sqrt(south * south + east * east), l = sqrt(up * up + south * south + east * east);
    vp_equal("elevation", l * sin(to_radians(de)), up);
    vp_equal("horizontal", l * cos(to_radians(de)), h);
    vp_equal("north", h * cos(to_radians(az)), -south);
    vp_equal("east", h * sin(to_radians(az)), east);
}
VP_CONTRACT(dir_between) {
    // direction from one point to another in the local up/south/east frame
    wvector1 pos = anyv("r1", "t1", "p1"), dst = anyv("r2", "t2", "p2"), d;
    double dx = X(dst) - X(pos), dy = Y(dst) - Y(pos), dz = Z(dst) - Z(pos);
    vp_requires(dx * dx + dy * dy + dz * dz > 1e-3);
    double st = sin(pos.theta()), ct = cos(pos.theta()), sp = sin(pos.phi()), cp = cos(pos.phi());
    double len = d.direction(pos, dst);
    vp_equals("length squared", len * len, dx * dx + dy * dy + dz * dz, 1);
    vp_equals("up", d.rho() * len, st * cp * dx + st * sp * dy + ct * dz, 1);
    vp_equals("south", d.theta() * len, ct * cp * dx + ct * sp * dy - st * dz, 1);
    vp_equals("east", d.phi() * len, -sp * dx + cp * dy, 1);
}
VP_CONTRACT(dir_geocentric) {
    // local up/south/east direction -> geocentric direction angles
    wvector1 pos = anyv("r1", "t1", "p1"), d(vp_double("up", -1, 1), vp_double("south", -1, 1), vp_double("east", -1, 1)), g;
    double st = sin(pos.theta()), ct = cos(pos.theta()), sp = sin(pos.phi()), cp = cos(pos.phi());
    double l = sqrt(d.rho() * d.rho() + d.theta() * d.theta() + d.phi() * d.phi());
    vp_requires(l > 1e-3);
    d.direction(pos, &g);
    vp_equal("unit", g.rho(), 1);
    double x = st * cp * d.rho() + ct * cp * d.theta() - sp * d.phi();
    double y = st * sp * d.rho() + ct * sp * d.theta() + cp * d.phi();
    double z = ct * d.rho() - st * d.theta();
    vp_equals("x", l * sin(g.theta()) * cos(g.phi()), x, 1);
    vp_equals("y", l * sin(g.theta()) * sin(g.phi()), y, 1);
    vp_equals("z", l * cos(g.theta()), z, 1);
}
VP_CONTRACT(tri_area) {
    // Heron: 16 A^2 from the side lengths
    wvector1 a = anyv("r1", "t1", "p1"), b = anyv("r2", "t2", "p2"), c = anyv("r3", "t3", "p3"), e = anyv("r4", "t4", "p4");
    double ab = vp_let(a.distance(b)), ac = vp_let(a.distance(c)), bc = vp_let(b.distance(c));
    double ae = vp_let(a.distance(e)), ce = vp_let(e.distance(c));
    double t1 = (ab + ac + bc) * (ab + ac - bc) * (ab - ac + bc) * (-ab + ac + bc);
    double t2 = (ae + ac + ce) * (ae + ac - ce) * (ae - ac + ce) * (-ae + ac + ce);
    vp_requires(t1 > 1e-3 && t2 > 1e-3);
    vp_equal("triangle", a.area(b, c), 0.25 * sqrt(t1));
    vp_equal("quadrilateral", a.area(b, c, e), 0.25 * sqrt(t1) + 0.25 * sqrt(t2));
}
