// C17: platform motion, placement of attached platforms
// SRCS: platforms/platform_model.cc types/orientation.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
// CONTRACT place: bounded chains of three platforms
// CONTRACT attach: bounded histories of up to three attached platforms
#include "vp.h"
#include <usml/platforms/platform_model.h>
using namespace usml::platforms;
using namespace usml::types;
using namespace usml::ublas;
typedef platform_model::sptr plat_t;

struct attitude { double y, p, r; orientation o() const { return orientation(y, p, r); } };
static attitude any_attitude(const char* y, const char* p, const char* r) {
    attitude a = {vp_double(y, -180, 180), vp_double(p, -89, 89), vp_double(r, -180, 180)};
    return a;
}
struct rotn {
    double m[3][3];
    rotn(const attitude& a) {
        double cy = cos(to_radians(a.y)), sy = sin(to_radians(a.y));
        double cp = cos(to_radians(a.p)), sp = sin(to_radians(a.p));
        double cr = cos(to_radians(a.r)), sr = sin(to_radians(a.r));
        double t[3][3] = {{cy * cp, -sy * cr + cy * sp * sr, -sy * sr - cy * sp * cr},
                          {sy * cp, cy * cr + sy * sp * sr, cy * sr - sy * sp * cr},
                          {sp, -cp * sr, cp * cr}};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = t[i][j];
    }
    rotn(const rotn& a, const rotn& b) {
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
    }
};
static double el(const orientation& o, int i, int j) { return j == 0 ? o.front()(i) : j == 1 ? o.right()(i) : o.up()(i); }
static void same_attitude(const char* label, const orientation& o, const rotn& r) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_equals(label, el(o, i, j), r.m[i][j], 1.0);
}
// a position by spherical coordinates
struct place_t { double rho, theta, phi; wposition1 p() const { wposition1 x; x.rho(rho); x.theta(theta); x.phi(phi); return x; } };
static place_t any_place() {
    place_t p = {vp_double("rho", 6.3e6, 6.4e6), vp_double("theta", 0.2, 2.9), vp_double("phi", -3, 3)};
    vp_requires(p.rho > 0 && p.rho * sin(p.theta) > 0);
    return p;
}
static void same_place(const char* label, const wposition1& p, const place_t& s) {
    vp_equal(label, p.rho(), s.rho); vp_equal(label, p.theta(), s.theta); vp_equal(label, p.phi(), s.phi);
}
// the point displaced by north, east, up metres
static place_t moved(const place_t& p, double n, double e, double u) { place_t q = {p.rho + u, p.theta - n / p.rho, p.phi + e / (p.rho * sin(p.theta))}; return q; }
static platform_model::update_type_enum any_type() { return (platform_model::update_type_enum)vp_choice("type", 3); }

VP_CONTRACT(stored) {
    attitude a = any_attitude("yaw", "pitch", "roll");
    place_t p = any_place();
    time_t t = (time_t)vp_int("time", 0, 2000000000), t2 = (time_t)vp_int("time2", 0, 2000000000);
    double v = vp_double("speed", 0, 20), v2 = vp_double("speed2", 0, 20);
    platform_model m((uint64_t)7, "ship", t, p.p(), a.o(), v);
    vp_ensures("key", m.keyID() == 7 && m.description() == "ship");
    vp_ensures("not attached", m.host() == nullptr && m.children().empty());
    vp_ensures("time given", m.time() == t);
    same_place("position given", m.position(), p);
    same_attitude("orientation given", m.orient(), rotn(a));
    vp_equal("speed given", m.speed(), v);
    vp_ensures("is a target", m.is_acoustic_target());
    m.is_acoustic_target(false);
    vp_ensures("is not a target", !m.is_acoustic_target());
    attitude a2 = any_attitude("yaw2", "pitch2", "roll2");
    place_t p2 = {vp_double("rho2", 6.3e6, 6.4e6), vp_double("theta2", 0.2, 2.9), vp_double("phi2", -3, 3)};
    m.update(t2, p2.p(), a2.o(), v2, any_type());
    vp_ensures("time updated", m.time() == t2);
    same_place("position updated", m.position(), p2);
    same_attitude("orientation updated", m.orient(), rotn(a2));
    vp_equal("speed updated", m.speed(), v2);
    time_t tt = 0; wposition1 pp; orientation oo; double vv = 0;
    m.get_motion(&tt, &pp, &oo, &vv);
    vp_ensures("time of motion", tt == t2);
    same_place("position of motion", pp, p2);
    same_attitude("orientation of motion", oo, rotn(a2));
    vp_equal("speed of motion", vv, v2);
    m.get_motion();
    m.get_motion(nullptr, &pp);
    same_place("position only", pp, p2);
}
VP_CONTRACT(dead_reckon) {
    attitude a = any_attitude("yaw", "pitch", "roll");
    place_t p = any_place();
    time_t t = (time_t)vp_int("time", 0, 2000000000);
    int64_t dt = vp_int("dt", -1000000, 1000000);
    double v = vp_double("speed", 0, 20);
    platform_model m((uint64_t)7, "ship", t, p.p(), a.o(), v);
    m.update(t + dt, any_type());
    rotn r(a);
    double d = v * (double)dt;
    same_place("moved along its heading", m.position(), moved(p, r.m[0][0] * d, r.m[1][0] * d, r.m[2][0] * d));
    vp_ensures("time", m.time() == t + dt);
    same_attitude("orientation kept", m.orient(), r);
    vp_equal("speed kept", m.speed(), v);
}
static const char* nm(int i, const char* a, const char* b) { return i == 0 ? a : b; }
// host, attached platform and a platform attached to that one
VP_CONTRACT(place) {
    attitude a = any_attitude("yaw", "pitch", "roll"), b = any_attitude("child yaw", "child pitch", "child roll"), c = any_attitude("sub yaw", "sub pitch", "sub roll");
    place_t p = any_place();
    double f[2], r[2], u[2];
    for (int i = 0; i < 2; ++i) {
        f[i] = vp_double(nm(i, "front", "sub front"), -500, 500);
        r[i] = vp_double(nm(i, "right", "sub right"), -500, 500);
        u[i] = vp_double(nm(i, "up", "sub up"), -500, 500);
    }
    plat_t host(new platform_model((uint64_t)1, "host")), child(new platform_model((uint64_t)2, "child")), sub(new platform_model((uint64_t)3, "sub"));
    int64_t order = vp_choice("order", 3);  // attach before or after the move
    time_t t = (time_t)vp_int("time", 0, 2000000000);
    double v = vp_double("speed", 0, 20);
    if (order == 1) host->update(t, p.p(), a.o(), v);
    if (order != 2) child->add_child(sub, bvector(f[1], r[1], u[1]), c.o());
    vp_ensures("key", host->add_child(child, bvector(f[0], r[0], u[0]), b.o()) == 2);
    if (order == 2) child->add_child(sub, bvector(f[1], r[1], u[1]), c.o());
    if (order != 1) host->update(t, p.p(), a.o(), v);
    vp_ensures("hosts", child->host() == host.get() && sub->host() == child.get() && host->host() == nullptr);
    same_place("host", host->position(), p);
    same_attitude("host attitude", host->orient(), rotn(a));
    rotn R(a), Q(R, rotn(b)), S(Q, rotn(c));
    place_t q = moved(p, R.m[0][0] * f[0] + R.m[0][1] * r[0] + R.m[0][2] * u[0], R.m[1][0] * f[0] + R.m[1][1] * r[0] + R.m[1][2] * u[0],
                      R.m[2][0] * f[0] + R.m[2][1] * r[0] + R.m[2][2] * u[0]);
    same_place("attached at its offset", child->position(), q);
    same_attitude("composed attitude", child->orient(), Q);
    vp_equal("speed of host", child->speed(), v);
    vp_ensures("time of host", child->time() == t);
    place_t s = moved(q, Q.m[0][0] * f[1] + Q.m[0][1] * r[1] + Q.m[0][2] * u[1], Q.m[1][0] * f[1] + Q.m[1][1] * r[1] + Q.m[1][2] * u[1],
                      Q.m[2][0] * f[1] + Q.m[2][1] * r[1] + Q.m[2][2] * u[1]);
    same_place("attached to the attached", sub->position(), s);
    same_attitude("attitude composed twice", sub->orient(), S);
    vp_equal("speed of host's host", sub->speed(), v);
    vp_ensures("time of host's host", sub->time() == t);
}
VP_CONTRACT(attach) {
    plat_t host(new platform_model((uint64_t)9, "host")), kid[3];
    for (uint64_t i = 0; i < 3; ++i) kid[i] = plat_t(new platform_model(i + 1, "kid"));
    bool on[3] = {false, false, false};
    for (int k = 0; k < 3; ++k) {
        size_t i = (size_t)vp_choice(nm(k, "a", k == 1 ? "b" : "c"), 3);
        if (vp_choice(nm(k, "add a", k == 1 ? "add b" : "add c"), 2)) {
            bool thrown = false;
            try { host->add_child(kid[i], bvector(1, 2, 3)); } catch (...) { thrown = true; }
            vp_ensures("added unless attached already", thrown == on[i]);
            on[i] = true;
        } else {
            vp_ensures("removed if attached", host->remove_child(i + 1) == on[i]);
            on[i] = false;
        }
    }
    std::list<plat_t> l = host->children();
    size_t n = 0;
    for (int i = 0; i < 3; ++i) {
        size_t found = 0;
        for (const auto& c : l) if (c == kid[i]) ++found;
        vp_ensures("attached once, until removed", found == (on[i] ? 1u : 0u));
        vp_ensures("knows its host", kid[i]->host() == (on[i] ? host.get() : nullptr));
        n += found;
    }
    vp_ensures("no others", l.size() == n);
    place_t p = any_place();
    host->update(5, p.p(), orientation(), 3.0);
    for (int i = 0; i < 3; ++i) vp_ensures("follows while attached", on[i] == (kid[i]->time() == 5));
}
