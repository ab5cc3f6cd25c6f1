// C03: orientation (yaw, pitch, roll <-> rotation matrix, composition)
// SRCS: types/orientation.cc
#include "vp.h"
#include <usml/types/orientation.h>
using namespace usml::types;
using namespace usml::ublas;

static double rot(const orientation& o, int i, int j) { return j == 0 ? o.front()(i) : j == 1 ? o.right()(i) : o.up()(i); }
struct angles { double y, p, r; };
static angles any_angles(const char* y, const char* p, const char* r) {
    angles a = {vp_double(y, -180, 180), vp_double(p, -89, 89), vp_double(r, -180, 180)};
    return a;
}
// columns of R = Rz(yaw) Ry(pitch) Rx(roll) in north-east-up axes
static double spec(const angles& a, int i, int j) {
    double cy = cos(to_radians(a.y)), sy = sin(to_radians(a.y));
    double cp = cos(to_radians(a.p)), sp = sin(to_radians(a.p));
    double cr = cos(to_radians(a.r)), sr = sin(to_radians(a.r));
    double m[3][3] = {{cy * cp, -sy * cr + cy * sp * sr, -sy * sr - cy * sp * cr},
                      {sy * cp, cy * cr + sy * sp * sr, cy * sr - sy * sp * cr},
                      {sp, -cp * sr, cp * cr}};
    return m[i][j];
}
VP_CONTRACT(orient_matrix) {
    angles a = any_angles("yaw", "pitch", "roll");
    orientation o(a.y, a.p, a.r);
    matrix<double> R = o.rotation();
    vp_ensures("3x3", R.size1() == 3 && R.size2() == 3);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            vp_equal("rotation matrix", R(i, j), spec(a, i, j));
            vp_equal("axis columns", rot(o, i, j), R(i, j));
            double d = 0, e = 0;
            for (int k = 0; k < 3; ++k) { d += R(k, i) * R(k, j); e += R(i, k) * R(j, k); }
            vp_equal("orthonormal columns", d, i == j ? 1.0 : 0.0);
            vp_equal("orthonormal rows", e, i == j ? 1.0 : 0.0);
        }
    double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) +
                 R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
    vp_equal("proper rotation", det, 1.0);
    vp_equal("yaw given", o.yaw(), a.y);
    vp_equal("pitch given", o.pitch(), a.p);
    vp_equal("roll given", o.roll(), a.r);
    orientation level;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) vp_equal("default is level and north", rot(level, i, j), i == j ? 1.0 : 0.0);
}
VP_CONTRACT(orient_angles) {
    // the angles are recovered from the matrix
    angles a = any_angles("yaw", "pitch", "roll");
    vp_requires(-180 < a.y && a.y < 180 && -90 < a.p && a.p < 90 && -180 < a.r && a.r < 180);
    orientation o(a.y, a.p, a.r);
    orientation q(o.rotation()), c(o), d;
    d = o;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            vp_equal("from matrix", rot(q, i, j), rot(o, i, j));
            vp_equal("copy", rot(c, i, j), rot(o, i, j));
            vp_equal("assigned", rot(d, i, j), rot(o, i, j));
        }
    vp_lemma("cos(pitch) > 0", cos(to_radians(a.p)) > 0);
    double y = to_radians(q.yaw()), p = to_radians(q.pitch()), r = to_radians(q.roll());
    vp_equal("cos yaw", cos(y), cos(to_radians(a.y)));
    vp_equal("sin yaw", sin(y), sin(to_radians(a.y)));
    vp_equal("sin pitch", sin(p), sin(to_radians(a.p)));
    vp_equal("cos pitch", cos(p), cos(to_radians(a.p)));
    vp_equal("cos roll", cos(r), cos(to_radians(a.r)));
    vp_equal("sin roll", sin(r), sin(to_radians(a.r)));
    vp_le("pitch at most 90", q.pitch(), 90);
    vp_le("pitch at least -90", -90, q.pitch());
    vp_le("yaw at most 180", q.yaw(), 180);
    vp_le("yaw at least -180", -180, q.yaw());
    vp_equal("copy yaw", c.yaw(), q.yaw());
    vp_equal("copy pitch", c.pitch(), q.pitch());
    vp_equal("copy roll", c.roll(), q.roll());
}
VP_CONTRACT(orient_setters) {
    angles a = any_angles("yaw", "pitch", "roll");
    orientation o(1, 2, 3);
    o.update_orientation(a.y, a.p, a.r);
    angles b = a;
    switch (vp_choice("which", 3)) {
        case 0: b.y = vp_double("new", -180, 180); o.yaw(b.y); break;
        case 1: b.p = vp_double("new", -90, 90); o.pitch(b.p); break;
        default: b.r = vp_double("new", -180, 180); o.roll(b.r); break;
    }
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) vp_equal("one angle changed", rot(o, i, j), spec(b, i, j));
    vp_equal("yaw", o.yaw(), b.y);
    vp_equal("pitch", o.pitch(), b.p);
    vp_equal("roll", o.roll(), b.r);
}
VP_CONTRACT(orient_setters_copy) {
    // the same on an orientation that only knows its matrix
    angles a = any_angles("yaw", "pitch", "roll");
    vp_requires(-180 < a.y && a.y < 180 && -90 < a.p && a.p < 90 && -180 < a.r && a.r < 180);
    vp_lemma("cos(pitch) > 0", cos(to_radians(a.p)) > 0);
    orientation o(a.y, a.p, a.r), c(o);
    angles b = a;
    switch (vp_choice("which", 3)) {
        case 0: b.y = vp_double("new", -180, 180); c.yaw(b.y); break;
        case 1: b.p = vp_double("new", -90, 90); c.pitch(b.p); break;
        default: b.r = vp_double("new", -180, 180); c.roll(b.r); break;
    }
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) vp_equal("one angle changed", rot(c, i, j), spec(b, i, j));
}
VP_CONTRACT(orient_compose) {
    // composition is the matrix product parent*child, also when it overwrites an operand
    angles a = any_angles("yaw", "pitch", "roll"), b = any_angles("yaw2", "pitch2", "roll2");
    orientation p(a.y, a.p, a.r), c(b.y, b.p, b.r), o;
    o.rotate(p, c);
    double w[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            w[i][j] = 0;
            for (int k = 0; k < 3; ++k) w[i][j] += spec(a, i, k) * spec(b, k, j);
            vp_equal("product", rot(o, i, j), w[i][j]);
        }
    vp_equal("yaw of the product", sin(to_radians(o.yaw())) * sqrt(w[1][0] * w[1][0] + w[0][0] * w[0][0]), w[1][0]);
    orientation c2(b.y, b.p, b.r), p2(a.y, a.p, a.r);
    c2.rotate(p, c2);
    p2.rotate(p2, c);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            vp_equal("in place on the child", rot(c2, i, j), w[i][j]);
            vp_equal("in place on the parent", rot(p2, i, j), w[i][j]);
        }
}
VP_CONTRACT(orient_vectors) {
    // parent coordinates -> child coordinates is the transpose; applied to each column
    angles a = any_angles("yaw", "pitch", "roll");
    orientation o(a.y, a.p, a.r);
    double v[6];
    vp_doubles("v", v, 6, -10, 10);
    matrix<double> m(3, 2);
    for (int i = 0; i < 3; ++i)
        for (int n = 0; n < 2; ++n) m(i, n) = v[2 * i + n];
    o.rotate_vector(m);
    for (int n = 0; n < 2; ++n) {
        double l2 = 0, k2 = 0;
        for (int i = 0; i < 3; ++i) {
            double w = 0;
            for (int k = 0; k < 3; ++k) w += spec(a, k, i) * v[2 * k + n];
            vp_equal("component along child axis", m(i, n), w);
            l2 += m(i, n) * m(i, n);
            k2 += v[2 * i + n] * v[2 * i + n];
        }
        vp_equal("length kept", l2, k2);
    }
}
