// C13: beam patterns follow their array formulas
// SRCS: beampatterns/bp_omni.cc beampatterns/bp_cardioid.cc beampatterns/bp_trig.cc beampatterns/bp_line.cc beampatterns/bp_planar.cc beampatterns/bp_piston.cc beampatterns/bp_solid.cc beampatterns/bp_gaussian.cc beampatterns/bp_multi.cc beampatterns/bp_arb.cc beampatterns/bp_grid.cc beampatterns/bp_model.cc beampatterns/beampattern_utilities.cc types/orientation.cc types/seq_vector.cc types/seq_data.cc
// CONTRACT line_directivity: bounded arrays of 1 to 4 elements
// CONTRACT arb_formula: bounded arrays of 1 to 3 elements, any weights and places
// CONTRACT arb_peak: bounded arrays of 1 to 3 elements, any weights and places
// CONTRACT multi: bounded lists of 0 to 3 patterns, any patterns
// CONTRACT uniform_layout: bounded layouts of up to 3 by 2 by 2 elements
// CONTRACT ring_layout: bounded layouts of up to two rings of 1 to 3 elements
#include "vp.h"
#include <usml/beampatterns/beampatterns.h>
#include <usml/types/types.h>
using namespace usml::beampatterns;
using namespace usml::types;
using namespace usml::ublas;

// any number of frequencies; f[k] is an arbitrary element
struct freqs {
    size_t n, k;
    double first, inc;
    seq_vector::csptr f;
    freqs() : n((size_t)vp_int("nf", 1, 100000)), k(vp_index("kf", n)), first(vp_double("first", 10, 5000)), inc(vp_double("inc", 1, 1000)), f(new seq_linear(first, inc, n)) {
        vp_requires(first > 0 && inc > 0);
    }
    double value() const { return first + inc * (double)k; }
    // output that already holds something
    vector<double> out() const { return vector<double>(n, vp_double("before", 1, 9)); }
};
struct dir {
    double f, r, u;
    static dir any(const char* a, const char* b, const char* c) { return dir{vp_double(a, -1, 1), vp_double(b, -1, 1), vp_double(c, -1, 1)}; }
    // a unit vector
    static dir unit(const char* a, const char* b) {
        double de = vp_double(a, -1.5, 1.5), az = vp_double(b, -3, 3);
        return dir{cos(de) * cos(az), cos(de) * sin(az), sin(de)};
    }
    bvector v() const { return bvector(f, r, u); }
};
static double speed() { double c = vp_double("c", 1400, 1600); vp_requires(c > 0); return c; }
// response of a line of N elements: squared ratio of sines of the phase between neighbours (tiny offset allows zero phase)
static void ratio(const char* label, double level, double N, double phase, double scale) {
    double a = sin(N * phase) + 1e-200, b = N * sin(phase) + 1e-200;
    vp_requires(b > 1e-250 || b < -1e-250);
    vp_equal(label, level, a / b * (a / b) * scale);
}
VP_CONTRACT(omni) {
    freqs q;
    vector<double> l = q.out(), d = q.out();
    bp_omni().beam_level(dir::any("f", "r", "u").v(), q.f, &l, dir::any("sf", "sr", "su").v(), speed());
    bp_omni().directivity(q.f, &d);
    vp_ensures("one level per frequency", l.size() == q.n && d.size() == q.n);
    vp_equal("omni is one everywhere", l(q.k), 1);
    vp_equal("omni directivity", d(q.k), 1);
}
VP_CONTRACT(cardioid) {
    freqs q;
    vector<double> l = q.out(), d = q.out(), m = q.out();
    double n = vp_double("factor", 0, 3);
    vp_requires(n >= 0);
    dir a = dir::any("f", "r", "u");
    bp_cardioid p(n);
    p.beam_level(a.v(), q.f, &l, dir::any("sf", "sr", "su").v(), speed());
    p.beam_level(bvector(1, 0, 0), q.f, &m);
    p.directivity(q.f, &d);
    double x = (1 + n * a.f) / (1 + n);
    vp_ensures("one level per frequency", l.size() == q.n && d.size() == q.n);
    vp_equal("cardioid level", l(q.k), x * x);
    vp_equal("one on the main axis", m(q.k), 1);
    vp_le("not negative", 0, l(q.k));
    if (a.f >= -1 && a.f <= 1) vp_le("never above one", l(q.k), 1);
    vp_equal("cardioid directivity", d(q.k), (3 + n * n) / (3 * (1 + n) * (1 + n)));
}
VP_CONTRACT(trig) {
    freqs q;
    vector<double> l = q.out(), d = q.out(), m = q.out();
    bool sine = vp_choice("sine", 2);
    double null = vp_double("null", -300, 300);
    dir a = dir::any("f", "r", "u");
    bp_trig p(sine ? bp_trig_type::sine : bp_trig_type::cosine, null);
    p.beam_level(a.v(), q.f, &l, dir::any("sf", "sr", "su").v(), speed());
    p.beam_level(sine ? bvector(0, 1, 0) : bvector(1, 0, 0), q.f, &m);
    p.directivity(q.f, &d);
    double z = pow(10.0, -std::abs(null) / 20.0), x = sine ? a.r : a.f;
    vp_ensures("one level per frequency", l.size() == q.n && d.size() == q.n);
    vp_equal("dipole level", l(q.k), z + (1 - z) * x * x);
    vp_equal("one on the main axis", m(q.k), 1);
    vp_equal("dipole directivity", d(q.k), z + (1 - z) / 3);
}
VP_CONTRACT(line) {
    freqs q;
    vector<double> l = q.out();
    unsigned n = (unsigned)vp_int("N", 1, 1000);
    double s = vp_double("spacing", 0.1, 10), c = speed();
    bool hla = vp_choice("hla", 2);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    double dot = hla ? a.f - b.f : a.u - b.u, N = n;
    double a0 = M_PI * s / c * dot * q.value();
    bp_line(n, s, hla ? HLA : VLA).beam_level(a.v(), q.f, &l, b.v(), c);
    vp_ensures("one level per frequency", l.size() == q.n);
    ratio("line array level", l(q.k), N, a0, 1);
}
VP_CONTRACT(line_peak) {
    freqs q;
    vector<double> l = q.out(), m = q.out();
    unsigned n = (unsigned)vp_int("N", 1, 1000);
    double s = vp_double("spacing", 0.1, 10), c = speed();
    bool hla = vp_choice("hla", 2);
    dir a = dir::any("f", "r", "u");
    bp_line p(n, s, hla ? HLA : VLA);
    p.beam_level(a.v(), q.f, &l, a.v(), c);
    vp_equal("one when steered to the arrival", l(q.k), 1);
    // the response around the array axis does not change
    double x = vp_double("x", -1, 1), y = vp_double("y", -1, 1);
    dir b = dir::any("sf", "sr", "su");
    p.beam_level(a.v(), q.f, &l, b.v(), c);
    p.beam_level(hla ? bvector(a.f, x, y) : bvector(x, y, a.u), q.f, &m, b.v(), c);
    vp_equal("symmetric around the array axis", m(q.k), l(q.k));
}
VP_CONTRACT(line_directivity) {
    double f = vp_double("f", 100, 5000), s = vp_double("spacing", 0.1, 10), c = speed();
    vp_requires(f > 0 && s > 0);
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    unsigned n = 1 + (unsigned)vp_choice("N", 4);
    bool hla = vp_choice("hla", 2);
    dir b = dir::any("sf", "sr", "su");
    vector<double> d(1, vp_double("before", 1, 9));
    bp_line(n, s, hla ? HLA : VLA).directivity(fr, &d, b.v(), c);
    // mean over the sphere: sum over pairs of elements at distance j
    double x = 2 * M_PI * f * s / c, v = hla ? b.f : b.u, sum = n;
    for (unsigned j = 1; j < n; ++j) sum += 2.0 * (n - j) * cos(x * j * v) * sin(x * j) / (x * j);
    vp_equal("line array directivity", d(0), sum / ((double)n * n));
}
VP_CONTRACT(planar) {
    freqs q;
    vector<double> l = q.out(), d = q.out();
    unsigned n = (unsigned)vp_int("Nup", 2, 1000), m = (unsigned)vp_int("Nright", 2, 1000);
    double s = vp_double("sup", 0.1, 10), t = vp_double("sright", 0.1, 10), c = speed();
    vp_requires(s > 0 && t > 0);
    bool baffle = vp_choice("baffle", 2);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    bp_planar p(n, s, m, t, baffle);
    double u = M_PI * s / c * (a.u - b.u) * q.value(), v = M_PI * t / c * (a.r - b.r) * q.value(), N = n, M = m;
    p.beam_level(a.v(), q.f, &l, b.v(), c);
    vp_ensures("one level per frequency", l.size() == q.n);
    if (baffle && a.f <= 0) { vp_equal("nothing through the baffle", l(q.k), 0); return; }
    double y = (sin(M * v) + 1e-200) / (M * sin(v) + 1e-200);
    double bb = M * sin(v) + 1e-200;
    vp_requires(bb > 1e-250 || bb < -1e-250);
    ratio("product of two line arrays", l(q.k), N, u, y * y);
}
VP_CONTRACT(planar_peak) {
    freqs q;
    vector<double> l = q.out(), d = q.out();
    unsigned n = (unsigned)vp_int("Nup", 2, 1000), m = (unsigned)vp_int("Nright", 2, 1000);
    double s = vp_double("sup", 0.1, 10), t = vp_double("sright", 0.1, 10), c = speed();
    vp_requires(s > 0 && t > 0);
    bool baffle = vp_choice("baffle", 2);
    dir b = dir::any("sf", "sr", "su");
    vp_requires(b.f > 0);
    bp_planar p(n, s, m, t, baffle);
    p.beam_level(b.v(), q.f, &l, b.v(), c);
    vp_equal("one when steered to the arrival", l(q.k), 1);
    p.directivity(q.f, &d, b.v(), c);
    vp_ensures("one level per frequency", d.size() == q.n);
    double N = n, M = m, w = c / q.value();
    vp_near("planar directivity", d(q.k) * (b.f * s * t * sqrt((M * M - 1) * (N * N - 1))) / (w * w), (baffle ? 0.5 : 1) * (3 / (2 * M_PI * M_PI)), 1e-9);
}
VP_CONTRACT(piston) {
    freqs q;
    vector<double> l = q.out(), d = q.out();
    double D = vp_double("diameter", 0.1, 10), c = speed();
    vp_requires(D > 0);
    bool baffle = vp_choice("baffle", 2);
    dir a = dir::any("f", "r", "u");
    vp_requires(a.f >= -1 && a.f <= 1);
    bp_piston p(D, baffle);
    p.beam_level(a.v(), q.f, &l, dir::any("sf", "sr", "su").v(), c);
    p.directivity(q.f, &d, dir::any("sf", "sr", "su").v(), c);
    vp_ensures("one level per frequency", l.size() == q.n && d.size() == q.n);
    double w = c / q.value();
    vp_equal("piston directivity", d(q.k), w / (M_PI * D) * (w / (M_PI * D)) * (baffle ? 0.5 : 1));
    if (baffle && a.f <= 0) { vp_equal("nothing through the baffle", l(q.k), 0); return; }
    double x = M_PI * D / w * sqrt(1 - a.f * a.f) + 1e-17, j = 2 * std::cyl_bessel_j(1.0, x) / x;
    vp_equal("piston level", l(q.k), j * j);
}
VP_CONTRACT(solid) {
    freqs q;
    vector<double> l = q.out(), d = q.out();
    double v = vp_double("vert", 1, 180), h = vp_double("horz", 1, 360);
    vp_requires(v >= 0 && h >= 0);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    vp_requires(a.u >= -1 && a.u <= 1 && b.u >= -1 && b.u <= 1);
    bp_solid p(v, h);
    p.beam_level(a.v(), q.f, &l, b.v(), speed());
    p.directivity(q.f, &d, b.v(), speed());
    double de = to_degrees(asin(a.u)) - to_degrees(asin(b.u));
    double az = to_degrees(atan2(a.f, a.r)) - to_degrees(atan2(b.f, b.r));
    if (az < 0) az = -az;
    if (az > 180) az = 360 - az;
    bool in = de <= v / 2 && -de <= v / 2 && az <= h / 2;
    vp_ensures("one level per frequency", l.size() == q.n && d.size() == q.n);
    vp_equal("one inside, zero outside", l(q.k), in ? 1 : 0);
    double e = to_degrees(asin(b.u)), top = e + v / 2 > 90 ? 90 : e + v / 2, bot = e - v / 2 < -90 ? -90 : e - v / 2;
    vp_equal("solid angle directivity", d(q.k), (top - bot) / 180 * (h / 360));
}
VP_CONTRACT(gaussian) {
    freqs q;
    vector<double> l = q.out();
    double v = vp_double("vert", 1, 200), h = vp_double("horz", 1, 400);
    vp_requires(v > 0 && h > 0);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    vp_requires(a.u >= -1 && a.u <= 1 && b.u >= -1 && b.u <= 1);
    bp_gaussian p(v, h);
    p.beam_level(a.v(), q.f, &l, b.v(), speed());
    double de = (to_degrees(asin(a.u)) - to_degrees(asin(b.u))) / v;
    double az = to_degrees(atan2(a.f, a.r)) - to_degrees(atan2(b.f, b.r));
    if (az < 0) az = -az;
    if (az > 180) az = 360 - az;
    az /= h;
    double x = (v < 180 ? de * de : 0) + (h < 360 ? az * az : 0);
    vp_ensures("one level per frequency", l.size() == q.n);
    vp_equal("gaussian level", l(q.k), exp(-0.5 * x));
}
// any pattern
struct any_pattern : bp_model {
    int id;
    any_pattern(int i) : id(i) {}
    double at(const bvector& a, double f) const { return id == 0 ? vp_any2("p0", f, a.front()) : id == 1 ? vp_any2("p1", f, a.front()) : vp_any2("p2", f, a.front()); }
    void beam_level(const bvector& a, const seq_vector::csptr& f, vector<double>* l, const bvector& s, double c) const override {
        for (size_t i = 0; i < f->size(); ++i) (*l)(i) = at(a, (*f)(i));
    }
};
VP_CONTRACT(multi) {
    freqs q;
    vector<double> l = q.out();
    std::list<bp_model::csptr> list;
    size_t n = (size_t)vp_choice("patterns", 4);
    bool sum = vp_choice("sum", 2);
    for (size_t i = 0; i < n; ++i) list.push_back(bp_model::csptr(new any_pattern((int)i)));
    dir a = dir::any("f", "r", "u");
    bp_multi p(list, sum ? bp_multi_type::sum : bp_multi_type::product);
    p.beam_level(a.v(), q.f, &l, dir::any("sf", "sr", "su").v(), speed());
    double want = sum ? 0 : 1;
    for (size_t i = 0; i < n; ++i) { double x = any_pattern((int)i).at(a.v(), q.value()); want = sum ? want + x : want * x; }
    vp_ensures("one level per frequency", l.size() == q.n);
    vp_equal("combination of the components", l(q.k), want);
}
// what a rotated array hears
struct heard : bp_model {
    mutable double f, r, u, sf, sr, su, c;
    void beam_level(const bvector& a, const seq_vector::csptr& fr, vector<double>* l, const bvector& s, double x) const override {
        f = a.front(); r = a.right(); u = a.up();
        sf = s.front(); sr = s.right(); su = s.up(); c = x;
        *l = vector<double>(fr->size(), vp_any2("level", f, r));
    }
};
VP_CONTRACT(rotated_array) {
    seq_vector::csptr fr(new seq_linear(1000.0, 1.0, (size_t)1));
    double y = vp_double("yaw", -180, 180), p = vp_double("pitch", -90, 90), r = vp_double("roll", -180, 180), c = speed();
    orientation o(y, p, r);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    heard h;
    vector<double> l(1, 0.0);
    const bp_model& m = h;
    m.beam_level(a.v(), o, fr, &l, b.v(), c);
    // components of the arrival along the axes of the array
    bvector e[3] = {bvector(1, 0, 0), bvector(0, 1, 0), bvector(0, 0, 1)};
    double got[3] = {h.f, h.r, h.u};
    for (int i = 0; i < 3; ++i) {
        bvector x;
        x.rotate(o, e[i]);
        vp_equal("arrival in array coordinates", got[i], a.f * x.front() + a.r * x.right() + a.u * x.up());
    }
    vp_ensures("steering and sound speed passed on", h.sf == b.f && h.sr == b.r && h.su == b.u && h.c == c);
    vp_equal("level passed on", l(0), vp_any2("level", h.f, h.r));
}
// plane wave response of any array
VP_CONTRACT(arb_formula) {
    size_t n = 1 + (size_t)vp_choice("n", 3);
    bool baffle = vp_choice("baffle", 2), real = vp_choice("real", 2);
    const char* nx[3] = {"x0", "x1", "x2"}; const char* ny[3] = {"y0", "y1", "y2"}; const char* nz[3] = {"z0", "z1", "z2"};
    const char* nr[3] = {"r0", "r1", "r2"}; const char* ni[3] = {"i0", "i1", "i2"};
    matrix<double> loc(n, 3);
    vector<std::complex<double> > w(n);
    vector<double> wr(n);
    double sr = 0, si = 0;
    for (size_t i = 0; i < n; ++i) {
        loc(i, 0) = vp_double(nx[i], -5, 5); loc(i, 1) = vp_double(ny[i], -5, 5); loc(i, 2) = vp_double(nz[i], -5, 5);
        w(i) = std::complex<double>(vp_double(nr[i], 0.1, 2), real ? 0.0 : vp_double(ni[i], -1, 1));
        wr(i) = w(i).real();
        sr += w(i).real(); si += w(i).imag();
    }
    vp_requires(sr * sr + si * si > 0);
    dir a = dir::any("f", "r", "u"), b = dir::any("sf", "sr", "su");
    double f = vp_double("f", 100, 5000), c = speed();
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    vector<double> l(1, vp_double("before", 1, 9));
    bp_model* p = real ? new bp_arb(loc, wr, baffle) : new bp_arb(loc, w, baffle);
    p->beam_level(a.v(), fr, &l, b.v(), c);
    delete p;
    if (baffle && a.f <= 0) { vp_equal("nothing through the baffle", l(0), 0); return; }
    double re = 0, im = 0;
    for (size_t i = 0; i < n; ++i) {
        double ph = 2 * M_PI * f / c * ((a.f - b.f) * loc(i, 0) + (a.r - b.r) * loc(i, 1) + (a.u - b.u) * loc(i, 2));
        re += w(i).real() * cos(ph) + w(i).imag() * sin(ph);
        im += w(i).imag() * cos(ph) - w(i).real() * sin(ph);
    }
    vp_equal("array response", l(0) * (sr * sr + si * si), re * re + im * im);
}
VP_CONTRACT(arb_peak) {
    size_t n = 1 + (size_t)vp_choice("n", 3);
    const char* nx[3] = {"x0", "x1", "x2"}; const char* ny[3] = {"y0", "y1", "y2"}; const char* nz[3] = {"z0", "z1", "z2"};
    matrix<double> loc(n, 3);
    for (size_t i = 0; i < n; ++i) { loc(i, 0) = vp_double(nx[i], -5, 5); loc(i, 1) = vp_double(ny[i], -5, 5); loc(i, 2) = vp_double(nz[i], -5, 5); }
    dir b = dir::any("sf", "sr", "su");
    double f = vp_double("f", 100, 5000), c = speed();
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    vector<double> l(1, vp_double("before", 1, 9));
    bp_arb(loc).beam_level(b.v(), fr, &l, b.v(), c);
    vp_equal("one when steered to the arrival", l(0), 1);
}
VP_CONTRACT(uniform_layout) {
    int f = 1 + (int)vp_choice("front", 3), r = 1 + (int)vp_choice("right", 2), u = 1 + (int)vp_choice("up", 2);
    double sf = vp_double("sf", 0.1, 5), sr = vp_double("sr", 0.1, 5), su = vp_double("su", 0.1, 5);
    matrix<double> m;
    bp_con_uniform(f, sf, r, sr, u, su, &m);
    vp_ensures("one row per element", m.size1() == (size_t)(f * r * u) && m.size2() == 3);
    for (int k = 0; k < u; ++k)
        for (int j = 0; j < r; ++j)
            for (int i = 0; i < f; ++i) {
                size_t n = (size_t)((k * r + j) * f + i);
                vp_equal("front", m(n, 0), (i - (f - 1) / 2.0) * sf);
                vp_equal("right", m(n, 1), (j - (r - 1) / 2.0) * sr);
                vp_equal("up", m(n, 2), (k - (u - 1) / 2.0) * su);
            }
}
VP_CONTRACT(ring_layout) {
    size_t n = 1 + (size_t)vp_choice("rings", 2);
    vector<double> rad(n), off(n);
    vector<int> num(n);
    size_t total = 0;
    const char* nr[2] = {"rad0", "rad1"}; const char* no[2] = {"off0", "off1"}; const char* nn[2] = {"num0", "num1"};
    for (size_t i = 0; i < n; ++i) { rad(i) = vp_double(nr[i], 0.1, 9); off(i) = vp_double(no[i], -3, 3); num(i) = 1 + (int)vp_choice(nn[i], 3); total += (size_t)num(i); }
    matrix<double> m;
    bp_con_ring(rad, num, off, &m);
    vp_ensures("one row per element", m.size1() == total && m.size2() == 3);
    size_t k = 0;
    for (size_t i = 0; i < n; ++i)
        for (int j = 0; j < num(i); ++j, ++k) {
            double a = off(i) - 2 * M_PI * j / num(i);
            vp_equal("front", m(k, 0), rad(i) * cos(a));
            vp_equal("right", m(k, 1), rad(i) * sin(a));
            vp_equal("up", m(k, 2), 0);
        }
}
// any measured beam pattern: function of frequency, depression and azimuth in degrees
struct any_table : data_grid<3> {
    any_table() { _axis[0] = _axis[1] = _axis[2] = seq_vector::csptr(new seq_linear(0.0, 1.0, (size_t)2)); }
    double interpolate(const double x[], double* d) const override { return vp_any3("table", x[0], x[1], x[2]); }
};
VP_CONTRACT(grid) {
    freqs q;
    vector<double> l = q.out();
    dir a = dir::any("f", "r", "u");
    vp_requires(a.u >= -1 && a.u <= 1);
    bp_grid p(data_grid<3>::csptr(new any_table));
    p.beam_level(a.v(), q.f, &l, dir::any("sf", "sr", "su").v(), speed());
    vp_ensures("one level per frequency", l.size() == q.n);
    vp_equal("measured level", l(q.k), vp_any3("table", q.value(), to_degrees(asin(a.u)), to_degrees(atan2(a.r, a.f))));
}
