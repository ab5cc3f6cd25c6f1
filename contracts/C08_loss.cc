// C08: reflection loss models
// SRCS: ocean/reflect_loss_rayleigh.cc ocean/reflect_loss_rayleigh_grid.cc ocean/reflect_loss_beckmann.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
#include "vp.h"
#include <usml/ocean/ocean.h>
#include <usml/ocean/wave_height_pierson.h>
#include <complex>
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;
typedef std::complex<double> cd;

// any number of frequencies; f[k] is an arbitrary element
struct freqs {
    size_t n, k;
    double first, inc;
    seq_vector::csptr f;
    vector<double> a, p, only;
    freqs() : n((size_t)vp_int("nf", 1, 1000000)), k(vp_index("kf", n)), first(vp_double("first", 10, 5000)), inc(vp_double("inc", 1, 1000)), f(new seq_linear(first, inc, n)), a(n), p(n), only(n) {
        vp_requires(first > 0 && inc > 0);
    }
    double value() const { return first + inc * (double)k; }
    void run(const reflect_loss_model& m, double angle) {
        wposition1 l(vp_double("lat", -80, 80), vp_double("lng", -180, 180), -1000.0);
        m.reflect_loss(l, f, angle, &a, &p);
        m.reflect_loss(l, f, angle, &only);
        vp_ensures("one loss per frequency", a.size() == n && p.size() == n && only.size() == n);
        vp_equal("loss without phase", only(k), a(k));
    }
};
VP_CONTRACT(constant) {
    freqs q;
    double a = vp_double("amplitude", 0, 30), p = vp_double("phase", -3, 3);
    q.run(reflect_loss_constant(a, p), vp_double("angle", 0, 1.5));
    vp_equal("constant loss", q.a(q.k), a);
    vp_equal("constant phase", q.p(q.k), p);
}
VP_CONTRACT(eckart) {
    freqs q;
    double w = vp_double("wind", 0, 30), g = vp_double("angle", 0, 1.5), f = q.value();
    q.run(reflect_loss_eckart(w), g);
    vp_equal("eckart loss", q.a(q.k), 8.6e-9 * f * f * w * w * w * w * sin(g) * sin(g));
    vp_equal("surface phase", q.p(q.k), M_PI);
    vp_le("never a gain", 0, q.a(q.k));
}
VP_CONTRACT(beckmann) {
    freqs q;
    double w = vp_double("wind", 0, 30), g = vp_double("angle", -1.5, 1.5), f = q.value();
    vp_requires(w >= 0 && fabs(g) > 1e-10 && fabs(g) < 1.6);
    q.run(reflect_loss_beckmann(w), g);
    double t = fabs(g), at2 = t * t / (2 * (0.003 + 5.1e-3 * w));
    double x = 1 - exp(-at2 / 4) / sqrt(M_PI * at2), v = sin(t) * (x > 0.5 ? x : 0.5);
    if (v > 0.99) v = 0.99;
    double low = 0.3 + 0.7 / (1 + 6.0e-11 * w * w * w * w * f * f);
    vp_equal("beckmann loss", q.a(q.k), -20 * log10(sqrt(1 - v) * low));
    vp_equal("surface phase", q.p(q.k), M_PI);
}
VP_CONTRACT(wave_height) {
    double w = vp_double("wind", 0, 30);
    vp_equal("rms wave height", wave_height_pierson(w), 0.25 * 0.22 * w * w / 9.8);
}
static const double NEPER = 1.0 / (20.0 * M_LOG10E * 2.0 * M_PI); // dB per wavelength to loss tangent
// R = U/V given up to a common factor: the loss is -20 log10 |U/V| dB, the phase is arg(U/V)
static void check_R(freqs& q, cd U, cd V) {
    double uu = U.real() * U.real() + U.imag() * U.imag(), vv = V.real() * V.real() + V.imag() * V.imag();
    double re = U.real() * V.real() + U.imag() * V.imag(), im = U.imag() * V.real() - U.real() * V.imag();
    vp_requires(uu > 0 && vv > 0);
    double loss = q.a(q.k), phase = q.p(q.k);
    vp_equal("rayleigh loss", pow(10.0, -loss / 10) * vv, uu);
    double want = atan2(im, re);
    vp_equals("rayleigh phase (cosine)", cos(phase), cos(want), 1);
    vp_equals("rayleigh phase (sine)", sin(phase), sin(want), 1);
}
static cd cosine(cd s) { return std::sqrt(1.0 - s * s); }
VP_CONTRACT(rayleigh_fluid) {
    freqs q;
    double d = vp_double("density", 1, 3), s = vp_double("speed", 0.8, 3), att = vp_double("att", 0, 2), g = vp_double("angle", 0, 1.5);
    vp_requires(d > 0 && s > 0 && att > 0 && g > 0 && g < 1.57);
    q.run(reflect_loss_rayleigh(d, s, att), g);
    double a = att * NEPER;
    // admittances of bottom and water: R = (Z - Zw) / (Z + Zw) = (Yw - Y) / (Yw + Y)
    cd n(s * 1500, -a * (s * 1500)), y = cosine(cos(g) * n / 1500.0) / (n * (1000 * d));
    double yw = sin(g) / 1.5e6;
    cd R = (yw - y) / (yw + y);
    vp_equal("rayleigh loss", q.a(q.k), -20 * log10(std::abs(R)));
    vp_equals("rayleigh phase (cosine)", cos(q.p(q.k)), cos(std::arg(R)), 1);
    vp_equals("rayleigh phase (sine)", sin(q.p(q.k)), sin(std::arg(R)), 1);
}
VP_CONTRACT(rayleigh_passive) {
    // the coefficient shown equal to the code's in rayleigh_fluid never exceeds 1
    double d = vp_double("density", 1, 3), s = vp_double("speed", 0.8, 3), a = vp_double("att", 0, 0.1), g = vp_double("angle", 0, 1.5);
    vp_requires(d > 0 && s > 0 && a > 0 && g > 0 && g < 1.57);
    double c = vp_double("cos", 0, 1), P = vp_double("P", 0, 2), Q = vp_double("Q", 0, 2), b = c * c * s * s;
    vp_requires(c > 0 && P > 0 && Q > 0 && P * Q == b * a && P * P - Q * Q == 1 - b * (1 - a * a)); // co = P + iQ
    cd n(s * 1500, -a * (s * 1500)), y = cd(P, Q) / (n * (1000 * d));
    vp_lemma("real admittance is positive", P - a * Q > 0);
    double yw = vp_double("yw", 0, 1);
    vp_requires(yw > 0);
    double up = (yw - y.real()) * (yw - y.real()) + y.imag() * y.imag(), dn = (yw + y.real()) * (yw + y.real()) + y.imag() * y.imag();
    vp_ensures("never a gain", up < dn);
}
VP_CONTRACT(rayleigh_lossless) {
    freqs q;
    double d = vp_double("density", 1, 3), s = vp_double("speed", 0.8, 3), g = vp_double("angle", 0, 1.5);
    vp_requires(d > 0 && s > 0 && g > 0 && g < 1.57);
    // cosine of the transmitted angle: real below, imaginary above the critical angle
    double c2 = 1 - s * s * cos(g) * cos(g);
    bool total = vp_choice("total", 2) == 1;
    double r = sqrt(total ? -c2 : c2), i = d * s * sin(g);
    vp_requires((total ? c2 < 0 : c2 > 0) && i != r);
    q.run(reflect_loss_rayleigh(d, s), g);
    if (total) {
        check_R(q, cd(i, -r), cd(i, r));
        vp_equal("total reflection", q.a(q.k), 0);
    } else {
        vp_equal("rayleigh loss", pow(10.0, -q.a(q.k) / 20), fabs(i - r) / (i + r));
        vp_le("never a gain", pow(10.0, -q.a(q.k) / 10), 1.0);
        vp_equals("rayleigh phase (cosine)", cos(q.p(q.k)), i > r ? 1 : -1, 1);
        vp_equals("rayleigh phase (sine)", sin(q.p(q.k)), 0, 1);
    }
}
// impedances of the two waves in the bottom, and their combination
struct shear {
    cd zp, zs, c2, s2;
    shear(double d, double s, double a, double s1, double a1, double g) {
        cd n(s * 1500, -a * (s * 1500)), m(s1 * 1500, -a1 * (s1 * 1500)), co = cosine(cos(g) * n / 1500.0), cs = cosine(cos(g) * m / 1500.0);
        zp = 1.0 / (co / (n * (1000 * d)));
        zs = m * (1000 * d) / cs;
        c2 = 2.0 * cs * cs - 1.0;
        s2 = 2.0 * std::sqrt(1.0 - cs * cs) * cs;
    }
    cd z() const { return zp * c2 * c2 + zs * s2 * s2; }
};
VP_CONTRACT(rayleigh_shear) {
    freqs q;
    double d = vp_double("density", 1, 3), s = vp_double("speed", 0.8, 3), a = vp_double("att", 0, 2), s1 = vp_double("shear", 0.2, 2), a1 = vp_double("att_shear", 0, 2), g = vp_double("angle", 0, 1.5);
    vp_requires(d > 0 && s > 0 && a > 0 && s1 > 0 && a1 > 0 && g > 0 && g < 1.57);
    q.run(reflect_loss_rayleigh(d, s, a, s1, a1), g);
    // R = (Z - Zw) / (Z + Zw) = (Yw - Y) / (Yw + Y)
    cd y = 1.0 / shear(d, s, a * NEPER, s1, a1 * NEPER, g).z();
    double yw = sin(g) / 1.5e6;
    cd R = (yw - y) / (yw + y);
    vp_equal("rayleigh loss with shear", q.a(q.k), -20 * log10(std::abs(R)));
    vp_equals("rayleigh phase with shear (cosine)", cos(q.p(q.k)), cos(std::arg(R)), 1);
    vp_equals("rayleigh phase with shear (sine)", sin(q.p(q.k)), sin(std::arg(R)), 1);
}
VP_CONTRACT(rayleigh_types) {
    // the generic bottoms are the tabulated ones
    const double t[8][5] = {{1.5, 1.00, 0.2, 0.00, 1.0}, {1.7, 1.05, 1.0, 0.00, 1.5}, {1.9, 1.10, 0.8, 0.00, 2.5}, {2.0, 1.20, 0.6, 0.00, 1.5}, {2.1, 1.30, 0.4, 0.40, 1.0}, {2.2, 1.60, 0.2, 0.67, 0.5}, {2.4, 2.00, 0.1, 1.00, 0.2}, {2.7, 3.50, 0.1, 1.67, 0.2}};
    freqs q;
    size_t n = (size_t)vp_choice("type", 8);
    double g = vp_double("angle", 0, 1.5);
    vp_requires(g > 0 && g < 1.57);
    vector<double> a(q.n), p(q.n);
    wposition1 l(10.0, 20.0, -1000.0);
    reflect_loss_rayleigh(t[n][0], t[n][1], t[n][2], t[n][3], t[n][4]).reflect_loss(l, q.f, g, &a, &p);
    if (vp_choice("enum", 2) == 1) q.run(reflect_loss_rayleigh(bottom_type_enum(n)), g);
    else q.run(reflect_loss_rayleigh(n), g);
    vp_equal("loss of the tabulated bottom", q.a(q.k), a(q.k));
    vp_equal("phase of the tabulated bottom", q.p(q.k), p(q.k));
}
VP_CONTRACT(rayleigh_steep) {
    // beyond normal incidence the loss is that at normal incidence
    freqs q;
    double d = vp_double("density", 1, 3), s = vp_double("speed", 0.8, 3), g = vp_double("angle", 1.5, 3);
    vp_requires(d > 0 && s > 0 && s < 100 && g >= M_PI / 2);
    vector<double> a(q.n), p(q.n);
    reflect_loss_rayleigh m(d, s);
    m.reflect_loss(wposition1(10.0, 20.0, -1000.0), q.f, M_PI_2, &a, &p);
    q.run(m, g);
    vp_equal("loss at normal incidence", q.a(q.k), a(q.k));
    vp_equal("phase at normal incidence", q.p(q.k), p(q.k));
}
