// C14: transmit waveforms and windows follow their definitions
// SRCS: transmit/transmit_model.cc transmit/transmit_cw.cc transmit/transmit_lfm.cc types/seq_vector.cc types/seq_data.cc
// OPT: -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0
#include "vp.h"
#include <usml/transmit/transmit.h>
using namespace usml::transmit;
using namespace usml::types;
using namespace usml::ublas;

struct length {
    size_t n, k;
    length() : n((size_t)vp_int("last", 1, 1000000) + 1), k(vp_index("k", n)) {}
};
VP_CONTRACT(boxcar) {
    length q;
    vector<double> w = window::boxcar(q.n), v = window::any(window::type::BOXCAR, q.n, vp_double("beta", 0, 9));
    vp_ensures("one weight per sample", w.size() == q.n && v.size() == q.n);
    vp_equal("boxcar is one", w(q.k), 1);
    vp_equal("boxcar by name", v(q.k), 1);
}
VP_CONTRACT(hann) {
    length q;
    vector<double> w = window::hann(q.n), v = window::any(window::type::HANN, q.n, vp_double("beta", 0, 9));
    vp_ensures("one weight per sample", w.size() == q.n && v.size() == q.n);
    double s = sin(M_PI * (double)q.k / ((double)q.n - 1));
    vp_equal("squared sine", w(q.k), s * s);
    vp_equal("hann by name", v(q.k), w(q.k));
    vp_equal("symmetric", w(q.n - 1 - q.k), w(q.k));
}
VP_CONTRACT(hamming) {
    length q;
    vector<double> w = window::hamming(q.n), v = window::any(window::type::HAMMING, q.n, vp_double("beta", 0, 9));
    vp_ensures("one weight per sample", w.size() == q.n && v.size() == q.n);
    vp_equal("raised cosine", w(q.k), 0.54 - 0.46 * cos(2 * M_PI * (double)q.k / ((double)q.n - 1)));
    vp_equal("hamming by name", v(q.k), w(q.k));
    vp_equal("symmetric", w(q.n - 1 - q.k), w(q.k));
    vp_le("at most one", w(q.k), 1);
    vp_le("at least 0.08", 0.08, w(q.k));
}
VP_CONTRACT(kaiser) {
    length q;
    double b = vp_double("beta", 0, 9);
    vector<double> w = window::kaiser(q.n, b), v = window::any(window::type::KAISER, q.n, b);
    vp_ensures("one weight per sample", w.size() == q.n && v.size() == q.n);
    double m = ((double)q.n - 1) / 2, x = ((double)q.k - m) / m;
    vp_equal("bessel taper", w(q.k), std::cyl_bessel_i(0.0, b * sqrt(1 - x * x)) / std::cyl_bessel_i(0.0, b));
    vp_equal("kaiser by name", v(q.k), w(q.k));
    vp_equal("symmetric", w(q.n - 1 - q.k), w(q.k));
}
VP_CONTRACT(shortest_window) {
    double b = vp_double("beta", 0, 9);
    window::type t[4] = {window::type::BOXCAR, window::type::HANN, window::type::HAMMING, window::type::KAISER};
    window::type ty = t[vp_choice("type", 4)];
    vp_ensures("no weights for no samples", window::any(ty, 0, b).size() == 0);
    vector<double> w = window::any(ty, 1, b);
    vp_ensures("one weight per sample", w.size() == 1);
    vp_equal("a single sample is not shaded", w(0), 1);
}
struct pulse {
    double duration, fs, fb, fc, in, bw, beta;
    window::type ty;
    size_t n;
    pulse() {
        window::type t[4] = {window::type::BOXCAR, window::type::HANN, window::type::HAMMING, window::type::KAISER};
        ty = t[vp_choice("type", 4)];
        duration = vp_double("duration", 0.01, 2);
        fs = vp_double("fsample", 100, 5000);
        fb = vp_double("fband", 0, 3000);
        fc = vp_double("fcenter", 100, 3000);
        bw = vp_double("bandwidth", 0, 500);
        in = vp_double("inphase", 0, 6);
        beta = vp_double("beta", 0, 9);
        vp_requires(duration > 0 && fs > 0);
        double c = round(duration * fs);
        vp_requires(c >= 2 && c <= 1e6);
        n = (size_t)(int)c;
    }
    // sample k of s is the library's analytic signal (sine, cosine) of this phase, shaded by the window
    void check(const char* label, const cdvector& s, size_t k, double phase) const {
        vector<double> w = window::any(ty, n, beta);
        vp_equal(label, s(k).real(), sin(phase) * w(k));
        vp_equal(label, s(k).imag(), cos(phase) * w(k));
    }
};
VP_CONTRACT(cw) {
    pulse p;
    size_t k = vp_index("k", p.n);
    transmit_cw t("", p.duration, p.fc, 0.0, 1.0, p.ty, p.beta);
    double out = vp_double("before", 0, 1);
    cdvector s = t.asignal(p.fs, p.fb, p.in, &out), u = t.asignal(p.fs, p.fb, p.in);
    vp_ensures("one sample per sampling period", s.size() == p.n && u.size() == p.n);
    double w = 2 * M_PI * (p.fc - p.fb);
    p.check("continuous wave", s, k, w * ((double)k / p.fs) + p.in);
    p.check("same without end phase", u, k, w * ((double)k / p.fs) + p.in);
}
VP_CONTRACT(lfm) {
    pulse p;
    size_t k = vp_index("k", p.n);
    transmit_lfm t("", p.duration, p.bw, p.fc, 0.0, 1.0, p.ty, p.beta);
    double out = vp_double("before", 0, 1);
    cdvector s = t.asignal(p.fs, p.fb, p.in, &out), u = t.asignal(p.fs, p.fb, p.in);
    vp_ensures("one sample per sampling period", s.size() == p.n && u.size() == p.n);
    // frequency rises over the bandwidth, around the centre, during the pulse
    double T = (double)p.n / p.fs, x = (double)k / p.fs;
    double phase = 2 * M_PI * ((p.fc - p.fb - p.bw / 2) * x + p.bw * x * x / (2 * T)) + p.in;
    p.check("linear frequency sweep", s, k, phase);
    p.check("same without end phase", u, k, phase);
}
// a pulse of n samples ends at the phase of sample n: the next pulse goes on from there
VP_CONTRACT(end_phase) {
    double fs = vp_double("fsample", 100, 5000), fb = vp_double("fband", 0, 3000), fc = vp_double("fcenter", 100, 3000), bw = vp_double("bandwidth", 0, 500), in = vp_double("inphase", 0, 6);
    int64_t n = vp_int("N", 2, 100000);
    vp_requires(fs > 0);
    bool cw = vp_choice("cw", 2);
    double T = (double)n / fs, out = vp_double("before", 0, 1);
    transmit_model* t = cw ? (transmit_model*)new transmit_cw("", T, fc) : (transmit_model*)new transmit_lfm("", T, bw, fc);
    cdvector s = t->asignal(fs, fb, in, &out);
    delete t;
    vp_ensures("one sample per sampling period", s.size() == (size_t)n);
    double end = 2 * M_PI * (cw ? fc - fb : fc - fb - bw / 2) * T + (cw ? 0.0 : M_PI * bw * T) + in;
    vp_equal("phase continues after the pulse", cos(out), cos(end));
    vp_equal("phase continues after the pulse", sin(out), sin(end));
    vp_ensures("less than one turn", out < 2 * M_PI && -out < 2 * M_PI);
}
VP_CONTRACT(attributes) {
    double d = vp_double("duration", 0, 1), b = vp_double("bandwidth", 0, 1), f = vp_double("f", 0, 1), x = vp_double("delay", 0, 1), l = vp_double("level", 0, 1);
    double be = vp_double("beta", 0, 1), az = vp_double("az", 0, 1), de = vp_double("de", 0, 1);
    int m = (int)vp_int("mode", -5, 1000);
    bool cw = vp_choice("cw", 2);
    std::string name = "pulse";
    transmit_model* t = cw ? (transmit_model*)new transmit_cw(name, d, f, x, l, window::type::HANN, be, az, de, m) : (transmit_model*)new transmit_lfm(name, d, b, f, x, l, window::type::HANN, be, az, de, m);
    vp_ensures("duration and frequencies", t->duration == d && t->fcenter == f && t->bandwidth == (cw ? 0 : b));
    vp_ensures("delay and level", t->delay == x && t->source_level == l);
    vp_ensures("shading", t->window_type == window::type::HANN && t->window_param == be);
    vp_ensures("steering and mode", t->orderedAZ == az && t->orderedDE == de && t->transmit_mode == m);
    vp_ensures("name", t->type.size() == 5 && t->type[0] == 'p' && t->type[4] == 'e');
    delete t;
}
