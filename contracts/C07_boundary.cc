// C07: heights and normals of boundaries and layers, delegation to the attached models
// SRCS: ocean/boundary_flat.cc ocean/boundary_slope.cc ocean/profile_model.cc ocean/profile_linear.cc ocean/attenuation_thorp.cc ocean/reflect_loss_rayleigh.cc types/wposition.cc types/wposition1.cc types/wvector.cc types/wvector1.cc types/seq_vector.cc types/seq_data.cc
#include "vp.h"
#include <usml/ocean/ocean.h>
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::ublas;

// models whose outputs are arbitrary functions of what they are given
struct any_loss : reflect_loss_model {
    void reflect_loss(const wposition1& l, const seq_vector::csptr& f, double angle, vector<double>* a, vector<double>* p) const override {
        (*a)(0) = vp_any4("loss", l.rho(), l.theta(), (*f)(0), angle);
        if (p) (*p)(0) = vp_any4("phase", l.rho(), l.theta(), (*f)(0), angle);
    }
};
struct any_scat : scattering_model {
    static double s(double f, double a, double b, double c, double d) { return vp_any4("scat", vp_any2("fa", f, a), b, c, d); }
    void scattering(const wposition1&, const seq_vector::csptr& f, double di, double ds, double ai, double as, vector<double>* a) const override {
        (*a)(0) = s((*f)(0), di, ds, ai, as);
    }
    void scattering(const wposition& l, const seq_vector::csptr& f, double di, matrix<double> ds, double ai, matrix<double> as, matrix<vector<double> >* a) const override {
        for (size_t i = 0; i < l.size1(); ++i)
            for (size_t j = 0; j < l.size2(); ++j) { (*a)(i, j) = vector<double>(1); (*a)(i, j)(0) = s((*f)(0), di, ds(i, j), ai, as(i, j)); }
    }
};
template <size_t N> struct any_grid : data_grid<N> {
    double interpolate(const double l[], double* d) const override {
        double a = l[0], b = N > 1 ? l[N > 1 ? 1 : 0] : 0;
        if (d) {
            d[0] = vp_any2("dtheta", a, b);
            if (N > 1) d[1] = vp_any2("dphi", a, b);
        }
        return vp_any2("height", a, b);
    }
};
static void earth() {
    wposition::earth_radius = vp_double("R", 6e6, 7e6);
    vp_requires(wposition::earth_radius > 1e6);
}
// locations in one or two rows and any number of columns; element (i,k) is arbitrary
struct where {
    size_t n, k, i;
    double lat, lng;
    wposition loc;
    wposition1 one;
    where(size_t rows) : n((size_t)vp_int("n", 1, 1000000)), k(vp_index("k", n)), i((size_t)vp_choice("row", rows)),
        lat(vp_double("lat", -80, 80)), lng(vp_double("lng", -180, 180)), loc(rows, n, 0.0, 0.0, -50.0), one(lat, lng, -100.0) {
        loc.latitude(i, k, lat); loc.longitude(i, k, lng); loc.altitude(i, k, -100.0);
    }
};
// single and matrix queries, with and without normal: height and unit normal
static void check(const boundary_model& b, const where& w, double rho, double nr, double nt, double np) {
    size_t rows = w.loc.size1();
    matrix<double> r1(rows, w.n), r2(rows, w.n);
    wvector m(rows, w.n);
    m.theta(w.i, w.k, vp_double("stale", -1, 1));
    b.height(w.loc, &r1, &m);
    b.height(w.loc, &r2);
    double s1, s2;
    wvector1 q(0.5, 0.5, vp_double("stale1", -1, 1));
    b.height(w.one, &s1, &q);
    b.height(w.one, &s2);
    vp_equals("height", s1, rho, 1e6);
    vp_equals("height without normal", s2, rho, 1e6);
    vp_equals("height in a matrix", r1(w.i, w.k), rho, 1e6);
    vp_equals("height in a matrix without normal", r2(w.i, w.k), rho, 1e6);
    vp_equals("normal up", q.rho(), nr, 1);
    vp_equals("normal south", q.theta(), nt, 1);
    vp_equals("normal east", q.phi(), np, 1);
    vp_equals("normal up in a matrix", m.rho(w.i, w.k), nr, 1);
    vp_equals("normal south in a matrix", m.theta(w.i, w.k), nt, 1);
    vp_equals("normal east in a matrix", m.phi(w.i, w.k), np, 1);
    vp_equals("unit normal", q.rho() * q.rho() + q.theta() * q.theta() + q.phi() * q.phi(), 1, 1);
}
VP_CONTRACT(flat) {
    earth();
    where w(2);
    double depth = vp_double("depth", -8000, 8000);
    boundary_flat b(depth);
    double d = fabs(depth);
    check(b, w, wposition::earth_radius - d, d < 1e-6 ? -1 : 1, 0, 0);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(flat_default_loss) {
    // a pressure release surface, a hard bottom, unless told otherwise
    double depth = vp_double("depth", -8000, 8000), f = vp_double("f", 10, 1e4), g = vp_double("angle", 0, 1.5);
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    vector<double> a(1), p(1);
    boundary_flat(depth).reflect_loss(wposition1(10.0, 20.0, 0.0), fr, g, &a, &p);
    vp_equal("no loss", a(0), 0);
    vp_equal("phase change", p(0), fabs(depth) < 1e-6 ? M_PI : 0);
    boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(3.5, 0.25))).reflect_loss(wposition1(10.0, 20.0, 0.0), fr, g, &a, &p);
    vp_equal("given loss", a(0), 3.5);
    vp_equal("given phase", p(0), 0.25);
}
VP_CONTRACT(slope) {
    earth();
    where w(2);
    double lat0 = vp_double("lat0", -80, 80), lng0 = vp_double("lng0", -180, 180), depth = vp_double("depth", 100, 5000);
    double a = vp_double("lat_slope", -0.7, 0.7), b = vp_double("lng_slope", -0.7, 0.7);
    vp_requires(sin(a) * sin(a) + sin(b) * sin(b) < 1 && -1.5 < a && a < 1.5 && -1.5 < b && b < 1.5);
    // the reference point only has to exist during construction
    wposition1* ref = new wposition1(lat0, lng0, 0.0);
    boundary_slope s(*ref, depth, a, b);
    delete ref;
    // tangents of angles within 90 degrees
    double ta = sin(a) / sqrt(1 - sin(a) * sin(a)), tb = sin(b) / sqrt(1 - sin(b) * sin(b));
    double t0 = to_radians(90.0 - lat0);
    double h = (wposition::earth_radius - depth) * (1 + sin(t0) * tb * (to_radians(w.lng) - to_radians(lng0))) * (1 - ta * (to_radians(90.0 - w.lat) - t0));
    check(s, w, h, sqrt(1 - sin(a) * sin(a) - sin(b) * sin(b)), sin(a), -sin(b));
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(slope_perpendicular) {
    // at the reference point the normal of a slope along one axis is perpendicular to the reported surface
    double lat0 = vp_double("lat0", -80, 80), lng0 = vp_double("lng0", -180, 180), depth = vp_double("depth", 100, 5000), a = vp_double("slope", -0.7, 0.7);
    double t = vp_double("dtheta", -0.01, 0.01), p = vp_double("dphi", -0.01, 0.01);
    vp_requires(-1.5 < a && a < 1.5 && t != 0 && p != 0 && -85 < lat0 && lat0 < 85);
    bool south = vp_choice("south", 2) == 1;
    wposition1 ref(lat0, lng0, 0.0), near(lat0, lng0, 0.0);
    boundary_slope s(ref, depth, south ? a : 0.0, south ? 0.0 : a);
    wvector1 n;
    double h0, h1;
    s.height(ref, &h0, &n);
    if (south) near.theta(ref.theta() + t); else near.phi(ref.phi() + p);
    s.height(near, &h1);
    // both heights are linear in the offset: the difference quotient is the derivative
    if (south) vp_equals("perpendicular", n.rho() * (h1 - h0) / t + n.theta() * h0, 0, 1e6);
    else vp_equals("perpendicular", n.rho() * (h1 - h0) / p + n.phi() * h0 * sin(ref.theta()), 0, 1e6);
}
template <size_t N> static void check_grid() {
    where w(2);
    std::shared_ptr<const data_grid<N> > g(new any_grid<N>());
    boundary_grid<N> b(g);
    double th = w.one.theta(), ph = N > 1 ? w.one.phi() : 0;
    double h = vp_any2("height", th, ph), gt = vp_any2("dtheta", th, ph), gp = N > 1 ? vp_any2("dphi", th, ph) : 0;
    vp_requires(h > 0 && sin(th) > 0);
    double t = -gt / h, p = -gp / (h * sin(th)), l = sqrt(1 + t * t + p * p);
    check(b, w, h, 1 / l, t / l, p / l);
    wvector1 n;
    double r;
    b.height(w.one, &r, &n);
    vp_equals("perpendicular to the southward tangent", n.rho() * gt + n.theta() * h, 0, 1e6);
    vp_equals("perpendicular to the eastward tangent", n.rho() * gp + n.phi() * h * sin(th), 0, 1e6);
    vp_ensures("points up", n.rho() > 0);
}
VP_CONTRACT(grid_1d) { check_grid<1>(); }
VP_CONTRACT(grid_2d) { check_grid<2>(); }
VP_CONTRACT(layer) {
    earth();
    where w(2);
    double depth = vp_double("depth", -8000, 8000), thick = vp_double("thickness", 0, 300);
    volume_flat v(depth, thick, -40.0), u(depth, thick, scattering_model::csptr(new any_scat()));
    double r, t, h = wposition::earth_radius - fabs(depth);
    v.depth(w.one, &r, &t);
    vp_equals("layer depth", r, h, 1e6);
    vp_equal("layer thickness", t, thick);
    matrix<double> mr(2, w.n), mt(2, w.n);
    u.depth(w.loc, &mr, &mt);
    vp_equals("layer depth in a matrix", mr(w.i, w.k), h, 1e6);
    vp_equal("layer thickness in a matrix", mt(w.i, w.k), thick);
    wposition::earth_radius = 6371000.0;
}
VP_CONTRACT(delegation) {
    double f = vp_double("f", 10, 1e4), g = vp_double("angle", 0, 1.5), di = vp_double("di", 0, 1.5), ds = vp_double("ds", 0, 1.5), ai = vp_double("ai", 0, 6), as = vp_double("as", 0, 6);
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    wposition1 l(10.0, 20.0, -30.0);
    wposition ml(1, 2, 10.0, 20.0, -30.0);
    reflect_loss_model::csptr loss(new any_loss());
    scattering_model::csptr scat(new any_scat());
    boundary_flat late(100.0);
    late.reflect_loss(loss);
    late.scattering(scat);
    boundary_flat early(100.0, loss, scat);
    const boundary_model& b = vp_choice("late", 2) == 1 ? late : early;
    vector<double> a(1), p(1);
    b.reflect_loss(l, fr, g, &a, &p);
    vp_equal("loss of the attached model", a(0), vp_any4("loss", l.rho(), l.theta(), f, g));
    vp_equal("phase of the attached model", p(0), vp_any4("phase", l.rho(), l.theta(), f, g));
    b.scattering(l, fr, di, ds, ai, as, &a);
    vp_equal("strength of the attached model", a(0), any_scat::s(f, di, ds, ai, as));
    matrix<double> mds(1, 2), mas(1, 2);
    mds(0, 0) = 0.1; mas(0, 0) = 0.2; mds(0, 1) = ds; mas(0, 1) = as;
    matrix<vector<double> > ma(1, 2);
    b.scattering(ml, fr, di, mds, ai, mas, &ma);
    vp_equal("strength of the attached model in a matrix", ma(0, 1)(0), any_scat::s(f, di, ds, ai, as));
    volume_flat v(300.0, 10.0, scat);
    v.scattering(l, fr, di, ds, ai, as, &a);
    vp_equal("strength of the attached layer model", a(0), any_scat::s(f, di, ds, ai, as));
    v.scattering(ml, fr, di, mds, ai, mas, &ma);
    vp_equal("strength of the attached layer model in a matrix", ma(0, 1)(0), any_scat::s(f, di, ds, ai, as));
}
VP_CONTRACT(interfaces) {
    // interface numbers: 0 bottom, 1 surface, then two per layer
    double f = vp_double("f", 10, 1e4), x = vp_double("di", 0, 1.5);
    seq_vector::csptr fr(new seq_linear(f, 1.0, (size_t)1));
    auto level = [](double db) { return scattering_model::csptr(new scattering_constant(db)); };
    boundary_model::csptr bot(new boundary_flat(1000.0, nullptr, level(-10.0))), top(new boundary_flat(0.0, nullptr, level(-20.0)));
    profile_model::csptr prof(new profile_linear(1500.0));
    std::vector<volume_model::csptr> vol;
    vol.push_back(volume_model::csptr(new volume_flat(100.0, 10.0, -30.0)));
    ocean_model o(top, bot, prof, &vol);
    o.add_volume(volume_model::csptr(new volume_flat(200.0, 10.0, -40.0)));
    vp_ensures("layers", o.num_volume() == 2);
    size_t n = (size_t)vp_choice("interface", 6);
    vector<double> a(1);
    o.scattering(n, wposition1(10.0, 20.0, -30.0), fr, x, x, x, x, &a);
    const double want[6] = {-10, -20, -30, -30, -40, -40};
    vp_equal("interface strength", a(0), pow(10.0, want[n] / 10.0));
}
