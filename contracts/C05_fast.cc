// C05: the specialised fast grids and the matrix interface
// SRCS: types/seq_vector.cc types/seq_data.cc types/wposition.cc types/wvector.cc
// CONTRACT svp: bounded grid of 4x2x2 elements, arbitrary positions and data
// CONTRACT svp_as_grid: bounded grid of 4x2x2 elements
// CONTRACT bathy_linear: bounded grid of 2x3 elements, arbitrary positions and data
// CONTRACT bathy_pchip: bounded grid of 3x4 elements, arbitrary data
// CONTRACT matrix_1d: bounded matrices up to 2x2
// CONTRACT matrix_nd: bounded matrices up to 1x2
#include "vp.h"
#include <usml/types/types.h>
using namespace usml::types;
using namespace usml::ublas;
typedef seq_vector::csptr axis_t;

static double inner_slope(double h0, double h1, double d0, double d1) {
    if (d0 * d1 <= 0) return 0;
    double w0 = 2 * h1 + h0, w1 = h1 + 2 * h0;
    return (w0 + w1) / (w0 / d0 + w1 / d1);
}
static double end_slope(double h0, double h1, double d0, double d1) {
    double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
    if (m * d0 <= 0) return 0;
    if (d0 * d1 <= 0 && fabs(m) > fabs(3 * d0)) return 3 * d0;
    return m;
}
// profile grid: piecewise cubic in depth, linear in latitude and longitude
VP_CONTRACT(svp) {
    // columns share their slopes but not their first value: the horizontal blend is general
    double z[4], h[3], s[3], y0[4], f[16];
    vp_doubles("h", h, 3, 0.1, 3);
    vp_doubles("s", s, 3, -10, 10);
    vp_doubles("y0", y0, 4, -10, 10);
    double sign = vp_choice("descending", 2) == 1 ? -1 : 1;
    z[0] = vp_double("z0", -10, 10);
    for (size_t i = 0; i < 3; ++i) {
        vp_requires(h[i] > 0);
        h[i] *= sign;
        z[i + 1] = z[i] + h[i];
    }
    double x0 = vp_double("x0", -5, 5), dx = vp_double("dx", 0.1, 2), w0 = vp_double("w0", -5, 5), dw = vp_double("dw", 0.1, 2);
    vp_requires(dx > 0 && dw > 0);
    // amplitude of the depth dependence differs by column only through a sign free factor 1
    axis_t ax[3] = {axis_t(new seq_data(z, 4)), axis_t(new seq_linear(x0, dx, (size_t)2)), axis_t(new seq_linear(w0, dw, (size_t)2))};
    auto* g = new gen_grid<3>(ax);
    for (size_t c = 0; c < 4; ++c) {
        double y = y0[c];
        for (size_t i = 0; i < 4; ++i) {
            size_t ix[3] = {i, c / 2, c % 2};
            g->setdata(ix, y);
            if (i < 3) y += s[i] * h[i];
        }
    }
    bool limit = vp_choice("edge limit", 2) == 1;
    for (size_t n = 0; n < 3; ++n) g->edge_limit(n, limit);
    data_grid<3>::csptr gp(g);
    data_grid_svp fast(gp);
    size_t k = (size_t)vp_choice("k", 3);
    double t = vp_double("t", 0, 0.1), u = vp_double("u", 0, 1), v = vp_double("v", 0, 1);
    vp_requires(0 < t && t < h[k] * sign && 0 <= u && u <= 1 && 0 <= v && v <= 1);
    double loc[3] = {z[k] + t * sign, x0 + u * dx, w0 + v * dw}, d[3];
    double value = fast.interpolate(loc, d);
    double m1 = k == 0 ? end_slope(h[0], h[1], s[0], s[1]) : inner_slope(h[k - 1], h[k], s[k - 1], s[k]);
    double m2 = k == 2 ? end_slope(h[2], h[1], s[2], s[1]) : inner_slope(h[k], h[k + 1], s[k], s[k + 1]);
    double a = t * sign / h[k], a2 = a * a, a3 = a2 * a, base = 0;
    for (size_t i = 0; i < k; ++i) base += s[i] * h[i];
    double depth = base + s[k] * h[k] * (3 * a2 - 2 * a3) + h[k] * (m1 * (a - 2 * a2 + a3) + m2 * (a3 - a2));
    double flat = (1 - u) * ((1 - v) * y0[0] + v * y0[1]) + u * ((1 - v) * y0[2] + v * y0[3]);
    vp_equal("value", value, flat + depth);
    // exact derivative of the cubic
    vp_equal("depth derivative", d[0], s[k] * (6 * a - 6 * a2) + m1 * (1 - 4 * a + 3 * a2) + m2 * (3 * a2 - 2 * a));
    vp_equal("latitude derivative", d[1], ((1 - v) * (y0[2] - y0[0]) + v * (y0[3] - y0[1])) / dx);
    vp_equal("longitude derivative", d[2], ((1 - u) * (y0[1] - y0[0]) + u * (y0[3] - y0[2])) / dw);
}
VP_CONTRACT(svp_as_grid) {
    // nodes and edges through the general interface
    double z[4] = {0, 1, 3, 7}, f[16];
    double y[4], col[4];
    vp_doubles("y", y, 4, -10, 10);
    vp_doubles("col", col, 4, -10, 10);
    for (size_t n = 0; n < 16; ++n) f[n] = y[n / 4] + col[n % 4];
    axis_t ax[3] = {axis_t(new seq_data(z, 4)), axis_t(new seq_linear(1.0, 2.0, (size_t)2)), axis_t(new seq_linear(-1.0, 1.0, (size_t)2))};
    auto* g = new gen_grid<3>(ax);
    for (size_t n = 0; n < 16; ++n) {
        size_t ix[3] = {n / 4, (n / 2) % 2, n % 2};
        g->setdata(ix, f[n]);
    }
    data_grid<3>::csptr gp(g), fp(new data_grid_svp(gp));
    size_t n = (size_t)vp_choice("node", 16);
    size_t ix[3] = {n / 4, (n / 2) % 2, n % 2};
    double loc[3] = {z[n / 4], 1.0 + 2.0 * ((n / 2) % 2), -1.0 + 1.0 * (n % 2)};
    vp_equal("stored value", fp->data(ix), f[n]);
    vp_equal("node value", fp->interpolate(loc), f[n]);
    vp_ensures("axis", fp->axis(0).size() == 4 && fp->axis(1).size() == 2 && fp->edge_limit(1));
    double fl[3] = {loc[0], loc[1], loc[2]};
    vp_equal("fast node value", static_cast<const data_grid_svp*>(fp.get())->interpolate(fl), f[n]);
}
VP_CONTRACT(bathy_linear) {
    double f[6], x[2], y[3], hy[2];
    double x0 = vp_double("x0", -5, 5), hx = vp_double("hx", -2, 2), y0 = vp_double("y0", -5, 5);
    vp_requires(hx != 0);
    vp_doubles("hy", hy, 2, 0.1, 2);
    vp_requires(hy[0] > 0 && hy[1] > 0);
    double sign = vp_choice("descending", 2) == 1 ? -1 : 1;
    y[0] = y0; y[1] = y0 + sign * hy[0]; y[2] = y[1] + sign * hy[1];
    vp_doubles("f", f, 6, -10, 10);
    x[0] = x0; x[1] = x0 + hx;
    axis_t ax[2] = {axis_t(new seq_data(x, 2)), axis_t(new seq_data(y, 3))};
    auto* g = new gen_grid<2>(ax);
    for (size_t n = 0; n < 6; ++n) {
        size_t ix[2] = {n / 3, n % 3};
        g->setdata(ix, f[n]);
    }
    bool limit = vp_choice("edge limit", 2) == 1, linear = vp_choice("linear", 2) == 1;
    for (size_t n = 0; n < 2; ++n) {
        g->edge_limit(n, limit);
        g->interp_type(n, linear ? interp_enum::linear : interp_enum::nearest);
    }
    data_grid<2>::csptr gp(g), fast(new data_grid_bathy(gp));
    // anywhere: inside, on and beyond the edges
    size_t w = (size_t)vp_choice("where", 4);
    double t = vp_double("t", 0, 0.3), u = vp_double("u", 0, 1);
    vp_requires(0 <= u && u <= 1 && t > 0);
    double ly;
    if (w == 0) ly = y[0] - sign * t;
    else if (w == 1) { vp_requires(t < hy[0]); ly = y[0] + sign * t; }
    else if (w == 2) { vp_requires(t < hy[1]); ly = y[1] + sign * t; }
    else ly = y[2] + sign * t;
    double loc[2] = {x0 + u * hx, ly}, d1[2], d2[2];
    double v1 = gp->interpolate(loc, d1), v2 = fast->interpolate(loc, d2);
    vp_equal("same value as the general grid", v2, v1);
    vp_equal("same value without derivative", fast->interpolate(loc), v1);
    vp_equal("same derivative 0", d2[0], d1[0]);
    vp_equal("same derivative 1", d2[1], d1[1]);
    vp_ensures("location unchanged", loc[1] == ly);
}
static double H0(double u) { return 1 - 3 * u * u + 2 * u * u * u; }
static double H1(double u) { return u - 2 * u * u + u * u * u; }
static double D0(double u) { return 6 * u * u - 6 * u; }
static double D1(double u) { return 1 - 4 * u + 3 * u * u; }
VP_CONTRACT(bathy_pchip) {
    // bicubic Hermite surface through the data, equally spaced axes
    double f[12];
    vp_doubles("f", f, 12, -10, 10);
    double x0 = vp_double("x0", -5, 5), hx = vp_double("hx", -2, 2), y0 = vp_double("y0", -5, 5), hy = vp_double("hy", -2, 2);
    vp_requires(hx != 0 && hy != 0);
    axis_t ax[2] = {axis_t(new seq_linear(x0, hx, (size_t)3)), axis_t(new seq_linear(y0, hy, (size_t)4))};
    auto* g = new gen_grid<2>(ax);
    auto F = [&](size_t i, size_t j) { return f[i * 4 + j]; };
    for (size_t n = 0; n < 12; ++n) {
        size_t ix[2] = {n / 4, n % 4};
        g->setdata(ix, f[n]);
    }
    g->interp_type(0, interp_enum::pchip);
    g->interp_type(1, interp_enum::pchip);
    struct fast_grid : data_grid_bathy {
        fast_grid(data_grid<2>::csptr g) : data_grid_bathy(g) { _interp_type[0] = _interp_type[1] = interp_enum::pchip; }
    };
    data_grid<2>::csptr gp(g), fast(new fast_grid(gp));
    size_t k0 = (size_t)vp_choice("k0", 2), k1 = (size_t)vp_choice("k1", 3);
    double u = vp_double("u", 0, 1), v = vp_double("v", 0, 1);
    vp_requires(0 <= u && u < 1 && 0 <= v && v < 1);
    double loc[2] = {x0 + hx * (double)k0 + u * hx, y0 + hy * (double)k1 + v * hy}, d[2];
    double value = fast->interpolate(loc, d);
    // node slopes: half the difference of the clamped neighbours
    double want = 0, wx = 0, wy = 0;
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j) {
            size_t a = k0 + i, b = k1 + j;
            size_t am = a ? a - 1 : a, ap = a < 2 ? a + 1 : a, bm = b ? b - 1 : b, bp = b < 3 ? b + 1 : b;
            double fx = (F(ap, b) - F(am, b)) / 2, fy = (F(a, bp) - F(a, bm)) / 2, fxy = (F(ap, bp) - F(ap, bm) - F(am, bp) + F(am, bm)) / 4;
            double pu = i ? 1 - u : u, pv = j ? 1 - v : v, su = i ? -1 : 1, sv = j ? -1 : 1;
            want += H0(pu) * H0(pv) * F(a, b) + su * H1(pu) * H0(pv) * fx + sv * H0(pu) * H1(pv) * fy + su * sv * H1(pu) * H1(pv) * fxy;
            wx += su * D0(pu) * H0(pv) * F(a, b) + D1(pu) * H0(pv) * fx + su * sv * D0(pu) * H1(pv) * fy + sv * D1(pu) * H1(pv) * fxy;
            wy += sv * H0(pu) * D0(pv) * F(a, b) + su * sv * H1(pu) * D0(pv) * fx + H0(pu) * D1(pv) * fy + su * H1(pu) * D1(pv) * fxy;
        }
    vp_equal("bicubic value", value, want);
    vp_equal("exact derivative 0", d[0] * hx, wx);
    vp_equal("exact derivative 1", d[1] * hy, wy);
}
VP_CONTRACT(matrix_1d) {
    // the matrix interface is the point interface in every cell
    double x0 = vp_double("x0", -5, 5), h = vp_double("h", 0.1, 2);
    vp_requires(h > 0);
    axis_t ax[1] = {axis_t(new seq_linear(x0, h, (size_t)3))};
    gen_grid<1> g(ax);
    double f[3], q[4];
    vp_doubles("f", f, 3, -10, 10);
    vp_doubles("q", q, 4, -5, 5);
    for (size_t n = 0; n < 3; ++n) { size_t ix[1] = {n}; g.setdata(ix, f[n]); }
    size_t rows = 1 + (size_t)vp_choice("rows", 2), cols = 1 + (size_t)vp_choice("cols", 2);
    matrix<double> x(rows, cols), r(rows, cols), rd(rows, cols), d(rows, cols);
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) x(i, j) = q[i * 2 + j];
    const data_grid<1>& dg = g;
    dg.interpolate(x, &r);
    dg.interpolate(x, &rd, &d);
    size_t i = (size_t)vp_choice("i", 2), j = (size_t)vp_choice("j", 2);
    vp_requires(i < rows && j < cols);
    double loc[1] = {q[i * 2 + j]}, dd[1];
    double v = g.interpolate(loc, dd);
    vp_equal("value", r(i, j), v);
    vp_equal("value with derivative", rd(i, j), v);
    vp_equal("derivative", d(i, j), dd[0]);
    vp_equal("query unchanged", x(i, j), q[i * 2 + j]);
}
VP_CONTRACT(matrix_nd) {
    axis_t ax[3] = {axis_t(new seq_linear(0.0, 1.0, (size_t)2)), axis_t(new seq_linear(0.0, 2.0, (size_t)2)), axis_t(new seq_linear(1.0, -1.0, (size_t)2))};
    double f[8], qx[2], qy[2], qz[2];
    vp_doubles("f", f, 8, -10, 10);
    vp_doubles("qx", qx, 2, 0, 1);
    vp_doubles("qy", qy, 2, 0, 2);
    vp_doubles("qz", qz, 2, 0, 1);
    for (int i = 0; i < 2; ++i) vp_requires(0 < qx[i] && qx[i] < 1 && 0 < qy[i] && qy[i] < 2 && 0 < qz[i] && qz[i] < 1);
    gen_grid<3> g(ax);
    gen_grid<2> g2(ax);
    for (size_t n = 0; n < 8; ++n) {
        size_t ix[3] = {n / 4, (n / 2) % 2, n % 2};
        g.setdata(ix, f[n]);
        if (n < 4) { size_t i2[2] = {n / 2, n % 2}; g2.setdata(i2, f[n]); }
    }
    matrix<double> x(1, 2), y(1, 2), z(1, 2), r(1, 2), rd(1, 2), dx(1, 2), dy(1, 2), dz(1, 2), s(1, 2), sd(1, 2), sx(1, 2), sy(1, 2);
    for (size_t i = 0; i < 2; ++i) { x(0, i) = qx[i]; y(0, i) = qy[i]; z(0, i) = qz[i]; }
    const data_grid<3>& dg = g;
    const data_grid<2>& dg2 = g2;
    dg.interpolate(x, y, z, &r);
    dg.interpolate(x, y, z, &rd, &dx, &dy, &dz);
    dg2.interpolate(x, y, &s);
    dg2.interpolate(x, y, &sd, &sx, &sy);
    for (size_t i = 0; i < 2; ++i) {
        double loc[3] = {qx[i], qy[i], qz[i]}, d[3];
        double v = g.interpolate(loc, d);
        vp_equal("value 3d", r(0, i), v);
        vp_equal("value 3d with derivative", rd(0, i), v);
        vp_equal("derivative 0", dx(0, i), d[0]);
        vp_equal("derivative 1", dy(0, i), d[1]);
        vp_equal("derivative 2", dz(0, i), d[2]);
        v = g2.interpolate(loc, d);
        vp_equal("value 2d", s(0, i), v);
        vp_equal("value 2d with derivative", sd(0, i), v);
        vp_equal("2d derivative 0", sx(0, i), d[0]);
        vp_equal("2d derivative 1", sy(0, i), d[1]);
    }
}
