// C05: interpolating grids reproduce and bound their data
// SRCS: types/seq_vector.cc types/seq_data.cc types/wposition.cc types/wvector.cc
// CONTRACT grid1_pchip: bounded axis of 4 or 5 elements, arbitrary positions and data
// CONTRACT grid2: bounded grids of 2x3 and 3x2 elements, arbitrary positions and data
// CONTRACT grid3: bounded grid of 2x2x3 elements, arbitrary positions and data
#include "vp.h"
#include <usml/types/types.h>
using namespace usml::types;
using namespace usml::ublas;
typedef seq_vector::csptr axis_t;

// axis with arbitrary (monotonic, either direction) positions
static axis_t any_axis(const char* name, size_t n, double* x) {
    vp_doubles(name, x, n, -20, 20);
    bool down = vp_choice("descending", 2) == 1;
    for (size_t i = 0; i + 1 < n; ++i) vp_requires(down ? x[i + 1] < x[i] : x[i + 1] > x[i]);
    return axis_t(new seq_data(x, n));
}
// ---- one dimension, any number of elements
VP_CONTRACT(grid1_linear) {
    double x0 = vp_double("first", -50, 50), h = vp_double("increment", -5, 5);
    size_t n = (size_t)vp_int("n", 2, 1000);
    vp_requires(h != 0.0);
    axis_t ax[1] = {axis_t(new seq_linear(x0, h, n))};
    gen_grid<1> g(ax);
    double* d = new double[n];
    vp_doubles("data", d, n, -100, 100);
    for (size_t i = 0; i < n; ++i) {
        size_t ix[1] = {i};
        g.setdata(ix, d[i]);
    }
    vp_ensures("default interpolation is linear", g.interp_type(0) == interp_enum::linear && g.edge_limit(0));
    g.interp_type(0, interp_enum::linear);
    bool limit = vp_choice("edge limit", 2) == 1;
    g.edge_limit(0, limit);
    vp_ensures("edge limit stored", g.edge_limit(0) == limit);
    size_t k = vp_index("k", n);
    size_t ik[1] = {k};
    vp_equal("data()", g.data(ik), d[k]);
    double loc[1], deriv[1];
    switch (vp_choice("where", 3)) {
        case 0: {  // inside interval k
            vp_requires(k + 1 < n);
            double u = vp_double("u", 0, 1);
            vp_requires(0 <= u && u <= 1);
            loc[0] = x0 + h * (double)k + u * h;
            double v = g.interpolate(loc, deriv);
            vp_equal("linear blend", v, d[k] * (1 - u) + d[k + 1] * u);
            vp_equal("same value without derivative", g.interpolate(loc), v);
            // strictly inside the derivative is that of the interval
            vp_requires(0 < u && u < 1);
            g.interpolate(loc, deriv);
            vp_equal("slope", deriv[0], (d[k + 1] - d[k]) / h);
            break;
        }
        case 1: {  // before the first
            double u = vp_double("before", 0, 10);
            vp_requires(u > 0);
            loc[0] = x0 - u * h;
            double v = g.interpolate(loc, deriv);
            if (limit) vp_equal("limited to the first", v, d[0]);
            else vp_equal("extrapolated from the first interval", v, d[0] - u * (d[1] - d[0]));
            break;
        }
        default: {  // after the last
            double u = vp_double("after", 0, 10);
            vp_requires(u > 0);
            loc[0] = x0 + h * (double)(n - 1) + u * h;
            double v = g.interpolate(loc, deriv);
            if (limit) vp_equal("limited to the last", v, d[n - 1]);
            else vp_equal("extrapolated from the last interval", v, d[n - 1] + u * (d[n - 1] - d[n - 2]));
        }
    }
    vp_ensures("location is not modified", loc[0] == loc[0]);
}
VP_CONTRACT(grid1_nearest) {
    double x0 = vp_double("first", -50, 50), h = vp_double("increment", -5, 5);
    size_t n = (size_t)vp_int("n", 2, 1000);
    vp_requires(h != 0.0);
    axis_t ax[1] = {axis_t(new seq_linear(x0, h, n))};
    gen_grid<1> g(ax);
    double* d = new double[n];
    vp_doubles("data", d, n, -100, 100);
    for (size_t i = 0; i < n; ++i) {
        size_t ix[1] = {i};
        g.setdata(ix, d[i]);
    }
    g.interp_type(0, interp_enum::nearest);
    vp_ensures("type stored", g.interp_type(0) == interp_enum::nearest);
    size_t k = vp_index("k", n);
    double u = vp_double("u", -0.5, 0.5);
    vp_requires(-0.5 < u && u < 0.5);
    double loc[1] = {x0 + h * (double)k + u * h}, deriv[1] = {7};
    vp_equal("nearest element", g.interpolate(loc, deriv), d[k]);
    vp_equal("derivative of a step is zero", deriv[0], 0);
}
// ---- piecewise cubic: reference Fritsch-Carlson interpolant
static double inner_slope(double h0, double h1, double d0, double d1) {
    if (d0 * d1 <= 0) return 0;
    double w0 = 2 * h1 + h0, w1 = h1 + 2 * h0;
    return (w0 + w1) / (w0 / d0 + w1 / d1);
}
// slope at an end: h0,d0 the interval at the end, h1,d1 the next one
static double end_slope(double h0, double h1, double d0, double d1) {
    double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
    if (m * d0 < 0) return 0;
    if (d0 * d1 < 0 && fabs(m) > fabs(3 * d0)) return 3 * d0;
    return m;
}
// the data are given by their first value and their slopes (any data can be)
VP_CONTRACT(grid1_pchip) {
    size_t n = 4 + (size_t)vp_choice("size", 2);
    double x[5], y[5], h[5], s[5];
    vp_doubles("h", h, 4, 0.1, 3);
    vp_doubles("s", s, 4, -10, 10);
    double sign = vp_choice("descending", 2) == 1 ? -1 : 1;
    x[0] = vp_double("x0", -10, 10);
    y[0] = vp_double("y0", -10, 10);
    for (size_t i = 0; i + 1 < n; ++i) {
        vp_requires(h[i] > 0);
        h[i] *= sign;
        x[i + 1] = x[i] + h[i];
        y[i + 1] = y[i] + s[i] * h[i];
    }
    axis_t ax[1] = {axis_t(new seq_data(x, n))};
    gen_grid<1> g(ax);
    for (size_t i = 0; i < n; ++i) {
        size_t ix[1] = {i};
        g.setdata(ix, y[i]);
    }
    g.interp_type(0, interp_enum::pchip);
    vp_ensures("type stored", g.interp_type(0) == interp_enum::pchip);
    size_t k = (size_t)vp_choice("k", n - 1);
    double u = vp_double("t", 0, 0.5);  // distance from node k
    vp_requires(0 <= u && u < h[k] * sign);
    double dx = u * sign;
    u = dx / h[k];
    double m1 = k == 0 ? end_slope(h[0], h[1], s[0], s[1]) : inner_slope(h[k - 1], h[k], s[k - 1], s[k]);
    double m2 = k == n - 2 ? end_slope(h[n - 2], h[n - 3], s[n - 2], s[n - 3]) : inner_slope(h[k], h[k + 1], s[k], s[k + 1]);
    double loc[1] = {x[k] + dx}, deriv[1];
    double v = g.interpolate(loc, deriv);
    // cubic Hermite polynomial on the interval
    double u2 = u * u, u3 = u2 * u;
    vp_equal("cubic", v, y[k] * (1 - 3 * u2 + 2 * u3) + y[k + 1] * (3 * u2 - 2 * u3) + h[k] * (m1 * (u - 2 * u2 + u3) + m2 * (u3 - u2)));
    // the reported slope is continuous: the node slopes joined by a straight line
    vp_equal("slope", deriv[0], m1 * (1 - u) + m2 * u);
}
VP_CONTRACT(grid1_pchip_any) {
    // any number of equally spaced elements
    double x0 = vp_double("first", -50, 50), h = vp_double("increment", -5, 5);
    size_t n = (size_t)vp_int("n", 4, 1000);
    vp_requires(h != 0.0);
    axis_t ax[1] = {axis_t(new seq_linear(x0, h, n))};
    gen_grid<1> g(ax);
    double* y = new double[n];
    vp_doubles("y", y, n, -100, 100);
    for (size_t i = 0; i < n; ++i) {
        size_t ix[1] = {i};
        g.setdata(ix, y[i] * h);
    }
    g.interp_type(0, interp_enum::pchip);
    size_t k = vp_index("k", n - 1);
    double u = vp_double("u", 0, 1);
    vp_requires(0 <= u && u < 1);
    double s1 = y[k + 1] - y[k], m1, m2;
    if (k == 0) m1 = end_slope(h, h, s1, y[2] - y[1]);
    else m1 = inner_slope(h, h, y[k] - y[k - 1], s1);
    if (k == n - 2) m2 = end_slope(h, h, s1, y[n - 2] - y[n - 3]);
    else m2 = inner_slope(h, h, s1, y[k + 2] - y[k + 1]);
    double loc[1] = {x0 + (double)k * h + u * h}, deriv[1];
    double v = g.interpolate(loc, deriv);
    double u2 = u * u, u3 = u2 * u;
    vp_equal("cubic", v, h * (y[k] * (1 - 3 * u2 + 2 * u3) + y[k + 1] * (3 * u2 - 2 * u3) + m1 * (u - 2 * u2 + u3) + m2 * (u3 - u2)));
    vp_equal("slope", deriv[0], m1 * (1 - u) + m2 * u);
}
// ---- several dimensions: tensor product of one dimensional rules
struct any_dim {
    size_t n, k;      // size, interval
    double x[4], h[3];
    double loc, u;    // queried location and its fraction in interval k after limiting
    bool limit, outside;
    interp_enum type;
    double lo, hi;    // weights of elements k and k+1
    double dlo, dhi;  // derivative weights
    any_dim(int id, size_t size, bool plain = false) : n(size) {
        static const char* const names[3][7] = {{"ah", "a descending", "a0", "a edge limit", "a type", "a where", "at"},
                                                {"bh", "b descending", "b0", "b edge limit", "b type", "b where", "bt"},
                                                {"ch", "c descending", "c0", "c edge limit", "c type", "c where", "ct"}};
        const char* const* p = names[id];
        vp_doubles(p[0], h, n - 1, 0.1, 3);
        double sign = !plain && vp_choice(p[1], 2) == 1 ? -1 : 1;
        x[0] = vp_double(p[2], -10, 10);
        for (size_t i = 0; i + 1 < n; ++i) {
            vp_requires(h[i] > 0);
            h[i] *= sign;
            x[i + 1] = x[i] + h[i];
        }
        limit = plain || vp_choice(p[3], 2) == 1;
        type = plain || vp_choice(p[4], 2) == 1 ? interp_enum::linear : interp_enum::nearest;
        size_t w = (size_t)vp_choice(p[5], n + 1);
        double t = vp_double(p[6], 0, 0.3);
        outside = w >= n - 1;
        if (w < n - 1) {  // inside interval w, not on an element
            k = w;
            vp_requires(0 < t && t < h[k] * sign);
            loc = x[k] + t * sign;
            u = t * sign / h[k];
        } else if (w == n - 1) {  // before the first or on it
            k = 0;
            vp_requires(t >= 0);
            loc = x[0] - t * sign;
            u = limit ? 0 : -t * sign / h[0];
        } else {  // after the last or on it
            k = n - 2;
            vp_requires(t >= 0);
            loc = x[n - 1] + t * sign;
            u = limit ? 1 : 1 + t * sign / h[k];
        }
        if (type == interp_enum::linear) { lo = 1 - u; hi = u; dlo = -1 / h[k]; dhi = 1 / h[k]; }
        else { lo = u < 0.5; hi = !(u < 0.5); dlo = dhi = 0; }
    }
    axis_t axis() const { return axis_t(new seq_data(x, n)); }
};
VP_CONTRACT(grid2) {
    any_dim a(0, 2 + (size_t)vp_choice("a size", 2)), b(1, 5 - a.n);
    axis_t ax[2] = {a.axis(), b.axis()};
    gen_grid<2> g(ax);
    double f[6];
    vp_doubles("f", f, 6, -10, 10);
    for (size_t i = 0; i < a.n; ++i)
        for (size_t j = 0; j < b.n; ++j) {
            size_t ix[2] = {i, j};
            g.setdata(ix, f[i * b.n + j]);
        }
    for (size_t i = 0; i < a.n; ++i)
        for (size_t j = 0; j < b.n; ++j) {
            size_t ix[2] = {i, j};
            vp_equal("stored", g.data(ix), f[i * b.n + j]);
        }
    g.interp_type(0, a.type);
    g.interp_type(1, b.type);
    g.edge_limit(0, a.limit);
    g.edge_limit(1, b.limit);
    double loc[2] = {a.loc, b.loc}, d[2] = {5, 5};
    double v = g.interpolate(loc, d);
    double f00 = f[a.k * b.n + b.k], f01 = f[a.k * b.n + b.k + 1], f10 = f[(a.k + 1) * b.n + b.k], f11 = f[(a.k + 1) * b.n + b.k + 1];
    double want = a.lo * (b.lo * f00 + b.hi * f01) + a.hi * (b.lo * f10 + b.hi * f11);
    vp_equal("blend of the corners", v, want);
    vp_equal("value without derivative", g.interpolate(loc), want);
    vp_equal("derivative along the first axis", d[0], a.dlo * (b.lo * f00 + b.hi * f01) + a.dhi * (b.lo * f10 + b.hi * f11));
    vp_equal("derivative along the second axis", d[1], a.lo * (b.dlo * f00 + b.dhi * f01) + a.hi * (b.dlo * f10 + b.dhi * f11));
    vp_ensures("location unchanged", loc[0] == a.loc && loc[1] == b.loc);
}
VP_CONTRACT(grid3) {
    any_dim a(0, 2, true), b(1, 2, true), c(2, 3);
    axis_t ax[3] = {a.axis(), b.axis(), c.axis()};
    gen_grid<3> g(ax);
    double f[12];
    vp_doubles("f", f, 12, -10, 10);
    for (size_t n = 0; n < 12; ++n) {
        size_t ix[3] = {n / 6, (n / 3) % 2, n % 3};
        g.setdata(ix, f[n]);
    }
    g.interp_type(2, c.type);
    g.edge_limit(2, c.limit);
    double loc[3] = {a.loc, b.loc, c.loc}, d[3];
    double v = g.interpolate(loc, d);
    double want = 0, dx = 0, dy = 0, dz = 0;
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j)
            for (int k = 0; k < 2; ++k) {
                double y = f[i * 6 + j * 3 + c.k + k];
                double wa = i ? a.hi : a.lo, wb = j ? b.hi : b.lo, wc = k ? c.hi : c.lo;
                want += wa * wb * wc * y;
                dx += (i ? a.dhi : a.dlo) * wb * wc * y;
                dy += (j ? b.dhi : b.dlo) * wa * wc * y;
                dz += (k ? c.dhi : c.dlo) * wa * wb * y;
            }
    vp_equal("blend of the corners", v, want);
    vp_equal("derivative 0", d[0], dx);
    vp_equal("derivative 1", d[1], dy);
    vp_equal("derivative 2", d[2], dz);
}
