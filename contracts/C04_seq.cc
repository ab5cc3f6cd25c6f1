// C04: sequence axes
// SRCS: types/seq_vector.cc types/seq_data.cc types/seq_rayfan.cc
// CONTRACT log_values: bounded 2 to 5 elements
// CONTRACT log_find: bounded 3 to 5 elements
// CONTRACT data_values: bounded 1 to 4 elements
// CONTRACT best_values: bounded 1 to 4 elements
// CONTRACT best_exact_axes: bounded 3 to 4 elements
// CONTRACT best_other_axes: bounded 3 to 4 elements
// CONTRACT clip_values: bounded 4 elements
// CONTRACT rayfan: bounded 2 to 4 elements
// CONTRACT iterate: bounded 3 elements
#include "vp.h"
#include <usml/types/seq_augment.h>
#include <usml/types/seq_data.h>
#include <usml/types/seq_linear.h>
#include <usml/types/seq_log.h>
#include <usml/types/seq_rayfan.h>
#include <usml/types/seq_vector.h>
#include <stdexcept>
using namespace usml::types;

// an index result brackets the value, or is the clipped end interval
static void brackets(const seq_vector& s, double x, size_t k, bool up) {
    size_t n = s.size();
    vp_ensures("interval index in range", k + 2 <= n);
    double lo = s(k), hi = s(k + 1);
    if (!up) { lo = -lo; hi = -hi; x = -x; }
    vp_ensures("value not below its interval", k == 0 || lo <= x);
    vp_ensures("value not above its interval", k + 2 == n || x <= hi);
}
VP_CONTRACT(lin_values) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", -10, 10);
    size_t n = (size_t)vp_int("n", 1, 1000000);
    seq_linear s(first, inc, n);
    vp_ensures("size", s.size() == n);
    size_t i = vp_index("i", n);
    vp_equal("value", s(i), first + inc * (double)i);
    vp_equal("value by []", s[i], first + inc * (double)i);
    vp_equal("increment", s.increment(i), inc);
    size_t far = (size_t)vp_int("far", (int64_t)n, 3000000);
    vp_equal("index past the end is clipped", s(far), first + inc * (double)(n - 1));
    vp_equal("increment past the end is clipped", s.increment(far), inc);
}
VP_CONTRACT(lin_int_ctor) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", -10, 10);
    int n = (int)vp_int("n", 1, 1000000);
    seq_linear s(first, inc, n);
    vp_ensures("size", s.size() == (size_t)n);
    size_t i = vp_index("i", (size_t)n);
    vp_equal("value", s(i), first + inc * (double)i);
    vp_equal("increment", s.increment(i), inc);
}
VP_CONTRACT(lin_first_last) {
    double first = vp_double("first", -100, 100), last = vp_double("last", -100, 100);
    size_t n = (size_t)vp_int("n", 2, 1000000);
    seq_linear s(first, last, n, true);
    size_t i = vp_index("i", n);
    vp_ensures("size", s.size() == n);
    vp_equal("first", s(0), first);
    vp_equal("last", s(n - 1), last);
    vp_equal("even spacing", (s(i) - first) * (double)(n - 1), (last - first) * (double)i);
}
VP_CONTRACT(lin_last_ctor) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", 0.1, 10), last = vp_double("last", -100, 100);
    vp_requires(inc != 0 && inc > -1e6 && inc < 1e6 && (last - first) / inc >= 0 && (last - first) / inc < 1e6);
    seq_linear s(first, inc, last);
    size_t n = s.size();
    double over = (last - first) / inc;  // steps to the last value
    vp_le("last included within a tenth of a step", (double)(n - 1), over + 0.1);
    vp_ensures("no value short of last omitted", over + 0.1 < (double)n + 1e-6);
    size_t i = vp_index("i", n);
    vp_equal("value", s(i), first + inc * (double)i);
}
VP_CONTRACT(lin_find) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", -10, 10);
    size_t n = (size_t)vp_int("n", 2, 1000000);
    vp_requires(inc != 0);
    seq_linear s(first, inc, n);
    double x = vp_double("x", -100, 100);
    vp_requires(x > -1e9 && x < 1e9 && (x - first) / inc < 1e12 && (x - first) / inc > -1e12);
    brackets(s, x, s.find_index(x), inc > 0);
}
VP_CONTRACT(lin_nearest) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", -10, 10);
    size_t n = (size_t)vp_int("n", 1, 1000000);
    vp_requires(inc != 0);
    if (inc > 0) vp_cover("increasing"); else vp_cover("decreasing");
    seq_linear s(first, inc, n);
    double u = vp_double("u", -100, 100), x = first + u * inc;
    vp_requires(u < 1e12 && u > -1e12);
    size_t k = s.find_nearest(x), j = vp_index("j", n);
    vp_ensures("nearest index in range", k < n);
    vp_le("no element is nearer", fabs(s(k) - x), fabs(s(j) - x));
}
VP_CONTRACT(log_values) {
    double first = vp_double("first", 0.1, 100), ratio = vp_double("ratio", 0.2, 4);
    size_t n = 2 + (size_t)vp_choice("n-2", 4);
    vp_requires(first > 0 && ratio > 0 && ratio != 1);
    seq_log s(first, ratio, n);
    vp_ensures("size", s.size() == n);
    vp_equal("first", s(0), first);
    for (size_t i = 1; i < n; ++i) vp_equal("ratio", s(i), s(i - 1) * ratio);
    for (size_t i = 0; i + 1 < n; ++i) vp_equal("increment", s.increment(i), s(i + 1) - s(i));
    vp_equal("last increment", s.increment(n - 1), s(n - 1) - s(n - 2));
}
VP_CONTRACT(log_find) {
    double first = vp_double("first", 0.1, 100), ratio = vp_double("ratio", 0.2, 4);
    size_t n = 3 + (size_t)vp_choice("n-3", 3);
    vp_requires(first > 0 && ratio > 1e-3 && ratio < 1e3 && (ratio > 1.001 || ratio < 0.999));
    seq_log s(first, ratio, (int)n);
    double x = vp_double("x", 0.01, 200);
    vp_requires(x > 0);
    size_t k = s.find_index(x);
    vp_ensures("interval index in range", k + 2 <= n);
    // the index counts whole ratios between the first value and x
    double steps = log(x / first) / log(ratio);
    vp_ensures("value not below its interval", k == 0 || (double)k <= steps + 1e-9);
    vp_ensures("value not above its interval", k + 2 == n || steps <= (double)k + 1 + 1e-9);
}
VP_CONTRACT(data_values) {
    double v[4];
    size_t n = 1 + (size_t)vp_choice("n-1", 4);
    vp_doubles("v", v, n, -50, 50);
    bool up = true, down = true;
    for (size_t i = 1; i < n; ++i) { up = up && v[i] > v[i - 1]; down = down && v[i] < v[i - 1]; }
    boost::numeric::ublas::vector<double> d(n);
    for (size_t i = 0; i < n; ++i) d(i) = v[i];
    bool threw = false;
    try {
        seq_data s(d);
        vp_ensures("size", s.size() == n);
        vp_ensures("only monotonic data accepted", up || down || n < 3);
        size_t i = vp_index("i", n);
        vp_equal("value", s(i), v[i]);
        if (n > 1) {
            vp_equal("increment", s.increment(i), i + 1 < n ? v[i + 1] - v[i] : v[n - 1] - v[n - 2]);
            if (up || down) {
                double x = vp_double("x", -60, 60);
                size_t k = s.find_index(x);
                brackets(s, x, k, up);
                size_t m = s.find_nearest(x), j = vp_index("j", n);
                vp_le("no element is nearer", fabs(v[m] - x), fabs(v[j] - x));
            }
        }
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    if (threw) vp_ensures("monotonic data is not rejected", !up && !down);
}
VP_CONTRACT(best_values) {
    double v[4];
    size_t n = 1 + (size_t)vp_choice("n-1", 4);
    vp_doubles("v", v, n, -50, 50);
    bool up = true, down = true;
    for (size_t i = 1; i < n; ++i) { up = up && v[i] > v[i - 1]; down = down && v[i] < v[i - 1]; }
    vp_requires(up || down);
    seq_vector::csptr s = seq_vector::build_best(v, n);
    vp_ensures("size", s->size() == n);
    vp_equal("first", (*s)(0), v[0]);
    vp_equal("last", (*s)(n - 1), v[n - 1]);
}
VP_CONTRACT(best_exact_axes) {
    // exactly linear and exactly geometric data are reproduced
    size_t n = 3 + (size_t)vp_choice("n-3", 2);
    double a = vp_double("a", -10, 10), v[4];
    if (vp_choice("kind", 2) == 0) {
        double d = vp_double("d", -10, 10);
        vp_requires(d != 0);
        for (size_t i = 0; i < n; ++i) v[i] = a + d * (double)i;
    } else {
        double r = vp_double("r", 0.5, 3);
        vp_requires(r > 0.01 && r != 1 && a != 0);
        v[0] = a;
        for (size_t i = 1; i < n; ++i) v[i] = v[i - 1] * r;
        // far enough from linear that the two kinds are not confused
        vp_requires(fabs((v[2] - v[1] - (v[1] - v[0])) / v[1]) > 2e-4);
    }
    seq_vector::csptr s = seq_vector::build_best(v, n);
    vp_ensures("size", s->size() == n);
    for (size_t i = 0; i < n; ++i) vp_equals("value", (*s)(i), v[i], 1);
}
VP_CONTRACT(best_other_axes) {
    // anything clearly neither linear nor geometric is kept as it is
    double v[4];
    size_t n = 3 + (size_t)vp_choice("n-3", 2);
    vp_doubles("v", v, n, -50, 50);
    bool up = true, down = true;
    for (size_t i = 1; i < n; ++i) { up = up && v[i] > v[i - 1]; down = down && v[i] < v[i - 1]; }
    vp_requires(up || down);
    bool lin = true, geo = true;
    for (size_t i = 2; i < n; ++i) {
        lin = lin && fabs(v[i] - 2 * v[i - 1] + v[i - 2]) <= 1.1e-4 * (fabs(v[i - 1]) + fabs(v[i]));
        geo = geo && v[i - 1] != 0 && v[i - 2] != 0 && fabs(v[i] / v[i - 1] - v[i - 1] / v[i - 2]) <= 1.1e-5;
    }
    vp_requires(!lin && !geo);
    seq_vector::csptr s = seq_vector::build_best(v, n);
    for (size_t i = 0; i < n; ++i) vp_equal("value", (*s)(i), v[i]);
}
VP_CONTRACT(clip_values) {
    double v[4];
    const size_t n = 4;
    vp_doubles("v", v, n, -50, 50);
    vp_requires(v[0] < v[1] && v[1] < v[2] && v[2] < v[3]);
    boost::numeric::ublas::vector<double> d(n);
    for (size_t i = 0; i < n; ++i) d(i) = v[i];
    seq_data s(d);
    double lo = vp_double("lo", -60, 60), hi = vp_double("hi", -60, 60);
    size_t cnt = 0, start = 0;
    for (size_t i = 0; i < n; ++i)
        if (v[i] >= lo && v[i] <= hi) { if (cnt == 0) start = i; ++cnt; }
    vp_requires(cnt > 0);
    seq_vector::csptr c = s.clip(lo, hi);
    vp_ensures("clip keeps exactly the values in range", c->size() == cnt);
    vp_equal("first value in range", (*c)(0), v[start]);
    vp_equal("last value in range", (*c)(cnt - 1), v[start + cnt - 1]);
}
VP_CONTRACT(rayfan) {
    double a = vp_double("first", -90, 90), b = vp_double("last", -90, 90), c = vp_double("center", -90, 90), w = vp_double("spread", 1, 20);
    size_t n = 2 + (size_t)vp_choice("n-2", 3);
    vp_requires(a != b && w > 0);
    seq_rayfan s(a, b, n, c, w);
    vp_ensures("size", s.size() == n);
    vp_equal("starts at the smaller limit", s(0), a < b ? a : b);
    vp_equal("ends at the larger limit", s(n - 1), a < b ? b : a);
    // equal steps in the tangent-transformed angle
    double fa = atan(((a < b ? a : b) - c) / w), la = atan(((a < b ? b : a) - c) / w);
    for (size_t i = 0; i < n; ++i)
        vp_equal("tangent spacing", s(i), c + w * tan(fa + (la - fa) * (double)i / (double)(n - 1)));
}
VP_CONTRACT(iterate) {
    double first = vp_double("first", -100, 100), inc = vp_double("inc", -10, 10);
    const size_t n = 3;
    seq_linear s(first, inc, n);
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) vp_equal("forward", *it, first + inc * (double)i);
    vp_ensures("forward count", i == n);
    i = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it, ++i) vp_equal("backward", *it, first + inc * (double)(n - 1 - i));
    vp_ensures("backward count", i == n);
    seq_linear t(vp_double("first2", -100, 100), vp_double("inc2", -10, 10), n);
    bool same = true;
    for (size_t k = 0; k < n; ++k) same = same && s(k) == t(k);
    vp_ensures("equality", (s == t) == same);
    vp_ensures("inequality", (s != t) == !same);
    vp_ensures("sizes differ", s != seq_linear(first, inc, n + 1));
}
