// C15: grid interpolation agrees with an independent reference for every grid in
// a bounded lattice of axes, data, interpolation types, edge limits and points.
#include <seq.h>
#include <usml/types/data_grid_bathy.h>
#include <usml/types/data_grid_svp.h>
#include <usml/types/types.h>
#include <usml/netcdf/netcdf_files.h>
#include <netcdf>

#include <cmath>
#include <vector>

using namespace usml::types;
typedef std::vector<double> vec;
typedef interp_enum I;

static bool eq(double a, double b, double scale = 1.0) { return seq::near(a, b, 1e-7, 1e-9 * (1 + scale)); }

// ---------------------------------------------------------------- reference
static double pchip_slope(const vec& x, const vec& y, size_t i) {
    size_t n = x.size();
    auto h = [&](size_t k) { return x[k + 1] - x[k]; };
    auto d = [&](size_t k) { return (y[k + 1] - y[k]) / h(k); };
    auto end = [](double h0, double h1, double d0, double d1) {
        double m = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1);
        if (m * d0 < 0) return 0.0;
        if (d0 * d1 < 0 && std::fabs(m) > 3 * std::fabs(d0)) return 3 * d0;
        return m;
    };
    if (i == 0) return end(h(0), h(1), d(0), d(1));
    if (i == n - 1) return end(h(n - 2), h(n - 3), d(n - 2), d(n - 3));
    if (d(i - 1) * d(i) <= 0) return 0.0;
    double w1 = 2 * h(i) + h(i - 1), w2 = h(i) + 2 * h(i - 1);
    return (w1 + w2) / (w1 / d(i - 1) + w2 / d(i));
}
// value and derivative at both ends blended as documented (linear change of slope)
struct out { double v, dv; };
static size_t interval(const vec& x, double& p, bool limit) {
    size_t n = x.size();
    double s = x[1] > x[0] ? 1 : -1;
    if (limit) { if (s * p < s * x[0]) p = x[0]; if (s * p > s * x[n - 1]) p = x[n - 1]; }
    size_t k = 0;
    while (k + 2 < n && s * p >= s * x[k + 1]) ++k;
    return k;
}
static double ref1(I type, const vec& x, const vec& y, double p, bool limit) {
    size_t n = x.size();
    if (n < 2) return y[0];
    if (type == I::pchip && n < 4) type = I::linear;
    size_t k = interval(x, p, limit);
    double h = x[k + 1] - x[k], t = (p - x[k]) / h;
    if (type == I::nearest) return t < 0.5 ? y[k] : y[k + 1];
    if (type == I::linear) return y[k] + (y[k + 1] - y[k]) * t;
    double m0 = pchip_slope(x, y, k), m1 = pchip_slope(x, y, k + 1);
    return (1 + 2 * t) * (1 - t) * (1 - t) * y[k] + t * (1 - t) * (1 - t) * h * m0 + t * t * (3 - 2 * t) * y[k + 1] + t * t * (t - 1) * h * m1;
}
static double dref1(I type, const vec& x, const vec& y, double p, bool limit) {
    size_t n = x.size();
    if (n < 2) return 0;
    if (type == I::pchip && n < 4) type = I::linear;
    size_t k = interval(x, p, limit);
    double h = x[k + 1] - x[k];
    if (type == I::nearest) return 0;
    if (type == I::linear) return (y[k + 1] - y[k]) / h;
    double m0 = pchip_slope(x, y, k), m1 = pchip_slope(x, y, k + 1), t = (p - x[k]) / h;
    return m0 * (1 - t) + m1 * t;
}
// N-dimensional: interpolate the inner dimensions first, then this one
struct grid_ref {
    std::vector<vec> ax;
    vec data;             // last axis fastest
    std::vector<I> type;
    std::vector<bool> limit;
    double at(const std::vector<size_t>& i) const { size_t o = 0; for (size_t d = 0; d < ax.size(); ++d) o = o * ax[d].size() + i[d]; return data[o]; }
    // wrt < 0: value; otherwise derivative along axis wrt
    double eval(int dim, std::vector<size_t>& idx, const double* p, int wrt) const {
        if (dim < 0) return at(idx);
        const vec& x = ax[dim];
        vec y(x.size());
        for (size_t k = 0; k < x.size(); ++k) { idx[dim] = k; y[k] = eval(dim - 1, idx, p, wrt); }
        return wrt == dim ? dref1(type[dim], x, y, p[dim], limit[dim]) : ref1(type[dim], x, y, p[dim], limit[dim]);
    }
    double value(const double* p) const { std::vector<size_t> i(ax.size()); return eval(ax.size() - 1, i, p, -1); }
    double deriv(const double* p, int wrt) const { std::vector<size_t> i(ax.size()); return eval(ax.size() - 1, i, p, wrt); }
};
// true if p is safely away from a tie where either side is acceptable
static bool clear(const grid_ref& g, const double* p, bool deriv) {
    for (size_t d = 0; d < g.ax.size(); ++d) {
        const vec& x = g.ax[d];
        for (size_t k = 0; k < x.size(); ++k) {
            double h = k + 1 < x.size() ? x[k + 1] - x[k] : 1.0;
            if (deriv && std::fabs(p[d] - x[k]) < 1e-6 * std::fabs(h)) return false;
            if (g.type[d] == I::nearest && k + 1 < x.size() && std::fabs(p[d] - x[k] - h / 2) < 1e-6 * std::fabs(h)) return false;
        }
    }
    return true;
}

static seq_vector::csptr axis(int kind, int n) {
    vec v;
    double un[] = {1, 1.5, 4, 5, 9, 9.5, 20};
    for (int i = 0; i < n; ++i) v.push_back(kind == 2 ? un[i] : kind == 3 ? -un[i] : i);
    switch (kind) {
        case 0: return seq_vector::csptr(new seq_linear(-1.0, 2.0, n));
        case 1: return seq_vector::csptr(new seq_linear(5.0, -0.5, n));
        case 4: return n > 1 ? seq_vector::csptr(new seq_log(1.0, 2.0, n)) : seq_vector::csptr(new seq_linear(1.0, 1.0, 1));
        default: return seq_vector::csptr(new seq_data(v));
    }
}
static vec points(const vec& x) {
    vec p;
    for (size_t k = 0; k < x.size(); ++k) {
        double h = k + 1 < x.size() ? x[k + 1] - x[k] : 1.0;
        for (double f : {0.0, 0.13, 0.45, 0.62, 0.97}) p.push_back(x[k] + f * h);
    }
    double s = x.size() > 1 && x[1] < x[0] ? -1 : 1;
    p.push_back(x[0] - s * 0.7); p.push_back(x[0] - s * 50); p.push_back(x.back() + s * 30);
    return p;
}
template <size_t N> static void check_point(const gen_grid<N>& g, const grid_ref& r, const double* p) {
    double in[N], d[N], scale = 0;
    for (double v : r.data) scale = std::max(scale, std::fabs(v));
    std::copy_n(p, N, in);
    seq::evaluated();
    if (clear(r, p, false)) {
        double want = r.value(p);
        double got = g.interpolate(in);
        for (size_t i = 0; i < N; ++i) in[i] = p[i];
        // extrapolated cubics are large: scale the tolerance by the result
        seq::check(eq(got, want, scale), "value at (%g %g %g) is %.12g instead of %.12g", p[0], N > 1 ? p[1] : 0, N > 2 ? p[2] : 0, got, want);
        double v2 = g.interpolate(in, d);
        seq::check(eq(v2, got, scale), "value changes when the derivative is asked for");
        for (size_t i = 0; i < N; ++i) in[i] = p[i];
        seq::observe("%.5g ", got);
    }
    if (clear(r, p, true)) {
        bool limited = false;   // the derivative outside of a limited axis is not specified
        for (size_t i = 0; i < N; ++i) {
            double lo = std::min(r.ax[i][0], r.ax[i].back()), hi = std::max(r.ax[i][0], r.ax[i].back());
            if (r.limit[i] && (p[i] < lo || p[i] > hi)) limited = true;
        }
        if (limited) return;
        g.interpolate(in, d);
        for (size_t i = 0; i < N; ++i) {
            // documented for the axis itself; inner derivatives of a cubic are exact only through linear axes
            bool cubic_outer = false;
            for (size_t j = i + 1; j < N; ++j) if (r.type[j] == I::pchip && r.ax[j].size() >= 4) cubic_outer = true;
            if (cubic_outer) continue;
            double want = r.deriv(p, i);
            seq::check(eq(d[i], want, scale), "derivative %d at (%g %g %g) is %.12g instead of %.12g", (int)i, p[0], N > 1 ? p[1] : 0, N > 2 ? p[2] : 0, d[i], want);
        }
    }
}
static double datum(int pattern, size_t k) {
    static const double a[] = {3, 7, 7.5, 2, -1, -4, 10, 11, 11, 5, 0.5, 0.25, 8, -3, 6, 1};
    switch (pattern) {
        case 0: return 2.0 + 3.0 * k;
        case 1: return a[(k * 7 + 3) % 16];
        case 2: return a[k % 16];
        default: return k % 5 == 2 ? 40.0 : -0.5 * k;
    }
}
template <size_t N> static void build(const seq_vector::csptr ax[], const std::vector<I>& t, const std::vector<bool>& lim, int pattern, gen_grid<N>& g, grid_ref& r) {
    size_t total = 1;
    for (size_t d = 0; d < N; ++d) { r.ax.push_back(vec(ax[d]->begin(), ax[d]->end())); total *= ax[d]->size(); }
    r.type = t; r.limit = lim;
    for (size_t k = 0; k < total; ++k) r.data.push_back(datum(pattern, k));
    for (size_t k = 0; k < total; ++k) {
        size_t idx[N], o = k;
        for (int d = N - 1; d >= 0; --d) { idx[d] = o % ax[d]->size(); o /= ax[d]->size(); }
        g.setdata(idx, r.data[k]);
        seq::check(g.data(idx) == r.data[k] && g.data()[k] == r.data[k], "stored value %d", (int)k);
    }
    for (size_t d = 0; d < N; ++d) {
        g.interp_type(d, t[d]); g.edge_limit(d, lim[d]);
        size_t n = ax[d]->size();
        I want = n < 2 ? I::nearest : (n < 4 && t[d] == I::pchip) ? I::linear : t[d];
        seq::check(g.interp_type(d) == want, "interp_type(%d) is %d", (int)d, (int)g.interp_type(d));
        seq::check(g.edge_limit(d) == lim[d], "edge_limit(%d)", (int)d);
        r.type[d] = want;
    }
}
static const I types[] = {I::nearest, I::linear, I::pchip};

SEQ_SECTION(one, "1-D grids", "every axis kind, size 1 to 7, data pattern, interpolation type, edge limit, point") {
    for (int kind = 0; kind < 5; ++kind)
        for (int n = 1; n <= 7; ++n)
            for (int pat = 0; pat < 4; ++pat)
                for (I t : types)
                    for (int lim = 0; lim < 2; ++lim) {
                        if (!seq::next("axis kind %d size %d data %d type %d limit %d", kind, n, pat, (int)t, lim)) continue;
                        seq_vector::csptr ax[1] = {axis(kind, n)};
                        gen_grid<1> g(ax);
                        grid_ref r;
                        build<1>(ax, {t}, {lim != 0}, pat, g, r);
                        for (double x : points(r.ax[0])) check_point<1>(g, r, &x);
                        // matrix form
                        vec p = points(r.ax[0]);
                        matrix<double> x(1, p.size()), v(1, p.size()), dx(1, p.size());
                        for (size_t i = 0; i < p.size(); ++i) x(0, i) = p[i];
                        const data_grid<1>& b = g;
                        b.interpolate(x, &v, &dx);
                        for (size_t i = 0; i < p.size(); ++i) {
                            double d, w = g.interpolate(&p[i], &d);
                            seq::check(v(0, i) == w && dx(0, i) == d, "matrix form differs from the scalar form at %g", p[i]);
                        }
                    }
}
SEQ_SECTION(every1, "1-D grids, every data", "every data of 4 or 5 points over a lattice of values, uneven axis, pchip") {
    double lat[] = {-2, 0, 0.5, 1, 9};
    for (int kind : {2, 3})
        for (int n = 4; n <= 5; ++n) {
            int total = 1;
            for (int i = 0; i < n; ++i) total *= 5;
            for (int c = 0; c < total; ++c) {
                if (!seq::next("axis kind %d data %d base 5, size %d", kind, c, n)) continue;
                seq_vector::csptr ax[1] = {axis(kind, n)};
                gen_grid<1> g(ax);
                grid_ref r;
                r.ax.push_back(vec(ax[0]->begin(), ax[0]->end()));
                r.type = {I::pchip}; r.limit = {true};
                g.interp_type(0, I::pchip);
                int o = c;
                for (size_t k = 0; k < (size_t)n; ++k) { r.data.push_back(lat[o % 5]); g.setdata(&k, lat[o % 5]); o /= 5; }
                for (double x : points(r.ax[0])) check_point<1>(g, r, &x);
                // shape: never outside of the values at both ends of the interval
                for (int k = 0; k + 1 < n; ++k)
                    for (double f : {0.1, 0.35, 0.6, 0.9}) {
                        double x = r.ax[0][k] + f * (r.ax[0][k + 1] - r.ax[0][k]), v = g.interpolate(&x);
                        double lo = std::min(r.data[k], r.data[k + 1]), hi = std::max(r.data[k], r.data[k + 1]);
                        if (k > 0 && k + 2 < n) seq::check(v >= lo - 1e-9 && v <= hi + 1e-9, "overshoot at %g: %g not in [%g, %g]", x, v, lo, hi);
                    }
            }
        }
}
SEQ_SECTION(two, "2-D grids", "every pair of axes, types, limits, data; every pair of points") {
    int kinds[] = {0, 1, 2, 4};
    for (int k0 : kinds)
        for (int k1 : kinds)
            for (int n0 : {1, 2, 3, 5})
                for (int n1 : {1, 2, 4, 5})
                    for (I t0 : types)
                        for (I t1 : types)
                            for (int lim = 0; lim < 4; ++lim) {
                                int pat = (n0 + n1 + k0) % 2 + 1;
                                if (!seq::next("axes %d:%d %d:%d types %d %d limits %d data %d", k0, n0, k1, n1, (int)t0, (int)t1, lim, pat)) continue;
                                seq_vector::csptr ax[2] = {axis(k0, n0), axis(k1, n1)};
                                gen_grid<2> g(ax);
                                grid_ref r;
                                build<2>(ax, {t0, t1}, {(lim & 1) != 0, (lim & 2) != 0}, pat, g, r);
                                for (double x : points(r.ax[0]))
                                    for (double y : points(r.ax[1])) { double p[2] = {x, y}; check_point<2>(g, r, p); }
                            }
}
SEQ_SECTION(three, "3-D grids", "axis sizes 1 to 5, every combination of types; every triple of points") {
    for (int k0 : {0, 3})
        for (int n0 : {1, 3, 5})
            for (int n1 : {1, 2, 4})
                for (int n2 : {1, 2, 4})
                    for (I t0 : types)
                        for (I t1 : types)
                            for (I t2 : types) {
                                int lim = (n0 + n1 + (int)t0 + (int)t2 + 2) % 8;
                                if (!seq::next("axes %d:%d 0:%d 2:%d types %d %d %d limits %d", k0, n0, n1, n2, (int)t0, (int)t1, (int)t2, lim)) continue;
                                seq_vector::csptr ax[3] = {axis(k0, n0), axis(0, n1), axis(2, n2)};
                                gen_grid<3> g(ax);
                                grid_ref r;
                                build<3>(ax, {t0, t1, t2}, {(lim & 1) != 0, (lim & 2) != 0, (lim & 4) != 0}, 1, g, r);
                                auto few = [](const vec& v) { vec o; for (size_t i = 0; i < v.size(); i += 3) o.push_back(v[i]); o.push_back(v.back()); return o; };
                                for (double x : few(points(r.ax[0])))
                                    for (double y : few(points(r.ax[1])))
                                        for (double z : few(points(r.ax[2]))) { double p[3] = {x, y, z}; check_point<3>(g, r, p); }
                                matrix<double> x(1, 1), y(1, 1), z(1, 1), v(1, 1), dx(1, 1), dy(1, 1), dz(1, 1);
                                x(0, 0) = r.ax[0][0] + 0.3; y(0, 0) = r.ax[1][0] + 0.4; z(0, 0) = r.ax[2][0] + 0.2;
                                double p[3] = {x(0, 0), y(0, 0), z(0, 0)}, d[3], w = g.interpolate(p, d);
                                const data_grid<3>& b = g;
                                b.interpolate(x, y, z, &v, &dx, &dy, &dz);
                                seq::check(v(0, 0) == w && dx(0, 0) == d[0] && dy(0, 0) == d[1] && dz(0, 0) == d[2], "matrix form differs");
                            }
}
SEQ_SECTION(bathy, "data_grid_bathy", "every pair of axes, data, limits; nearest and linear agree with gen_grid, bicubic meets the grid points") {
    for (int k0 : {0, 1, 2, 4})
        for (int k1 : {0, 1, 3})
            for (int n0 : {2, 4, 6})
                for (int n1 : {2, 3, 5})
                    for (I t : types)
                        for (int lim = 0; lim < 4; ++lim)
                            for (int pat = 0; pat < 4; ++pat) {
                                if (!seq::next("axes %d:%d %d:%d type %d limits %d data %d", k0, n0, k1, n1, (int)t, lim, pat)) continue;
                                if (t == I::pchip && (n0 < 4 || n1 < 4)) continue;
                                seq_vector::csptr ax[2] = {axis(k0, n0), axis(k1, n1)};
                                std::shared_ptr<gen_grid<2>> g(new gen_grid<2>(ax));
                                grid_ref r;
                                build<2>(ax, {t, t}, {(lim & 1) != 0, (lim & 2) != 0}, pat, *g, r);
                                data_grid_bathy fast(g);
                                double scale = 0;
                                for (double v : r.data) scale = std::max(scale, std::fabs(v));
                                for (double x : points(r.ax[0]))
                                    for (double y : points(r.ax[1])) {
                                        double p[2] = {x, y}, d[2], e[2];
                                        seq::evaluated();
                                        double v = fast.interpolate(p, d);
                                        seq::observe("%.5g ", v);
                                        if (t != I::pchip) {
                                            if (clear(r, p, false)) seq::check(eq(v, r.value(p), scale), "value at (%g %g) is %.12g instead of %.12g", x, y, v, r.value(p));
                                            g->interpolate(p, e);
                                            if (clear(r, p, true)) seq::check(eq(d[0], e[0], scale) && eq(d[1], e[1], scale), "derivative at (%g %g) is %.12g %.12g instead of %.12g %.12g", x, y, d[0], d[1], e[0], e[1]);
                                        } else {
                                            // limited to the axis
                                            double q[2] = {x, y};
                                            for (int k = 0; k < 2; ++k) if (r.limit[k]) q[k] = std::min(std::max(q[k], std::min(r.ax[k][0], r.ax[k].back())), std::max(r.ax[k][0], r.ax[k].back()));
                                            seq::check(eq(v, fast.interpolate(q), scale), "(%g %g) is not limited to (%g %g)", x, y, q[0], q[1]);
                                            // the derivative belongs to the surface
                                            bool inside = q[0] == x && q[1] == y;
                                            if (inside && clear(r, p, true))
                                                for (int k = 0; k < 2; ++k) {
                                                    double a[2] = {x, y}, b[2] = {x, y}, h = 1e-5;
                                                    a[k] -= h; b[k] += h;
                                                    if (!clear(r, a, true) || !clear(r, b, true)) continue;
                                                    double f = (fast.interpolate(b) - fast.interpolate(a)) / (2 * h);
                                                    seq::check(seq::near(d[k], f, 1e-4, 1e-3 * (1 + std::fabs(f) + scale)), "derivative %d at (%g %g) is %g, slope of the surface %g", k, x, y, d[k], f);
                                                }
                                        }
                                    }
                                if (t == I::pchip)
                                    for (size_t i = 0; i < r.ax[0].size(); ++i)
                                        for (size_t j = 0; j < r.ax[1].size(); ++j) {
                                            double p[2] = {r.ax[0][i], r.ax[1][j]};
                                            seq::check(eq(fast.interpolate(p), r.data[i * n1 + j], scale), "grid point (%d %d) is %.12g instead of %.12g", (int)i, (int)j, fast.interpolate(p), r.data[i * n1 + j]);
                                        }
                            }
}
SEQ_SECTION(svp, "data_grid_svp", "every depth axis, data, limits; agrees with pchip in depth and linear in latitude and longitude") {
    for (int k0 : {0, 1, 2, 3, 4})
        for (int n0 : {4, 5, 7})
            for (int n1 : {2, 3})
                for (int n2 : {2, 4})
                    for (int lim = 0; lim < 2; ++lim)
                        for (int pat = 0; pat < 4; ++pat) {
                            if (!seq::next("depth %d:%d size %d %d limits %d data %d", k0, n0, n1, n2, lim, pat)) continue;
                            seq_vector::csptr ax[3] = {axis(k0, n0), axis(1, n1), axis(2, n2)};
                            std::shared_ptr<gen_grid<3>> g(new gen_grid<3>(ax));
                            grid_ref r;
                            build<3>(ax, {I::pchip, I::linear, I::linear}, {lim != 0, lim != 0, lim != 0}, pat, *g, r);
                            data_grid_svp fast(g);
                            const data_grid<3>& base = fast;
                            double scale = 0;
                            for (double v : r.data) scale = std::max(scale, std::fabs(v));
                            for (double x : points(r.ax[0]))
                                for (double y : points(r.ax[1]))
                                    for (double z : points(r.ax[2])) {
                                        double p[3] = {x, y, z}, d[3], q[3] = {x, y, z};
                                        seq::evaluated();
                                        double v = base.interpolate(p, d);
                                        double want = r.value(q);
                                        seq::check(eq(v, want, scale), "value at (%g %g %g) is %.12g instead of %.12g", x, y, z, v, want);
                                        bool inside = true;
                                        for (int k = 0; k < 3; ++k) if (q[k] < std::min(r.ax[k][0], r.ax[k].back()) || q[k] > std::max(r.ax[k][0], r.ax[k].back())) inside = false;
                                        if (inside && clear(r, q, true)) {
                                            for (int k = 1; k < 3; ++k) seq::check(eq(d[k], r.deriv(q, k), scale), "derivative %d at (%g %g %g) is %.12g instead of %.12g", k, x, y, z, d[k], r.deriv(q, k));
                                            double a[3] = {x - 1e-5, y, z}, b[3] = {x + 1e-5, y, z};
                                            if (clear(r, a, true) && clear(r, b, true)) {
                                                double f = (r.value(b) - r.value(a)) / 2e-5;
                                                seq::check(seq::near(d[0], f, 1e-4, 1e-3 * (1 + std::fabs(f) + scale)), "depth derivative at (%g %g %g) is %g, slope of the profile %g", x, y, z, d[0], f);
                                            }
                                        }
                                        seq::observe("%.5g ", v);
                                    }
                        }
}
SEQ_SECTION(file, "write_netcdf", "every pair of axis kinds and sizes: axes and data come back in the same order") {
    for (int k0 = 0; k0 < 5; ++k0)
        for (int k1 = 0; k1 < 5; ++k1)
            for (int n0 : {1, 2, 5})
                for (int n1 : {1, 3}) {
                    if (!seq::next("axes %d:%d %d:%d", k0, n0, k1, n1)) continue;
                    seq_vector::csptr ax[2] = {axis(k0, n0), axis(k1, n1)};
                    gen_grid<2> g(ax);
                    grid_ref r;
                    build<2>(ax, {I::linear, I::linear}, {true, true}, 2, g, r);
                    std::string f = seq::scratch() + "/grid.nc";
                    g.write_netcdf(f.c_str());
                    netCDF::NcFile in(f, netCDF::NcFile::read);
                    double er = 0;
                    in.getVar("earth_radius").getVar(&er);
                    seq::check(er == wposition::earth_radius, "earth_radius %g", er);
                    for (int d = 0; d < 2; ++d) {
                        auto v = in.getVar(d ? "axis1" : "axis0");
                        vec x(r.ax[d].size());
                        seq::check(v.getDimCount() == 1 && v.getDim(0).getSize() == x.size(), "size of axis %d", d);
                        v.getVar(x.data());
                        for (size_t i = 0; i < x.size(); ++i) seq::check(x[i] == r.ax[d][i], "axis %d [%d] is %g", d, (int)i, x[i]);
                    }
                    auto v = in.getVar("data");
                    vec y(r.data.size());
                    seq::check(v.getDimCount() == 2 && v.getDim(0).getName() == "axis0" && v.getDim(1).getName() == "axis1", "dimensions of data");
                    v.getVar(y.data());
                    for (size_t i = 0; i < y.size(); ++i) seq::check(y[i] == r.data[i], "data [%d]", (int)i);
                    seq::observe("%d %d", k0, k1);
                }
}
