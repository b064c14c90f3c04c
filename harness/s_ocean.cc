// C23: environment models agree with their formulas, in scalar and matrix form,
// through every delegation, and their gradients are derivatives of their values.
#include <seq.h>
#include <usml/ocean/ocean.h>
#include <usml/ocean/reflect_loss_rayleigh_grid.h>
#include <usml/types/types.h>

#include <cmath>
#include <complex>
#include <functional>
#include <memory>
#include <vector>

using namespace usml::ocean;
using namespace usml::types;
typedef long double ld;
typedef std::complex<long double> cl;
static const ld PI = std::acos((ld)-1);
static const ld R0 = wposition::earth_radius;

static const double lats[] = {-70, -10, 0.5, 33, 60};
static const double lngs[] = {-170, -30, 0, 45.5, 179};
static const double alts[] = {0, -1, -75, -500, -1300, -5000};
static const std::vector<std::vector<double>> bands = {{1000.0}, {10.0, 100.0, 900.0, 3000.0, 20000.0}};

static seq_vector::csptr freqs(const std::vector<double>& v) { return seq_vector::csptr(new seq_data(v)); }
static wposition grid_of(const std::vector<double>& la, const std::vector<double>& lo, double al) {
    wposition p(la.size(), lo.size());
    for (size_t r = 0; r < la.size(); ++r) for (size_t c = 0; c < lo.size(); ++c) { p.latitude(r, c, la[r]); p.longitude(r, c, lo[c]); p.altitude(r, c, al - 10.0 * r - 3.0 * c); }
    return p;
}
static double get(const matrix<double>& m, size_t r, size_t c) { return m(r, c); }

// ---------------------------------------------------------------- profiles
struct prof {
    const char* name;
    profile_model* m;
    ld (*speed)(ld z);  // depth positive down
};
static ld f_const(ld) { return 1490; }
static ld f_lin(ld z) { return 1510 + 0.016L * z; }
static ld f_bilin(ld z) { return z < 600 ? 1540 - 0.05L * z : 1540 - 30 + 0.017L * (z - 600); }
static ld f_n2(ld z) { return 1550 / std::sqrt(1 + 2 * 1.2L / 1550 * z); }
static ld f_munk(ld z) { ld y = 2 * (z - 1300) / 1300; return 1500 * (1 + 0.00737L * (y - 1 + std::exp(-y))); }
static ld f_munk2(ld z) { ld y = 2 * (z - 800) / 900; return 1480 * (1 + 0.005L * (y - 1 + std::exp(-y))); }
static ld f_cat(ld z) { return 1475 * std::cosh((z - 1000) / 30000.0L); }

SEQ_SECTION(profiles, "analytic profiles", "every analytic profile x flat earth x latitude x altitude in the lattice, values and gradients, one and many locations, with unspecified previous contents of the outputs") {
    for (int k = 0; k < 7; ++k) for (bool flat : {false, true}) for (double la : lats) for (double al : alts) for (int shape = 0; shape < 3; ++shape) {
        if (!seq::next("profile %d flat %d latitude %g altitude %g shape %d", k, flat, la, al, shape)) continue;
        std::unique_ptr<profile_model> m;
        ld (*f)(ld);
        switch (k) {
            case 0: m.reset(new profile_linear(1490.0)); f = f_const; break;
            case 1: m.reset(new profile_linear(1510.0, 0.016)); f = f_lin; break;
            case 2: m.reset(new profile_linear(1540.0, -0.05, 600.0, 0.017)); f = f_bilin; break;
            case 3: m.reset(new profile_n2(1550.0, 1.2)); f = f_n2; break;
            case 4: m.reset(new profile_munk()); f = f_munk; break;
            case 5: m.reset(new profile_munk(800.0, 900.0, 1480.0, 0.005)); f = f_munk2; break;
            default: m.reset(new profile_catenary(1475.0, 30000.0, 1000.0)); f = f_cat;
        }
        m->flat_earth(flat);
        std::vector<double> las = {la}, los = {10.0};
        if (shape == 1) { las = {la, la + 1, la - 2}; los = {10.0, -20.0}; }
        if (shape == 2) { las = {la}; los = {10.0, 20.0, 30.0, 40.0}; }
        wposition p = grid_of(las, los, al);
        matrix<double> c(las.size(), los.size()), c2(las.size(), los.size());
        wvector g(las.size(), los.size());
        for (size_t r = 0; r < las.size(); ++r) for (size_t q = 0; q < los.size(); ++q) { c(r, q) = c2(r, q) = -777; g.rho(r, q, 5); g.theta(r, q, 6); g.phi(r, q, 7); }
        m->sound_speed(p, &c, &g);
        m->sound_speed(p, &c2);
        for (size_t r = 0; r < las.size(); ++r) for (size_t q = 0; q < los.size(); ++q) {
            auto at = [&](ld rho) { ld v = f((ld)R0 - rho); return flat ? v * rho / (ld)R0 : v; };
            ld rho = p.rho(r, q), h = 0.01L;
            seq::check(seq::near(c(r, q), (double)at(rho), 1e-9), "speed is %.12g instead of %.12g", c(r, q), (double)at(rho));
            seq::check(c2(r, q) == c(r, q), "speed depends on the gradient being asked for");
            bool corner = k == 2 && std::fabs((double)((ld)R0 - rho) - 600) < 1;
            if (!corner) {
                double d = (double)((at(rho + h) - at(rho - h)) / (2 * h));
                seq::check(seq::near(g.rho(r, q), d, 1e-6, 1e-8), "vertical gradient is %.12g instead of %.12g", g.rho(r, q), d);
            }
            seq::check(g.theta(r, q) == 0 && g.phi(r, q) == 0, "horizontal gradient of a stratified ocean");
            seq::evaluated(4);
        }
        seq::observe("%.9g %.9g", c(0, 0), g.rho(0, 0));
    }
}

template <size_t N>
static void profile_cases() {
    for (int kind = 0; kind < 2; ++kind) for (bool flat : {false, true}) for (double la : {-11.0, 0.3, 4.7, 9.9, 30.0}) for (double lo : {-6.0, 0.1, 3.3, 4.0}) for (double al : {0.0, -45.0, -210.0, -399.0, -1200.0}) {
        if (!seq::next("%zu-D grid kind %d flat %d at %g %g %g", N, kind, flat, la, lo, al)) continue;
        seq_vector::csptr ax[3] = {seq_vector::csptr(new seq_data(std::vector<double>{(double)R0, (double)R0 - 50, (double)R0 - 100, (double)R0 - 220, (double)R0 - 400})),
                                   seq_vector::csptr(new seq_linear(to_colatitude(10.0), to_radians(4.0), 6)),
                                   seq_vector::csptr(new seq_linear(to_radians(-5.0), to_radians(2.5), 5))};
        auto grid = std::make_shared<gen_grid<N>>(ax);
        size_t i[3];
        for (i[0] = 0; i[0] < 5; ++i[0]) for (i[1] = 0; i[1] < (N > 1 ? 6u : 1u); ++i[1]) for (i[2] = 0; i[2] < (N > 2 ? 5u : 1u); ++i[2])
            grid->setdata(i, 1500 - 7.0 * i[0] + 1.5 * i[0] * i[0] + (N > 1 ? 2.0 * i[1] - 0.3 * i[1] * i[0] : 0) + (N > 2 ? 3.0 * i[2] + 0.2 * i[2] * i[1] : 0));
        for (size_t d = 0; d < N; ++d) { grid->interp_type(d, kind == 1 && d == 0 ? interp_enum::pchip : interp_enum::linear); grid->edge_limit(d, true); }
        profile_grid<N> m(grid);
        m.flat_earth(flat);
        wposition p = grid_of({la, la + 2.1}, {lo, lo + 1.3, lo - 2.2}, al);
        matrix<double> c(2, 3), c2(2, 3);
        wvector g(2, 3);
        for (size_t r = 0; r < 2; ++r) for (size_t q = 0; q < 3; ++q) { c(r, q) = c2(r, q) = -5; g.rho(r, q, 5); g.theta(r, q, 6); g.phi(r, q, 7); }
        m.sound_speed(p, &c, &g);
        m.sound_speed(p, &c2);
        for (size_t r = 0; r < 2; ++r) for (size_t q = 0; q < 3; ++q) {
            double x[3] = {p.rho(r, q), p.theta(r, q), p.phi(r, q)}, dx[3] = {0, 0, 0};
            double v = grid->interpolate(x, dx);
            if (flat) { dx[0] = (dx[0] * x[0] + v) / (double)R0; v = v * x[0] / (double)R0; }
            seq::check(seq::near(c(r, q), v, 1e-12), "speed is %.12g instead of %.12g", c(r, q), v);
            seq::check(seq::near(c2(r, q), v, 1e-12), "speed depends on the gradient being asked for");
            seq::check(seq::near(g.rho(r, q), dx[0], 1e-12, 1e-15), "vertical gradient is %.12g instead of %.12g", g.rho(r, q), dx[0]);
            seq::check(seq::near(g.theta(r, q), N > 1 ? dx[1] : 0, 1e-12, 1e-15), "latitude gradient is %.12g instead of %.12g", g.theta(r, q), N > 1 ? dx[1] : 0.0);
            seq::check(seq::near(g.phi(r, q), N > 2 ? dx[2] : 0, 1e-12, 1e-15), "longitude gradient is %.12g instead of %.12g", g.phi(r, q), N > 2 ? dx[2] : 0.0);
            seq::evaluated(5);
        }
        seq::observe("%.9g", c(1, 2));
    }
}
SEQ_SECTION(profgrid, "gridded profiles", "1-D, 2-D, and 3-D grids, linear and pchip, inside and outside of the axes, flat earth or not") {
    profile_cases<1>();
    profile_cases<2>();
    profile_cases<3>();
}

SEQ_SECTION(mackenzie, "mackenzie grids", "every temperature, salinity, and depth of the grids; every combination of interpolation settings") {
    for (int pattern = 0; pattern < 8; ++pattern) for (int size = 1; size < 4; ++size) for (int set = 0; set < 8; ++set) {
        if (!seq::next("pattern %d size %d settings %d", pattern, size, set)) continue;
        std::vector<double> rho;
        for (int n = 0; n < 2 + 2 * size; ++n) rho.push_back((double)R0 - 8000.0 * n * n / (1 + 2 * size) / (1 + 2 * size));
        seq_vector::csptr ax[3] = {seq_vector::csptr(new seq_data(rho)), seq_vector::csptr(new seq_linear(0.5, 0.1, 2 + size)), seq_vector::csptr(new seq_linear(1.0, 0.2, 1 + size))};
        auto T = std::make_shared<gen_grid<3>>(ax), S = std::make_shared<gen_grid<3>>(ax);
        for (int d = 0; d < 3; ++d) { T->interp_type(d, set & (1 << d) ? interp_enum::pchip : interp_enum::linear); T->edge_limit(d, !(set & (1 << d))); }
        size_t i[3];
        auto temp = [&](size_t* j) { return -2 + (pattern & 1 ? 8.0 * j[0] : 3.0 * j[1]) + (pattern & 4 ? 0.5 * j[2] : 0); };
        auto salt = [&](size_t* j) { return 30 + (pattern & 2 ? 2.5 * j[2] : 1.5 * j[0]) + (pattern & 4 ? 0.5 * j[1] : 0); };
        for (i[0] = 0; i[0] < ax[0]->size(); ++i[0]) for (i[1] = 0; i[1] < ax[1]->size(); ++i[1]) for (i[2] = 0; i[2] < ax[2]->size(); ++i[2]) { T->setdata(i, temp(i)); S->setdata(i, salt(i)); }
        data_grid_mackenzie m(T, S);
        for (int d = 0; d < 3; ++d) seq::check(m.axis(d).size() == ax[d]->size() && m.interp_type(d) == T->interp_type(d) && m.edge_limit(d) == T->edge_limit(d), "axis %d", d);
        for (i[0] = 0; i[0] < ax[0]->size(); ++i[0]) for (i[1] = 0; i[1] < ax[1]->size(); ++i[1]) for (i[2] = 0; i[2] < ax[2]->size(); ++i[2]) {
            ld t = temp(i), s = salt(i), D = (ld)R0 - (*ax[0])(i[0]);
            ld c = 1448.96L + 4.591L * t - 5.304e-2L * t * t + 2.374e-4L * t * t * t + 1.340L * (s - 35) + 1.630e-2L * D + 1.675e-7L * D * D - 1.025e-2L * t * (s - 35) - 7.139e-13L * t * D * D * D;
            seq::check(seq::near(m.data(i), (double)c, 1e-11), "speed is %.12g instead of %.12g", m.data(i), (double)c);
            seq::evaluated();
        }
        i[0] = i[1] = i[2] = 0;
        seq::observe("%.9g", m.data(i));
    }
}

// ---------------------------------------------------------------- attenuation
struct my_attn : attenuation_model {
    void attenuation(const wposition&, const seq_vector::csptr& f, const matrix<double>& d, matrix<vector<double>>* a) const override {
        for (size_t r = 0; r < d.size1(); ++r) for (size_t c = 0; c < d.size2(); ++c) for (size_t n = 0; n < f->size(); ++n) (*a)(r, c)(n) = 1000 * d(r, c) + n;
    }
};
SEQ_SECTION(attn, "attenuation", "every frequency band, depth, distance, and attenuation model, direct, delegated by a profile, default, and replaced") {
    for (auto& band : bands) for (double al : alts) for (double dist : {0.0, 1.0, 250.0, 1e5}) for (int kind = 0; kind < 3; ++kind) for (int via = 0; via < 4; ++via) for (int shape = 0; shape < 2; ++shape) {
        if (via == 2 && kind != 0) continue;
        if (!seq::next("band %zu altitude %g distance %g kind %d via %d shape %d", band.size(), al, dist, kind, via, shape)) continue;
        seq_vector::csptr f = freqs(band);
        size_t R = shape ? 3 : 1, C = shape ? 2 : 1;
        wposition p = grid_of(std::vector<double>(R, 10), std::vector<double>(C, 20), al);
        matrix<double> d(R, C);
        for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) d(r, c) = dist * (1 + r) + c;
        matrix<vector<double>> a(R, C);
        for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { a(r, c).resize(band.size()); for (size_t n = 0; n < band.size(); ++n) a(r, c)(n) = 55; }
        attenuation_model::csptr m(kind == 0 ? (attenuation_model*)new attenuation_thorp() : kind == 1 ? (attenuation_model*)new attenuation_constant(2e-7) : (attenuation_model*)new my_attn());
        if (via == 0) m->attenuation(p, f, d, &a);
        if (via == 1) { profile_linear q(1500.0, m); q.attenuation(p, f, d, &a); }
        if (via == 2) { profile_munk q; q.attenuation(p, f, d, &a); }
        if (via == 3) { profile_n2 q(1500.0, 0.1, attenuation_model::csptr(new attenuation_constant(77.0))); q.attenuation(m); q.attenuation(p, f, d, &a); }
        for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) for (size_t n = 0; n < band.size(); ++n) {
            ld F2 = band[n] / 1000.0L, want;
            F2 *= F2;
            if (kind == 0) {
                ld dB = 0.0033L + F2 * (3.0e-4L + 44 / (4100 + F2) + 0.11L / (1 + F2));
                want = dB / 1000 * d(r, c) * (1 - 5.88264e-6L * -(ld)p.altitude(r, c)) / (1 - 5.88264e-6L * 1000);
            } else want = kind == 1 ? 2e-7L * d(r, c) * band[n] : 1000.0L * d(r, c) + n;
            seq::check(a(r, c).size() == band.size() && seq::near(a(r, c)(n), (double)want, 1e-9), "attenuation at %g Hz is %.12g dB instead of %.12g", band[n], a(r, c)(n), (double)want);
            seq::evaluated();
        }
        seq::observe("%.9g", a(0, 0)(0));
    }
}

// ---------------------------------------------------------------- ambient noise
SEQ_SECTION(noise, "ambient noise", "every wind speed, shipping level, and rain rate in and next to the documented ranges, all frequency bands; constant noise levels") {
    static const std::vector<double> band = {1, 5, 30, 99, 100, 500, 549, 550, 999, 1000, 1001, 5000, 15500, 15501, 50000, 2e5};
    auto check = [&](const ambient_model& m, auto level) {
        seq_vector::csptr f = freqs(band);
        vector<double> n(band.size());
        for (size_t i = 0; i < band.size(); ++i) n(i) = 3e10;
        m.ambient(wposition1(10, 20), f, &n);
        for (size_t i = 0; i < band.size(); ++i) {
            seq::check(n.size() == band.size() && seq::near(10 * std::log10(n(i)), level(band[i]), 0, 1e-5), "noise at %g Hz is %.12g dB instead of %.12g", band[i], 10 * std::log10(n(i)), level(band[i]));
            seq::evaluated();
        }
        seq::observe("%.9g", n(3));
    };
    for (double w : {-1.0, 0.0, 1.5, 7.0, 20.0, 40.0}) for (int s = 0; s <= 7; ++s) for (int r = 0; r <= 3; ++r) {
        if (!seq::next("wenz wind %g shipping %d rain %d", w, s, r)) continue;
        check(ambient_wenz(w, s, r), [&](double f) {
            double L = std::log10(f), kn = w * 3600 / 1852, sum = 0;
            auto add = [&](double dB) { sum += std::pow(10.0, dB / 10); };
            add(107 - 30 * L);
            add(-75 + 20 * L);
            if (s >= 1) add(76 - 20 * (L - std::log10(30.0)) * (L - std::log10(30.0)) + 5.0 * (s - 4));
            if (w >= 0) add(f < 1000 ? 44 + std::sqrt(21 * kn) + 17 * (3 - L) * (L - 2) : 95 + std::sqrt(21 * kn) - 17 * L);
            if (f >= 550 && f <= 15500) {
                if (r == 1) add(64.942 + 19.917 * L - 5.242 * L * L);
                if (r == 2) add(19.628 + 42.933 * L - 7.516 * L * L);
                if (r == 3) add(222.491 - 135.904 * L + 43.893 * L * L - 4.737 * L * L * L);
            }
            return 10 * std::log10(sum);
        });
    }
    for (double c : {-200.0, -10.0, 0.0, 60.0, 120.0}) if (seq::next("constant %g", c)) check(ambient_constant(c), [&](double) { return c; });
}

// ---------------------------------------------------------------- reflection loss
// plane wave reflection from a solid half space (Jensen et al.), angle from the interface
static cl reflect(ld density, ld speed, ld att, ld shear, ld att_s, ld graze) {
    ld conv = 1 / (20 * std::log10(std::exp((ld)1)) * 2 * PI), th = PI / 2 - graze;
    cl cp(speed, -speed * att * conv), cs(shear, -shear * att_s * conv);
    auto cosine = [](cl s) { cl q = std::sqrt(cl(1) - s * s); return q.real() < 0 || (q.real() == 0 && q.imag() < 0) ? -q : q; };
    cl sp = std::sin(th) * cp, ss = std::sin(th) * cs, kp = cosine(sp), ks = cosine(ss);
    cl A;  // cos(theta) / impedance style admittance
    cl Zp = density * cp / kp, Z = Zp;
    if (shear != 0) {
        cl Zs = density * cs / ks, c2 = cl(2) * ks * ks - cl(1), s2 = cl(2) * ss * ks;
        Z = Zp * c2 * c2 + Zs * s2 * s2;
    }
    ld c = std::cos(th);
    return (Z * c - cl(1)) / (Z * c + cl(1));
}
struct bot { double den, spd, att, sh, ash; };
static const bot table[] = {{1.5, 1.00, 0.2, 0, 1.0}, {1.7, 1.05, 1.0, 0, 1.5}, {1.9, 1.10, 0.8, 0, 2.5}, {2.0, 1.20, 0.6, 0, 1.5}, {2.1, 1.30, 0.4, 0.40, 1.0}, {2.2, 1.60, 0.2, 0.67, 0.5}, {2.4, 2.00, 0.1, 1.00, 0.2}, {2.7, 3.50, 0.1, 1.67, 0.2}};
static const bot extra[] = {{1.8, 1.15, 0, 0, 0}, {1.5, 0.9, 0, 0, 0}, {1.2, 0.95, 0.5, 0, 0}, {2.5, 2.0, 0, 0.8, 0}, {1.0, 1.0001, 0.3, 0.1, 0.1}};
struct my_loss : reflect_loss_model {
    void reflect_loss(const wposition1& p, const seq_vector::csptr& f, double a, vector<double>* amp, vector<double>* ph) const override {
        for (size_t n = 0; n < f->size(); ++n) { (*amp)(n) = 3 * a + n + p.latitude(); if (ph) (*ph)(n) = a - (double)n; }
    }
};
static void loss_case(const reflect_loss_model& m, const std::vector<double>& band, double angle, const wposition1& at, const std::function<void(double, double*, double*)>& want, double tol = 1e-9) {
    seq_vector::csptr f = freqs(band);
    vector<double> amp(band.size()), ph(band.size()), amp2(band.size());
    for (size_t n = 0; n < band.size(); ++n) amp(n) = amp2(n) = ph(n) = 99;
    m.reflect_loss(at, f, angle, &amp, &ph);
    m.reflect_loss(at, f, angle, &amp2);
    for (size_t n = 0; n < band.size(); ++n) {
        double a, p;
        want(band[n], &a, &p);
        seq::check(seq::near(amp(n), a, tol, tol), "loss at %g Hz is %.12g dB instead of %.12g", band[n], amp(n), a);
        seq::check(amp2(n) == amp(n), "loss depends on the phase being asked for");
        seq::check(std::fabs(std::remainder(ph(n) - p, 2 * M_PI)) < 1e-7 + tol, "phase at %g Hz is %.12g instead of %.12g", band[n], ph(n), p);
        seq::check(amp(n) > -1e-9, "gain of %g dB", -amp(n));
        seq::evaluated(4);
    }
    seq::observe("%.9g %.6g", amp(0), ph(0));
}
static const double angles[] = {0.0, 1e-4, 0.01, 0.1, 0.3, 0.45, 0.7, 1.0, 1.2, 1.5, 1.57};
SEQ_SECTION(loss, "reflection loss", "every bottom type and material, wind speed, constant, grazing angle, and band, direct and delegated by boundaries; grids of bottom types at every cell") {
    for (auto& band : bands) for (double g : angles) {
        for (int t = 0; t < 13; ++t) for (int how = 0; how < 3; ++how) {
            if (how < 2 && t >= 8) continue;
            if (!seq::next("rayleigh %d made by %d band %zu angle %g", t, how, band.size(), g)) continue;
            const bot& b = t < 8 ? table[t] : extra[t - 8];
            std::unique_ptr<reflect_loss_rayleigh> m(how == 0 ? new reflect_loss_rayleigh((bottom_type_enum)t) : how == 1 ? new reflect_loss_rayleigh((size_t)t) : new reflect_loss_rayleigh(b.den, b.spd, b.att, b.sh, b.ash));
            loss_case(*m, band, g, wposition1(), [&](double, double* a, double* p) { cl r = reflect(b.den, b.spd, b.att, b.sh, b.ash, g); *a = (double)(-20 * std::log10(std::abs(r))); *p = (double)std::arg(r); }, 1e-6);
        }
        for (double w : {0.0, 1.0, 5.0, 12.0, 30.0}) {
            if (seq::next("eckart wind %g band %zu angle %g", w, band.size(), g))
                loss_case(reflect_loss_eckart(w), band, g, wposition1(), [&](double f, double* a, double* p) { *a = 8.6e-9 * f * f * w * w * w * w * std::sin(g) * std::sin(g); *p = M_PI; });
            if (seq::next("beckmann wind %g band %zu angle %g", w, band.size(), g))
                loss_case(reflect_loss_beckmann(w), band, g, wposition1(), [&](double f, double* a, double* p) {
                    double th = std::max(g, 1e-10), q = 1 / (2 * (0.003 + 5.1e-3 * w)) * th * th;
                    double v3 = std::min(0.99, std::max(0.5 * std::sin(th), (1 - std::exp(-q / 4) / std::sqrt(M_PI * q)) * std::sin(th)));
                    *a = -20 * std::log10(std::sqrt(1 - v3)) - 20 * std::log10(0.3 + 0.7 / (1 + 6.0e-11 * w * w * w * w * f * f));
                    *p = M_PI;
                });
        }
        for (double c : {0.0, 3.5, 100.0}) for (double ph : {0.0, M_PI, -1.0})
            if (seq::next("constant %g %g band %zu angle %g", c, ph, band.size(), g)) loss_case(reflect_loss_constant(c, ph), band, g, wposition1(), [&](double, double* a, double* p) { *a = c; *p = ph; });
        // delegation by boundaries, and what they do by default
        for (int kind = 0; kind < 4; ++kind) for (int how = 0; how < 3; ++how) {
            if (!seq::next("boundary %d delegates %d band %zu angle %g", kind, how, band.size(), g)) continue;
            wposition1 at(12.0, 34.0, -3.0);
            reflect_loss_model::csptr mine(new my_loss());
            reflect_loss_model::csptr given = how == 0 ? mine : nullptr;
            std::unique_ptr<boundary_model> m;
            seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(1.0, 0.1, 3)), seq_vector::csptr(new seq_linear(0.0, 0.1, 3))};
            auto grid = std::make_shared<gen_grid<2>>(ax);
            if (kind == 0) m.reset(new boundary_flat(0.0, given));
            if (kind == 1) m.reset(new boundary_flat(500.0, given));
            if (kind == 2) m.reset(new boundary_slope(at, 500.0, 0.1, 0.0, given));
            if (kind == 3) m.reset(new boundary_grid<2>(grid, given));
            if (how == 1) m->reflect_loss(mine);
            loss_case(*m, band, g, at, [&](double f, double* a, double* p) {
                size_t n = 0;
                while (band[n] != f) ++n;
                if (how < 2) { *a = 3 * g + n + 12.0; *p = g - (double)n; }
                else if (kind == 3) { const bot& b = table[2]; cl r = reflect(b.den, b.spd, b.att, b.sh, b.ash, g); *a = (double)(-20 * std::log10(std::abs(r))); *p = (double)std::arg(r); }
                else { *a = 0; *p = kind == 0 ? M_PI : 0; }
            }, 1e-6);
        }
    }
    for (double la : {9.0, 10.0, 10.9, 11.1, 12.0, 13.0, 14.4, 15.0, 17.0, 40.0}) for (double lo : {-60.0, -51.0, -50.0, -49.6, -49.2, -48.0, -40.0}) {
        if (!seq::next("grid of bottom types at %g %g", la, lo)) continue;
        seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(10.0, 1.0, 8)), seq_vector::csptr(new seq_linear(-50.0, 1.0, 3))};
        data_grid<2>::sptr grid(new gen_grid<2>(ax));
        size_t i[2];
        for (i[0] = 0; i[0] < 8; ++i[0]) for (i[1] = 0; i[1] < 3; ++i[1]) std::static_pointer_cast<gen_grid<2>>(grid)->setdata(i, (double)((i[0] + 3 * i[1]) % 8));
        reflect_loss_rayleigh_grid m(grid);
        size_t r = (size_t)std::min(7.0, std::max(0.0, std::round(la - 10))), c = (size_t)std::min(2.0, std::max(0.0, std::round(lo + 50)));
        const bot& b = table[(r + 3 * c) % 8];
        loss_case(m, bands[1], 0.7, wposition1(la, lo), [&](double, double* a, double* p) { cl R = reflect(b.den, b.spd, b.att, b.sh, b.ash, 0.7); *a = (double)(-20 * std::log10(std::abs(R))); *p = (double)std::arg(R); }, 1e-6);
    }
    for (double w : {0.0, 1.0, 10.0, 25.0}) if (seq::next("wave height wind %g", w)) { seq::check(seq::near(wave_height_pierson(w), 0.22 * w * w / 9.8 / 4, 1e-12), "wave height"); seq::observe("%g", w); }
}

// ---------------------------------------------------------------- scattering
struct my_scat : scattering_model {
    void scattering(const wposition1& p, const seq_vector::csptr& f, double di, double ds, double ai, double as, vector<double>* a) const override {
        for (size_t n = 0; n < f->size(); ++n) (*a)(n) = p.latitude() + 2 * di + 3 * ds + 5 * ai + 7 * as + n;
    }
    void scattering(const wposition& p, const seq_vector::csptr& f, double di, matrix<double> ds, double ai, matrix<double> as, matrix<vector<double>>* a) const override {
        for (size_t r = 0; r < p.size1(); ++r) for (size_t c = 0; c < p.size2(); ++c) for (size_t n = 0; n < f->size(); ++n) (*a)(r, c)(n) = p.latitude(r, c) + 2 * di + 3 * ds(r, c) + 5 * ai + 7 * as(r, c) + n;
    }
};
static double scat_formula(int kind, double f, double di, double ds, double ai, double as, size_t n, double la) {
    if (kind == 0) return std::pow(10.0, -3.5);
    if (kind == 1) return std::pow(10.0, -2.7) * std::fabs(std::sin(di) * std::sin(ds));
    if (kind == 2) {
        double g = 0.5 * (di + ds) * 180 / M_PI, b = 158 * std::pow(9.0 * 3600 / 1852 * std::cbrt(f), -0.58);
        return std::pow(10.0, (3.3 * b * std::log10(g / 30) - 42.4 * std::log10(b) + 2.6) / 10);
    }
    if (kind == 4) return std::pow(10.0, -30.0);
    return la + 2 * di + 3 * ds + 5 * ai + 7 * as + n;
}
SEQ_SECTION(scatter, "scattering strength", "every model, incident and scattered angle, and band: one location, many locations, delegated by boundaries, volumes, and the ocean for every interface number") {
    for (auto& band : bands) for (int kind = 0; kind < 5; ++kind) for (int via = 0; via < 8; ++via) for (double di : {0.02, 0.3, 1.0, 1.57}) for (double ds : {0.02, 0.4, 1.3}) {
        if (kind == 4 && (via == 0 || via >= 5)) continue;
        if (!seq::next("model %d via %d band %zu angles %g %g", kind, via, band.size(), di, ds)) continue;
        seq_vector::csptr f = freqs(band);
        auto make = [&](int k) { return k == 4 ? scattering_model::csptr() : scattering_model::csptr(k == 0 ? (scattering_model*)new scattering_constant(-35.0) : k == 1 ? (scattering_model*)new scattering_lambert() : k == 2 ? (scattering_model*)new scattering_chapman(9.0) : (scattering_model*)new my_scat()); };
        scattering_model::csptr m = make(kind), host;
        seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(1.0, 0.1, 3)), seq_vector::csptr(new seq_linear(0.0, 0.1, 3))};
        switch (via) {
            case 0: host = m; break;
            case 1: host.reset(new boundary_flat(100.0, nullptr, m)); break;
            case 2: host.reset(new boundary_slope(wposition1(1, 2), 100.0, 0.1, 0.1, nullptr, m)); break;
            case 3: host.reset(new boundary_grid<2>(std::make_shared<gen_grid<2>>(ax), nullptr, m)); break;
            case 4: host.reset(new volume_flat(100.0, 10.0, m)); break;
            case 5: { auto b = new boundary_flat(0.0); b->scattering(m); host.reset(b); break; }
            case 6: { auto v = new volume_flat(20.0, 5.0, -44.0); v->scattering(m); host.reset(v); break; }
            default: host = m;
        }
        double ai = 0.7, as = -0.4, la = 12.0;
        vector<double> a(band.size());
        for (size_t n = 0; n < band.size(); ++n) a(n) = -9;
        auto tol = kind == 2 ? 1e-3 : 1e-12;
        if (via < 7) {
            host->scattering(wposition1(la, 20.0), f, di, ds, ai, as, &a);
            for (size_t n = 0; n < band.size(); ++n) { double w = scat_formula(kind, band[n], di, ds, ai, as, n, la); seq::check(a.size() == band.size() && seq::near(a(n), w, tol, 1e-40), "strength at %g Hz is %.12g instead of %.12g", band[n], a(n), w); seq::evaluated(); }
            wposition p = grid_of({la, -30.0}, {1.0, 2.0, 3.0}, -10.0);
            matrix<double> md(2, 3), ma(2, 3);
            matrix<vector<double>> out(2, 3);
            for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 3; ++c) { md(r, c) = ds + 0.1 * r + 0.01 * c; ma(r, c) = as + r - 0.3 * c; out(r, c).resize(band.size()); out(r, c).clear(); }
            host->scattering(p, f, di, md, ai, ma, &out);
            for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 3; ++c) for (size_t n = 0; n < band.size(); ++n) {
                double w = scat_formula(kind, band[n], di, md(r, c), ai, ma(r, c), n, p.latitude(r, c));
                seq::check(out(r, c).size() == band.size() && seq::near(out(r, c)(n), w, tol, 1e-40), "strength of many at %g Hz is %.12g instead of %.12g", band[n], out(r, c)(n), w);
                seq::evaluated();
            }
        } else {
            for (int layers = 0; layers < 4; ++layers) for (int target = 0; target < 2 + 2 * layers; ++target) {
                auto pick = [&](int who) { return who == (target < 2 ? target : 2 + (target - 2) / 2) ? m : scattering_model::csptr(new scattering_constant(-77.0)); };
                boundary_model::csptr bottom(new boundary_flat(1000.0, nullptr, pick(0))), top(new boundary_flat(0.0, nullptr, pick(1)));
                std::vector<volume_model::csptr> vols;
                ocean_model o(top, bottom, profile_model::csptr(new profile_linear(1500.0)));
                for (int v = 0; v < layers; ++v) { vols.push_back(volume_model::csptr(new volume_flat(100.0 * v + 50, 10.0, pick(2 + v)))); o.add_volume(vols.back()); }
                ocean_model o2(top, bottom, o.profile(), &vols);
                for (ocean_model* q : {&o, &o2}) {
                    seq::check(q->num_volume() == (size_t)layers && q->surface() == top && q->bottom() == bottom && q->profile() == o.profile(), "parts of the ocean");
                    for (int v = 0; v < layers; ++v) seq::check(q->volume(v) == vols[v], "layer %d", v);
                    for (int i = 0; i < 2 + 2 * layers; ++i) {
                        q->scattering(i, wposition1(la, 20.0), f, di, ds, ai, as, &a);
                        bool hit = i == target || (i >= 2 && target >= 2 && (i - 2) / 2 == (target - 2) / 2);
                        for (size_t n = 0; n < band.size(); ++n) { double w = hit ? scat_formula(kind, band[n], di, ds, ai, as, n, la) : std::pow(10.0, -7.7); seq::check(seq::near(a(n), w, tol, 1e-40), "interface %d of %d layers is %.12g instead of %.12g", i, layers, a(n), w); seq::evaluated(); }
                    }
                }
            }
        }
        seq::observe("%.9g", a(0));
    }
    for (double w : {0.5, 5.0, 30.0}) for (double di : {0.0, 1e-6, 1e-3}) {
        if (!seq::next("chapman wind %g at angle %g", w, di)) continue;
        vector<double> a(5);
        scattering_chapman(w).scattering(wposition1(), freqs(bands[1]), di, di, 0, 0, &a);
        for (size_t n = 0; n < 5; ++n) seq::check(a(n) >= 0 && a(n) < 1, "strength %g", a(n));
        seq::observe("%.9g", a(0));
    }
}

// ---------------------------------------------------------------- heights
static void height_case(const boundary_model& m, const std::function<void(const wposition1&, double*, double*)>& want) {
    wposition p = grid_of({33.0, 35.5}, {-40.0, -38.2, -44.0}, -100.0);
    matrix<double> h(2, 3), h2(2, 3);
    wvector nv(2, 3);
    for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 3; ++c) { h(r, c) = h2(r, c) = 1; nv.rho(r, c, 9); nv.theta(r, c, 8); nv.phi(r, c, 7); }
    m.height(p, &h, &nv);
    m.height(p, &h2);
    for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 3; ++c) {
        wposition1 q(p, r, c);
        double one = 5, two = 6, H, N[3];
        wvector1 n1(3, 3, 3);
        m.height(q, &one, &n1);
        m.height(q, &two);
        want(q, &H, N);
        seq::check(seq::near(get(h, r, c), H, 1e-13, 1e-6) && seq::near(h2(r, c), H, 1e-13, 1e-6) && seq::near(one, H, 1e-13, 1e-6) && seq::near(two, H, 1e-13, 1e-6), "height is %.12g %.12g %.12g %.12g instead of %.12g", h(r, c), h2(r, c), one, two, H);
        seq::check(seq::near(nv.rho(r, c), N[0], 0, 1e-9) && seq::near(nv.theta(r, c), N[1], 0, 1e-9) && seq::near(nv.phi(r, c), N[2], 0, 1e-9), "normal of many is %.9g %.9g %.9g instead of %.9g %.9g %.9g", nv.rho(r, c), nv.theta(r, c), nv.phi(r, c), N[0], N[1], N[2]);
        seq::check(seq::near(n1.rho(), N[0], 0, 1e-9) && seq::near(n1.theta(), N[1], 0, 1e-9) && seq::near(n1.phi(), N[2], 0, 1e-9), "normal of one is %.9g %.9g %.9g instead of %.9g %.9g %.9g", n1.rho(), n1.theta(), n1.phi(), N[0], N[1], N[2]);
        seq::check(seq::near(N[0] * N[0] + N[1] * N[1] + N[2] * N[2], 1, 1e-9), "length of the normal");
        seq::evaluated(4);
    }
    seq::observe("%.9g %.6g", h(0, 0), nv.rho(1, 2));
}
SEQ_SECTION(heights, "heights and normals", "flat, sloped, and gridded boundaries: every depth, slope, and grid in the lattice; one and many locations with and without normals") {
    for (double d : {0.0, 1e-7, 1e-5, 30.0, -30.0, 5000.0}) {
        if (!seq::next("flat %g", d)) continue;
        height_case(boundary_flat(d), [&](const wposition1&, double* H, double* N) { *H = (double)(R0 - std::fabs(d)); N[0] = std::fabs(d) < 1e-6 ? -1 : 1; N[1] = N[2] = 0; });
    }
    for (double d : {10.0, 3000.0}) for (double sl : {-0.4, -0.01, 0.0, 0.02, 0.7}) for (double sg : {-0.3, 0.0, 0.05}) for (double la : {30.0, 34.0}) {
        if (!seq::next("slope %g %g depth %g from %g", sl, sg, d, la)) continue;
        std::unique_ptr<wposition1> ref(new wposition1(la, -41.0));
        boundary_slope m(*ref, d, sl, sg);
        double th = ref->theta(), ph = ref->phi();
        *ref = wposition1(-80.0, 170.0);  // the boundary must not depend on its arguments any more
        ref.reset();
        height_case(m, [&](const wposition1& q, double* H, double* N) {
            double r0 = (double)R0 - d, r1 = r0 + r0 * std::sin(th) * std::tan(sg) * (q.phi() - ph);
            *H = r1 + r1 * std::tan(-sl) * (q.theta() - th);  // slopes are positive to the north and east
            N[1] = std::sin(sl);
            N[2] = -std::sin(sg);
            N[0] = std::sqrt(1 - N[1] * N[1] - N[2] * N[2]);
        });
    }
    for (int kind = 0; kind < 6; ++kind) for (int pattern = 0; pattern < 3; ++pattern) {
        if (!seq::next("grid kind %d pattern %d", kind, pattern)) continue;
        seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(to_colatitude(38.0), to_radians(1.0), 8)), seq_vector::csptr(new seq_linear(to_radians(-43.0), to_radians(1.0), 6))};
        interp_enum it = kind % 3 == 0 ? interp_enum::linear : kind % 3 == 1 ? interp_enum::pchip : interp_enum::nearest;
        auto z = [&](size_t r, size_t c) { return (double)R0 - (pattern == 0 ? 2000.0 : pattern == 1 ? 3000.0 + 7e3 * r - 900.0 * c : 4000.0 - 2e3 * ((r * 5 + c * 3) % 4)); };
        size_t i[2];
        if (kind < 3) {
            auto g = std::make_shared<gen_grid<2>>(ax);
            for (i[0] = 0; i[0] < 8; ++i[0]) for (i[1] = 0; i[1] < 6; ++i[1]) g->setdata(i, z(i[0], i[1]));
            for (int k = 0; k < 2; ++k) { g->interp_type(k, it); g->edge_limit(k, true); }
            height_case(boundary_grid<2>(g), [&](const wposition1& q, double* H, double* N) {
                double x[2] = {q.theta(), q.phi()}, dx[2];
                *H = g->interpolate(x, dx);
                double t = -dx[0] / *H, p = -dx[1] / (*H * std::sin(q.theta())), L = std::sqrt(1 + t * t + p * p);
                N[0] = 1 / L; N[1] = t / L; N[2] = p / L;
            });
        } else {
            auto g = std::make_shared<gen_grid<1>>(ax);
            for (i[0] = 0; i[0] < 8; ++i[0]) g->setdata(i, z(i[0], 0));
            g->interp_type(0, it); g->edge_limit(0, true);
            height_case(boundary_grid<1>(g), [&](const wposition1& q, double* H, double* N) {
                double x[1] = {q.theta()}, dx[1];
                *H = g->interpolate(x, dx);
                double t = -dx[0] / *H, L = std::sqrt(1 + t * t);
                N[0] = 1 / L; N[1] = t / L; N[2] = 0;
            });
        }
    }
    for (double d : {0.0, 40.0, -40.0}) for (double w : {0.0, 12.0}) {
        if (!seq::next("volume %g %g", d, w)) continue;
        volume_flat v(d, w, -20.0);
        wposition p = grid_of({1.0, 2.0}, {3.0, 4.0, 5.0}, 0.0);
        matrix<double> h(2, 3), t(2, 3), h2(2, 3);
        v.depth(p, &h, &t);
        v.depth(p, &h2);
        double a, b, c;
        v.depth(wposition1(1, 2), &a, &b);
        v.depth(wposition1(1, 2), &c);
        for (size_t r = 0; r < 2; ++r) for (size_t q = 0; q < 3; ++q) seq::check(h(r, q) == (double)R0 - std::fabs(d) && h2(r, q) == h(r, q) && t(r, q) == w, "layer at many locations");
        seq::check(a == (double)R0 - std::fabs(d) && b == w && c == a, "layer at one location");
        seq::observe("%.9g", a);
    }
}

SEQ_SECTION(iso, "isovelocity ocean", "every depth and bottom loss in the lattice") {
    for (double d : {100.0, 1000.0, 5000.0}) for (double l : {0.0, 0.5, 6.0}) {
        if (!seq::next("make_iso %g %g", d, l)) continue;
        ocean_utils::make_iso(d, l);
        ocean_model::csptr o = ocean_shared::current();
        wposition1 at(10, 20, -50);
        double h;
        wvector1 n;
        vector<double> a(5), p(5);
        seq_vector::csptr f = freqs(bands[1]);
        o->surface()->height(at, &h, &n);
        seq::check(h == (double)R0 && n.rho() == -1, "surface");
        o->surface()->reflect_loss(at, f, 0.3, &a, &p);
        for (int i = 0; i < 5; ++i) seq::check(a(i) == 0 && seq::near(p(i), M_PI), "surface reflection");
        o->bottom()->height(at, &h, &n);
        seq::check(h == (double)R0 - d && n.rho() == 1, "bottom");
        o->bottom()->reflect_loss(at, f, 0.3, &a, &p);
        for (int i = 0; i < 5; ++i) seq::check(a(i) == l && p(i) == 0, "bottom reflection");
        for (int i = 0; i < 2; ++i) { o->scattering(i, at, f, 0.2, 0.3, 0, 0, &a); for (int k = 0; k < 5; ++k) seq::check(seq::near(a(k), 1e-3, 1e-9), "scattering"); }
        matrix<double> c(1, 1), dist(1, 1);
        dist(0, 0) = 1e4;
        wvector g(1, 1);
        o->profile()->sound_speed(wposition(at), &c, &g);
        seq::check(c(0, 0) == 1500 && g.rho(0, 0) == 0, "speed");
        matrix<vector<double>> att(1, 1);
        att(0, 0).resize(5);
        o->profile()->attenuation(wposition(at), f, dist, &att);
        for (int k = 0; k < 5; ++k) seq::check(att(0, 0)(k) == 0, "attenuation");
        seq::check(o->num_volume() == 0, "layers");
        seq::observe("%g", h);
    }
}
