// C21: beam patterns have the documented levels and directivities for every
// arrival, steering, frequency, and rotation in a lattice.
#include <seq.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/types/types.h>

#include <cmath>
#include <complex>
#include <functional>
#include <list>
#include <memory>
#include <vector>

using namespace usml::beampatterns;
typedef std::complex<double> cd;
struct dir { double f, r, u; };
static double rad(double d) { return d * M_PI / 180; }
static dir at(double de, double az) { return {std::cos(rad(de)) * std::cos(rad(az)), std::cos(rad(de)) * std::sin(rad(az)), std::sin(rad(de))}; }
static double gap(double a, double b) { double d = std::fmod(std::fabs(a - b), 360.0); return d > 180 ? 360 - d : d; }
typedef std::function<double(double de, double az, double sde, double saz, double f, double c)> level_fn;   // NaN: not determined here
typedef std::function<double(double sde, double saz, double f, double c)> gain_fn;
struct element { dir p; cd w; };
static double array(const std::vector<element>& e, dir a, dir s, double f, double c) {
    cd sum = 0, w = 0;
    for (auto& x : e) {
        double k = 2 * M_PI * f / c * ((a.f - s.f) * x.p.f + (a.r - s.r) * x.p.r + (a.u - s.u) * x.p.u);
        sum += x.w * std::polar(1.0, -k); w += x.w;
    }
    return std::norm(sum) / std::norm(w);
}
// average of the level of an array over the sphere in closed form
static double noise(const std::vector<element>& e, dir s, double f, double c) {
    cd sum = 0, w = 0;
    for (auto& x : e) {
        w += x.w;
        for (auto& y : e) {
            double df = x.p.f - y.p.f, dr = x.p.r - y.p.r, du = x.p.u - y.p.u, k = 2 * M_PI * f / c, d = k * std::sqrt(df * df + dr * dr + du * du);
            sum += x.w * std::conj(y.w) * std::polar(1.0, k * (s.f * df + s.r * dr + s.u * du)) * (d > 0 ? std::sin(d) / d : 1.0);
        }
    }
    return sum.real() / std::norm(w);
}
static std::vector<element> uniform(int nf, double df, int nr, double dr, int nu, double du) {
    std::vector<element> v;
    for (int u = 0; u < nu; ++u) for (int r = 0; r < nr; ++r) for (int f = 0; f < nf; ++f) v.push_back({{(f - (nf - 1) / 2.0) * df, (r - (nr - 1) / 2.0) * dr, (u - (nu - 1) / 2.0) * du}, 1.0});
    return v;
}
static const std::vector<element> uneven{{{0, 0, -2.25}, 1.0}, {{0.5, 0, -0.75}, 0.5}, {{0, 1, 0}, cd(1, 0.5)}, {{0, -1, 0.75}, 1.0}, {{-0.25, 0.3, 3}, cd(0.7, -0.2)}};
static matrix<double> locs(const std::vector<element>& e) {
    matrix<double> m(e.size(), 3);
    for (size_t i = 0; i < e.size(); ++i) { m(i, 0) = e[i].p.f; m(i, 1) = e[i].p.r; m(i, 2) = e[i].p.u; }
    return m;
}
static vector<cd> weights(const std::vector<element>& e) { vector<cd> w(e.size()); for (size_t i = 0; i < e.size(); ++i) w(i) = e[i].w; return w; }

struct model {
    std::string name;
    bp_model::csptr bp;
    level_fn level;
    gain_fn gain;
    double tol;          // of the directivity, relative
};
static const double NA = NAN;
static model arraym(const std::string& name, bp_model* bp, std::vector<element> e, bool baffle, double tol) {
    return {name, bp_model::csptr(bp), [e, baffle](double de, double az, double sde, double saz, double f, double c) {
        dir a = at(de, az);
        if (baffle && std::fabs(a.f) < 1e-9) return NA;
        if (baffle && a.f <= 0) return 0.0;
        return array(e, a, at(sde, saz), f, c);
    }, [e, baffle](double sde, double saz, double f, double c) { return baffle ? NA : noise(e, at(sde, saz), f, c); }, tol};
}
static double piston(double D, bool baffle, double de, double az, double f, double c) {
    dir a = at(de, az);
    if (baffle && std::fabs(a.f) < 1e-9) return NA;
    if (baffle && a.f <= 0) return 0.0;
    double x = M_PI * D * f / c * std::sqrt(std::max(0.0, 1 - a.f * a.f));
    double b = x < 1e-9 ? 1.0 : 2 * std::cyl_bessel_j(1.0, x) / x;
    return b * b;
}
static double solid(double hv, double hh, double de, double az, double sde, double saz) {
    double d = std::fabs(de - sde), a = gap(az, saz);
    if (std::fabs(d - hv) < 1e-6) return NA;
    if (std::fabs(de) > 89.9 || std::fabs(sde) > 89.9) { if (hh < 180) return NA; }
    else if (std::fabs(a - hh) < 1e-6) return hh < 180 ? NA : d < hv;
    return d < hv && (a < hh || hh >= 180) ? 1.0 : 0.0;
}
static double gauss(double hv, double hh, double de, double az, double sde, double saz) {
    if (hh < 180 && (std::fabs(de) > 89.9 || std::fabs(sde) > 89.9)) return NA;
    double d = hv < 90 ? (de - sde) / (2 * hv) : 0, a = hh < 180 ? gap(az, saz) / (2 * hh) : 0;
    return std::exp(-0.5 * (d * d + a * a));
}
static double cone(double hv, double hh, double sde) { return (std::min(90.0, sde + hv) - std::max(-90.0, sde - hv)) / 180 * (2 * hh / 360); }
static data_grid<3>::csptr table(double (*fn)(double f, double de, double az)) {
    seq_vector::csptr ax[] = {seq_vector::csptr(new seq_linear(500.0, 500.0, 4)), seq_vector::csptr(new seq_linear(-90.0, 15.0, 13)), seq_vector::csptr(new seq_linear(-180.0, 15.0, 25))};
    auto* g = new gen_grid<3>(ax);
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 13; ++j) for (size_t k = 0; k < 25; ++k) { size_t n[3] = {i, j, k}; g->setdata(n, fn(500.0 + 500 * i, -90.0 + 15 * j, -180.0 + 15 * k)); }
    for (int d = 0; d < 3; ++d) { g->interp_type(d, interp_enum::linear); g->edge_limit(d, true); }
    return data_grid<3>::csptr(g);
}
static double measured(double f, double de, double az) { return (0.3 + f / 4000) * (1 + de / 180) * (0.6 + 0.3 * std::fabs(az) / 180); }   // same at both ends of the azimuths
static double tabled(double f, double de, double az) { f = std::min(2000.0, std::max(500.0, f)); while (az > 180) az -= 360; while (az < -180) az += 360; return measured(f, de, az); }

static std::vector<model> models() {
    std::vector<model> v;
    v.push_back({"omni", bp_model::csptr(new bp_omni()), [](double, double, double, double, double, double) { return 1.0; }, [](double, double, double, double) { return 1.0; }, 1e-12});
    for (double N : {0.0, 0.5, 1.0, std::sqrt(3.0), 3.0}) v.push_back({"cardioid " + std::to_string(N), bp_model::csptr(new bp_cardioid(N)),
        [N](double de, double az, double, double, double, double) { double p = (1 + N * at(de, az).f) / (1 + N); return p * p; }, [N](double, double, double, double) { return (3 + N * N) / (3 * (1 + N) * (1 + N)); }, 1e-12});
    for (int s : {0, 1}) for (double null : {-300.0, -20.0, 10.0, -3.0}) {
        double K = std::pow(10, -std::fabs(null) / 20);
        v.push_back({std::string(s ? "sine " : "cosine ") + std::to_string(null), bp_model::csptr(new bp_trig(s ? bp_trig_type::sine : bp_trig_type::cosine, null)),
            [=](double de, double az, double, double, double, double) { dir a = at(de, az); double d = s ? a.r : a.f; return K + (1 - K) * d * d; }, [=](double, double, double, double) { return K + (1 - K) / 3; }, 1e-12});
    }
    for (double hv : {10.0, 22.5, 60.0, 90.0}) for (double hh : {15.0, 50.0, 100.0, 180.0}) {
        std::string n = std::to_string(hv) + " " + std::to_string(hh);
        gain_fn g = [=](double sde, double, double, double) { return cone(hv, hh, sde); };
        v.push_back({"solid " + n, bp_model::csptr(new bp_solid(2 * hv, 2 * hh)), [=](double de, double az, double sde, double saz, double, double) { return solid(hv, hh, de, az, sde, saz); }, g, 1e-7});
        v.push_back({"gaussian " + n, bp_model::csptr(new bp_gaussian(2 * hv, 2 * hh)), [=](double de, double az, double sde, double saz, double, double) { return gauss(hv, hh, de, az, sde, saz); }, g, 1e-7});
    }
    for (double D : {0.5, 6.0}) for (bool b : {false, true}) v.push_back({"piston " + std::to_string(D) + (b ? " with baffle" : ""), bp_model::csptr(new bp_piston(D, b)),
        [=](double de, double az, double, double, double f, double c) { return piston(D, b, de, az, f, c); }, [=](double, double, double f, double c) { double x = c / f / (M_PI * D); return x * x * (b ? 0.5 : 1); }, 1e-9});
    for (int n : {1, 2, 3, 5, 8}) for (double d : {0.4, 0.75, 1.5, 3.0}) {
        std::string t = std::to_string(n) + " " + std::to_string(d);
        v.push_back(arraym("horizontal line " + t, new bp_line(n, d, bp_line_type::HLA), uniform(n, d, 1, 0, 1, 0), false, 1e-6));
        v.push_back(arraym("vertical line " + t, new bp_line(n, d, bp_line_type::VLA), uniform(1, 0, 1, 0, n, d), false, 1e-6));
    }
    for (bool b : {false, true}) for (double d : {0.6, 1.5}) {
        model m = arraym(std::string("planar ") + std::to_string(d) + (b ? " with baffle" : ""), new bp_planar(5, d, 3, 0.8, b), uniform(1, 0, 3, 0.8, 5, d), b, 1e-9);
        m.gain = [=](double sde, double saz, double f, double c) { double cs = at(sde, saz).f; return std::fabs(cs) < 1e-3 ? NA : 3 * (c / f) * (c / f) / (2 * M_PI * M_PI * cs * 0.8 * d * std::sqrt((9.0 - 1) * (25.0 - 1))) * (b ? 0.5 : 1); };
        v.push_back(m);
        v.push_back(arraym(std::string("elements ") + std::to_string(d) + (b ? " with baffle" : ""), new bp_arb(locs(uniform(2, 0.5, 3, 0.8, 2, d)), b), uniform(2, 0.5, 3, 0.8, 2, d), b, 0.025));
    }
    v.push_back(arraym("uneven elements", new bp_arb(locs(uneven), weights(uneven)), uneven, false, 0.025));
    {
        auto e = uniform(1, 0, 3, 1, 1, 0);
        vector<double> w(3);
        for (int i = 0; i < 3; ++i) { w(i) = 1 + i; e[i].w = 1 + i; }
        v.push_back(arraym("weighted elements", new bp_arb(locs(e), w), e, false, 0.025));
    }
    v.push_back({"table", bp_model::csptr(new bp_grid(table(measured))), [](double de, double az, double, double, double f, double) {
        // frequencies, elevations, and azimuths are linear in the table except at azimuth zero where it has a grid point
        return std::fabs(de) > 89.9 ? NA : tabled(f, de, az); }, gain_fn(), 0});
    // combinations
    size_t n = v.size();
    auto pick = [&](const char* s) { for (size_t i = 0; i < n; ++i) if (v[i].name.find(s) == 0) return v[i]; abort(); };
    std::vector<std::vector<model>> sets{{}, {pick("omni")}, {pick("omni"), pick("vertical line 3 0.75")}, {pick("vertical line 3 0.75"), pick("horizontal line 5 0.4"), pick("cardioid 1")}, {pick("cosine -20"), pick("cosine -20")}, {pick("uneven elements"), pick("solid 60.000000 50")}, {pick("piston 6.000000 with baffle"), pick("omni")}};
    for (size_t i = 0; i < sets.size(); ++i) for (bool sum : {false, true}) {
        auto s = sets[i];
        std::list<bp_model::csptr> l;
        for (auto& m : s) l.push_back(m.bp);
        v.push_back({std::string(sum ? "sum " : "product ") + std::to_string(i), bp_model::csptr(new bp_multi(l, sum ? bp_multi_type::sum : bp_multi_type::product)),
            [=](double de, double az, double sde, double saz, double f, double c) { double r = sum ? 0 : 1; for (auto& m : s) { double x = m.level(de, az, sde, saz, f, c); if (sum) r += x; else r *= x; } return r; }, gain_fn(), 0});
    }
    return v;
}
static const std::vector<std::pair<double, double>> steer{{0, 0}, {0, 20}, {10, -20}, {-35, 170}, {20, -175}, {60, 90}, {-80, -100}, {0, 180}, {90, 0}};
static std::vector<std::pair<double, double>> arrivals() {
    std::vector<std::pair<double, double>> r;
    for (int de = -90; de <= 90; de += 15) for (int az = -180; az <= 180; az += 15) r.push_back({de, az});
    for (double de : {-7.0, 3.0, 52.0}) for (double az : {-178.0, -95.0, -3.0, 44.0, 91.0, 137.0, 179.0}) r.push_back({de, az});
    return r;
}
static std::vector<seq_vector::csptr> freqs() { return {seq_vector::csptr(new seq_linear(1000.0, 1.0, 1)), seq_vector::csptr(new seq_linear(500.0, 500.0, 4)), seq_vector::csptr(new seq_log(50.0, 2.0, 6))}; }

SEQ_SECTION(levels, "beam levels", "every model, steering, list of frequencies, and sound speed in the lattice, at every arrival, steered and rotated") {
    auto all = models();
    auto fs = freqs();
    for (auto& m : all) for (auto& s : steer) for (size_t k = 0; k < fs.size(); ++k) for (double c : {1500.0, 1440.0}) {
        if (!seq::next("%s steered %g %g frequencies %zu sound speed %g", m.name.c_str(), s.first, s.second, k, c)) continue;
        double sumv = 0;
        bvector st(s.first, s.second);
        orientation tilt(35.0, 20.0, -15.0), none;
        for (auto& a : arrivals()) {
            vector<double> L(fs[k]->size()), M(fs[k]->size()), N(fs[k]->size());
            for (size_t i = 0; i < L.size(); ++i) { L(i) = M(i) = 7.0; N(i) = i % 2 ? NAN : INFINITY; }
            bvector av(a.first, a.second);
            m.bp->beam_level(av, fs[k], &L, st, c);
            m.bp->beam_level(av, none, fs[k], &N, st, c);
            // an array that is tilted and a wavefront that is tilted with it
            matrix<double> R = tilt.rotation();
            bvector world;
            double w[3];
            for (int i = 0; i < 3; ++i) w[i] = R(i, 0) * av.front() + R(i, 1) * av.right() + R(i, 2) * av.up();
            world = bvector(w[0], w[1], w[2]);
            m.bp->beam_level(world, tilt, fs[k], &M, st, c);
            for (size_t i = 0; i < L.size(); ++i) {
                double want = m.level(a.first, a.second, s.first, s.second, (*fs[k])(i), c);
                if (std::isnan(want)) continue;
                seq::check(seq::near(L(i), want, 1e-6, 1e-7), "level %.9g instead of %.9g at arrival %g %g frequency %g", L(i), want, a.first, a.second, (*fs[k])(i));
                seq::check(seq::near(N(i), want, 1e-6, 1e-7), "level %.9g instead of %.9g at arrival %g %g frequency %g, not rotated", N(i), want, a.first, a.second, (*fs[k])(i));
                seq::check(seq::near(M(i), want, 1e-6, 1e-7), "level %.9g instead of %.9g at arrival %g %g frequency %g, rotated", M(i), want, a.first, a.second, (*fs[k])(i));
                seq::evaluated();
                sumv += L(i);
            }
        }
        seq::observe("%.9g", sumv);
    }
}

SEQ_SECTION(gains, "directivity", "every model, steering, and sound speed in the lattice; the result does not depend on what the output held") {
    auto all = models();
    auto fs = freqs();
    for (auto& m : all) for (auto& s : steer) for (double c : {1500.0, 1440.0}) for (size_t k = 1; k < 3; ++k) {
        if (!seq::thorough() && k == 2 && m.tol > 0.001) continue;
        if (!seq::thorough() && (m.gain == nullptr || m.tol > 0.001) && (s.second != -20 && s.second != 180 && (s.second != 170 || c == 1440.0))) continue;
        if (!seq::next("%s steered %g %g frequencies %zu sound speed %g", m.name.c_str(), s.first, s.second, k, c)) continue;
        size_t n = fs[k]->size();
        vector<double> L(n), M(n);
        for (size_t i = 0; i < n; ++i) { L(i) = 0; M(i) = 3.5; }
        bvector st(s.first, s.second);
        m.bp->directivity(fs[k], &L, st, c);
        m.bp->directivity(fs[k], &M, st, c);
        for (size_t i = 0; i < n; ++i) {
            double f = (*fs[k])(i);
            seq::check(L(i) == M(i), "directivity %.9g at %g Hz becomes %.9g with another start", L(i), f, M(i));
            double want = NA, tol = m.tol;
            if (m.gain) want = m.gain(s.first, s.second, f, c);
            else {     // integrate here
                double sum = 0, w = 0;
                bool skip = false;
                for (int de = -88; de < 90; de += 4) for (int az = 2; az < 360; az += 4) {
                    double l = m.level(de, az > 180 ? az - 360 : az, s.first, s.second, f, c);
                    if (std::isnan(l)) { skip = true; break; }
                    sum += l * std::cos(rad(de)); w += std::cos(rad(de));
                }
                if (!skip) want = sum / w, tol = 0.03;
            }
            if (std::isnan(want)) continue;
            seq::check(seq::near(L(i), want, tol, 1e-4 * (tol > 1e-3)), "directivity %.9g instead of %.9g at %g Hz", L(i), want, f);
            seq::evaluated();
        }
        seq::observe("%.6g", L(0));
    }
}

SEQ_SECTION(builders, "element locations", "every size up to three rings of five elements, every grid up to 3x3x3") {
    for (int a = 1; a <= 5; ++a) for (int b = 0; b <= 5; ++b) for (int c = 0; c <= (b ? 3 : 0); ++c) for (double o : {0.0, 0.7, -2.0}) {
        if (!seq::next("rings %d %d %d offset %g", a, b, c, o)) continue;
        int nr = 1 + (b > 0) + (c > 0);
        vector<double> rad(nr), off(nr);
        vector<int> num(nr);
        int n[3] = {a, b, c}, total = 0;
        for (int i = 0; i < nr; ++i) { rad(i) = 1 + 0.5 * i; off(i) = o * (i + 1); num(i) = n[i]; total += n[i]; }
        matrix<double> m(1, 1);
        bp_con_ring(rad, num, off, &m);
        seq::check((int)m.size1() == total && m.size2() == 3, "size");
        int row = 0;
        for (int i = 0; i < nr; ++i) {
            std::vector<double> seen;
            for (int j = 0; j < n[i]; ++j, ++row) {
                seq::check(m(row, 2) == 0 && seq::near(std::hypot(m(row, 0), m(row, 1)), rad(i)), "element %d is not on its ring", row);
                double ang = std::atan2(m(row, 1), m(row, 0)), k = (off(i) - ang) / (2 * M_PI / n[i]);
                seq::check(std::fabs(k - std::round(k)) < 1e-9, "element %d is not one of the evenly spaced angles", row);
                if (j == 0) seq::check(std::fabs(std::remainder(ang - off(i), 2 * M_PI)) < 1e-9, "first element of ring %d is not at the offset", i);
                long q = ((long)std::round(k) % n[i] + n[i]) % n[i];
                for (double s : seen) seq::check(s != q, "two elements at the same angle");
                seen.push_back(q);
            }
        }
        seq::observe("%d %g", total, o);
    }
    for (int f = 1; f <= 3; ++f) for (int r = 1; r <= 3; ++r) for (int u = 1; u <= 3; ++u) {
        if (!seq::next("grid %d %d %d", f, r, u)) continue;
        matrix<double> m(1, 1);
        bp_con_uniform(f, 0.5, r, 0.75, u, 1.25, &m);
        auto e = uniform(f, 0.5, r, 0.75, u, 1.25);
        seq::check(m.size1() == e.size() && m.size2() == 3, "size");
        for (size_t i = 0; i < e.size(); ++i) seq::check(seq::near(m(i, 0), e[i].p.f) && seq::near(m(i, 1), e[i].p.r) && seq::near(m(i, 2), e[i].p.u), "element %zu", i);
        seq::observe("%d %d %d", f, r, u);
    }
}
