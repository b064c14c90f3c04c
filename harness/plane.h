// Independent rays in a stratified ocean on the round earth.
#pragma once
#include <usml/eigenrays/eigenrays.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
using namespace usml::eigenverbs;
using namespace usml::eigenrays;
typedef std::shared_ptr<const ocean_model> ocean_ptr;
static const double R0 = wposition::earth_radius;

// ----------------------------------------------------------- independent rays
struct speed_law {
    const char* name;
    double (*c)(double z);   // depth positive down
    double (*d)(double z);   // derivative with depth
    profile_model* (*make)();
    // three times the largest error of the propagator in position (m), direction, length (m), speed; in
    // time, position, direction, grazing angle, and speed of reflections, and in the length of their direction
    double tol[10];
};
static const speed_law laws[] = {
    {"constant", [](double) { return 1500.0; }, [](double) { return 0.0; }, []() -> profile_model* { return new profile_linear(1500.0); }, {0.02, 1.5e-07, 0.6, 1e-09, 0.0001, 0.1, 1.5e-07, 0.0001, 1e-09, 1e-09}},
    {"increasing", [](double z) { return 1480 + 0.016 * z; }, [](double) { return 0.016; }, []() -> profile_model* { return new profile_linear(1480.0, 0.016); }, {1.2, 0.00012, 1.3, 0.02, 0.004, 6, 6e-05, 0.005, 0.006, 3e-09}},
    {"decreasing", [](double z) { return 1530 - 0.05 * z; }, [](double) { return -0.05; }, []() -> profile_model* { return new profile_linear(1530.0, -0.05); }, {7, 0.0007, 3, 0.3, 0.01, 15, 0.0004, 0.015, 0.06, 3e-07}},
    {"munk", [](double z) { double y = 2 * (z - 1300) / 1300; return 1500 * (1 + 0.00737 * (y - 1 + std::exp(-y))); }, [](double z) { double y = 2 * (z - 1300) / 1300; return 1500 * 0.00737 * (1 - std::exp(-y)) * 2 / 1300; }, []() -> profile_model* { return new profile_munk(); }, {12, 0.0025, 21, 0.8, 0.018, 27, 0.002, 0.03, 0.3, 0.0015}},
    {"n2", [](double z) { return 1550 / std::sqrt(1 + 2 * 0.06 / 1550 * z); }, [](double z) { return -0.06 * std::pow(1 + 2 * 0.06 / 1550 * z, -1.5); }, []() -> profile_model* { return new profile_n2(1550.0, 0.06); }, {10, 0.001, 4, 0.4, 0.017, 25, 0.0005, 0.018, 0.08, 2.5e-06}},
    {"catenary", [](double z) { return 1475 * std::cosh((z - 1000) / 30000.0); }, [](double z) { return 1475 / 30000.0 * std::sinh((z - 1000) / 30000.0); }, []() -> profile_model* { return new profile_catenary(1475.0, 30000.0, 1000.0); }, {0.3, 1e-06, 0.6, 0.0015, 0.0004, 0.6, 6e-07, 0.0004, 0.0007, 5e-08}},
};
enum { SURFACE, BOTTOM, UPPER, LOWER, LAYER0 };
struct event { double t, r, psi, de; int kind; double len; int n[4]; };
struct plane_ray {  // in the vertical plane of the ray
    double r, psi, de, t = 0, len = 0;
    double grazing = 1e9;   // smallest grazing angle of a reflection so far
    double last = -1;       // time of the last event
    int n[4] = {0, 0, 0, 0};
    std::vector<event> events;
};
struct plane_ocean {
    const speed_law* law;
    double depth;
    std::vector<double> layers;
    double H = 0.004;  // longest step
    void deriv(const double* y, double* dy) const {
        double z = R0 - y[0], c = law->c(z);
        dy[0] = c * std::sin(y[2]);
        dy[1] = c * std::cos(y[2]) / y[0];
        dy[2] = (c / y[0] + law->d(z)) * std::cos(y[2]);
        dy[3] = c;
    }
    void rk4(double* y, double h) const {
        double k1[4], k2[4], k3[4], k4[4], w[4];
        deriv(y, k1);
        for (int i = 0; i < 4; ++i) w[i] = y[i] + h / 2 * k1[i];
        deriv(w, k2);
        for (int i = 0; i < 4; ++i) w[i] = y[i] + h / 2 * k2[i];
        deriv(w, k3);
        for (int i = 0; i < 4; ++i) w[i] = y[i] + h * k3[i];
        deriv(w, k4);
        for (int i = 0; i < 4; ++i) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    }
    void advance(plane_ray& p, double until) const {
        while (p.t < until - 1e-12) {
            double h = std::min(H, until - p.t), y[4] = {p.r, p.psi, p.de, p.len}, w[4];
            std::copy(y, y + 4, w);
            rk4(w, h);
            // earliest event in this step
            double best = h;
            int kind = -1;
            auto root = [&](std::function<double(const double*)> g) {
                double a = 0, b = best, v[4];
                for (int i = 0; i < 60; ++i) {
                    double m = 0.5 * (a + b);
                    std::copy(y, y + 4, v);
                    rk4(v, m);
                    (g(v) > 0 ? b : a) = m;
                }
                return b;
            };
            auto probe = [&](int k, std::function<double(const double*)> g) {
                double v[4];
                std::copy(y, y + 4, v);
                rk4(v, best);
                if (g(y) < 0 && g(v) > 0) { double x = root(g); if (x < best || kind < 0) { best = x; kind = k; } }
            };
            bool up = y[2] > 0 || (y[2] == 0 && w[2] > 0);
            if (w[0] > R0 || w[0] < R0 - depth || w[2] * y[2] < 0 || !layers.empty()) {
                if (up) probe(SURFACE, [&](const double* v) { return v[0] - R0; });
                if (!up) probe(BOTTOM, [&](const double* v) { return R0 - depth - v[0]; });
                if (y[2] > 0) probe(UPPER, [&](const double* v) { return -v[2]; });
                if (y[2] < 0) probe(LOWER, [&](const double* v) { return v[2]; });
                for (size_t i = 0; i < layers.size(); ++i) {
                    double R = R0 - layers[i], s = y[0] < R ? 1 : -1;
                    probe(LAYER0 + (int)i, [R, s](const double* v) { return s * (v[0] - R); });
                }
            }
            rk4(y, best);
            p.r = y[0]; p.psi = y[1]; p.de = y[2]; p.len = y[3];
            p.t += best;
            if (kind >= 0) {
                p.events.push_back({p.t, p.r, p.psi, p.de, kind, p.len, {p.n[0], p.n[1], p.n[2], p.n[3]}});
                p.last = p.t;
                if (kind <= BOTTOM) {
                    p.grazing = std::min(p.grazing, std::fabs(p.de));
                    p.r = kind == SURFACE ? R0 - 1e-9 : R0 - depth + 1e-9;
                    p.de = -p.de;
                } else if (kind <= LOWER) {
                    p.de = kind == UPPER ? -1e-13 : 1e-13;
                    if (R0 - p.r < 5 || p.r - (R0 - depth) < 5) p.grazing = 0;  // may or may not touch
                } else {
                    p.r += p.de > 0 ? 1e-7 : -1e-7;
                }
                if (kind <= LOWER) ++p.n[kind];
            }
        }
    }
};
struct v3 { double x, y, z; };
static v3 at_sphere(double r, double lat, double lng) { return {r * std::cos(lat) * std::cos(lng), r * std::cos(lat) * std::sin(lng), r * std::sin(lat)}; }
static double dist(v3 a, v3 b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
static double dot(v3 a, v3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static v3 add(v3 a, double s, v3 b) { return {a.x + s * b.x, a.y + s * b.y, a.z + s * b.z}; }
struct frame { v3 up, north, east; };
static frame frame_at(double lat, double lng) {
    return {at_sphere(1, lat, lng), {-std::sin(lat) * std::cos(lng), -std::sin(lat) * std::sin(lng), std::cos(lat)}, {-std::sin(lng), std::cos(lng), 0}};
}
// position and direction of a plane ray that leaves a place in a direction
static void embed(double lat, double lng, double az, double r, double psi, double de, v3* pos, v3* dir) {
    frame f = frame_at(lat, lng);
    v3 head = add({f.north.x * std::cos(az), f.north.y * std::cos(az), f.north.z * std::cos(az)}, std::sin(az), f.east);
    v3 up = add({f.up.x * std::cos(psi), f.up.y * std::cos(psi), f.up.z * std::cos(psi)}, std::sin(psi), head);
    v3 on = add({head.x * std::cos(psi), head.y * std::cos(psi), head.z * std::cos(psi)}, -std::sin(psi), f.up);
    *pos = {r * up.x, r * up.y, r * up.z};
    *dir = add({up.x * std::sin(de), up.y * std::sin(de), up.z * std::sin(de)}, std::cos(de), on);
}
static void observed(const wposition1& p, const wvector1& n, v3* pos, v3* dir) {
    double lat = M_PI_2 - p.theta(), lng = p.phi();
    *pos = at_sphere(p.rho(), lat, lng);
    frame f = frame_at(lat, lng);
    double L = std::sqrt(n.rho() * n.rho() + n.theta() * n.theta() + n.phi() * n.phi());
    *dir = {0, 0, 0};
    *dir = add(*dir, n.rho() / L, f.up);
    *dir = add(*dir, -n.theta() / L, f.north);
    *dir = add(*dir, n.phi() / L, f.east);
}

