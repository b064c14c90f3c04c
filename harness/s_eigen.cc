// C26: eigenrays: every acoustic path between source and target, found by
// exhaustive shooting of independent rays, against those of the real propagator.
#include <plane.h>
#include <seq.h>

#include <set>

struct hit { double z, t, de, tde, len, last, next, gap; int n[4]; std::vector<int> kinds; bool ok; };

// state of the ray when it has gone a range (as angle)
static hit shoot(const plane_ocean& P, double z0, double de, double psi, double H) {
    plane_ray p;
    p.r = R0 - z0; p.psi = 0; p.de = de;
    while (p.psi < psi) {
        plane_ray q = p;
        P.advance(q, p.t + H);
        if (q.psi >= psi) {
            double a = 0, b = H;
            for (int i = 0; i < 30; ++i) {
                double m = a + (b - a) * (i < 3 ? (psi - p.psi) / (q.psi - p.psi) : 0.5);
                if (i < 3) m = std::min(H, std::max(0.0, m + (i - 1) * 1e-6));
                plane_ray w = p;
                P.advance(w, p.t + m);
                (w.psi >= psi ? b : a) = m;
                if (b - a < 1e-10) break;
            }
            P.advance(p, p.t + b);
            break;
        }
        p = q;
        if (p.t > 60) return hit{0, 0, 0, 0, 0, 0, 0, 0, {0, 0, 0, 0}, {}, false};
    }
    plane_ray after = p;
    P.advance(after, p.t + 0.2);
    double next = after.events.size() > p.events.size() ? after.events[p.events.size()].t : 1e9;
    hit h{R0 - p.r, p.t, de, p.de, p.len, p.last, next, 0, {p.n[0], p.n[1], p.n[2], p.n[3]}, {}, p.grazing > to_radians(1.0)};
    for (auto& e : p.events) h.kinds.push_back(e.kind);
    return h;
}
// three times the largest errors in travel time, launch angle, arrival angle, launch azimuth, arrival azimuth,
// intensity, and intensity of broad gaussian beams, for fans with small steps, with coarse azimuths, and with long steps
static const double tolerance[3][7] = {
    {0.00025, 0.1, 0.1, 0.02, 0.02, 0.5, 4.5},
    {0.011, 0.13, 0.15, 0.45, 0.45, 0.35, 4.5},
    {0.0003, 0.7, 0.7, 0.08, 0.08, 1.5, 4.5},
};
static const char* quantity[] = {"travel time", "launch angle", "arrival angle", "launch azimuth", "arrival azimuth", "intensity", "intensity of broad beams"};

struct fan { const char* name; seq_vector* (*make)(); double spacing, lo, hi; };
static const fan fans[] = {
    {"1 deg", [] { return (seq_vector*)new seq_linear(-50.0, 1.0, 50.0); }, 1, -50, 50},
    {"half deg", [] { return (seq_vector*)new seq_linear(-30.0, 0.5, 30.0); }, 0.5, -30, 30},
};
struct bearing_fan { const char* name; double first, inc; int n; };

SEQ_SECTION(paths, "paths to targets", "every sound speed law x bottom depth x source depth x launch fan x azimuth fan x spreading model x time step, all eigenrays of all targets") {
    static const double freqs[] = {500.0, 4000.0};
    static const double bearings[] = {0, 37.3, 180.2, -90.0, -179.8};
    for (const speed_law& law : laws) for (double depth : {300.0, 1500.0}) for (double z : {40.0, 160.0}) for (const fan& fn : fans) {
        if (!seq::thorough() && ((depth == 300) + (z == 40) + (&fn == fans)) % 2 == (&law - laws) % 2) continue;
        if (!seq::next("%s bottom %g source %g fan %s", law.name, depth, z, fn.name)) continue;
        seq_vector::csptr freq(new seq_data(std::vector<double>(freqs, freqs + 2)));
        seq_vector::csptr de(fn.make());
        profile_model::csptr profile(law.make());
        const_cast<profile_model&>(*profile).attenuation(attenuation_model::csptr(new attenuation_constant(2e-7)));
        boundary_model::csptr surface(new boundary_flat());
        boundary_model::csptr bottom(new boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(1.5, 0.25))));
        ocean_model::csptr ocean(new ocean_model(surface, bottom, profile));
        wposition1 src(-35.0, 179.99, -z);
        const double ranges[] = {700, 2000, 5000}, depths[] = {25, 90, 210};
        plane_ocean P = {&law, depth, {}};
        const double H = 0.02;
        P.H = H;
        // independent paths, for every range and depth
        struct expected { hit h; double tl; bool clear; };
        std::map<std::pair<int, int>, std::vector<expected>> want;
        std::map<std::pair<int, int>, std::vector<std::pair<double, double>>> muddy;  // launch angles that are not clear
        for (int r = 0; r < 3; ++r) {
            const double psi = ranges[r] / R0, step = 0.1;
            std::vector<hit> scan;
            for (double a = fn.lo; a <= fn.hi + 1e-9; a += step) scan.push_back(shoot(P, z, to_radians(a + 1e-5), psi, H));
            const int margin = (int)(3 * fn.spacing / step + 0.5);
            // family: same interactions; monotonic depths
            std::vector<bool> clear(scan.size(), true);
            for (int i = 0; i < (int)scan.size(); ++i) {
                if (i < margin || i + margin >= (int)scan.size()) { clear[i] = false; continue; }
                double s = 0, big = 0, small = 1e9;
                for (int k = i - margin; k < i + margin; ++k) {
                    double d = scan[k + 1].z - scan[k].z;
                    if (scan[k].kinds != scan[i].kinds || scan[k + 1].kinds != scan[i].kinds || !scan[k].ok) { clear[i] = false; break; }
                    if (s == 0) s = d > 0 ? 1 : -1;
                    if (d * s <= 0) { clear[i] = false; break; }
                    big = std::max(big, std::fabs(d)); small = std::min(small, std::fabs(d));
                }
                if (big > 2 * small) clear[i] = false;
            }
            for (int t = 0; t < 3; ++t) for (size_t i = 0; i + 1 < scan.size(); ++i) {
                if (scan[i].kinds != scan[i + 1].kinds || (scan[i].z - depths[t]) * (scan[i + 1].z - depths[t]) > 0) continue;
                double a = scan[i].de, b = scan[i + 1].de, sa = scan[i].z - depths[t];
                hit h = scan[i];
                for (int k = 0; k < 40 && b - a > 1e-10; ++k) {
                    double m = 0.5 * (a + b);
                    h = shoot(P, z, m, psi, H);
                    ((h.z - depths[t]) * sa > 0 ? a : b) = m;
                }
                const double e = 1e-5;
                double dz = (shoot(P, z, h.de + e, psi, H).z - shoot(P, z, h.de - e, psi, H).z) / (2 * e);
                h.gap = 1e9;  // time from the interactions of this ray and its neighbors
                for (int k = std::max(0, (int)i - margin); k <= std::min((int)scan.size() - 1, (int)i + margin); ++k) h.gap = std::min(h.gap, std::min(h.t - scan[k].last, scan[k].next - h.t));
                double area = (R0 - depths[t]) * std::sin(psi) * std::fabs(dz) * std::cos(h.tde) / std::cos(h.de);
                want[{r, t}].push_back({h, 10 * std::log10(area) + 10 * std::log10(law.c(z) / law.c(depths[t])), clear[i] && clear[i + 1]});
            }
            for (size_t i = 0; i < scan.size(); ++i) if (!clear[i]) for (int t = 0; t < 3; ++t) muddy[{r, t}].push_back({scan[i].de - to_radians(step), scan[i].de + to_radians(step)});
        }
        for (int circle = 0; circle < 3; ++circle) for (int gauss = 0; gauss < 2; ++gauss) for (double dt : {0.02, 0.05, 0.08}) {
            if (dt * 1500 > depth / 4 || (circle && (fn.spacing < 1 || gauss == circle - 1)) || (circle != 0) != (dt == 0.05)) continue;
            for (int first = 0; first < 5; first += circle ? 5 : 1) {
                if (!seq::thorough() && dt == 0.02 && first % 2 != gauss) continue;
                const int nb = circle ? 5 : 1;
                seq_vector::csptr az;
                double daz;
                if (circle == 0) { az.reset(new seq_linear(std::floor(bearings[first]) - 3.0, 1.0, 8)); daz = 1; }
                else if (circle == 1) { az.reset(new seq_linear(0.0, 10.0, 360.0)); daz = 10; }
                else { az.reset(new seq_linear(-180.0, 5.0, 180.0)); daz = 5; }
                wposition tgt(3, 3 * nb);
                std::vector<double> heads(9 * nb);
                for (int r = 0; r < 3; ++r) for (int t = 0; t < 3 * nb; ++t) {
                    v3 x, d;
                    embed(to_radians(-35.0), to_radians(179.99), to_radians(bearings[first + t / 3]), R0 - depths[t % 3], ranges[r] / R0, 0, &x, &d);
                    double n = std::sqrt(dot(x, x));
                    tgt.rho(r, t, n);
                    tgt.theta(r, t, M_PI_2 - std::asin(x.z / n));
                    tgt.phi(r, t, std::atan2(x.y, x.x));
                    frame fr = frame_at(M_PI_2 - tgt.theta(r, t), tgt.phi(r, t));
                    heads[r * 3 * nb + t] = to_degrees(std::atan2(dot(d, fr.east), dot(d, fr.north)));
                }
                wave_queue wave(ocean, freq, src, de, az, dt, &tgt, gauss ? wave_queue::HYBRID_GAUSSIAN : wave_queue::CLASSIC_RAY);
                eigenray_collection found(freq, src, tgt);
                wave.add_eigenray_listener(&found);
                const double T = 3.7;
                while (wave.time() < T) wave.step();
                uint64_t hash = 0;
                for (int r = 0; r < 3; ++r) for (int t = 0; t < 3 * nb; ++t) {
                    const double bearing = bearings[first + t / 3];
                    eigenray_list got = found.eigenrays(r, t);
                    std::vector<eigenray_model::csptr> rays(got.begin(), got.end());
                    std::vector<bool> used(rays.size());
                    char where[200];
                    snprintf(where, sizeof where, "az %d gauss %d step %g bearing %g range %g depth %g", circle, gauss, dt, bearing, ranges[r], depths[t % 3]);
                    for (auto& w : want[{r, t % 3}]) {
                        const hit& h = w.h;
                        if (!w.clear || h.t > T - 3 * dt || h.gap < 2 * dt) continue;
                        int n = 0;
                        for (size_t k = 0; k < rays.size(); ++k) {
                            const eigenray_model& g = *rays[k];
                            if (g.surface != h.n[SURFACE] || g.bottom != h.n[BOTTOM] || std::fabs(g.source_de - to_degrees(h.de)) > 0.5 * fn.spacing) continue;
                            ++n;
                            used[k] = true;
                            if (n > 1) continue;
                            double E[7] = {std::fabs(g.travel_time - h.t), std::fabs(g.source_de - to_degrees(h.de)), std::fabs(g.target_de - to_degrees(h.tde)),
                                std::fabs(std::remainder(g.source_az - bearing, 360.0)), std::fabs(std::remainder(g.target_az - heads[r * 3 * nb + t], 360.0)), 0, 0};
                            for (int f = 0; f < 2; ++f) E[5 + (gauss && !f)] = std::max(E[5 + (gauss && !f)], std::fabs(g.intensity(f) - (w.tl + 1.5 * h.n[BOTTOM] + 2e-7 * h.len * freqs[f])));
                            const double* tol = tolerance[circle ? 1 : dt > 0.06 ? 2 : 0];
                            for (int e = 0; e < 7; ++e) seq::check(E[e] <= tol[e], "%s: %s of path %.3f to %.3f with %d and %d bounces is off by %g", where, quantity[e], to_degrees(h.de), to_degrees(h.tde), h.n[0], h.n[1], E[e]);
                            seq::check(g.upper == h.n[UPPER] && g.lower == h.n[LOWER], "%s: vertices %d %d instead of %d %d", where, g.upper, g.lower, h.n[UPPER], h.n[LOWER]);
                            seq::check(seq::near(g.phase(0), 0.25 * g.bottom - M_PI * g.surface - M_PI_2 * g.caustic, 0, 1e-9), "%s: phase", where);
                        }
                        seq::check(n == 1, "%s: %d eigenrays for path %.3f to %.3f with %d and %d bounces after %g s, gap %g", where, n, to_degrees(h.de), to_degrees(h.tde), h.n[0], h.n[1], h.t, h.gap);
                    }
                    for (size_t k = 0; k < rays.size(); ++k) if (!used[k]) {
                        double a = to_radians(rays[k]->source_de);
                        bool ok = rays[k]->travel_time > T - 3 * dt;
                        for (auto& m : muddy[{r, t % 3}]) if (a > m.first && a < m.second) ok = true;
                        for (auto& w : want[{r, t % 3}]) if (w.h.gap < 2 * dt && std::fabs(w.h.t - rays[k]->travel_time) < 2 * dt && rays[k]->surface == w.h.n[SURFACE] && rays[k]->bottom == w.h.n[BOTTOM]) ok = true;
                        seq::check(ok, "%s: unexpected eigenray %.3f to %.3f with %d and %d bounces after %g s and %g dB", where, rays[k]->source_de, rays[k]->target_de, rays[k]->surface, rays[k]->bottom, rays[k]->travel_time, rays[k]->intensity(0));
                    }
                    hash = seq::mix(hash, rays.size());
                }
                seq::observe_hash(hash);
            }
        }
    }
}

// what listeners hear when the propagation has limits, other targets, or other listeners
struct trace : public eigenray_listener {
    std::vector<std::pair<size_t, eigenray_model::csptr>> all;
    size_t cols;
    int steps = 0;
    double last = 0;
    void add_eigenray(size_t t1, size_t t2, eigenray_model::csptr ray, size_t) override { all.push_back({t1 * cols + t2, ray}); }
    void check_eigenrays(double time, size_t) override { ++steps; last = time; }
};
static bool same(const eigenray_model& a, const eigenray_model& b) {
    bool ok = a.surface == b.surface && a.bottom == b.bottom && a.caustic == b.caustic && a.upper == b.upper && a.lower == b.lower;
    ok = ok && seq::near(a.travel_time, b.travel_time, 0, 1e-9) && seq::near(a.source_de, b.source_de, 0, 1e-7) && seq::near(a.target_de, b.target_de, 0, 1e-7);
    ok = ok && seq::near(a.source_az, b.source_az, 0, 1e-7) && seq::near(a.target_az, b.target_az, 0, 1e-7) && a.intensity.size() == b.intensity.size();
    for (size_t f = 0; ok && f < a.intensity.size(); ++f) ok = seq::near(a.intensity(f), b.intensity(f), 0, 1e-6) && seq::near(a.phase(f), b.phase(f), 0, 1e-9);
    return ok;
}
SEQ_SECTION(limits, "limits and listeners", "every sound speed law x bottom depth x limit on bounces, caustics, vertices, and intensity, against the eigenrays without limits; targets alone and together; one and two listeners") {
    enum { BOUNCE_B, BOUNCE_S, CAUSTIC, UP, LEVEL, ALONE, NKINDS };
    static const char* kinds[] = {"bottom", "surface", "caustic", "upper", "intensity", "alone"};
    for (const speed_law& law : laws) for (double depth : {300.0, 2500.0}) for (int kind = 0; kind < NKINDS; ++kind) for (int limit = 0; limit < 4; ++limit) {
        if (!seq::next("%s bottom %g limit on %s %d", law.name, depth, kinds[kind], limit)) continue;
        seq_vector::csptr freq(new seq_data(std::vector<double>{200, 2000.0})), de(new seq_linear(-60.0, 1.0, 60.0)), az(new seq_linear(-3.0, 1.0, 7));
        profile_model::csptr profile(law.make());
        const_cast<profile_model&>(*profile).attenuation(attenuation_model::csptr(new attenuation_constant(4e-6)));
        boundary_model::csptr surface(new boundary_flat()), bottom(new boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(2.0))));
        ocean_model::csptr ocean(new ocean_model(surface, bottom, profile));
        wposition1 src(5.0, -20.0, -100);
        wposition tgt(2, 2), one(1, 1);
        for (int r = 0; r < 2; ++r) for (int t = 0; t < 2; ++t) {
            wposition1 p(src, r ? 4000 : 1000, 0.0);
            tgt.latitude(r, t, p.latitude()); tgt.longitude(r, t, p.longitude()); tgt.altitude(r, t, t ? -150 : -30);
        }
        const int lone = limit;
        one.latitude(0, 0, tgt.latitude(lone / 2, lone % 2)); one.longitude(0, 0, tgt.longitude(lone / 2, lone % 2)); one.altitude(0, 0, tgt.altitude(lone / 2, lone % 2));
        const double dt = 0.03, T = 3.9;
        trace open, first, second;
        open.cols = first.cols = second.cols = 2;
        int n = 0;
        {
            wave_queue wave(ocean, freq, src, de, az, dt, &tgt);
            wave.add_eigenray_listener(&open);
            while (wave.time() < T) { wave.step(); ++n; seq::check(open.steps == n && seq::near(open.last, wave.time(), 0, 1e-9), "end of step is not announced"); }
        }
        const double level = 55.0 + 5 * limit;
        {
            wave_queue wave(ocean, freq, src, de, az, dt, kind == ALONE ? &one : &tgt);
            if (kind == BOUNCE_B) wave.max_bottom(limit);
            if (kind == BOUNCE_S) wave.max_surface(limit);
            if (kind == CAUSTIC) wave.max_caustic(limit);
            if (kind == UP) wave.max_upper(limit);
            if (kind == LEVEL) wave.intensity_threshold(limit % 2 ? -level : level);
            wave.add_eigenray_listener(&first);
            wave.add_eigenray_listener(&second);
            while (wave.time() < T) {
                wave.step();
                if (kind == ALONE && wave.time() > 2 && second.cols) { wave.remove_eigenray_listener(&second); second.cols = 0; }
            }
        }
        std::vector<std::pair<size_t, eigenray_model::csptr>> want;
        for (auto& r : open.all) {
            const eigenray_model& g = *r.second;
            bool in = kind == BOUNCE_B ? g.bottom <= limit : kind == BOUNCE_S ? g.surface <= limit : kind == CAUSTIC ? g.caustic <= limit : kind == UP ? g.upper <= limit : kind == LEVEL ? (g.intensity(0) < level || g.intensity(1) < level) : r.first == (size_t)lone;
            if (in) want.push_back(r);
        }
        seq::check(first.all.size() == want.size(), "%zu eigenrays instead of %zu", first.all.size(), want.size());
        for (size_t i = 0; i < want.size() && i < first.all.size(); ++i) {
            seq::check((kind == ALONE ? (size_t)lone : first.all[i].first) == want[i].first, "target of eigenray");
            seq::check(same(*first.all[i].second, *want[i].second), "eigenray %zu depends on limits or other targets", i);
        }
        size_t k = first.all.size();
        if (kind == ALONE) for (k = 0; k < first.all.size() && first.all[k].second->travel_time <= 2.0 - 2 * dt;) ++k;
        seq::check(second.all.size() >= k && second.all.size() <= first.all.size(), "second listener");
        for (size_t i = 0; i < k && i < second.all.size(); ++i) seq::check(second.all[i].first == first.all[i].first && same(*second.all[i].second, *first.all[i].second), "second listener gets other eigenrays");
        if (kind == ALONE) for (auto& r : second.all) seq::check(r.second->travel_time < 2 + 3 * dt, "removed listener is still called");
        seq::observe_hash(seq::mix(want.size(), open.all.size()));
    }
}
