// C25: acoustic rays: positions, directions, losses, and counts along every ray
// of the real propagator against independent integration of Snell's law.
#include <plane.h>
#include <seq.h>

// ------------------------------------------------------------------ listeners
struct bounce { double time, dt, grazing, speed; size_t de, az, type; wposition1 pos; wvector1 dir; };
struct bounces : public reflection_listener {
    std::vector<bounce> all;
    void reflect(double time, size_t de, size_t az, double dt, double grazing, double speed, const wposition1& position, const wvector1& ndirection, size_t type) override {
        all.push_back({time, dt, grazing, speed, de, az, type, position, ndirection});
    }
};

SEQ_SECTION(rays, "stratified ocean", "every sound speed law x bottom depth x source depth x place x time step x launch angle x azimuth, at every step") {
    static const double places[][2] = {{45, -45}, {0, 179.95}, {-70, 0.02}, {20, -180}};
    seq_vector::csptr freq(new seq_data(std::vector<double>{100.0, 1000.0, 10000.0}));
    seq_vector::csptr de(new seq_data(std::vector<double>{-80, -60, -45, -30, -20, -12, -7, -3, 3, 7, 12, 20, 30, 45, 60, 80}));
    seq_vector::csptr az(new seq_data(std::vector<double>{-90, 0, 37, 120, 200}));
    for (const speed_law& law : laws) for (double depth : {200.0, 1200.0, 4500.0}) for (double z : {50.0, 150.0, 1000.0, 3000.0}) for (auto& at : places) for (double dt : {0.02, 0.05, 0.1}) {
        if (z > depth - 40 || dt * 1500 > depth / 2) continue;
        if (!seq::next("%s bottom %g source %g at %g %g step %g", law.name, depth, z, at[0], at[1], dt)) continue;
        profile_model::csptr profile(law.make());
        const_cast<profile_model&>(*profile).attenuation(attenuation_model::csptr(new attenuation_constant(2e-7)));
        boundary_model::csptr surface(new boundary_flat());
        boundary_model::csptr bottom(new boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(2.5, 0.75))));
        ocean_model::csptr ocean(new ocean_model(surface, bottom, profile));
        wposition1 src(at[0], at[1], -z);
        wave_queue wave(ocean, freq, src, de, az, dt);
        bounces heard;
        wave.add_reflection_listener(&heard);
        plane_ocean P = {&law, depth, {}};
        std::vector<plane_ray> ref(de->size());
        for (size_t i = 0; i < de->size(); ++i) { ref[i].r = R0 - z; ref[i].psi = 0; ref[i].de = to_radians((*de)(i)); }
        double T = seq::thorough() ? 20.0 : 8.0;
        while (wave.time() < T - 1e-9) {
            wave.step();
            double t = wave.time();
            const wave_front& w = *wave.curr();
            for (size_t i = 0; i < de->size(); ++i) {
                plane_ray& p = ref[i];
                P.advance(p, t);
                if (p.grazing < to_radians(1.0)) continue;
                bool close = p.last > t - 0.002 || (p.de > 0 ? R0 - p.r < 5 : p.r - (R0 - depth) < 5);
                for (size_t j = 0; j < az->size(); ++j) {
                    v3 a, b, d, e;
                    embed(to_radians(at[0]), to_radians(at[1]), to_radians((*az)(j)), p.r, p.psi, p.de, &a, &d);
                    observed(wposition1(w.position, i, j), wvector1(w.ndirection, i, j), &b, &e);
                    double ep = dist(a, b), ed = std::acos(std::min(1.0, dot(d, e)));
                    const double grow = T > 10 ? 3 : 1;
                    seq::check(ep <= grow * law.tol[0], "ray %g %g at %g s off by %g m", (*de)(i), (*az)(j), t, ep);
                    seq::check(close || ed <= grow * law.tol[1], "ray %g %g at %g s turned by %g rad", (*de)(i), (*az)(j), t, ed);
                    seq::check(std::fabs(w.path_length(i, j) - p.len) <= grow * law.tol[2], "ray %g %g at %g s has length %g instead of %g", (*de)(i), (*az)(j), t, w.path_length(i, j), p.len);
                    seq::check(std::fabs(w.sound_speed(i, j) - law.c(R0 - p.r)) <= grow * law.tol[3], "ray %g %g at %g s: sound speed", (*de)(i), (*az)(j), t);
                    if (!close) {
                        seq::check(w.surface(i, j) == p.n[SURFACE] && w.bottom(i, j) == p.n[BOTTOM], "ray %g %g at %g s: %d %d bounces instead of %d %d, grazing %g", (*de)(i), (*az)(j), t, (int)w.surface(i, j), (int)w.bottom(i, j), p.n[0], p.n[1], to_degrees(p.grazing));
                        seq::check(w.upper(i, j) == p.n[UPPER] && w.lower(i, j) == p.n[LOWER], "ray %g %g at %g s: %d %d vertices instead of %d %d", (*de)(i), (*az)(j), t, (int)w.upper(i, j), (int)w.lower(i, j), p.n[UPPER], p.n[LOWER]);
                        for (size_t f = 0; f < 3; ++f) {
                            seq::check(std::fabs(w.attenuation(i, j)(f) - (2.5 * p.n[BOTTOM] + 2e-7 * p.len * (*freq)(f))) <= grow * law.tol[2] * 2e-7 * (*freq)(f) + 1e-9, "ray %g %g at %g s: attenuation", (*de)(i), (*az)(j), t);
                            seq::check(std::fabs(w.phase(i, j)(f) - (0.75 * p.n[BOTTOM] - M_PI * p.n[SURFACE] - M_PI_2 * w.caustic(i, j))) < 1e-9, "ray %g %g at %g s: phase", (*de)(i), (*az)(j), t);
                        }
                    }
                }
            }
        }
        std::map<std::pair<size_t, size_t>, size_t> seen;
        for (const bounce& b : heard.all) {
            size_t& k = seen[{b.de, b.az}];
            const plane_ray& p = ref[b.de];
            if (p.grazing < to_radians(1.0)) continue;
            while (k < p.events.size() && p.events[k].kind > BOTTOM) ++k;
            if (k == p.events.size()) { seq::check(b.time > wave.time() - 0.1 * dt, "unexpected reflection"); continue; }
            const event& e = p.events[k++];
            v3 x, d, y, g;
            embed(to_radians(at[0]), to_radians(at[1]), to_radians((*az)(b.az)), e.r, e.psi, e.de, &x, &d);
            observed(b.pos, b.dir, &y, &g);
            seq::check(b.type == (size_t)(e.kind == SURFACE ? eigenverb_model::SURFACE : eigenverb_model::BOTTOM), "type of reflection");
            double grow = T > 10 ? 3 : 1, L = std::sqrt(b.dir.rho() * b.dir.rho() + b.dir.theta() * b.dir.theta() + b.dir.phi() * b.dir.phi());
            seq::check(std::fabs(b.time - e.t) <= grow * law.tol[4], "time of reflection");
            seq::check(dist(x, y) <= grow * law.tol[5], "place of reflection");
            seq::check(std::acos(std::min(1.0, dot(d, g))) <= grow * law.tol[6], "direction of reflection");
            seq::check(std::fabs(b.grazing - std::fabs(e.de)) <= grow * law.tol[7], "grazing angle of reflection");
            seq::check(std::fabs(b.speed - law.c(R0 - e.r)) <= grow * law.tol[8], "sound speed at reflection");
            seq::check(std::fabs(L * b.speed - 1) <= law.tol[9], "direction of reflection is not normalized");
            seq::check(b.dt >= -0.05 * dt && b.dt <= dt * 1.05 && seq::near(b.time - b.dt, dt * std::floor((b.time - b.dt) / dt + 0.5), 0, 1e-9), "offset of reflection");
        }
        for (size_t i = 0; i < de->size(); ++i) for (size_t j = 0; j < az->size(); ++j) {
            if (ref[i].grazing < to_radians(1.0)) continue;
            size_t k = seen[{i, j}];
            while (k < ref[i].events.size() && (ref[i].events[k].kind > BOTTOM || ref[i].events[k].t > wave.time() - 0.1 * dt)) ++k;
            seq::check(k == ref[i].events.size(), "missing reflection");
        }
        uint64_t h = 0;
        for (const plane_ray& p : ref) for (int n : p.n) h = seq::mix(h, n);
        seq::observe_hash(seq::mix(h, heard.all.size()));
    }
}

// ------------------------------------------------------------ uneven bottoms
struct floor_kind {
    const char* name;
    std::function<boundary_model*()> make;
    double pos, time;  // three times the largest error in position (m) and time of reflection
};
static boundary_model* grid_floor(int pattern) {
    seq_vector::csptr ax[2] = {seq_vector::csptr(new seq_linear(to_colatitude(11.0), to_radians(0.1), 21)), seq_vector::csptr(new seq_linear(to_radians(19.0), to_radians(0.1), 21))};
    auto g = std::make_shared<gen_grid<2>>(ax);
    size_t i[2];
    for (i[0] = 0; i[0] < 21; ++i[0]) for (i[1] = 0; i[1] < 21; ++i[1]) {
        double r = 10.0 - i[0], c = i[1] - 10.0;
        g->setdata(i, R0 - (pattern == 0 ? 1200 + 150 * r - 90 * c : pattern == 1 ? 1500 - 12 * r * r + 8 * c * c : 1300 + 120 * std::sin(0.6 * r + 0.4 * c)));
    }
    for (int k = 0; k < 2; ++k) { g->interp_type(k, pattern == 0 ? interp_enum::linear : interp_enum::pchip); g->edge_limit(k, true); }
    return new boundary_grid<2>(g);
}
SEQ_SECTION(slopes, "uneven bottoms", "every bottom x source depth x time step x launch angle x azimuth, at every step") {
    static const floor_kind floors[] = {
        {"north 1 deg", [] { return new boundary_slope(wposition1(10.05, 20.0), 1000.0, to_radians(1.0), 0.0); }, 0.02, 6e-05},
        {"south 2 deg", [] { return new boundary_slope(wposition1(9.98, 20.01), 800.0, to_radians(-2.0), 0.0); }, 0.02, 6e-05},
        {"east 1 deg", [] { return new boundary_slope(wposition1(10.0, 20.1), 1200.0, 0.0, to_radians(1.0)); }, 0.02, 6e-05},
        {"both", [] { return new boundary_slope(wposition1(10.0, 20.0), 1000.0, to_radians(-1.0), to_radians(1.5)); }, 0.02, 6e-05},
        {"plane grid", [] { return grid_floor(0); }, 0.02, 6e-05},
        {"saddle grid", [] { return grid_floor(1); }, 0.5, 0.002},
        {"wavy grid", [] { return grid_floor(2); }, 1, 0.002},
    };
    static const double C = 1500.0;
    seq_vector::csptr freq(new seq_data(std::vector<double>{1000.0}));
    seq_vector::csptr de(new seq_data(std::vector<double>{-85, -60, -45, -30, -20, -12, -7, 7, 12, 20, 30, 45, 60}));
    seq_vector::csptr az(new seq_data(std::vector<double>{-120, -90, -37, 0, 37, 90, 120, 175}));
    for (const floor_kind& fl : floors) for (double z : {50.0, 300.0, 600.0}) for (double dt : {0.01, 0.03, 0.1}) {
        if (!seq::next("%s source %g step %g", fl.name, z, dt)) continue;
        boundary_model::csptr bottom(fl.make()), surface(new boundary_flat());
        profile_model::csptr profile(new profile_linear(C));
        ocean_model::csptr ocean(new ocean_model(surface, bottom, profile));
        wposition1 src(10.0, 20.0, -z);
        wave_queue wave(ocean, freq, src, de, az, dt);
        bounces heard;
        wave.add_reflection_listener(&heard);
        struct line { v3 x, d; double t = 0; int n[2] = {0, 0}; bool lost = false; double last = -1; std::vector<event> ev; };
        std::map<std::pair<size_t, size_t>, line> ref;
        for (size_t i = 0; i < de->size(); ++i) for (size_t j = 0; j < az->size(); ++j) {
            line& l = ref[{i, j}];
            embed(to_radians(10.0), to_radians(20.0), to_radians((*az)(j)), R0 - z, 0, to_radians((*de)(i)), &l.x, &l.d);
        }
        auto clearance = [&](v3 x, int kind, v3* normal, frame* fr) {
            double r = std::sqrt(dot(x, x)), lat = std::asin(x.z / r), lng = std::atan2(x.y, x.x), h;
            if (kind == SURFACE) { if (fr) *fr = frame_at(lat, lng); if (normal) *normal = frame_at(lat, lng).up; return R0 - r; }
            wposition1 p;
            p.rho(r); p.theta(M_PI_2 - lat); p.phi(lng);
            wvector1 n;
            bottom->height(p, &h, normal ? &n : nullptr);
            if (normal) {
                frame f = frame_at(lat, lng);
                *normal = {0, 0, 0};
                *normal = add(*normal, n.rho(), f.up);
                *normal = add(*normal, -n.theta(), f.north);
                *normal = add(*normal, n.phi(), f.east);
                if (fr) *fr = f;
            }
            return r - h;
        };
        double T = seq::thorough() ? 10.0 : 6.0;
        while (wave.time() < T - 1e-9) {
            wave.step();
            double t = wave.time();
            for (auto& e : ref) {
                line& l = e.second;
                if (l.lost) continue;
                while (l.t < t - 1e-12) {
                    double h = t - l.t;
                    v3 y = add(l.x, C * h, l.d);
                    int kind = -1;
                    double best = h;
                    for (int k = 0; k < 2; ++k) if (clearance(y, k, nullptr, nullptr) < 0 && clearance(l.x, k, nullptr, nullptr) > 0) {
                        double a = 0, b = h;
                        for (int i = 0; i < 50; ++i) { double m = 0.5 * (a + b); (clearance(add(l.x, C * m, l.d), k, nullptr, nullptr) < 0 ? b : a) = m; }
                        if (b < best || kind < 0) { best = b; kind = k; }
                    }
                    l.x = add(l.x, C * best, l.d);
                    l.t += best;
                    if (kind >= 0) {
                        v3 n;
                        frame f;
                        clearance(l.x, kind, &n, &f);
                        double g = dot(l.d, n);
                        if (std::fabs(g) < std::sin(to_radians(3.0)) || std::fabs(dot(l.d, f.up)) < std::sin(to_radians(2.0))) { l.lost = true; break; }  // touches only
                        l.ev.push_back({l.t, 0, 0, std::asin(std::min(1.0, std::fabs(g))), kind, 0, {0, 0, 0, 0}});
                        l.d = add(l.d, -2 * g, n);
                        l.x = add(l.x, 1e-6 * (kind == SURFACE ? -1 : 1), n);
                        ++l.n[kind];
                        l.last = l.t;
                        if (std::fabs(dot(l.d, f.up)) < std::sin(to_radians(1.0))) l.lost = true;
                    }
                }
                if (l.lost) continue;
                double depth = R0 - std::sqrt(dot(l.x, l.x)), over = clearance(l.x, BOTTOM, nullptr, nullptr);
                if (depth + over < 300 * dt + 200 || depth + over < 300) { l.lost = true; continue; }  // too shallow for this step
                if (l.last > t - 0.004 || depth < 6 || over < 6) continue;
                const wave_front& w = *wave.curr();
                size_t i = e.first.first, j = e.first.second;
                v3 x, d;
                observed(wposition1(w.position, i, j), wvector1(w.ndirection, i, j), &x, &d);
                double ep = dist(x, l.x), ed = std::acos(std::min(1.0, dot(d, l.d)));
                seq::check(w.surface(i, j) == l.n[SURFACE] && w.bottom(i, j) == l.n[BOTTOM], "ray %g %g at %g s: %d %d bounces instead of %d %d", (*de)(i), (*az)(j), t, (int)w.surface(i, j), (int)w.bottom(i, j), l.n[0], l.n[1]);
                seq::check(ep <= fl.pos, "ray %g %g at %g s off by %g m", (*de)(i), (*az)(j), t, ep);
                seq::check(ed <= 2e-6, "ray %g %g at %g s turned by %g rad", (*de)(i), (*az)(j), t, ed);
            }
        }
        std::map<std::pair<size_t, size_t>, size_t> seen;
        for (const bounce& b : heard.all) {
            line& l = ref[{b.de, b.az}];
            if (l.lost) continue;
            size_t& k = seen[{b.de, b.az}];
            if (k >= l.ev.size()) { seq::check(b.time > wave.time() - 0.01, "unexpected reflection"); continue; }
            const event& e = l.ev[k++];
            seq::check(b.type == (size_t)(e.kind == SURFACE ? eigenverb_model::SURFACE : eigenverb_model::BOTTOM), "type of reflection");
            seq::check(std::fabs(b.time - e.t) <= fl.time, "time of reflection");
            seq::check(std::fabs(b.grazing - e.de) <= 7e-5, "grazing angle of reflection");
        }
        uint64_t h = heard.all.size();
        for (auto& e : ref) h = seq::mix(h, e.second.lost ? 99 : e.second.n[0] * 10 + e.second.n[1]);
        seq::observe_hash(h);
    }
}

// ------------------------------------------------------------------ eigenverbs
struct verbs : public eigenverb_listener {
    struct item { eigenverb_model::csptr v; size_t type; };
    std::vector<item> all;
    void add_eigenverb(eigenverb_model::csptr verb, size_t n) override { all.push_back({verb, n}); }
};
struct fan_kind { const char* name; std::vector<double> de, az; bool full; };
static double half(const std::vector<double>& x, size_t i, bool up) {
    size_t n = x.size();
    return 0.5 * (up ? (i + 1 < n ? x[i + 1] - x[i] : x[n - 1] - x[n - 2]) : (i > 0 ? x[i] - x[i - 1] : x[1] - x[0]));
}
SEQ_SECTION(verbs_of_rays, "eigenverbs of rays", "every sound speed law x bottom depth x source depth x set of layers x fan x thresholds x time step, all eigenverbs of every ray") {
    static const std::vector<double> freqs = {100.0, 1000.0, 10000.0};
    static const std::vector<std::vector<double>> layer_sets = {{}, {90}, {20, 140}, {35, 100, 160}};
    static const fan_kind fans[] = {
        {"even", {-70, -60, -50, -40, -30, -20, 20, 30, 40, 50, 60, 70}, {-40, -30, -20, -10}, false},
        {"uneven", {-75, -65, -58, -41, -35, -12, -7, 7, 12, 35, 41, 58, 65, 75}, {10, 30, 35, 47, 67}, false},
        {"circle", {-80, -55, -30, -5, 20, 45, 70}, {0, 60, 120, 180, 240, 300, 360}, true},
        {"wide", {-45, -15, 15, 45}, {-60, -20, 20, 60}, false},
        {"vertical", {-89.95, -60, -30, 0.5, 31, 61, 91.5}, {0, 45, 90}, false},
    };
    enum { ALL_OF_THEM, BOTTOM1, SURFACE1, UPPER0, POWER, N_LIMITS };
    static const char* limits[] = {"none", "bottom", "surface", "upper", "power"};
    for (const speed_law& law : laws) for (double depth : {180.0, 900.0}) for (double z : {60.0, 110.0}) for (auto& layers : layer_sets) for (const fan_kind& fan : fans) for (int limit = 0; limit < N_LIMITS; ++limit) for (double dt : {0.01, 0.03}) {
        if (limit && (layers.size() == 1 || dt > 0.02)) continue;
        if (!seq::next("%s bottom %g source %g layers %zu fan %s limit %s step %g", law.name, depth, z, layers.size(), fan.name, limits[limit], dt)) continue;
        seq_vector::csptr freq(new seq_data(freqs)), de(new seq_data(fan.de)), az(new seq_data(fan.az));
        profile_model::csptr profile(law.make());
        const_cast<profile_model&>(*profile).attenuation(attenuation_model::csptr(new attenuation_constant(2e-7)));
        boundary_model::csptr surface(new boundary_flat());
        boundary_model::csptr bottom(new boundary_flat(depth, reflect_loss_model::csptr(new reflect_loss_constant(3.0, 0.5))));
        std::shared_ptr<ocean_model> ocean(new ocean_model(surface, bottom, profile));
        for (double d : layers) ocean->add_volume(volume_model::csptr(new volume_flat(d, 10.0)));
        double tol[10];  // errors grow with time
        for (int k = 0; k < 10; ++k) tol[k] = law.tol[k] * (seq::thorough() ? 0.7 : 0.3);
        wposition1 src(30, -179.99, -z);
        wave_queue wave(ocean, freq, src, de, az, dt);
        verbs heard;
        wave.add_eigenverb_listener(&heard);
        const double floor_db = 25;
        if (limit == BOTTOM1) wave.max_bottom(1);
        if (limit == SURFACE1) wave.max_surface(1);
        if (limit == UPPER0) wave.max_upper(0);
        if (limit == POWER) wave.eigenverb_threshold(-floor_db);
        plane_ocean P = {&law, depth, layers};
        std::vector<plane_ray> ref(de->size());
        for (size_t i = 0; i < de->size(); ++i) { ref[i].r = R0 - z; ref[i].psi = 0; ref[i].de = to_radians((*de)(i)); }
        const double T = seq::thorough() ? 4.0 : 1.5;
        while (wave.time() < T - 1e-9) wave.step();
        const double end = wave.time();
        for (plane_ray& p : ref) P.advance(p, end);
        std::map<std::pair<size_t, size_t>, std::vector<verbs::item>> by_ray;
        for (auto& v : heard.all) {
            seq::check(v.v->de_index < de->size() && v.v->az_index < az->size() && v.type < 2 + 2 * layers.size(), "index of ray or interface");
            by_ray[{v.v->de_index, v.v->az_index}].push_back(v);
        }
        std::map<std::pair<int, bool>, std::set<size_t>> labels;  // of layer and direction
        uint64_t h = heard.all.size();
        for (size_t i = 0; i < de->size(); ++i) {
            const plane_ray& p = ref[i];
            bool unclear = p.grazing < to_radians(3.0);
            for (auto& e : p.events) {
                if (e.kind >= LAYER0 && std::fabs(e.de) < to_radians(3.0)) unclear = true;
                if (e.kind == UPPER || e.kind == LOWER) for (double d : layers) if (std::fabs(R0 - e.r - d) < 15) unclear = true;
            }
            for (size_t j = 0; j < az->size(); ++j) {
                auto& got = by_ray[{i, j}];
                std::stable_sort(got.begin(), got.end(), [](const verbs::item& a, const verbs::item& b) { return a.v->travel_time < b.v->travel_time; });
                if ((fan.full && j + 1 == az->size()) || std::fabs(fan.de[i]) > 89.9) {
                    seq::check(std::fabs(fan.de[i]) > 90 || got.empty(), "eigenverbs of a ray that duplicates others");
                    continue;
                }
                if (unclear) continue;
                const double a = to_radians(fan.az[j]), d = to_radians(fan.de[i]);
                const double dp = d + to_radians(half(fan.de, i, true)), dm = d - to_radians(half(fan.de, i, false));
                double wa = half(fan.az, j, true) + half(fan.az, j, false);
                if (fan.full && j == 0) wa = half(fan.az, 0, true) + half(fan.az, fan.az.size() - 1, false);
                const double area = (std::sin(dp) - std::sin(dm)) * to_radians(wa), sigma_az = area / (dp - dm);
                size_t k = 0;
                for (auto& e : p.events) {
                    if (e.kind == UPPER || e.kind == LOWER) continue;
                    bool vertex = false;
                    for (auto& o : p.events) if ((o.kind == UPPER || o.kind == LOWER) && std::fabs(o.t - e.t) < 2 * dt + tol[4]) vertex = true;
                    const double g = std::fabs(e.de), power0 = area / std::sin(g);
                    auto attenuation = [&](double len, size_t f) { return 3.0 * e.n[BOTTOM] + 2e-7 * len * freqs[f]; };
                    int wanted = 1;  // 0 no, 1 yes, 2 either
                    if (limit == BOTTOM1 && e.n[BOTTOM] > 1) wanted = 0;
                    if (limit == SURFACE1 && e.n[SURFACE] > 1) wanted = 0;
                    if (limit == UPPER0) wanted = vertex ? 2 : e.n[UPPER] == 0;
                    if (limit == POWER) {
                        double best = 10 * std::log10(power0) - attenuation(e.len, 0);
                        wanted = std::fabs(best + floor_db) < 0.3 ? 2 : best > -floor_db;
                    }
                    if (std::fabs(e.t - dt) < 0.1 * dt + tol[4] || e.t > end - 0.1 * dt) wanted = 2;
                    else if (e.t < dt) wanted = 0;  // the first step is for initialization
                    if (wanted == 0) continue;
                    if (k >= got.size() || std::fabs(got[k].v->travel_time - e.t) > tol[4] + 1e-5) {
                        seq::check(wanted == 2, "ray %g %g: no eigenverb for its meeting %d at %g s", fan.de[i], fan.az[j], e.kind, e.t);
                        continue;
                    }
                    const eigenverb_model& v = *got[k].v;
                    if (e.kind == BOTTOM) seq::check(got[k].type == eigenverb_model::BOTTOM, "type for bottom");
                    else if (e.kind == SURFACE) seq::check(got[k].type == eigenverb_model::SURFACE, "type for surface");
                    else {
                        seq::check(got[k].type / 2 == (size_t)(1 + e.kind - LAYER0), "type for layer");
                        labels[{e.kind, e.de > 0}].insert(got[k].type);
                    }
                    ++k;
                    v3 x, y, dir;
                    embed(to_radians(30), to_radians(-179.99), a, e.r, e.psi, e.de, &x, &dir);
                    double lat = M_PI_2 - v.position.theta(), lng = v.position.phi();
                    y = at_sphere(v.position.rho(), lat, lng);
                    seq::check(dist(x, y) <= tol[5] + 0.01, "place of eigenverb off by %g m", dist(x, y));
                    frame fr = frame_at(lat, lng);
                    double head = std::atan2(dot(dir, fr.east), dot(dir, fr.north));
                    seq::check(std::fabs(std::remainder(v.direction - head, 2 * M_PI)) < 1e-4 + tol[6] / std::cos(e.de), "direction of eigenverb is %g instead of %g", to_degrees(v.direction), to_degrees(head));
                    double eg = tol[7] + 1e-6;
                    seq::check(std::fabs(v.grazing - g) <= eg, "grazing angle of eigenverb is %g instead of %g", to_degrees(v.grazing), to_degrees(g));
                    seq::check(std::fabs(v.sound_speed - law.c(R0 - e.r)) <= tol[8] + 1e-6, "sound speed of eigenverb");
                    seq::check(v.frequencies && v.frequencies->size() == 3 && (*v.frequencies)(1) == 1000.0, "frequencies of eigenverb");
                    seq::check(seq::near(v.source_de, d, 0, 1e-12) && seq::near(v.source_az, a, 0, 1e-12), "launch angles of eigenverb");
                    seq::check(v.surface == e.n[SURFACE] && v.bottom == e.n[BOTTOM], "bounces of eigenverb are %d %d instead of %d %d", v.surface, v.bottom, e.n[SURFACE], e.n[BOTTOM]);
                    seq::check(vertex || (v.upper == e.n[UPPER] && v.lower == e.n[LOWER]), "vertices of eigenverb");
                    double s = eg / std::tan(g) * 1.2 + 1e-6;
                    seq::check(seq::near(v.width, 0.5 * e.len * sigma_az, 1e-6 + tol[2] / e.len, 0), "width of eigenverb is %g instead of %g", v.width, 0.5 * e.len * sigma_az);
                    seq::check(seq::near(v.length, 0.5 * e.len * (dp - dm) / std::sin(g), s + tol[2] / e.len, 0), "length of eigenverb is %g instead of %g", v.length, 0.5 * e.len * (dp - dm) / std::sin(g));
                    seq::check(v.power.size() == 3, "power of eigenverb");
                    for (size_t f = 0; f < 3 && f < v.power.size(); ++f) {
                        // losses since the last step may be missing
                        double lo = power0 * std::pow(10, -0.1 * attenuation(e.len + tol[2], f)), hi = power0 * std::pow(10, -0.1 * attenuation(e.len - 1600 * dt - tol[2], f));
                        seq::check(v.power(f) >= lo * (1 - s) && v.power(f) <= hi * (1 + s), "power of eigenverb is %g dB instead of %g", 10 * std::log10(v.power(f)), 10 * std::log10(lo));
                    }
                }
                seq::check(k == got.size(), "ray %g %g has %zu eigenverbs instead of %zu", fan.de[i], fan.az[j], got.size(), k);
                h = seq::mix(h, k);
            }
        }
        for (auto& l : labels) {
            seq::check(l.second.size() == 1, "interface of a layer depends on more than its side");
            auto o = labels.find({l.first.first, !l.first.second});
            if (o != labels.end()) seq::check(o->second != l.second, "interface of a layer is the same from both sides");
        }
        seq::observe_hash(h);
    }
}
