// C13: a sensor recomputes its acoustics exactly when it has to, for exactly
// the acoustic targets in range.
#include "s_sys.h"

using namespace usml::platforms;

struct listener : wavefront_listener {
    std::mutex m;
    int calls = 0;
    uint64_t source = 0;
    std::map<uint64_t, std::vector<wposition1>> targets;
    size_t verbs = 0;
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr rays, eigenverb_collection::csptr verb) override {
        std::lock_guard<std::mutex> g(m);
        ++calls;
        source = rays->sourceID();
        targets.clear();
        verbs = 0;
        for (size_t i = 0; i < verb->num_interfaces(); ++i) verbs += verb->eigenverbs(i).size();
        for (size_t r = 0; r < rays->size1(); ++r) for (size_t c = 0; c < rays->size2(); ++c) targets[rays->targetID(r, c)].push_back(rays->position(r, c));
    }
};
static seq_vector::csptr freq() { static seq_vector::csptr f(new seq_linear(1000.0, 100.0, 1)); return f; }
static sensor_model::sptr small(int key, const wposition1& pos, const orientation& o = orientation()) {
    sensor_model::sptr s(new sensor_model(key, "node", 0, pos, o));
    s->src_beam(0, bp_model::csptr(new bp_omni()));
    s->rcv_beam(0, bp_model::csptr(new bp_omni()));
    s->time_step(0.1);
    s->time_maximum(0.2);
    s->de_fan(seq_vector::csptr(new seq_linear(-20.0, 20.0, 20.0)));
    s->az_fan(seq_vector::csptr(new seq_linear(0.0, 120.0, 360.0)));
    return s;
}
static void fresh() {
    sensor_manager::reset();
    platform_manager::reset();
    sensor_manager::instance()->frequencies(freq());
}
static double wrap(double a) { return std::remainder(a, 360.0); }

// ----------------------------------------------------------------- when
struct six { double v[6]; };   // lat lon alt yaw pitch roll
static const double threshold[6] = {0.01, 0.01, 5.0, 5.0, 5.0, 5.0};
static const char* dims[6] = {"latitude", "longitude", "altitude", "yaw", "pitch", "roll"};
static bool changed(const six& a, const six& b) {
    for (int i = 0; i < 6; ++i) {
        double d = a.v[i] - b.v[i];
        if (i == 1 || i == 3 || i == 5) d = wrap(d);
        if (std::fabs(d) >= threshold[i]) return true;
    }
    return false;
}
static wposition1 place(const six& p) { return wposition1(p.v[0], p.v[1], p.v[2]); }
static orientation turn(const six& p) { return orientation(p.v[3], p.v[4], p.v[5]); }

static void when(int how, const six& base, int depth) {
    const int OPS = 13;
    int total = 1;
    for (int i = 0; i < depth; ++i) total *= OPS;
    for (int a = 0; a < 6; ++a)
        for (int b = 0; b < 6; ++b) {
            if (a == b) continue;
            for (int n = 0; n < total; ++n) {
                if (!seq::next("%s of %s from %g %g %g %g %g %g, %s and %s, operations %d", how == 1 ? "child" : "sensor", how == 2 ? "lone" : "managed", base.v[0], base.v[1], base.v[2], base.v[3], base.v[4], base.v[5], dims[a], dims[b], n)) continue;
                fresh();
                auto s = small(1, wposition1(1, 2, -3));
                s->compute_reverb(true);
                listener l;
                s->add_wavefront_listener(&l);
                platform_model::sptr host;
                if (how == 0) sensor_manager::instance()->add_sensor(s);
                if (how == 1) { host.reset(new platform_model(2, "host")); host->add_child(s); }
                auto update = [&](const six& p, platform_model::update_type_enum t) {
                    if (host) host->update(1, place(p), turn(p), 0.0, t); else s->update(1, place(p), turn(p), 0.0, t);
                    idle();
                };
                int want = 0;
                // not yet computed
                six now = base, last = base;
                bool needs = true;
                int k = n;
                for (int i = 0; i <= depth; ++i) {
                    int op = i == 0 ? k % 3 : 0;
                    auto type = platform_model::TEST_THRESHOLD;
                    bool poke = false;
                    if (i == 0) {
                        type = n % 2 ? platform_model::NO_UPDATE : platform_model::TEST_THRESHOLD;   // the first update of all
                    } else {
                        op = k % OPS; k /= OPS;
                        if (op == 12) poke = true;
                        else {
                            type = op % 3 == 0 ? platform_model::TEST_THRESHOLD : op % 3 == 1 ? platform_model::FORCE_UPDATE : platform_model::NO_UPDATE;
                            int move = op / 3;
                            int d = move == 2 ? b : a;
                            now.v[d] += threshold[d] * (move == 0 ? 0.6 : move == 1 ? -0.6 : move == 2 ? 0.7 : 1.3);
                        }
                    }
                    if (poke) { s->set_needs_update(); needs = true; }
                    bool go = type == platform_model::FORCE_UPDATE || (type == platform_model::TEST_THRESHOLD && (needs || changed(now, last)));
                    if (go) { ++want; last = now; needs = false; }
                    update(now, type);
                    seq::check(l.calls == want, "update %d: %d calculations instead of %d", i, l.calls, want);
                    if (go) seq::check(l.source == 1, "calculation for sensor %d", (int)l.source);
                    auto at = s->position();
                    seq::check(std::fabs(at.latitude() - now.v[0]) < 1e-9 && std::fabs(at.altitude() - now.v[2]) < 1e-3, "sensor moved to %.6f %.3f", at.latitude(), at.altitude());
                    uint64_t key = seq::mix(how * 100 + a * 10 + b, needs);
                    for (int j = 0; j < 6; ++j) key = seq::mix(key, (uint64_t)std::lround(1e6 * (now.v[j] - last.v[j])));
                    seq::state(key);
                    seq::transition();
                }
                seq::observe("%d of %d", want, depth + 1);
                s->remove_wavefront_listener(&l);
                if (host) host->remove_child(1);
            }
        }
    thread_controller::reset();
}
static void start() { quiet(); ocean_utils::make_iso(1000.0); }
SEQ_SECTION(when1, "updates of a sensor", "every sequence of moves and update types in every pair of the six coordinates") {
    start();
    when(0, {{30, -40, -100, 20, 10, -5}}, seq::thorough() ? 4 : 3);
}
SEQ_SECTION(when2, "updates across 180 degrees", "every sequence of moves and update types in every pair of the six coordinates") {
    start();
    when(2, {{-0.003, 179.997, -50, 178.5, -1, -178.5}}, 2);
    when(2, {{60, -179.997, -50, -178.5, 40, 178.5}}, 2);
}
SEQ_SECTION(when3, "updates of a host", "every sequence of moves and update types in every pair of the six coordinates") {
    start();
    when(1, {{-10, 100, -100, 0, 0, 0}}, 2);
}

// ---------------------------------------------------------------- targets
SEQ_SECTION(targets, "targets", "every set of three platforms at every range, every range limit, flag, and product") {
    start();
    const wposition1 at(20, 50, -200);
    // range and altitude change
    const double far[4][2] = {{0, 0}, {300, -150}, {1500, 100}, {0, -900}};
    const double limits[7][2] = {{0, 0}, {0, 1000}, {500, 0}, {500, 1000}, {100, 2000}, {2000, 0}, {1000, 500}};
    for (auto& lim : limits)
        for (int set = 0; set < 9 * 9 * 9; ++set)
            for (int opt = 0; opt < 8; ++opt) {
                bool reverb = opt & 1, self = opt & 2, turned = opt & 4;
                if (turned && set % 3) continue;
                if (!seq::next("limits %g %g platforms %d%d%d reverberation %d own target %d, later move %d", lim[0], lim[1], set % 9, set / 9 % 9, set / 81, reverb, self, turned)) continue;
                fresh();
                auto s = small(1, at);
                s->compute_reverb(reverb);
                s->is_acoustic_target(self);
                s->min_range(lim[0]);
                s->max_range(lim[1]);
                sensor_manager::instance()->add_sensor(s);
                listener l;
                s->add_wavefront_listener(&l);
                std::map<uint64_t, wposition1> want;
                auto near = [&](const wposition1& p) {
                    double d = std::sqrt(std::pow(p.rho(), 2) + std::pow(at.rho(), 2) - 2 * p.rho() * at.rho() * (std::sin(p.latitude() * M_PI / 180) * std::sin(at.latitude() * M_PI / 180) + std::cos(p.latitude() * M_PI / 180) * std::cos(at.latitude() * M_PI / 180) * std::cos((p.longitude() - at.longitude()) * M_PI / 180)));
                    return (lim[0] == 0 || d >= lim[0]) && (lim[1] == 0 || d <= lim[1]);
                };
                if (self && near(at)) want[1] = at;
                int k = set;
                std::vector<platform_model::sptr> all;
                for (int i = 0; i < 3; ++i, k /= 9) {
                    if (k % 9 == 8) continue;   // not there
                    const double* f = far[k % 9 / 2];
                    wposition1 p(at.latitude() + f[0] / (1852.0 * 60), at.longitude(), at.altitude() + f[1]);
                    platform_model::sptr o(i == 1 ? small(10 + i, p) : platform_model::sptr(new platform_model(10 + i, "target", 0, p)));
                    o->is_acoustic_target(k % 2 == 0);
                    if (turned) o->update(1, wposition1(0, 0, 0), orientation(), 0, platform_model::NO_UPDATE);
                    platform_manager::instance()->add(o);
                    if (turned) o->update(2, p, orientation(), 0, platform_model::NO_UPDATE);
                    all.push_back(o);
                    if (k % 2 == 0 && near(p)) want[10 + i] = p;
                }
                s->update(1, at, orientation(), 0.0, platform_model::FORCE_UPDATE);
                idle();
                if (want.empty() && !reverb) seq::check(l.calls == 0, "calculation without targets and reverberation");
                else {
                    seq::check(l.calls == 1, "%d calculations", l.calls);
                    seq::check(l.targets.size() == want.size(), "%d targets instead of %d", (int)l.targets.size(), (int)want.size());
                    for (auto& t : want) {
                        auto& got = l.targets[t.first];
                        seq::check(got.size() == 1, "target %d appears %d times", (int)t.first, (int)got.size());
                        seq::check(std::fabs(got[0].latitude() - t.second.latitude()) < 1e-9 && std::fabs(wrap(got[0].longitude() - t.second.longitude())) < 1e-9 && std::fabs(got[0].altitude() - t.second.altitude()) < 1e-3, "target %d at %.6f %.6f %.3f", (int)t.first, got[0].latitude(), got[0].longitude(), got[0].altitude());
                    }
                    if (!reverb) seq::check(l.verbs == 0, "eigenverbs without reverberation");
                }
                seq::observe("%d calls %d targets", l.calls, (int)want.size());
                seq::transition();
                s->remove_wavefront_listener(&l);
            }
    fresh();
    thread_controller::reset();
}

// ---------------------------------------------------------------- settings
struct limits : wavefront_listener {
    eigenray_collection::csptr rays;
    eigenverb_collection::csptr verbs;
    void update_wavefront_data(const sensor_model*, eigenray_collection::csptr r, eigenverb_collection::csptr v) override { rays = r; verbs = v; }
};
SEQ_SECTION(settings, "settings of the calculation", "every combination of limits for bounces and time: results against those of the widest limits") {
    quiet();
    ocean_utils::make_iso(500.0);
    auto run = [&](int bottom, int surface, double tmax, double level) {
        fresh();
        auto s = small(1, wposition1(10, 20, -200));
        s->is_acoustic_target(false);
        s->compute_reverb(true);
        s->de_fan(seq_vector::csptr(new seq_linear(-60.0, 5.0, 60.0)));
        s->az_fan(seq_vector::csptr(new seq_linear(-20.0, 10.0, 20.0)));
        s->time_maximum(tmax);
        s->max_bottom(bottom);
        s->max_surface(surface);
        s->intensity_threshold(level);
        sensor_manager::instance()->add_sensor(s);
        platform_model::sptr t(new platform_model(2, "target", 0, wposition1(10 + 1000.0 / (1852 * 60), 20, -100)));
        platform_manager::instance()->add(t);
        limits l;
        s->add_wavefront_listener(&l);
        s->update(1, s->position(), orientation(), 0.0, platform_model::FORCE_UPDATE);
        idle();
        s->remove_wavefront_listener(&l);
        return l;
    };
    for (int bottom : {0, 1, 2, 3})
        for (int surface : {0, 1, 2, 3})
            for (double tmax : {0.5, 1.0, 2.0})
                for (double level : {-300.0, -65.0}) {
                    if (!seq::next("bounces %d %d time %g level %g", bottom, surface, tmax, level)) continue;
                    limits all = run(9, 9, 3.0, -300.0), some = run(bottom, surface, tmax, level);
                    seq::check(all.rays != nullptr && some.rays != nullptr, "no result");
                    int got = 0, want = 0;
                    for (auto& r : all.rays->eigenrays(0, 0)) if (r->bottom <= bottom && r->surface <= surface && r->travel_time < tmax - 0.25 && -r->intensity(0) > level + 6) {
                        ++want;
                        bool found = false;
                        for (auto& q : some.rays->eigenrays(0, 0)) found |= q->bottom == r->bottom && q->surface == r->surface && q->upper == r->upper && q->lower == r->lower && std::fabs(q->travel_time - r->travel_time) < 1e-9;
                        seq::check(found, "ray with %d bottom and %d surface bounces at %g s is missing", r->bottom, r->surface, r->travel_time);
                    }
                    for (auto& r : some.rays->eigenrays(0, 0)) {
                        ++got;
                        seq::check(r->bottom <= bottom && r->surface <= surface, "ray has %d bottom and %d surface bounces", r->bottom, r->surface);
                        seq::check(r->travel_time <= tmax + 0.25, "ray arrives at %g s", r->travel_time);
                        seq::check(-r->intensity(0) >= level - 1e-6, "ray has %g dB", -r->intensity(0));
                    }
                    for (size_t i = 0; i < some.verbs->num_interfaces(); ++i) for (auto& v : some.verbs->eigenverbs(i))
                        seq::check(v->bottom <= bottom && v->surface <= surface && v->travel_time <= tmax + 0.25, "eigenverb has %d bottom and %d surface bounces at %g s", v->bottom, v->surface, v->travel_time);
                    seq::observe("%d %d", got, want);
                }
    fresh();
    thread_controller::reset();
}
