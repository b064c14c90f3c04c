// C19: reverberation time series are the sum of the documented Gaussian
// contributions of every eigenverb, pulse, and receiver beam.
#include "s_sys.h"

#include <netcdf>

using namespace usml::biverbs;
using namespace usml::rvbts;
using namespace usml::transmit;

static const double RAD = M_PI / 180;
struct v3 { double n, e, u; };
static v3 operator*(v3 a, double k) { return {a.n * k, a.e * k, a.u * k}; }
static v3 operator+(v3 a, v3 b) { return {a.n + b.n, a.e + b.e, a.u + b.u}; }
static double dot(v3 a, v3 b) { return a.n * b.n + a.e * b.e + a.u * b.u; }
struct frame {
    v3 f, r, u;
    v3 out(v3 b) const { return f * b.n + r * b.e + u * b.u; }
    v3 in(v3 w) const { return {dot(w, f), dot(w, r), dot(w, u)}; }
};
static frame body(double yaw, double pitch, double roll) {
    yaw *= RAD; pitch *= RAD; roll *= RAD;
    double cy = std::cos(yaw), sy = std::sin(yaw), cp = std::cos(pitch), sp = std::sin(pitch), cr = std::cos(roll), sr = std::sin(roll);
    v3 f{cp * cy, cp * sy, sp}, r0{-sy, cy, 0}, u0{-sp * cy, -sp * sy, cp};
    return {f, r0 * cr + u0 * -sr, u0 * cr + r0 * sr};
}
static v3 unit(double de, double az) { return {std::cos(de) * std::cos(az), std::cos(de) * std::sin(az), std::sin(de)}; }

// beam pattern that depends on everything it is given
static double pattern(v3 a, v3 s, double f, int id) {
    return 0.5 + 0.1 * std::sin(3 * a.n + 0.1) + 0.09 * std::sin(2 * a.e + 0.4) + 0.08 * std::sin(2.5 * a.u + 0.2) + 0.07 * std::sin(2 * s.n + 0.3) + 0.06 * std::sin(3 * s.e + 0.9) + 0.05 * std::sin(2 * s.u) + f * 1e-5 + id * 0.011;
}
struct beam : public bp_model {
    int id;
    double gain;
    beam(int i, double g = 1) : id(i), gain(g) {}
    void beam_level(const bvector& a, const seq_vector::csptr& f, vector<double>* level, const bvector& s, double) const override {
        seq::check(f->size() == 1 && level->size() == 1, "beam level of %d frequencies in %d", (int)f->size(), (int)level->size());
        (*level)(0) = gain * pattern({a.front(), a.right(), a.up()}, {s.front(), s.right(), s.up()}, (*f)(0), id);
    }
    void directivity(const seq_vector::csptr&, vector<double>*, const bvector&, double) const override {}
};
static biverb_model::csptr verb(double time, double duration, std::vector<double> f, std::vector<double> p, int k = 0) {
    biverb_model::csptr v(new biverb_model());
    v->travel_time = time; v->duration = duration;
    v->frequencies = seq_vector::csptr(new seq_data(f.data(), f.size()));
    v->power.resize(p.size());
    for (size_t i = 0; i < p.size(); ++i) v->power(i) = p[i];
    v->source_de = (-30 + 7 * k) * RAD; v->source_az = (20 + 40 * k) * RAD;
    v->receiver_de = (15 - 11 * k) * RAD; v->receiver_az = (200 + 70 * k) * RAD;
    v->de_index = v->az_index = 0;
    v->source_surface = v->source_bottom = v->source_caustic = v->source_upper = v->source_lower = 0;
    v->receiver_surface = v->receiver_bottom = v->receiver_caustic = v->receiver_upper = v->receiver_lower = 0;
    return v;
}
static transmit_model::csptr pulse(double duration, double f, double delay, double level, double az = 0, double de = 0, int mode = 0) {
    return transmit_model::csptr(new transmit_cw("CW", duration, f, delay, level, usml::transmit::window::type::BOXCAR, 0.0, az, de, mode));
}
static double interpolate(const biverb_model& v, double f) {
    size_t n = v.power.size();
    for (size_t i = 0; i + 1 < n; ++i) {
        double a = (*v.frequencies)(i), b = (*v.frequencies)(i + 1);
        if (f >= a && f <= b) return v.power(i) + (f - a) / (b - a) * (v.power(i + 1) - v.power(i));
    }
    return v.power(0);
}
// reference: accumulates what is documented; range of uncertainty beyond five durations
struct reference {
    std::vector<double> t;
    std::vector<std::vector<double>> low, high;
    reference(const seq_vector& times, int channels) : low(channels), high(channels) {
        for (size_t i = 0; i < times.size(); ++i) t.push_back(times(i));
        for (auto& x : low) x.assign(t.size(), 0);
        for (auto& x : high) x.assign(t.size(), 0);
    }
    // bs: source level times beam, br: beam of each channel
    void add(const biverb_model& v, const transmit_model& p, double bs, const std::vector<double>& br, double previous = 0) {
        double T = v.duration + p.duration, tau = previous + p.delay + v.travel_time + T, P = interpolate(v, p.fcenter) * p.duration;
        for (size_t c = 0; c < br.size(); ++c) {
            if (br[c] < 0) continue;
            for (size_t i = 0; i < t.size(); ++i) {
                double x = (t[i] - tau) / T, g = P * bs * br[c] / (T * std::sqrt(2 * M_PI)) * std::exp(-0.5 * x * x);
                high[c][i] += g;
                if (std::fabs(x) < 5 - 1e-9) low[c][i] += g;
            }
        }
    }
    void compare(const matrix<double>& m, const char* what) const {
        seq::check(m.size1() == low.size() && m.size2() == t.size(), "%s: time series of %d channels and %d times", what, (int)m.size1(), (int)m.size2());
        for (size_t c = 0; c < low.size(); ++c)
            for (size_t i = 0; i < t.size(); ++i)
                seq::check(m(c, i) >= low[c][i] * (1 - 1e-9) && m(c, i) <= high[c][i] * (1 + 1e-9), "%s: channel %d at time %g is %.10g instead of %.10g", what, (int)c, t[i], m(c, i), high[c][i]);
        seq::evaluated(low.size() * t.size());
    }
};
static v3 of(const bvector& b) { return {b.front(), b.right(), b.up()}; }
static sensor_model::sptr sensor(int key, const wposition1& pos = wposition1(), const orientation& o = orientation()) {
    sensor_model::sptr s(new sensor_model(key, "s" + std::to_string(key), 0.0, pos, o));
    s->time_maximum(1.0);
    return s;
}
static rvbts_collection make(const sensor_model::sptr& s, const sensor_model::sptr& r, const seq_vector::csptr& t) {
    return rvbts_collection(s, s->position(), s->orient(), s->speed(), r, r->position(), r->orient(), r->speed(), t);
}
// leaves garbage in the memory that the next allocations may reuse
static void dirty() {
    std::vector<std::unique_ptr<double[]>> keep;
    for (int n = 1; n < 400; n += 7) {
        keep.emplace_back(new double[n]);
        for (int i = 0; i < n; ++i) keep.back()[i] = 1e6 + i;
    }
}

SEQ_SECTION(beams, "directions", "every source and receiver orientation, arrival angle, and steering in a lattice") {
    const double angles[][3] = {{0, 0, 0}, {30, 0, 0}, {-120, 0, 0}, {0, 40, 0}, {0, 0, 60}, {75, -25, 15}, {200, 89, -100}};
    seq_vector::csptr t(new seq_linear(0.0, 0.1, 3.0));
    for (auto& so : angles) for (auto& ro : angles)
        for (int k = 0; k < 9; ++k)
            for (int st = 0; st < 4; ++st) {
                if (!seq::next("source %g %g %g receiver %g %g %g eigenverb %d steering %d", so[0], so[1], so[2], ro[0], ro[1], ro[2], k, st)) continue;
                auto s = sensor(1, wposition1(), orientation(so[0], so[1], so[2])), r = sensor(2, wposition1(), orientation(ro[0], ro[1], ro[2]));
                s->src_beam(0, bp_model::csptr(new beam(1)));
                static const double steer[][2] = {{0, 0}, {30, 50}, {-20, 190}, {80, -70}};
                bvector sv(steer[st][0], steer[st][1]);
                std::vector<int> keys = {4, 7};
                for (int b : keys) r->rcv_beam(b, bp_model::csptr(new beam(b)), b == 4 ? bvector(1.0, 0.0, 0.0) : bvector(steer[3 - st][0], steer[3 - st][1]));
                dirty();
                auto c = make(s, r, t);
                auto v = verb(1.0, 0.2, {1000}, {1e-4}, k);
                auto p = pulse(0.1, 1000, 0.05, 3.0);
                c.add_biverb(v, p, sv);
                reference ref(*t, 2);
                v3 sa = body(so[0], so[1], so[2]).in(unit(v->source_de, v->source_az)), ra = body(ro[0], ro[1], ro[2]).in(unit(v->receiver_de, v->receiver_az));
                std::vector<double> br;
                for (int b : keys) br.push_back(pattern(ra, b == 4 ? v3{1, 0, 0} : unit(steer[3 - st][0] * RAD, steer[3 - st][1] * RAD), 1000, b));
                ref.add(*v, *p, 3.0 * pattern(sa, unit(steer[st][0] * RAD, steer[st][1] * RAD), 1000, 1), br);
                ref.compare(c.time_series(), "directions");
                seq::observe("%.5g", c.time_series()(0, 13));
            }
}
SEQ_SECTION(times, "times", "every start, step, and length of the time axis, travel time, delay, and duration in a lattice") {
    for (double start : {0.0, 1.0}) for (double step : {0.01, 0.1, 0.5, 2.0}) for (int n : {2, 3, 40})
        for (double time : {0.0, 0.05, 0.9, 1.5, 3.9, 8.0, 100.0}) for (double delay : {0.0, 0.7})
            for (double d1 : {0.0, 0.003, 0.2}) for (double d2 : {0.004, 0.1, 1.0}) {
                if (!seq::next("axis %g:%g:%d eigenverb at %g for %g pulse after %g for %g", start, step, n, time, d1, delay, d2)) continue;
                auto s = sensor(1), r = sensor(2);
                s->src_beam(0, bp_model::csptr(new beam(1)));
                r->rcv_beam(0, bp_model::csptr(new beam(2)));
                seq_vector::csptr t(new seq_linear(start, step, (size_t)n));
                dirty();
                auto c = make(s, r, t);
                auto v = verb(time, d1, {500}, {2.0});
                auto p = pulse(d2, 700, delay, 5.0);
                c.add_biverb(v, p, bvector(1.0, 0.0, 0.0));
                reference ref(*t, 1);
                v3 x{1, 0, 0};
                ref.add(*v, *p, 5.0 * pattern(unit(v->source_de, v->source_az), x, 700, 1), {pattern(unit(v->receiver_de, v->receiver_az), x, 700, 2)});
                ref.compare(c.time_series(), "times");
                seq::observe("%.5g %.5g", c.time_series()(0, 0), c.time_series()(0, n - 1));
            }
}
SEQ_SECTION(spectrum, "frequencies", "every number of eigenverb frequencies up to four with even and uneven spacing, transmit frequency at and between them, and duration") {
    const double f[][4] = {{500, 600, 700, 800}, {500, 900, 1000, 4000}, {100, 101, 1000, 1001}};
    for (auto& fr : f) for (int n = 1; n <= 4; ++n) for (int i = 0; i < (n == 1 ? 1 : 4 * (n - 1) + 1); ++i) for (double d : {0.1, 2.0, 0.02}) {
        double fc = n == 1 ? 1234.0 : i == 4 * (n - 1) ? fr[n - 1] : fr[i / 4] + (i % 4) * 0.25 * (fr[i / 4 + 1] - fr[i / 4]);
        if (!seq::next("%d of %g %g %g %g at %g duration %g", n, fr[0], fr[1], fr[2], fr[3], fc, d)) continue;
        auto s = sensor(1), r = sensor(2);
        s->src_beam(0, bp_model::csptr(new beam(1)));
        r->rcv_beam(0, bp_model::csptr(new beam(2)));
        seq_vector::csptr t(new seq_linear(0.0, 0.1, 4.0));
        dirty();
        auto c = make(s, r, t);
        auto v = verb(1.0, 0.1, std::vector<double>(fr, fr + n), std::vector<double>{1e-3, 5e-3, 2e-4, 3e-3});
        v->power.resize(n);
        auto p = pulse(d, fc, 0, 2.0);
        c.add_biverb(v, p, bvector(1.0, 0.0, 0.0));
        reference ref(*t, 1);
        v3 x{1, 0, 0};
        ref.add(*v, *p, 2.0 * pattern(unit(v->source_de, v->source_az), x, fc, 1), {pattern(unit(v->receiver_de, v->receiver_az), x, fc, 2)});
        ref.compare(c.time_series(), "frequencies");
        seq::observe("%.6g", c.time_series()(0, 20));
    }
}
SEQ_SECTION(channels, "channels", "every set of receiver beam numbers, transmit mode, and level relative to the threshold; beams added, removed, and reset after construction") {
    const int keys[] = {-1, 0, 1, 2, 5, 100};
    for (int set = 0; set < 64; ++set) for (int mode = 0; mode < 3; ++mode) for (int change = 0; change < 5; ++change) for (int weak = 0; weak < 4; ++weak) {
        if (!seq::next("beams %d mode %d change %d weak %d", set, mode, change, weak)) continue;
        auto s = sensor(1), r = sensor(2);
        s->src_beam(0, bp_model::csptr(new beam(1, weak == 1 ? 1e-25 : 1)));
        s->src_beam(1, bp_model::csptr(new beam(3)));
        std::vector<int> have;
        for (int i = 0; i < 6; ++i) if (set & (1 << i)) { have.push_back(keys[i]); r->rcv_beam(keys[i], bp_model::csptr(new beam(keys[i], weak == 2 && i % 2 ? 0 : 1))); }
        seq_vector::csptr t(new seq_linear(0.0, 0.1, 2.0));
        dirty();
        auto c = make(s, r, t);
        if (change == 1) r->rcv_beam(1000, bp_model::csptr(new beam(9)));
        if (change == 2) r->reset_rcv_beams();
        if (change == 3) s->reset_src_beams();
        if (change == 4) r->rcv_steering(5, bvector(10.0, 20.0));
        auto v = verb(0.5, 0.1, {1000}, {weak == 3 ? 1e-27 : 1e-3});
        auto p = pulse(0.1, 1000, 0, 2.0, 0, 0, mode);
        bool threw = false;
        try { c.add_biverb(v, p, bvector(1.0, 0.0, 0.0)); } catch (...) { threw = true; }
        seq::check(!threw, "exception");
        reference ref(*t, have.size());
        v3 x{1, 0, 0};
        if (mode < 2 && change < 2 + (change == 4) * 9 && weak != 3 && !(weak == 1 && mode == 0)) {
            std::vector<double> br;
            for (int k : have) {
                v3 st = change == 4 && k == 5 ? unit(10 * RAD, 20 * RAD) : x;
                int i = std::find(keys, keys + 6, k) - keys;
                br.push_back(weak == 2 && i % 2 ? -1 : pattern(unit(v->receiver_de, v->receiver_az), st, 1000, k));
            }
            ref.add(*v, *p, 2.0 * pattern(unit(v->source_de, v->source_az), x, 1000, mode == 0 ? 1 : 3), br);
        }
        ref.compare(c.time_series(), "channels");
        double sum = 0;
        for (size_t i = 0; i < c.time_series().size1(); ++i) sum += c.time_series()(i, 7);
        seq::observe("%d %.5g", (int)have.size(), sum);
    }
}
struct ear : public update_listener<rvbts_collection::csptr> {
    std::vector<rvbts_collection::csptr> heard;
    void notify_update(const rvbts_collection::csptr* c) override { heard.push_back(*c); }
};
SEQ_SECTION(generate, "generator", "every schedule of up to three pulses from a set of five, every mounting of the source, up to four eigenverbs on any interface") {
    quiet();
    for (int schedule = 0; schedule < 5 + 25 + 125; ++schedule)
        for (int mounted = 0; mounted < 3; ++mounted)
            for (int nv = 0; nv <= 4; ++nv)
                for (int layers = 0; layers <= 1; ++layers) {
                    if (!seq::next("schedule %d mounted %d, %d eigenverbs, %d layers", schedule, mounted, nv, layers)) continue;
                    int len = schedule < 5 ? 1 : schedule < 30 ? 2 : 3, code = schedule < 5 ? schedule : schedule < 30 ? schedule - 5 : schedule - 30;
                    std::vector<transmit_model::csptr> set = {pulse(0.1, 1000, 0, 1.0), pulse(0.2, 1000, 0.3, 2.0, 40, 0), pulse(0.1, 1200, 0, 3.0, -100, 30), pulse(0.05, 1500, 0.1, 4.0, 170, -60, 1), pulse(0.3, 1000, 0, 1.5, 0, 10, 2)};
                    transmit_list list;
                    for (int i = 0, x = code; i < len; ++i, x /= 5) list.push_back(set[x % 5]);
                    sensor_manager::reset();
                    sensor_manager::instance()->frequencies(seq_vector::csptr(new seq_linear(1000.0, 250.0, 1500.0)));
                    wposition1 pos(10, 20, -100);
                    auto s = sensor(3, pos, orientation(25, 5, -10)), r = sensor(4, wposition1(10.05, 20, -50), orientation(-70, 0, 0));
                    frame sf = body(25, 5, -10), rf = body(-70, 0, 0), hf = body(0, 0, 0);
                    platform_model::sptr host, hull;
                    if (mounted) {
                        host.reset(new platform_model(77, "host", 0.0, pos, orientation(130, 10, 20)));
                        hf = body(130, 10, 20);
                        if (mounted == 1) host->add_child(s, bvector(0.0, 0.0, -5.0), orientation(25, 5, -10));
                        else {
                            hull.reset(new platform_model(78, "hull"));
                            hull->add_child(s, bvector(0.0, 0.0, -5.0), orientation(25, 5, -10));
                            host->add_child(hull, bvector(1.0, 0.0, 0.0), orientation(60, 0, 0));
                        }
                        host->update(0.0, pos, orientation(130, 10, 20), 2.0, platform_model::NO_UPDATE);
                        frame m = body(25, 5, -10);
                        if (mounted == 2) { frame k = body(60, 0, 0); m = {k.out(m.f), k.out(m.r), k.out(m.u)}; }
                        sf = {hf.out(m.f), hf.out(m.r), hf.out(m.u)};
                    }
                    s->src_beam(0, bp_model::csptr(new beam(1))); s->src_beam(1, bp_model::csptr(new beam(2)));
                    r->rcv_beam(0, bp_model::csptr(new beam(5))); r->rcv_beam(9, bp_model::csptr(new beam(6)), bvector(-20.0, 100.0));
                    s->multistatic(1); r->multistatic(1);
                    r->time_minimum(0.5); r->time_maximum(4.0);
                    s->transmit_schedule(list);
                    sensor_manager::instance()->add_sensor(s);
                    sensor_manager::instance()->add_sensor(r);
                    auto pair = sensor_manager::instance()->find("3_4");
                    seq::check(pair != nullptr, "no pair");
                    // eigenverbs: rotations of a monostatic overlap at several times
                    auto* bc = new biverb_collection(layers);
                    biverb_collection::csptr bcp(bc);
                    for (int k = 0; k < nv; ++k) {
                        usml::eigenverbs::eigenverb_model::csptr a(new usml::eigenverbs::eigenverb_model()), b;
                        a->travel_time = 0.3 + 0.4 * k; a->frequencies = sensor_manager::instance()->frequencies();
                        a->power = vector<double>(3, 1.0); a->power(1) = 1.5; a->power(2) = 0.4 + k;
                        a->length = 100 + 50 * k; a->width = 80; a->direction = 0; a->grazing = 0.3; a->sound_speed = 1500;
                        a->de_index = a->az_index = 0; a->surface = a->bottom = a->caustic = a->upper = a->lower = 0;
                        a->source_de = -0.3 + 0.2 * k; a->source_az = 1.1 * k;
                        b.reset(new usml::eigenverbs::eigenverb_model(*a));
                        b->source_de = 0.1 * k; b->source_az = 2.0 - k;
                        bc->add_biverb(a, b, vector<double>(3, 1.0), (k * 3 + schedule) % bc->num_interfaces());
                    }
                    double treverb = 0.1 * (1 + nv % 2);
                    ear e;
                    {
                        std::shared_ptr<rvbts_generator> gen(new rvbts_generator(pair, s, r, treverb, bcp));
                        gen->add_listener(&e);
                        gen->run();
                        seq::check(gen->done(), "generator is not done");
                        gen->remove_listener(&e);
                    }
                    seq::check(e.heard.size() == 1 && pair->rvbts() == e.heard[0], "%d results", (int)e.heard.size());
                    auto c = e.heard[0];
                    seq::check(c->source() == s && c->receiver() == r, "sensors of the result");
                    size_t n = (size_t)std::floor(0.5 + 3.5 / treverb) + 1;
                    seq::check(c->travel_times()->size() >= n - 1 && seq::near((*c->travel_times())(0), 0.5) && seq::near((*c->travel_times())(1), 0.5 + treverb) && (*c->travel_times())(c->travel_times()->size() - 1) >= 4.0 - treverb, "time axis of %d times", (int)c->travel_times()->size());
                    reference ref(*c->travel_times(), 2);
                    for (size_t i = 0; i < bc->num_interfaces(); ++i) for (auto& v : bc->biverbs(i)) {
                        double previous = 0;
                        for (auto& p : list) {
                            v3 ordered = unit(p->orderedDE * RAD, p->orderedAZ * RAD), st = mounted ? sf.in(hf.out(ordered)) : ordered;
                            if (p->transmit_mode < 2)
                                ref.add(*v, *p, p->source_level * pattern(sf.in(unit(v->source_de, v->source_az)), st, p->fcenter, 1 + p->transmit_mode),
                                        {pattern(rf.in(unit(v->receiver_de, v->receiver_az)), {1, 0, 0}, p->fcenter, 5), pattern(rf.in(unit(v->receiver_de, v->receiver_az)), unit(-20 * RAD, 100 * RAD), p->fcenter, 6)}, previous);
                            previous += p->delay + p->duration;
                        }
                    }
                    ref.compare(c->time_series(), "generator");
                    seq::observe("%.6g", c->time_series()(1, 10));
                    sensor_manager::reset();
                }
}
static double one(netCDF::NcFile& f, const char* name) {
    auto v = f.getVar(name);
    seq::check(!v.isNull(), "no variable %s", name);
    double x;
    v.getVar(&x);
    return x;
}
SEQ_SECTION(files, "files", "every number of channels and times, positions and orientations in a lattice: file contents") {
    for (int ch = 0; ch <= 3; ++ch) for (int n : {2, 3, 30}) for (int o = 0; o < 6; ++o) {
        if (!seq::next("%d channels %d times pose %d", ch, n, o)) continue;
        if (ch == 0) continue;
        auto s = sensor(11, wposition1(10 + o, 170 + 3 * o > 180 ? 170 + 3 * o - 360 : 170 + 3 * o, -100 - o), orientation(20 * o, 10 - o, 3 * o)), r = sensor(12, wposition1(-20, -5 * o, -50), orientation(-30 * o, o, 0));
        s->src_beam(0, bp_model::csptr(new beam(1)));
        for (int i = 0; i < ch; ++i) r->rcv_beam(3 * i, bp_model::csptr(new beam(i)));
        seq_vector::csptr t(new seq_linear(0.5, 0.1, (size_t)n));
        dirty();
        rvbts_collection c(s, s->position(), s->orient(), 3.5, r, r->position(), r->orient(), 7.5 + o, t);
        for (int k = 0; k < 3; ++k) c.add_biverb(verb(0.3 * k, 0.1, {1000}, {1e-2}, k), pulse(0.1, 1000, 0, 1), bvector(1.0, 0.0, 0.0));
        std::string file = seq::scratch() + "/rvbts.nc";
        c.write_netcdf(file.c_str());
        netCDF::NcFile f(file, netCDF::NcFile::read);
        seq::check(one(f, "sourceID") == 11 && one(f, "receiverID") == 12, "keys in the file");
        orientation so(s->orient()), ro(r->orient());
        struct { const char* name; double want; } x[] = {{"source_latitude", s->position().latitude()}, {"source_longitude", s->position().longitude()}, {"source_altitude", s->position().altitude()}, {"source_yaw", so.yaw()}, {"source_pitch", so.pitch()}, {"source_roll", so.roll()}, {"source_speed", 3.5},
            {"receiver_latitude", r->position().latitude()}, {"receiver_longitude", r->position().longitude()}, {"receiver_altitude", r->position().altitude()}, {"receiver_yaw", ro.yaw()}, {"receiver_pitch", ro.pitch()}, {"receiver_roll", ro.roll()}, {"receiver_speed", 7.5 + o}};
        for (auto& q : x) seq::check(seq::near(one(f, q.name), q.want, 1e-9, 1e-9), "%s is %g instead of %g", q.name, one(f, q.name), q.want);
        std::vector<double> tt(n), ts(n * ch);
        seq::check(f.getDim("channels").getSize() == (size_t)ch && f.getDim("travel_time").getSize() == (size_t)n, "dimensions");
        f.getVar("travel_time").getVar(tt.data());
        f.getVar("time_series").getVar(ts.data());
        double peak = 0;
        for (int i = 0; i < n; ++i) { seq::check(tt[i] == (*t)(i), "time %d", i); for (int k = 0; k < ch; ++k) { seq::check(ts[k * n + i] == c.time_series()(k, i), "time series"); peak = std::max(peak, ts[k * n + i]); } }
        seq::check(peak > 0, "time series in the file is empty");
        seq::observe("%.5g", peak);
    }
}
