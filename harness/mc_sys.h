// Shared by the harnesses that run sensors, pairs and generators end to end.
#pragma once
#include <mc.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/biverbs/biverbs.h>
#include <usml/eigenrays/eigenrays.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/rvbts/rvbts.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>
#include <usml/transmit/transmit.h>
#include <usml/wavegen/wavegen.h>

#include <atomic>
#include <cmath>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

using namespace usml::sensors;
using namespace usml::ocean;
using namespace usml::threads;

// Everything expensive that scenarios share; built once before exploring.
inline seq_vector::csptr g_freq, g_fan1, g_fan3;
inline bp_model::csptr g_omni;
inline void sys_prepare() {
    g_freq = seq_vector::csptr(new seq_linear(1000.0, 100.0, 1));
    g_fan1 = seq_vector::csptr(new seq_linear(0.0, 10.0, 1));
    g_fan3 = seq_vector::csptr(new seq_linear(-10.0, 10.0, 3));
    g_omni = bp_model::csptr(new bp_omni());
    ocean_utils::make_iso(2000.0);
    sensor_manager::instance()->frequencies(g_freq);
    platform_manager::instance();
}
inline transmit_list pulses(int n, double duration = 0.5) {
    transmit_list l;
    for (int i = 0; i < n; ++i) l.push_back(transmit_model::csptr(new transmit_cw("cw", duration, 1000.0)));
    return l;
}
// a source and/or receiver at (0, 0.01 * key)
inline sensor_model::sptr buoy(int key, bool src, bool rcv, int group = 0, bool reverb = true) {
    sensor_model::sptr s(new sensor_model(key, "buoy", 0, wposition1(0.0, 0.01 * key, -100.0)));
    s->time_step(0.1);
    s->time_maximum(0.1);
    s->de_fan(g_fan1);
    s->az_fan(g_fan1);
    if (src) s->src_beam(0, g_omni);
    if (rcv) s->rcv_beam(0, g_omni);
    s->multistatic(group);
    s->compute_reverb(reverb);
    return s;
}
inline void move_to(platform_model& p, int n, platform_model::update_type_enum u = platform_model::FORCE_UPDATE) {
    p.update(n, wposition1(1.0 * n, 0.0, -100.0), orientation(), 0.0, u);
}
struct ear : public update_listener<sensor_pair> {
    std::atomic<int> n{0};
    void notify_update(const sensor_pair* p) override {
        ++n;
        mc::check(p->dirpaths() != nullptr, "pair announced without direct paths");
    }
};
// records the latitude (in degrees) at which each delivered calculation was made
struct recorder : public wavefront_listener {
    std::mutex m; std::vector<int> seen;
    void update_wavefront_data(const sensor_model* s, eigenray_collection::csptr r, eigenverb_collection::csptr v) override {
        mc::check(r != nullptr && v != nullptr && s != nullptr, "incomplete results delivered");
        std::lock_guard<std::mutex> g(m);
        // the sensor is one of its own targets, at the position of the calculation
        for (size_t i = 0; i < r->size1(); ++i)
            if (r->targetID(i, 0) == s->keyID()) seen.push_back((int)std::round(r->position(i, 0).latitude()));
    }
};
inline void finish() {
    sensor_manager::reset();
    thread_controller::reset(0);
    mc::check(thread_task::num_active() == 0, "%d tasks active after shutdown", (int)thread_task::num_active());
}
