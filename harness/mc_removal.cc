// C10: sensors, pairs, listeners and the managers can go away at any time.
#include "mc_sys.h"

MC_SCENARIO_P(sensor, "sensor removed while it is computed, 1 worker", sys_prepare, 3, 5) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    std::weak_ptr<sensor_model> w = s;
    s->transmit_schedule(pulses(1));
    m->add_sensor(s);
    move_to(*s, 1);
    m->remove_sensor(s);
    s.reset();
    mc::check(m->list().empty() && !m->find_sensor(1), "sensor still found after its removal");
    thread_task::wait();
    finish();
    mc::check(w.expired(), "removed sensor is never destroyed");
}
MC_SCENARIO_P(listener, "no callback after remove_sensor with its listener returned", sys_prepare, 3, 5) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    auto e = std::make_unique<ear>();
    m->add_sensor(s, e.get());
    move_to(*s, 1);
    m->remove_sensor(s, e.get());
    mc::observe("%d", (int)e->n);
    e.reset();
    thread_task::wait();
    finish();
}
MC_SCENARIO_P(bistatic, "receiver removed while source is computed", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, false, 5), r = buoy(2, false, true, 5);
    m->add_sensor(s);
    m->add_sensor(r);
    move_to(*r, 1);
    move_to(*s, 1);
    std::thread t([&] { m->remove_sensor(r); });
    std::weak_ptr<sensor_model> w = r;
    t.join();
    mc::check(m->list().empty(), "pair survived its receiver");
    r.reset();
    thread_task::wait();
    mc::check(m->find_sensor(1) == s, "source vanished");
    finish();
    mc::check(w.expired(), "removed receiver is never destroyed");
}
MC_SCENARIO_P(both, "two threads remove the two ends of a pair", sys_prepare, 2, 4) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, false, 5, false), r = buoy(2, false, true, 5, false);
    m->add_sensor(s);
    m->add_sensor(r);
    move_to(*s, 1);
    std::thread t([&] { m->remove_sensor(r); });
    m->remove_sensor(s);
    t.join();
    mc::check(m->list().empty(), "pair survived");
    thread_task::wait();
    std::weak_ptr<sensor_model> w = s, v = r;
    s.reset(); r.reset();
    finish();
    mc::check(w.expired() && v.expired(), "removed sensors are never destroyed");
}
MC_SCENARIO_P(reset, "managers reset while calculations run", sys_prepare, 2, 4) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    std::weak_ptr<sensor_model> w = s;
    s->transmit_schedule(pulses(1));
    m->add_sensor(s);
    move_to(*s, 1);
    s.reset();
    sensor_manager::reset();
    thread_task::wait();
    finish();
    mc::check(w.expired(), "sensor survived the reset of its manager");
}
MC_SCENARIO_P(held, "pair and sensor held by a client outlive their removal", sys_prepare, 2, 4) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    m->add_sensor(s);
    auto p = m->find("1_1");
    move_to(*s, 1);
    m->remove_sensor(s);
    (void)p->dirpaths(); (void)p->biverbs();
    mc::check(p->source() == s && p->receiver() == s, "pair changed");
    thread_task::wait();
    p.reset();
    mc::check(s->keyID() == 1, "sensor changed");
    finish();
}
MC_SCENARIO_P(pool, "pool replaced while calculations are queued", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    std::weak_ptr<sensor_model> w = s;
    m->add_sensor(s);
    move_to(*s, 1);
    thread_controller::reset(1);
    move_to(*s, 2);
    thread_task::wait();
    mc::check(m->find("1_1")->dirpaths() != nullptr, "calculation submitted to the new pool did not run");
    s.reset();
    finish();
    mc::check(w.expired(), "sensor leaked");
}
MC_SCENARIO_P(from_callback, "listener removes the sensor from its callback", sys_prepare, 3, 5) {
    struct remover : public update_listener<sensor_pair> {
        std::atomic<int> n{0};
        void notify_update(const sensor_pair* p) override {
            ++n;
            sensor_manager::instance()->remove_sensor(p->source(), this);
            mc::check(p->dirpaths() != nullptr, "pair destroyed during its own callback");
        }
    };
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 0, false);
    remover r;
    m->add_sensor(s, &r);
    move_to(*s, 1);
    thread_task::wait();
    mc::check(r.n == 1 && m->list().empty(), "sensor not removed");
    finish();
}
