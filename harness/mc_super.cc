// C09: superseded and aborted calculations never replace newer results.
#include "mc_sys.h"

static void superseded(int workers, bool reverb) {
    thread_controller::reset(workers);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 0, reverb);
    ear e;
    m->add_sensor(s, &e);
    recorder rec;
    s->add_wavefront_listener(&rec);
    for (int n = 1; n <= 3; ++n) move_to(*s, n);
    thread_task::wait();
    mc::check(!rec.seen.empty(), "no calculation was delivered");
    int last = 0, newest = 0;
    for (int n : rec.seen) { if (n == 3) ++newest; if (workers == 1) mc::check(n > last, "calculation %d delivered after %d", n, last); last = n; mc::observe("%d", n); }
    mc::check(newest == 1, "newest calculation delivered %d times", newest);
    if (workers == 1) mc::check(last == 3, "an older calculation replaced the newest one");
    s->remove_wavefront_listener(&rec);
    finish();
}
MC_SCENARIO_P(one, "three updates in a row, 1 worker", sys_prepare, 3, 5) { superseded(1, false); }
MC_SCENARIO_P(one_r, "three updates in a row with reverberation, 1 worker", sys_prepare, 2, 4) { superseded(1, true); }
MC_SCENARIO_P(two, "three updates in a row, 2 workers", sys_prepare, 1, 2) { superseded(2, false); }

// a task that blocks the only worker until it is released
struct gate : public thread_task {
    std::atomic<bool> open{false};
    void run() override { while (!open) std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
};
MC_SCENARIO_P(queued, "updates superseded before they start deliver nothing", sys_prepare, 3, 6) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 0, false);
    ear e;
    m->add_sensor(s, &e);
    recorder rec;
    s->add_wavefront_listener(&rec);
    auto g = std::make_shared<gate>();
    thread_controller::instance()->run(g);
    for (int n = 1; n <= 3; ++n) move_to(*s, n);
    g->open = true;
    thread_task::wait();
    mc::check(rec.seen.size() == 1 && rec.seen[0] == 3, "superseded calculation was delivered");
    mc::check(e.n == 1, "pair notified %d times", (int)e.n);
    s->remove_wavefront_listener(&rec);
    finish();
}
MC_SCENARIO_P(biverbs, "bistatic eigenverbs superseded before they start deliver nothing", sys_prepare, 3, 6) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    ear e;
    m->add_sensor(s, &e);
    auto p = m->find("1_1");
    auto g = std::make_shared<gate>();
    thread_controller::instance()->run(g);
    matrix<uint64_t> id(1, 1); id(0, 0) = 1;
    eigenray_collection::csptr rays(new eigenray_collection(g_freq, s->position(), wposition(s->position()), 1, id));
    for (int n = 0; n < 3; ++n) p->update_wavefront_data(s.get(), rays, eigenverb_collection::csptr(new eigenverb_collection(0)));
    g->open = true;
    thread_task::wait();
    mc::check(p->biverbs() != nullptr, "no bistatic eigenverbs");
    mc::check(e.n == 1, "bistatic eigenverbs of superseded data were delivered: notified %d times", (int)e.n);
    p.reset();
    finish();
}
MC_SCENARIO_P(series, "time series superseded before they start deliver nothing", sys_prepare, 3, 6) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    s->transmit_schedule(pulses(1));
    ear e;
    m->add_sensor(s, &e);
    auto p = m->find("1_1");
    auto g = std::make_shared<gate>();
    thread_controller::instance()->run(g);
    matrix<uint64_t> id(1, 1); id(0, 0) = 1;
    eigenray_collection::csptr rays(new eigenray_collection(g_freq, s->position(), wposition(s->position()), 1, id));
    biverb_collection::csptr b(new biverb_collection(0));
    p->update_wavefront_data(s.get(), rays, nullptr);
    for (int n = 0; n < 3; ++n) p->notify_update(&b);
    g->open = true;
    thread_task::wait();
    mc::check(p->rvbts() != nullptr && p->biverbs() == b, "no time series");
    mc::check(e.n == 1, "superseded time series were delivered: notified %d times", (int)e.n);
    p.reset();
    finish();
}
