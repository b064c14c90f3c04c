// C08: acoustic updates run through all stages and terminate, under every schedule.
#include "mc_sys.h"

MC_SCENARIO_P(mono, "monostatic pipeline, 1 worker", sys_prepare, 3, 6) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    s->transmit_schedule(pulses(1));
    ear e;
    m->add_sensor(s, &e);
    move_to(*s, 1);
    thread_task::wait();
    auto p = m->find("1_1");
    mc::check(p != nullptr, "no pair");
    mc::check(p->dirpaths() && p->src_eigenverbs() && p->src_eigenverbs() == p->rcv_eigenverbs() && p->biverbs() && p->rvbts(), "a stage of the calculation is missing");
    mc::check(e.n == 1, "listener notified %d times", (int)e.n);
    p.reset();
    finish();
}
MC_SCENARIO_P(mono2, "monostatic pipeline, 2 workers", sys_prepare, 1, 3) {
    thread_controller::reset(2);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    s->transmit_schedule(pulses(2));
    ear e;
    m->add_sensor(s, &e);
    move_to(*s, 1);
    thread_task::wait();
    auto p = m->find("1_1");
    mc::check(p->dirpaths() && p->src_eigenverbs() && p->biverbs() && p->rvbts(), "a stage of the calculation is missing");
    mc::check(e.n == 1, "listener notified %d times", (int)e.n);
    p.reset();
    finish();
}
MC_SCENARIO_P(noschedule, "pair without transmit schedule or reverberation notifies early", sys_prepare, 2, 5) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true), t = buoy(2, true, true, 0, false);
    ear e, f;
    m->add_sensor(s, &e);
    m->add_sensor(t, &f);
    move_to(*s, 1);
    move_to(*t, 1);
    thread_task::wait();
    auto p = m->find("1_1"), q = m->find("2_2");
    mc::check(p->biverbs() && !p->rvbts(), "time series without transmit schedule");
    mc::check(e.n == 1, "listener of bistatic eigenverbs notified %d times", (int)e.n);
    mc::check(q->dirpaths() && !q->src_eigenverbs() && !q->biverbs(), "reverberation computed although it is disabled");
    mc::check(f.n == 1, "listener of direct paths notified %d times", (int)f.n);
    finish();
}
MC_SCENARIO_P(bistatic, "bistatic pair, source and receiver updated by two threads, 2 workers", sys_prepare, 0, 1) {
    thread_controller::reset(2);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, false, 5), r = buoy(2, false, true, 5);
    s->transmit_schedule(pulses(1));
    ear e;
    m->add_sensor(s, &e);
    m->add_sensor(r, &e);
    auto p = m->find("1_2");
    mc::check(p != nullptr && m->list().size() == 1, "pairs");
    std::thread t([&] { move_to(*s, 1); });
    move_to(*r, 1);
    t.join();
    thread_task::wait();
    mc::check(p->dirpaths() && p->src_eigenverbs() && p->rcv_eigenverbs(), "eigenverbs of source or receiver are missing");
    mc::check(p->src_eigenverbs() != p->rcv_eigenverbs(), "source and receiver share eigenverbs");
    mc::check(p->biverbs() != nullptr && p->rvbts() != nullptr, "last stages are missing although all inputs are there");
    mc::check(e.n >= 1, "nobody was notified");
    mc::observe("n%d", (int)e.n);
    p.reset();
    finish();
}
MC_SCENARIO_P(add_update, "sensors added while another is updated", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 5, false), r = buoy(2, false, true, 5, false);
    m->add_sensor(s);
    std::thread t([&] { move_to(*s, 1); });
    m->add_sensor(r);
    t.join();
    thread_task::wait();
    mc::check(m->list().size() == 2 && m->find("1_2") && m->find("1_1"), "pairs");
    mc::check(m->find("1_1")->dirpaths() != nullptr, "no result");
    move_to(*s, 1, platform_model::TEST_THRESHOLD);
    thread_task::wait();
    mc::check(m->find("1_2")->dirpaths() != nullptr, "pair created during an update is not computed by the next one");
    finish();
}
MC_SCENARIO_P(add_self, "sensor updated and changed while it is added", sys_prepare, 3, 5) {
    thread_controller::reset(0);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 5, false);
    std::thread t([&] { s->update(1, wposition1(1, 1, -10), orientation(), 0.0, platform_model::FORCE_UPDATE); });
    std::thread u([&] { s->rcv_beam(1, g_omni); });
    m->add_sensor(s);
    t.join(); u.join();
    mc::check(m->find("1_1") != nullptr && s->time() == 1 && s->rcv_num_keys() == 2, "final state");
    finish();
}
MC_SCENARIO_P(two_adds, "two sensors added and removed by two threads", sys_prepare, 2, 4) {
    thread_controller::reset(0);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, false, 5), r = buoy(2, false, true, 5);
    std::thread t([&] { m->add_sensor(s); });
    m->add_sensor(r);
    t.join();
    mc::check(m->list().size() == 1 && m->find("1_2"), "pairs after add");
    mc::check(m->find_source(1).size() == 1 && m->find_receiver(2).size() == 1, "find");
    std::thread u([&] { m->remove_sensor(s); });
    m->remove_sensor(r);
    u.join();
    mc::check(m->list().empty() && !m->find_sensor(1) && !m->find_sensor(2), "left over after removal");
    mc::check(s.use_count() == 1 && r.use_count() == 1, "removed sensors are still referenced");
    finish();
}
MC_SCENARIO_P(updates, "two threads update one sensor", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true, 0, false);
    ear e;
    m->add_sensor(s, &e);
    std::thread t([&] { move_to(*s, 1); });
    move_to(*s, 2);
    t.join();
    thread_task::wait();
    mc::check(e.n >= 1 && e.n <= 2, "listener notified %d times", (int)e.n);
    mc::observe("n%d", (int)e.n);
    finish();
}
MC_SCENARIO_P(schedule, "transmit schedule changed while the pair is computed", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    ear e;
    m->add_sensor(s, &e);
    move_to(*s, 1);
    s->transmit_schedule(pulses(1));
    thread_task::wait();
    auto p = m->find("1_1");
    mc::check(p->biverbs() != nullptr, "no bistatic eigenverbs");
    mc::check(p->rvbts() != nullptr, "no time series although schedule and bistatic eigenverbs exist");
    mc::check(e.n >= 1 && e.n <= 2, "notified %d times", (int)e.n);
    mc::observe("n%d", (int)e.n);
    p.reset();
    finish();
}
MC_SCENARIO_P(readers, "results and motion read while they are replaced", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    auto s = buoy(1, true, true);
    s->transmit_schedule(pulses(1));
    m->add_sensor(s);
    move_to(*s, 1);
    auto p = m->find("1_1");
    // stages are published in order
    auto d = p->rvbts(); auto c = p->biverbs(); auto b = p->src_eigenverbs(); auto a = p->dirpaths();
    mc::check((!d || c) && (!c || b) && (!b || a), "a stage is visible before the one it was computed from");
    mc::check(!a || a->size1() == 1, "direct paths");
    (void)s->position(); (void)p->hash_key();
    mc::check(p->complement(s) == s, "complement");
    mc::observe("%d%d%d%d", !!a, !!b, !!c, !!d);
    thread_task::wait();
    mc::check(p->rvbts() != nullptr, "no result");
    p.reset();
    finish();
}
MC_SCENARIO_P(hosted, "sensor moved by its host while other platforms are read", sys_prepare, 2, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    platform_model::sptr ship(new platform_model(10, "ship", 0, wposition1(0.0, 0.0, 0.0)));
    auto s = buoy(1, true, true);
    s->transmit_schedule(pulses(1));
    platform_manager::instance()->add(ship);
    m->add_sensor(s);
    ship->add_child(s, bvector(0.0, 0.0, -100.0));
    recorder rec;
    s->add_wavefront_listener(&rec);
    std::thread t([&] { move_to(*ship, 1); });
    (void)s->position(); (void)ship->children();
    t.join();
    thread_task::wait();
    mc::check(rec.seen.size() == 1 && rec.seen[0] == 1, "acoustics of the child were not computed at its new position");
    mc::check(m->find("1_1")->rvbts() != nullptr, "no result");
    s->remove_wavefront_listener(&rec);
    finish();
}

MC_SCENARIO_P(every_mono, "every configuration of a monostatic sensor, 1 worker", sys_prepare, 1, 3) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    bool reverb = mc::choose(2), self = mc::choose(2), other = mc::choose(2);
    int pings = mc::choose(3), type = mc::choose(3);
    auto s = buoy(1, true, true, 0, reverb);
    s->is_acoustic_target(self);
    ear e;
    m->add_sensor(s, &e);
    platform_manager::instance()->add(platform_model::sptr(new platform_model(9, "other", 0, wposition1(0.0, 0.09, -50.0))));
    platform_manager::instance()->find(9)->is_acoustic_target(other);
    s->transmit_schedule(pulses(pings), platform_model::NO_UPDATE);
    move_to(*s, 1, (platform_model::update_type_enum)type);
    thread_task::wait();
    auto p = m->find("1_1");
    bool launched = type != platform_model::NO_UPDATE && (reverb || self || other);
    mc::check((p->dirpaths() != nullptr) == launched, "direct paths");
    mc::check((p->src_eigenverbs() != nullptr) == (launched && reverb), "source eigenverbs");
    mc::check((p->rcv_eigenverbs() != nullptr) == (launched && reverb), "receiver eigenverbs");
    mc::check((p->biverbs() != nullptr) == (launched && reverb), "bistatic eigenverbs");
    mc::check((p->rvbts() != nullptr) == (launched && reverb && pings > 0), "time series");
    mc::check(e.n == launched, "listener notified %d times", (int)e.n);
    mc::observe("%d%d%d %d %d", reverb, self, other, pings, type);
    p.reset();
    finish();
}
MC_SCENARIO_P(every_bi, "every configuration and update order of a bistatic pair, 1 worker", sys_prepare, 0, 1) {
    thread_controller::reset(1);
    auto* m = sensor_manager::instance();
    bool rs = mc::choose(2), rr = mc::choose(2), ping = mc::choose(2), order = mc::choose(2), late = mc::choose(2);
    auto s = buoy(1, true, false, 5, rs), r = buoy(2, false, true, 5, rr);
    if (ping && !late) s->transmit_schedule(pulses(1));
    r->transmit_schedule(pulses(1));  // receivers do not transmit
    ear e;
    m->add_sensor(order ? s : r, &e);
    m->add_sensor(order ? r : s, &e);
    auto p = m->find("1_2");
    mc::check(p != nullptr && m->list().size() == 1, "pairs");
    bool reverb = rs && rr;
    int n = 0;
    for (int step = 0; step < 2; ++step) {
        bool src = (step == 0) == order;
        move_to(src ? *s : *r, 1);
        thread_task::wait();
        auto d = p->dirpaths();
        mc::check(d != nullptr && d->size1() == 1 && d->size2() == 1, "direct paths");
        mc::check(d->sourceID() == 1u && d->targetID(0, 0) == 2u, "direct paths of another pair");
        bool both = step == 1;
        mc::check((p->src_eigenverbs() != nullptr) == (reverb && (src || both)), "source eigenverbs");
        mc::check((p->rcv_eigenverbs() != nullptr) == (reverb && (!src || both)), "receiver eigenverbs");
        mc::check((p->biverbs() != nullptr) == (reverb && both), "bistatic eigenverbs");
        mc::check((p->rvbts() != nullptr) == (reverb && both && ping && !late), "time series");
        n += !reverb || both;
        mc::check(e.n == n, "listener notified %d times instead of %d", (int)e.n, n);
    }
    if (ping && late) {
        s->transmit_schedule(pulses(1));
        thread_task::wait();
        mc::check((p->rvbts() != nullptr) == reverb, "time series after the schedule was set");
        mc::check(e.n == n + reverb, "listener notified %d times", (int)e.n);
    }
    mc::observe("%d%d%d%d%d", rs, rr, ping, order, late);
    p.reset(); s.reset(); r.reset();
    finish();
}
