// C03: the process-wide objects are created exactly once, replaced and read safely.
#include <mc.h>
#include <usml/ocean/ocean.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/threads/threads.h>

#include <memory>
#include <thread>

using namespace usml::ocean;
using namespace usml::platforms;
using namespace usml::sensors;
using namespace usml::threads;

// ---- lazily created managers
template <class S> static void first_use(S* (*get)()) {
    S *a = nullptr, *b = nullptr, *c = nullptr;
    std::thread t([&] { a = get(); mc::check(a->list().empty(), "manager is not empty"); });
    std::thread u([&] { b = get(); mc::check(b->list().empty(), "manager is not empty"); });
    c = get();
    mc::check(c->list().empty(), "manager is not empty");
    t.join(); u.join();
    mc::check(a == b && b == c && a != nullptr, "more than one instance");
    mc::check(get() == a, "instance changed");
}
MC_SCENARIO(platform_first, "platform_manager: concurrent first use", 8, 40) { platform_manager::reset(); first_use<platform_manager>(&platform_manager::instance); }
MC_SCENARIO(sensor_first, "sensor_manager: concurrent first use", 8, 40) { sensor_manager::reset(); first_use<sensor_manager>(&sensor_manager::instance); }
MC_SCENARIO(platform_reset, "platform_manager: first use, add, and reset", 8, 40) {
    platform_manager::instance()->add(std::make_shared<platform_model>(7, "seven"));
    std::weak_ptr<platform_model> w = platform_manager::instance()->find(7);
    std::thread t([] { platform_manager::reset(); });
    std::thread u([] { platform_manager::reset(); });
    t.join(); u.join();
    mc::check(w.expired(), "reset kept a platform");
    mc::check(platform_manager::instance()->find(7) == nullptr, "platform survived reset");
    auto p = std::make_shared<platform_model>(0, "first");
    platform_manager::instance()->add(p);
    mc::check(p->keyID() == 1, "keys do not restart after reset");
    platform_manager::reset();
}
MC_SCENARIO(managers_reset, "sensor_manager and platform_manager: first use against reset", 8, 40) {
    // pointers obtained while a reset is in progress may be stale and are not used
    std::thread t([] { sensor_manager::reset(); });
    std::thread u([] { (void)platform_manager::instance(); });
    (void)sensor_manager::instance();
    t.join(); u.join();
    mc::check(sensor_manager::instance() != nullptr && sensor_manager::instance()->list().empty(), "instance");
    mc::check(sensor_manager::instance() == sensor_manager::instance(), "instance changes");
    sensor_manager::reset();
}
// ---- automatic keys
MC_SCENARIO(auto_keys, "platform_manager: keys assigned by concurrent adds are unique", 8, 40) {
    platform_manager::reset();
    auto* m = platform_manager::instance();
    std::shared_ptr<platform_model> p[3];
    for (auto& x : p) x = std::make_shared<platform_model>(0, "auto");
    unsigned long r[3] = {0, 0, 0};
    bool dup = false;
    std::thread t([&] { r[0] = m->add(p[0]); r[1] = m->add(p[1]); });
    try { m->add(std::make_shared<platform_model>(2, "two")); } catch (platform_manager::duplicate_key&) { dup = true; }
    r[2] = m->add(p[2]);
    t.join();
    for (int i = 0; i < 3; ++i) {
        mc::check(r[i] != 0 && r[i] == p[i]->keyID(), "key %lu of platform %d", r[i], i);
        mc::check(m->find(r[i]) == p[i], "platform %d not found under its key", i);
        for (int j = 0; j < i; ++j) mc::check(r[i] != r[j], "two platforms have key %lu", r[i]);
    }
    mc::check(m->list().size() == (dup ? 3u : 4u), "number of platforms");
    if (!dup) mc::check(m->find(2)->description() == "two", "platform 2 was replaced");
    mc::observe("%lu %lu %lu", r[0], r[1], r[2]);
    platform_manager::reset();
}
// ---- thread pool
MC_SCENARIO(pool_first, "thread_controller: concurrent first use", 8, 40) {
    thread_controller::reset(1);
    thread_pool *a = nullptr, *b = nullptr;
    std::thread t([&] { a = thread_controller::instance(); });
    b = thread_controller::instance();
    t.join();
    mc::check(a == b && a != nullptr, "more than one pool");
    thread_controller::reset(1);
    mc::check(thread_controller::instance() != nullptr, "no pool after reset");
}
// ---- frequencies shared by all sensors
MC_SCENARIO(frequencies, "sensor_manager: frequencies published while read", 8, 40) {
    sensor_manager::reset();
    auto* m = sensor_manager::instance();
    seq_vector::csptr f1(new seq_linear(100.0, 100.0, 3)), f2(new seq_linear(1000.0, 1.0, 5));
    mc::check(m->frequencies() == nullptr, "frequencies before they are set");
    m->frequencies(f1);
    std::thread t([&] { m->frequencies(f2); });
    auto g = m->frequencies();
    mc::check((g == f1 && g->size() == 3) || (g == f2 && g->size() == 5), "neither old nor new frequencies");
    auto h = m->frequencies();
    mc::check(!(g == f2 && h == f1), "frequencies went back");
    t.join();
    mc::check(m->frequencies() == f2, "update lost");
    sensor_manager::reset();
}
