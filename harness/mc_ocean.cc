// C06: ocean_shared publishes complete, immutable snapshots.
#include <mc.h>
#include <usml/ocean/ocean.h>

#include <cmath>
#include <memory>
#include <thread>

using namespace usml::ocean;

static int g_dead;
struct my_profile : public profile_linear {
    int* mark;
    my_profile(double c) : profile_linear(c), mark(new int(7)) {}
    ~my_profile() { *mark = 0; delete mark; __atomic_add_fetch(&g_dead, 1, __ATOMIC_ACQ_REL); }
};
static ocean_model::csptr make(double depth, double speed) {
    return ocean_model::csptr(new ocean_model(
        boundary_model::csptr(new boundary_flat()), boundary_model::csptr(new boundary_flat(depth)),
        profile_model::csptr(new my_profile(speed))));
}
// depth and sound speed as published by ocean number n
static int identify(const ocean_model::csptr& o) {
    if (o == nullptr) return 0;
    double h = 0.0;
    o->bottom()->height(wposition1(0, 0), &h);
    wposition pos(1, 1, 0.0, 0.0, -10.0);
    matrix<double> c(1, 1);
    o->profile()->sound_speed(pos, &c);
    int n = (int)((wposition::earth_radius - h) / 1000.0 + 0.5), m = (int)((c(0, 0) - 1500.0) / 10.0 + 0.5);
    mc::check(n == m, "ocean is a mixture: bottom of ocean %d, profile of ocean %d", n, m);
    return n;
}
static ocean_model::csptr numbered(int n) { return make(1000.0 * n, 1500.0 + 10.0 * n); }

MC_SCENARIO(snapshot, "readers see old or new ocean, never a mixture, and never go back", 8, 40) {
    g_dead = 0;
    ocean_shared::update(numbered(1));
    std::thread w([] { ocean_shared::update(numbered(2)); });
    int a = identify(ocean_shared::current());
    ocean_model::csptr held = ocean_shared::current();
    int b = identify(held);
    mc::check(a >= 1 && b >= a && b <= 2, "saw ocean %d then %d", a, b);
    w.join();
    mc::check(identify(held) == b, "held ocean changed");
    mc::check(identify(ocean_shared::current()) == 2, "update lost");
    mc::observe("%d %d", a, b);
    ocean_shared::reset();
    mc::check(ocean_shared::current() == nullptr, "ocean after reset");
    held.reset();
    mc::check(g_dead == 2, "%d oceans destroyed instead of 2", g_dead);
}
MC_SCENARIO(two_writers, "two writers and a reader", 8, 40) {
    g_dead = 0;
    std::thread w([] { ocean_shared::update(numbered(2)); }), v([] { ocean_shared::update(numbered(3)); });
    int a = identify(ocean_shared::current());
    int b = identify(ocean_shared::current());
    mc::check(!(a != 0 && b == 0), "ocean vanished");
    w.join(); v.join();
    int c = identify(ocean_shared::current());
    mc::check(c == 2 || c == 3, "both updates lost");
    mc::observe("%d %d %d", a, b, c);
    ocean_shared::reset();
    mc::check(g_dead == 2, "%d oceans destroyed instead of 2", g_dead);
}
MC_SCENARIO(reset_race, "reset against current", 8, 40) {
    g_dead = 0;
    ocean_shared::update(numbered(1));
    std::thread w([] { ocean_shared::reset(); });
    auto o = ocean_shared::current();
    int a = identify(o);
    w.join();
    mc::check(identify(o) == a, "held ocean changed");
    mc::check(ocean_shared::current() == nullptr, "reset lost");
    mc::observe("%d", a);
    o.reset();
    mc::check(g_dead == 1, "ocean not destroyed with its last reader");
}

MC_SCENARIO(own_update, "a writer sees its own update while others read", 8, 40) {
    g_dead = 0;
    ocean_shared::update(numbered(1));
    int a = 0, b = 0;
    std::thread r([&] { a = identify(ocean_shared::current()); b = identify(ocean_shared::current()); });
    ocean_shared::update(numbered(2));
    int c = identify(ocean_shared::current());
    mc::check(c == 2, "writer sees ocean %d after its update", c);
    ocean_shared::update(numbered(3));
    c = identify(ocean_shared::current());
    mc::check(c == 3, "writer sees ocean %d after its second update", c);
    r.join();
    mc::check(a >= 1 && b >= a, "saw ocean %d then %d", a, b);
    mc::observe("%d %d", a, b);
    ocean_shared::reset();
    mc::check(ocean_shared::current() == nullptr, "reset lost");
    mc::check(g_dead == 3, "%d oceans destroyed instead of 3", g_dead);
}
MC_SCENARIO(own_reset, "a reset is not lost while others read", 8, 40) {
    ocean_shared::update(numbered(1));
    std::thread r([&] { identify(ocean_shared::current()); });
    std::thread q([&] { identify(ocean_shared::current()); });
    ocean_shared::reset();
    mc::check(ocean_shared::current() == nullptr, "reset lost");
    r.join(); q.join();
}
MC_SCENARIO(utils, "predefined oceans are published the same way", 8, 40) {
    ocean_shared::reset();
    auto flat = [](const ocean_model::csptr& o) {
        double h = 0.0;
        o->bottom()->height(wposition1(0, 0), &h);
        return (int)std::round(wposition::earth_radius - h);
    };
    std::thread r([&] { auto o = ocean_shared::current(); int d = o ? flat(o) : 0; mc::check(d == 0 || d == 1000 || d == 2000, "depth %d", d); mc::observe("%d", d); });
    ocean_utils::make_iso(1000.0);
    mc::check(flat(ocean_shared::current()) == 1000, "not published");
    ocean_utils::make_iso(2000.0);
    mc::check(flat(ocean_shared::current()) == 2000, "not published");
    r.join();
    ocean_shared::reset();
}
