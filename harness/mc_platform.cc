// C05: platform motion is read and published as one consistent snapshot, and
// hierarchies can be changed and moved by concurrent threads.
#include <mc.h>
#include <usml/platforms/platforms.h>
#include <usml/platforms/motion_thresholds.h>

#include <atomic>
#include <cmath>
#include <memory>
#include <thread>

using namespace usml::platforms;
using usml::types::bvector;
using usml::types::orientation;
using usml::types::wposition1;

// state number n of a platform: every component is derived from n
static void put(platform_model& p, int n, platform_model::update_type_enum u = platform_model::TEST_THRESHOLD) {
    p.update(100 * n, wposition1(10.0 + n, 20.0 + n, -10.0 * n), orientation(10.0 * n, 0.0, 0.0), 1.0 * n, u);
}
static int number(double v, double off, double scale, const char* what) {
    double n = (v - off) / scale;
    mc::check(std::fabs(n - std::round(n)) < 1e-6, "%s %g was never set", what, v);
    return (int)std::round(n);
}
static int pos_number(const wposition1& p) {
    int a = number(p.latitude(), 10.0, 1.0, "latitude"), b = number(p.longitude(), 20.0, 1.0, "longitude"), c = number(p.altitude(), 0.0, -10.0, "altitude");
    mc::check(a == b && b == c, "position mixes updates %d %d %d", a, b, c);
    return a;
}
static int read_all(const platform_model& p) {
    time_t t; wposition1 w; orientation o; double s;
    p.get_motion(&t, &w, &o, &s);
    int n = pos_number(w);
    mc::check(t == 100 * n, "time %ld with position %d", (long)t, n);
    mc::check(std::fabs(s - n) < 1e-9, "speed %g with position %d", s, n);
    mc::check(std::fabs(o.yaw() - 10.0 * n) < 1e-6, "yaw %g with position %d", o.yaw(), n);
    return n;
}
static platform_model::sptr make(int key) {
    platform_model::sptr p(new platform_model(key, "p"));
    put(*p, 0);
    return p;
}
// two children keep the offsets of their linkage from the host
// Number (0..2) of the host state that explains the pose of the child, or -1.
static int which(const platform_model& child, double north, double east, double up) {
    wposition1 w; time_t t; double s; orientation o;
    child.get_motion(&t, &w, &o, &s);
    for (int n = 0; n <= 2; ++n) {
        orientation ho(10.0 * n, 0.0, 0.0);
        wposition1 h(10.0 + n, 20.0 + n, -10.0 * n);
        double a = ho.yaw() * M_PI / 180.0;
        double dn = north * std::cos(a) - east * std::sin(a), de = north * std::sin(a) + east * std::cos(a);
        double pn = -(w.theta() - h.theta()) * h.rho(), pe = (w.phi() - h.phi()) * h.rho() * std::sin(h.theta()), pu = w.rho() - h.rho();
        if (t == 100 * n && std::fabs(s - n) < 1e-9 && std::fabs(pn - dn) < 1e-3 && std::fabs(pe - de) < 1e-3 && std::fabs(pu - up) < 1e-3) return n;
    }
    return -1;
}
static bool at(const platform_model& child, double north, double east, double up, int n) { return which(child, north, east, up) == n; }

MC_SCENARIO(motion, "get_motion against update", 8, 40) {
    auto p = make(1);
    std::thread t([&] { put(*p, 1); put(*p, 2); });
    int a = read_all(*p), b = read_all(*p);
    mc::check(b >= a, "motion went back from %d to %d", a, b);
    t.join();
    mc::check(read_all(*p) == 2, "update lost");
    mc::observe("%d %d", a, b);
}
MC_SCENARIO(getters, "single getters against update", 8, 40) {
    auto p = make(1);
    std::thread t([&] { put(*p, 1); });
    int a = pos_number(p->position());
    int b = number(p->orient().yaw(), 0.0, 10.0, "yaw");
    int c = number(p->speed(), 0.0, 1.0, "speed");
    int d = number((double)p->time(), 0.0, 100.0, "time");
    for (int n : {a, b, c, d}) mc::check(n == 0 || n == 1, "value %d was never set", n);
    t.join();
    mc::observe("%d%d%d%d", a, b, c, d);
}
MC_SCENARIO(dead_reckoning, "update by speed against update and get_motion", 8, 40) {
    platform_model::sptr p(new platform_model(1, "p", 0, wposition1(0, 0, 0), orientation(90.0, 0, 0), 10.0));
    std::thread t([&] { p->update(100); });
    std::thread u([&] { p->update(100); });
    time_t tm; wposition1 w; orientation o;
    p->get_motion(&tm, &w, &o);
    double east = w.phi() * w.rho();
    mc::check((tm == 0 && std::fabs(east) < 1e-3) || (tm == 100 && std::fabs(east - 1000.0) < 1.0), "time %ld with %g m travelled", (long)tm, east);
    t.join(); u.join();
    p->get_motion(&tm, &w);
    east = w.phi() * w.rho();
    mc::check(tm == 100 && std::fabs(east - 1000.0) < 1.0, "travelled %g m by time %ld", east, (long)tm);
    mc::observe("%ld", (long)tm);
}
MC_SCENARIO(children, "host moves while children are read", 8, 40) {
    auto h = make(1);
    platform_model::sptr c(new platform_model(2, "c")), d(new platform_model(3, "d"));
    h->add_child(c, bvector(100.0, 0.0, 0.0));
    h->add_child(d, bvector(0.0, 50.0, 5.0));
    mc::check(at(*c, 100, 0, 0, 0) && at(*d, 0, 50, 5, 0), "children not placed by add_child");
    std::thread t([&] { put(*h, 1); });
    int a = which(*d, 0, 50, 5);
    mc::check(a == 0 || a == 1, "child is at neither pose of its host");
    if (a == 1) mc::check(read_all(*h) == 1, "child moved before its host");
    t.join();
    mc::check(at(*c, 100, 0, 0, 1) && at(*d, 0, 50, 5, 1), "children did not follow their host");
    mc::observe("%d", a);
}
MC_SCENARIO(two_updates, "two threads update one host", 8, 40) {
    auto h = make(1);
    platform_model::sptr c(new platform_model(2, "c"));
    h->add_child(c, bvector(100.0, 0.0, 0.0));
    std::thread t([&] { put(*h, 1); }), u([&] { put(*h, 2); });
    t.join(); u.join();
    int n = read_all(*h);
    mc::check(n == 1 || n == 2, "state %d", n);
    mc::check(at(*c, 100, 0, 0, n), "child and host follow different updates");
    mc::observe("%d", n);
}
MC_SCENARIO(grow, "children added, listed and removed while the host moves", 8, 40) {
    auto h = make(1);
    platform_model::sptr c(new platform_model(2, "c")), d(new platform_model(3, "d"));
    h->add_child(c, bvector(100.0, 0.0, 0.0));
    std::thread t([&] { put(*h, 1); });
    h->add_child(d, bvector(0.0, 50.0, 0.0));
    bool gone = h->remove_child(2);
    mc::check(gone, "child not found");
    auto l = h->children();
    mc::check(l.size() == 1 && l.front() == d, "children");
    t.join();
    mc::check(read_all(*h) == 1, "update lost");
    mc::check(at(*d, 0, 50, 0, 1), "added child is not at its host's pose");
    bool c0 = at(*c, 100, 0, 0, 0), c1 = at(*c, 100, 0, 0, 1);
    mc::check(c0 || c1, "removed child is at neither pose");
    mc::check(d->host() == h.get(), "host of added child");
    mc::check(c->host() == nullptr, "removed child still refers to its host");
    mc::observe("%d%d", c0, c1);
}
MC_SCENARIO(host_race, "host() is read while a child is attached and detached", 8, 40) {
    auto h = make(1);
    platform_model::sptr c(new platform_model(2, "c"));
    std::thread t([&] { h->add_child(c); h->remove_child(2); });
    auto* p = c->host();
    mc::check(p == nullptr || p == h.get(), "host was never set");
    t.join();
    mc::check(c->host() == nullptr && h->children().empty(), "child still attached");
    mc::observe("%d", p != nullptr);
}
MC_SCENARIO(claimed_once, "two hosts claim a child: a rejected claim changes nothing", 8, 40) {
    auto h = make(1);
    platform_model::sptr c(new platform_model(2, "c")), d(new platform_model(2, "d"));
    int won = 0;
    auto claim = [&](platform_model::sptr x) { try { h->add_child(x); __atomic_add_fetch(&won, 1, __ATOMIC_ACQ_REL); } catch (std::exception&) {} };
    std::thread t([&] { claim(c); });
    claim(d);
    t.join();
    mc::check(won == 1, "%d children with the same key were accepted", won);
    auto l = h->children();
    mc::check(l.size() == 1, "children");
    auto w = l.front(), o = w == c ? d : c;
    mc::check(w->host() == h.get() && o->host() == nullptr, "host of the rejected child was changed");
    mc::observe("%d", w == c);
}
MC_SCENARIO(flag, "acoustic target flag and listing against update", 8, 40) {
    platform_manager::reset();
    auto* m = platform_manager::instance();
    auto p = make(1);
    m->add(p);
    std::thread t([&] { for (auto& x : m->list()) put(*x, 1); });
    std::thread u([&] { p->is_acoustic_target(false); });
    for (auto& x : m->list()) { (void)x->is_acoustic_target(); read_all(*x); }
    t.join(); u.join();
    mc::check(!p->is_acoustic_target() && read_all(*p) == 1, "update lost");
    platform_manager::reset();
}
