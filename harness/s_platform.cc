// C11: orientations compose as documented, and the poses in a hierarchy of
// platforms follow their hosts after every sequence of operations.
#include <seq.h>
#include <usml/platforms/platforms.h>
#include <usml/types/types.h>

#include <cmath>
#include <map>
#include <memory>
#include <vector>

using namespace usml::types;
using namespace usml::platforms;

struct v3 { double n, e, u; };
static v3 operator*(v3 a, double k) { return {a.n * k, a.e * k, a.u * k}; }
static v3 operator+(v3 a, v3 b) { return {a.n + b.n, a.e + b.e, a.u + b.u}; }
static double dot(v3 a, v3 b) { return a.n * b.n + a.e * b.e + a.u * b.u; }
// body axes in world coordinates
struct frame {
    v3 f, r, u;
    v3 out(v3 b) const { return f * b.n + r * b.e + u * b.u; }        // body to world
    v3 in(v3 w) const { return {dot(w, f), dot(w, r), dot(w, u)}; }    // world to body
};
static double rad(double d) { return d * M_PI / 180; }
static frame body(double yaw, double pitch, double roll) {
    double cy = std::cos(rad(yaw)), sy = std::sin(rad(yaw)), cp = std::cos(rad(pitch)), sp = std::sin(rad(pitch)), cr = std::cos(rad(roll)), sr = std::sin(rad(roll));
    v3 f{cp * cy, cp * sy, sp}, r0{-sy, cy, 0}, u0{-sp * cy, -sp * sy, cp};
    return {f, r0 * cr + u0 * -sr, u0 * cr + r0 * sr};
}
static frame mount(const frame& host, const frame& child) { return {host.out(child.f), host.out(child.r), host.out(child.u)}; }
static bool close(v3 a, v3 b, double tol = 1e-9) { return std::fabs(a.n - b.n) <= tol && std::fabs(a.e - b.e) <= tol && std::fabs(a.u - b.u) <= tol; }
static v3 of(const boost::numeric::ublas::vector<double>& v) { return {v(0), v(1), v(2)}; }
static bool same(const orientation& o, const frame& f, double tol = 1e-9) {
    auto m = o.rotation();
    v3 c[3] = {f.f, f.r, f.u};
    for (int j = 0; j < 3; ++j) if (!close({m(0, j), m(1, j), m(2, j)}, c[j], tol)) return false;
    return close(of(o.front()), f.f, tol) && close(of(o.right()), f.r, tol) && close(of(o.up()), f.u, tol);
}
static double wrap(double d) { d = std::fmod(d, 360); return d > 180 ? d - 360 : d < -180 ? d + 360 : d; }
static bool angle(double a, double b) { return std::fabs(wrap(a - b)) < 1e-6; }

static const double yaws[] = {-180, -135, -90, -30, 0, 20, 90, 150, 179, 270, 400};
static const double pitches[] = {-90, -89, -45, -10, 0, 15, 60, 89, 90};
static const double rolls[] = {-170, -90, -20, 0, 10, 90, 180};

static void angles(orientation o, const frame& f, double yaw, double pitch, double roll) {
    if (std::fabs(std::cos(rad(pitch))) > 1e-6) {
        seq::check(angle(o.yaw(), yaw), "yaw %.9g instead of %g", o.yaw(), yaw);
        seq::check(angle(o.roll(), roll), "roll %.9g instead of %g", o.roll(), roll);
        seq::check(angle(o.pitch(), pitch), "pitch %.9g instead of %g", o.pitch(), pitch);
    } else seq::check(seq::near(o.pitch(), pitch, 0, 1e-4), "pitch %.9g instead of %g", o.pitch(), pitch);
    seq::check(same(o, f), "asking for the angles changes the rotation");
}
SEQ_SECTION(orient, "orientation", "every yaw, pitch, and roll in the lattice, every way to make and change it") {
    for (double y : yaws) for (double p : pitches) for (double r : rolls) {
        if (!seq::next("yaw %g pitch %g roll %g", y, p, r)) continue;
        frame f = body(y, p, r);
        orientation o(y, p, r);
        seq::check(same(o, f), "axes of orientation(yaw,pitch,roll)");
        angles(o, f, y, p, r);
        orientation c(o), a, m(o.rotation());
        a = o;
        angles(c, f, y, p, r); angles(a, f, y, p, r); angles(m, f, y, p, r);
        orientation up;
        up.update_orientation(y, p, r);
        angles(up, f, y, p, r);
        orientation s;
        s.yaw(y); s.pitch(p); s.roll(r);
        angles(s, f, y, p, r);
        // change one angle of an orientation and of copies of it
        if (std::fabs(p) < 90)
            for (double d : {-50.0, 5.0, 80.0}) {
                for (int how = 0; how < 3; ++how) {
                    orientation x = how == 0 ? orientation(y, p, r) : how == 1 ? orientation(o) : orientation(o.rotation());
                    orientation w = x, z = x;
                    x.yaw(d); w.pitch(d); z.roll(d);
                    angles(x, body(d, p, r), d, p, r); angles(w, body(y, d, r), y, d, r); angles(z, body(y, p, d), y, p, d);
                    seq::evaluated(3);
                }
            }
        // vectors from and to the body
        for (v3 b : {v3{1, 0, 0}, v3{0, 1, 0}, v3{0, 0, 1}, v3{3, -2, 0.5}, v3{-1, 4, 7}}) {
            bvector w;
            w.rotate(o, bvector(b.n, b.e, b.u));
            seq::check(close({w.front(), w.right(), w.up()}, f.out(b)), "bvector rotated to (%g %g %g)", w.front(), w.right(), w.up());
            boost::numeric::ublas::matrix<double> in(3, 2);
            in(0, 0) = b.n; in(1, 0) = b.e; in(2, 0) = b.u; in(0, 1) = -b.u; in(1, 1) = b.n; in(2, 1) = b.e;
            o.rotate_vector(in);
            seq::check(close({in(0, 0), in(1, 0), in(2, 0)}, f.in(b)) && close({in(0, 1), in(1, 1), in(2, 1)}, f.in({-b.u, b.n, b.e})), "rotate_vector gives (%g %g %g)", in(0, 0), in(1, 0), in(2, 0));
        }
        bvector b(p, y);
        frame z = body(y, p, 0);
        seq::check(close({b.front(), b.right(), b.up()}, z.f), "bvector(DE,AZ) is (%g %g %g)", b.front(), b.right(), b.up());
        bvector b2(b), b3, b4(b.data());
        b3 = b;
        for (const bvector* q : {&b2, &b3, &b4}) seq::check(q->front() == b.front() && q->right() == b.right() && q->up() == b.up(), "copy of a bvector");
        b3.front(4); b3.right(5); b3.up(6);
        seq::check(b3.front() == 4 && b3.right() == 5 && b3.up() == 6, "components of a bvector");
        seq::observe("%.4f %.4f %.4f %.4f", f.f.n, f.f.e, f.f.u, f.r.u);
    }
}
SEQ_SECTION(compose, "mounted orientations", "every pair of orientations in the lattice") {
    for (double y : yaws) for (double p : pitches) for (double r : {-90.0, 0.0, 10.0, 180.0})
        for (double y2 : {-90.0, 0.0, 20.0, 179.0}) for (double p2 : {-90.0, -45.0, 0.0, 15.0, 45.0}) for (double r2 : {-20.0, 0.0, 90.0}) {
            if (!seq::next("host %g %g %g child %g %g %g", y, p, r, y2, p2, r2)) continue;
            frame want = mount(body(y, p, r), body(y2, p2, r2));
            orientation o(1, 2, 3);
            o.rotate(orientation(y, p, r), orientation(y2, p2, r2));
            seq::check(same(o, want), "axes");
            double a = o.yaw(), b = o.pitch(), c = o.roll();
            seq::check(a == a && b == b && c == c, "angles %g %g %g", a, b, c);
            seq::check(seq::near(std::sin(rad(b)), want.f.u, 0, 1e-9), "pitch %.9g", b);
            if (std::hypot(want.f.n, want.f.e) > 1e-4) {
                frame back = body(a, b, c);
                seq::check(close(back.f, want.f, 1e-6) && close(back.r, want.r, 1e-6), "angles %g %g %g belong to another rotation", a, b, c);
            }
            seq::observe("%.4f %.4f %.4f", want.f.n, want.f.e, want.f.u);
        }
}

// ------------------------------------------------------------------ platforms
struct pose { double t, s; double rho, theta, phi; frame o; };
struct mplat { pose p; int host = -1; struct link { v3 pos; frame o; }; std::map<int, link> kids; };
struct model {
    std::vector<mplat> p;
    void set(int i, const pose& q) {
        p[i].p = q;
        for (auto& k : p[i].kids) {
            v3 off = q.o.out(k.second.pos);
            pose c = q;
            c.rho += off.u; c.theta -= off.n / q.rho; c.phi += off.e / (q.rho * std::sin(q.theta));
            c.o = mount(q.o, k.second.o);
            set(k.first, c);
        }
    }
    bool under(int i, int root) const { for (; i >= 0; i = p[i].host) if (i == root) return true; return false; }
};
static const double pos_tab[3][3] = {{10, 20, -100}, {-35, 179.99, 0}, {60, -70, -1500}};   // lat lon alt
static const double ori_tab[3][3] = {{0, 0, 0}, {75, -20, 30}, {-160, 45, -10}};
static const double spd_tab[3] = {0, 4, -2};
static const double link_tab[2][6] = {{0, 0, 0, 0, 0, 0}, {12, -3, 5, 110, 15, -40}};   // front right up yaw pitch roll
static pose tab(int k, double t) {
    wposition1 w(pos_tab[k][0], pos_tab[k][1], pos_tab[k][2]);
    return {t, spd_tab[k], w.rho(), w.theta(), w.phi(), body(ori_tab[k][0], ori_tab[k][1], ori_tab[k][2])};
}
enum { UPD, RECKON, ADD, REMOVE };
struct op { int kind, i, j, k; };

static void compare(const model& m, const std::vector<platform_model::sptr>& r) {
    for (size_t i = 0; i < r.size(); ++i) {
        time_t t; wposition1 w; orientation o; double s;
        r[i]->get_motion(&t, &w, &o, &s);
        const pose& q = m.p[i].p;
        seq::check((double)t == q.t && s == q.s, "platform %d: time %ld speed %g instead of %g %g", (int)i, (long)t, s, q.t, q.s);
        seq::check(std::fabs(w.rho() - q.rho) < 1e-4 && std::fabs(w.theta() - q.theta) < 1e-11 && std::fabs(w.phi() - q.phi) < 1e-11, "platform %d: position %.9g %.9g %.3f", (int)i, w.latitude(), w.longitude(), w.altitude());
        seq::check(same(o, q.o), "platform %d: orientation", (int)i);
        seq::check(r[i]->time() == t && r[i]->speed() == s && r[i]->position().rho() == w.rho() && same(r[i]->orient(), q.o), "platform %d: single getters", (int)i);
        const platform_model* h = m.p[i].host < 0 ? nullptr : r[m.p[i].host].get();
        seq::check(r[i]->host() == h, "platform %d: host", (int)i);
        auto kids = r[i]->children();
        seq::check(kids.size() == m.p[i].kids.size(), "platform %d: %d children", (int)i, (int)kids.size());
        for (auto& c : kids) {
            int n = -1;
            for (size_t k = 0; k < r.size(); ++k) if (r[k] == c) n = k;
            seq::check(m.p[i].kids.count(n), "platform %d: wrong child", (int)i);
        }
    }
}
static void run(int nplat, const std::vector<op>& prog) {
    model m;
    std::vector<platform_model::sptr> r;
    for (int i = 0; i < nplat; ++i) {
        m.p.push_back(mplat());
        m.p.back().p = tab(i % 3, 0);
        r.push_back(platform_model::sptr(new platform_model(i + 1, "p", 0, wposition1(pos_tab[i % 3][0], pos_tab[i % 3][1], pos_tab[i % 3][2]), orientation(ori_tab[i % 3][0], ori_tab[i % 3][1], ori_tab[i % 3][2]), spd_tab[i % 3])));
    }
    compare(m, r);
    double now = 0;
    for (const op& o : prog) {
        now += 10;
        switch (o.kind) {
            case UPD:
                r[o.i]->update((time_t)now, wposition1(pos_tab[o.k][0], pos_tab[o.k][1], pos_tab[o.k][2]), orientation(ori_tab[o.k][0], ori_tab[o.k][1], ori_tab[o.k][2]), spd_tab[o.k], (platform_model::update_type_enum)o.j);
                m.set(o.i, tab(o.k, now));
                break;
            case RECKON: {
                pose q = m.p[o.i].p;
                v3 d = q.o.f * (q.s * (now - q.t));
                q.rho += d.u; q.theta -= d.n / m.p[o.i].p.rho; q.phi += d.e / (m.p[o.i].p.rho * std::sin(m.p[o.i].p.theta)); q.t = now;
                r[o.i]->update((time_t)now);
                m.set(o.i, q);
                break;
            }
            case ADD: {
                const double* l = link_tab[o.k];
                auto key = r[o.i]->add_child(r[o.j], bvector(l[0], l[1], l[2]), orientation(l[3], l[4], l[5]));
                seq::check(key == r[o.j]->keyID(), "add_child returned %d", (int)key);
                m.p[o.i].kids[o.j] = {{l[0], l[1], l[2]}, body(l[3], l[4], l[5])};
                m.p[o.j].host = o.i;
                m.set(o.i, pose(m.p[o.i].p));
                break;
            }
            case REMOVE: {
                bool have = m.p[o.i].kids.count(o.j);
                bool did = r[o.i]->remove_child(r[o.j]->keyID());
                seq::check(did == have, "remove_child returned %d", (int)did);
                if (have) { m.p[o.i].kids.erase(o.j); m.p[o.j].host = -1; }
                break;
            }
        }
        seq::transition();
        compare(m, r);
    }
    // a child outlives its host
    for (int i = 0; i < nplat; ++i)
        if (m.p[i].host < 0 && !m.p[i].kids.empty()) {
            std::map<int, mplat::link> kids = m.p[i].kids;
            m.p[i].kids.clear();
            r[i] = platform_model::sptr(new platform_model(i + 1, "other", (time_t)m.p[i].p.t));
            for (auto& k : kids) { m.p[k.first].host = -1; seq::check(r[k.first]->host() == nullptr, "child %d keeps a destroyed host", k.first); }
        }
    uint64_t h = 1;
    for (auto& q : m.p) { h = seq::mix(h, (uint64_t)(q.p.theta * 1e9)); h = seq::mix(h, (uint64_t)(q.p.o.f.n * 1e6)); h = seq::mix(h, q.host + 5); }
    seq::state(h);
    seq::observe_hash(h);
}
// legal: a platform without a host is added to a host that is not below it
static void programs(int nplat, int depth, int variants) {
    std::vector<op> all;
    for (int i = 0; i < nplat; ++i) {
        for (int k = 0; k < 3; ++k) if (variants > 0 || k != 2) all.push_back({UPD, i, k, k});
        all.push_back({RECKON, i, 0, 0});
        for (int j = 0; j < nplat; ++j)
            if (i != j) {
                for (int k = variants > 0 ? 0 : 1; k < 2; ++k) all.push_back({ADD, i, j, k});
                all.push_back({REMOVE, i, j, 0});
            }
    }
    for (int d = 1; d <= depth; ++d) {
        std::vector<size_t> c(d, 0);
        for (;;) {
            std::vector<op> prog;
            bool ok = true;
            std::vector<int> host(nplat, -1);
            std::vector<std::vector<char>> kid(nplat, std::vector<char>(nplat, 0));
            int fail = d - 1;
            for (int s = 0; s < d && ok; ++s) {
                op o = all[c[s]];
                if (o.kind == ADD) {
                    int x = o.i; bool below = false;
                    for (; x >= 0; x = host[x]) if (x == o.j) below = true;
                    if (host[o.j] >= 0 || below) ok = false; else { host[o.j] = o.i; kid[o.i][o.j] = 1; }
                }
                if (o.kind == REMOVE) { if (!kid[o.i][o.j] && (s > 0 && d > 2)) ok = false; else if (kid[o.i][o.j]) { kid[o.i][o.j] = 0; host[o.j] = -1; } }
                if (!ok) fail = s;
                prog.push_back(o);
            }
            if (ok) {
                std::string t;
                char b[64];
                for (auto& o : prog) { snprintf(b, sizeof b, o.kind == UPD ? "update %d to %d; " : o.kind == RECKON ? "reckon %d; " : o.kind == ADD ? "add to %d child %d link %d; " : "remove from %d child %d; ", o.i, o.kind == UPD ? o.k : o.j, o.k); t += b; }
                if (seq::next("%d platforms: %s", nplat, t.c_str())) run(nplat, prog);
            }
            int p = fail;
            for (int s = p + 1; s < d; ++s) c[s] = 0;
            while (p >= 0 && ++c[p] == all.size()) c[p--] = 0;
            if (p < 0) break;
        }
    }
}
SEQ_SECTION(two, "two platforms", "every program of up to 5 (6) operations") { programs(2, seq::thorough() ? 6 : 5, 0); }
SEQ_SECTION(three, "three platforms", "every program of up to 3 (4) operations with every variant of the operations") { programs(3, seq::thorough() ? 4 : 3, 1); }
SEQ_SECTION(four, "chains and trees of four platforms", "every forest with its links, then every pair of updates") {
    // every assignment of hosts to 4 platforms, in every order of construction
    for (int code = 0; code < 5 * 5 * 5 * 5; ++code) {
        int h[4], c = code;
        for (int i = 0; i < 4; ++i) { h[i] = c % 5 - 1; c /= 5; }
        bool ok = true;
        for (int i = 0; i < 4 && ok; ++i) { int x = i, n = 0; while (x >= 0 && n++ < 6) x = h[x]; if (x >= 0) ok = false; }
        if (!ok) continue;
        for (int order = 0; order < 2; ++order)
            for (int a = 0; a < 4; ++a)
                for (int b = 0; b < 4; ++b) {
                    if (!seq::next("hosts %d %d %d %d order %d updates %d %d", h[0], h[1], h[2], h[3], order, a, b)) continue;
                    std::vector<op> prog;
                    for (int k = 0; k < 4; ++k) { int i = order ? 3 - k : k; if (h[i] >= 0) prog.push_back({ADD, h[i], i, 1}); }
                    prog.push_back({UPD, a, 0, 1});
                    prog.push_back({RECKON, b, 0, 0});
                    prog.push_back({UPD, b, 1, 2});
                    for (int i = 0; i < 4; ++i) if (h[i] >= 0 && i % 2 == code % 2) prog.push_back({REMOVE, h[i], i, 0});
                    prog.push_back({UPD, a, 2, 0});
                    run(4, prog);
                }
    }
}
