// C20: positions on the spherical earth agree with vector geometry, in scalar,
// element, and matrix form; element-wise functions of vectors and matrices agree
// with the scalar functions for every shape.
#include <seq.h>
#include <usml/types/types.h>

#include <cmath>
#include <vector>

using namespace usml::types;
typedef long double ld;
static const ld PI = std::acos((ld)-1);

struct v3 { ld x, y, z; };
static v3 operator-(v3 a, v3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static v3 operator+(v3 a, v3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static v3 operator*(v3 a, ld k) { return {a.x * k, a.y * k, a.z * k}; }
static ld dot(v3 a, v3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static v3 cross(v3 a, v3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static ld len(v3 a) { return std::sqrt(dot(a, a)); }
static v3 xyz(ld lat, ld lng, ld r) {
    ld a = lat * PI / 180, b = lng * PI / 180;
    return {r * std::cos(a) * std::cos(b), r * std::cos(a) * std::sin(b), r * std::sin(a)};
}
static double wrap180(double d) { d = std::fmod(d, 360.0); return d > 180 ? d - 360 : d < -180 ? d + 360 : d; }

static const double lats[] = {-90, -89.9, -60, -30, -1e-3, 0, 1e-3, 12.5, 45, 75, 89.9, 90};
static const double lngs[] = {-180, -179.999, -90, -0.01, 0, 33, 90, 135, 179.999, 180, 200, 359};
static const double alts[] = {-5000, -100, 0, 1000};

SEQ_SECTION(access, "accessors", "every latitude, longitude, and altitude in the lattice through every constructor and accessor, scalar, element, and matrix; two earth radii") {
    for (double radius : {6371000.0, 6378137.0}) for (double la : lats) for (double lo : lngs) for (double al : alts) {
        if (!seq::next("radius %.9g at %g %g %g", radius, la, lo, al)) continue;
        double old = wposition::earth_radius;
        wposition::earth_radius = radius;
        auto ok = [&](double a, double b, double c, const char* what) {
            seq::check(seq::near(a, la, 0, 1e-9) && seq::near(b, lo, 0, 1e-9) && seq::near(c, al, 0, 1e-6), "%s holds %.12g %.12g %.12g", what, a, b, c);
        };
        wposition1 p(la, lo, al);
        ok(p.latitude(), p.longitude(), p.altitude(), "position");
        seq::check(seq::near(p.rho(), radius + al) && seq::near(p.theta(), (90 - la) * M_PI / 180, 1e-12, 1e-14) && seq::near(p.phi(), lo * M_PI / 180, 1e-12, 1e-14), "spherical coordinates of the position");
        wposition1 q;
        ok(q.latitude() + la, q.longitude() + lo, q.altitude() + al, "offset from the default position");
        q.latitude(la); q.longitude(lo); q.altitude(al);
        ok(q.latitude(), q.longitude(), q.altitude(), "position set by part");
        wposition1 c = p, w = wvector1(p);
        ok(c.latitude(), c.longitude(), c.altitude(), "copy"); ok(w.latitude(), w.longitude(), w.altitude(), "copy of the vector");
        wposition all(2, 3, la, lo, al);
        seq::check(all.size1() == 2 && all.size2() == 3, "size of the matrix");
        matrix<double> A = all.latitude(), B = all.longitude(), C = all.altitude();
        for (int n = 0; n < 2; ++n) for (int m = 0; m < 3; ++m) {
            ok(all.latitude(n, m), all.longitude(n, m), all.altitude(n, m), "element of the matrix");
            ok(A(n, m), B(n, m), C(n, m), "matrix");
        }
        // only one element changes
        wposition one(2, 3, 1, 2, 3);
        one.latitude(1, 2, la); one.longitude(1, 2, lo); one.altitude(1, 2, al);
        for (int n = 0; n < 2; ++n) for (int m = 0; m < 3; ++m) {
            if (n == 1 && m == 2) ok(one.latitude(n, m), one.longitude(n, m), one.altitude(n, m), "element that was set");
            else seq::check(seq::near(one.latitude(n, m), 1) && seq::near(one.longitude(n, m), 2) && seq::near(one.altitude(n, m), 3, 0, 1e-6), "element that was not set");
        }
        wposition1 e(one, 1, 2);
        wvector1 e2(one, 1, 2);
        ok(e.latitude(), e.longitude(), e.altitude(), "position of an element");
        seq::check(e2.rho() == e.rho() && e2.theta() == e.theta() && e2.phi() == e.phi(), "vector of an element");
        for (bool noalias : {true, false}) {
            wposition s(2, 2);
            matrix<double> L(2, 2), M(2, 2), H(2, 2);
            for (int n = 0; n < 2; ++n) for (int m = 0; m < 2; ++m) { L(n, m) = la / (1 + n); M(n, m) = lo - 10 * m; H(n, m) = al + n + m; }
            s.latitude(L, noalias); s.longitude(M, noalias); s.altitude(H, noalias);
            for (int n = 0; n < 2; ++n) for (int m = 0; m < 2; ++m)
                seq::check(seq::near(s.latitude(n, m), L(n, m), 0, 1e-9) && seq::near(s.longitude(n, m), M(n, m), 0, 1e-9) && seq::near(s.altitude(n, m), H(n, m), 0, 1e-6), "matrix that was set");
            wposition t(s);
            s.clear();
            seq::check(s.rho(1, 1) == 0 && s.theta(0, 1) == 0 && s.phi(1, 0) == 0, "matrix not cleared");
            seq::check(seq::near(t.latitude(1, 0), L(1, 0), 0, 1e-9), "copy changes with the original");
        }
        wposition o(p);
        seq::check(o.size1() == 1 && o.size2() == 1, "size of the matrix of one position");
        ok(o.latitude(0, 0), o.longitude(0, 0), o.altitude(0, 0), "matrix of one position");
        seq_linear ax1(la - 2, 1.0, 3);
        vector<double> ax2(4);
        for (int m = 0; m < 4; ++m) ax2(m) = lo + m * m;
        wposition mesh(ax1, ax2, al);
        seq::check(mesh.size1() == 3 && mesh.size2() == 4, "size of the mesh");
        for (int n = 0; n < 3; ++n) for (int m = 0; m < 4; ++m)
            seq::check(seq::near(mesh.latitude(n, m), la - 2 + n, 0, 1e-9) && seq::near(mesh.longitude(n, m), lo + m * m, 0, 1e-9) && seq::near(mesh.altitude(n, m), al, 0, 1e-6), "mesh element");
        q.clear();
        seq::check(q.rho() == 0 && q.theta() == 0 && q.phi() == 0, "vector not cleared");
        wposition::earth_radius = old;
        seq::observe("%.9g %.9g", p.theta(), p.phi());
    }
}

SEQ_SECTION(radius, "earth radius", "every latitude in steps of half a degree") {
    for (double la = -90; la <= 90; la += 0.5) {
        if (!seq::next("latitude %g", la)) continue;
        double old = wposition::earth_radius;
        wposition::compute_earth_radius(la);
        ld a = 6378137.0L, f = 1 / 298.257223563L, b = a * (1 - f), s = std::sin(la * PI / 180), c = std::cos(la * PI / 180);
        ld N = a * a / std::sqrt(a * a * c * c + b * b * s * s);
        ld M = (a * b) * (a * b) / std::pow(a * a * c * c + b * b * s * s, 1.5L);
        seq::check(seq::near(wposition::earth_radius, std::sqrt(M * N), 1e-12, 0), "radius %.9g instead of %.9Lg", wposition::earth_radius, std::sqrt(M * N));
        seq::observe("%.12g", wposition::earth_radius);
        wposition::earth_radius = old;
    }
}

struct pt { double la, lo, al; v3 v() const { return xyz(la, lo, (ld)wposition::earth_radius + al); } };
static std::vector<pt> points() {
    std::vector<pt> r;
    for (double la : {-90.0, -45.0, 0.0, 30.0, 30.001, 89.99}) for (double lo : {-180.0, -179.9995, 0.0, 10.0, 10.0005, 180.0, 350.0}) for (double al : {-4000.0, 0.0, 250.0}) r.push_back({la, lo, al});
    return r;
}

SEQ_SECTION(metric, "dot products and distances", "every pair of positions in the lattice, scalar and matrix") {
    auto ps = points();
    for (size_t i = 0; i < ps.size(); ++i) {
        if (!seq::next("from %g %g %g", ps[i].la, ps[i].lo, ps[i].al)) continue;
        wposition1 a(ps[i].la, ps[i].lo, ps[i].al);
        int nr = ps.size() / 3;
        wposition all(nr, 3);
        for (size_t j = 0; j < ps.size(); ++j) { all.latitude(j / 3, j % 3, ps[j].la); all.longitude(j / 3, j % 3, ps[j].lo); all.altitude(j / 3, j % 3, ps[j].al); }
        matrix<double> D(nr, 3), N(nr, 3), S(nr, 3), S2(nr, 3);
        all.dot(a, D); all.dotnorm(a, N); all.distance(a, S); all.distance2(a, S2);
        for (size_t j = 0; j < ps.size(); ++j) {
            wposition1 b(ps[j].la, ps[j].lo, ps[j].al);
            v3 u = ps[i].v(), v = ps[j].v();
            double d = dot(u, v), n = dot(u, v) / len(u) / len(v), s = len(u - v);
            auto cmp = [&](double D, double N, double S, double S2, const char* what) {
                seq::check(seq::near(D, d, 1e-12, 1.0), "%s dot product %.17g instead of %.17g to %g %g %g", what, D, d, ps[j].la, ps[j].lo, ps[j].al);
                seq::check(seq::near(N, n, 0, 2e-15 * 10), "%s normal dot product %.17g instead of %.17g to %g %g %g", what, N, n, ps[j].la, ps[j].lo, ps[j].al);
                seq::check(S2 >= 0 && seq::near(S2, s * s, 1e-12, 0.3), "%s square of the distance %.17g instead of %.17g to %g %g %g", what, S2, s * s, ps[j].la, ps[j].lo, ps[j].al);
                seq::check(seq::near(S, s, 1e-6, s < 100 ? 0.6 : 0), "%s distance %.17g instead of %.17g to %g %g %g", what, S, s, ps[j].la, ps[j].lo, ps[j].al);
            };
            cmp(a.dot(b), a.dotnorm(b), a.distance(b), a.distance2(b), "scalar");
            cmp(D(j / 3, j % 3), N(j / 3, j % 3), S(j / 3, j % 3), S2(j / 3, j % 3), "matrix");
            seq::evaluated();
        }
        seq::observe("%.9g", S(1, 1));
    }
}

// range and bearing along the surface from vectors
static void truth(double la1, double lo1, double la2, double lo2, ld* angle, ld* bearing) {
    v3 a = xyz(la1, lo1, 1), b = xyz(la2, lo2, 1);
    *angle = std::atan2(len(cross(a, b)), dot(a, b));
    ld t = la1 * PI / 180, p = lo1 * PI / 180;
    v3 n{-std::sin(t) * std::cos(p), -std::sin(t) * std::sin(p), std::cos(t)}, e{-std::sin(p), std::cos(p), 0};
    *bearing = std::atan2(dot(b, e), dot(b, n)) * 180 / PI;
}

SEQ_SECTION(circle, "great circles", "every pair of positions off the equator in the lattice, every range and bearing from each of them") {
    const double la1[] = {-89.5, -60, -20, -0.001, 0.001, 5, 45, 70, 89.5};
    const double lo1[] = {-180, -179.9, -50, 0, 100, 179.9, 180, 350};
    for (double la : la1) for (double lo : lo1) for (double al : {-1000.0, 0.0}) {
        if (!seq::next("from %g %g %g", la, lo, al)) continue;
        wposition1 a(la, lo, al);
        double R = wposition::earth_radius + al;
        for (double lb : lats) for (double mb : lngs) {
            wposition1 b(lb, mb, 33);
            ld g, brg;
            truth(la, lo, lb, mb, &g, &brg);
            if (g > 3.14) continue;   // antipodes: range and bearing are not well defined numerically
            double br, r = a.gc_range(b, &br);
            seq::check(seq::near(r, g * R, 1e-7, 1e-3), "range %.12g instead of %.12Lg to %g %g", r, g * R, lb, mb);
            seq::check(a.gc_range(b) == r, "range depends on the bearing asked for");
            seq::evaluated();
            if (g * R < 1) continue;
            double tol = std::max(1e-6, 1e-7 / (double)g);   // degrees
            seq::check(br >= 0 && br < 2 * M_PI + 1e-12, "bearing %.9g is not in a full circle to %g %g", br, lb, mb);
            seq::check(std::fabs(wrap180(br * 180 / M_PI - (double)brg)) < tol, "bearing %.9g instead of %.9Lg to %g %g", br * 180 / M_PI, brg, lb, mb);
        }
        // destinations
        for (double range : {0.0, 1.0, 50.0, 1e4, 2e6, 9e6}) for (int k = 0; k < 16; ++k) {
            double bearing = k * M_PI / 8 - (k == 15 ? 2 * M_PI : 0);
            wposition1 d(a, range, bearing);
            ld t = la * PI / 180, p = lo * PI / 180, g = range / R;
            v3 n{-std::sin(t) * std::cos(p), -std::sin(t) * std::sin(p), std::cos(t)}, e{-std::sin(p), std::cos(p), 0};
            v3 v = xyz(la, lo, 1) * std::cos(g) + (n * std::cos((ld)bearing) + e * std::sin((ld)bearing)) * std::sin(g);
            v3 w = xyz(d.latitude(), d.longitude(), 1);
            seq::check(len(v - w) * R < 1e-3 + 1e-7 * range, "destination at range %g bearing %g is %.9g %.9g", range, bearing * 180 / M_PI, d.latitude(), d.longitude());
            seq::check(seq::near(d.altitude(), al, 0, 1e-6), "altitude of the destination");
            seq::evaluated();
            if (range < 10) continue;
            double br, r = a.gc_range(d, &br);
            seq::check(seq::near(r, range, 1e-7, 1e-3) && std::fabs(wrap180((br - bearing) * 180 / M_PI)) < std::max(1e-6, 2e-3 / range * 60), "range %g bearing %g comes back as %.12g %.12g", range, bearing * 180 / M_PI, r, br * 180 / M_PI);
        }
        seq::observe("%.9g", a.theta());
    }
}

SEQ_SECTION(equator, "equator", "eight bearings from a position on the equator") {
    for (int k = 0; k < 8; ++k) {
        if (!seq::next("bearing %d", 45 * k)) continue;
        wposition1 a(0, 10, 0);
        double b, r = a.gc_range(wposition1(a, 1000.0, k * M_PI / 4), &b);
        seq::check(seq::near(r, 1000.0, 1e-6, 0), "range");
        seq::check(std::fabs(wrap180(b * 180 / M_PI - 45 * k)) < 0.01, "bearing");
        seq::observe("%d", k);
    }
}

SEQ_SECTION(pole, "poles", "every latitude from both poles") {
    for (double s : {-1.0, 1.0}) for (double lo : {-180.0, 0.0, 77.0}) {
        if (!seq::next("pole %g longitude %g", s, lo)) continue;
        wposition1 a(90 * s, lo, 0);
        for (double lb : lats) for (double mb : lngs) {
            double b, r = a.gc_range(wposition1(lb, mb, 0), &b);
            double want = (90 - s * lb) * M_PI / 180 * wposition::earth_radius;
            if (want > 3.14 * wposition::earth_radius) continue;
            seq::check(seq::near(r, want, 1e-7, 1e-3), "range %.12g instead of %.12g", r, want);
            wposition1 d(a, want, 0.3);
            seq::check(seq::near(d.latitude(), lb, 0, 1e-6), "latitude %.12g instead of %g", d.latitude(), lb);
            seq::evaluated();
        }
        seq::observe("%g", s);
    }
}

SEQ_SECTION(areas, "areas", "every triangle and quadrilateral over the lattice of points around each position, with degenerate ones") {
    const double off[][3] = {{0, 0, 0}, {0.01, 0, 0}, {0, 0.02, 0}, {0.01, 0.01, 0}, {0, 0, -500}, {-0.02, 0.005, 100}, {0, 0, -1000}, {0.02, 0, 0}};
    for (double la : {-60.0, 0.0, 30.0}) for (double lo : {-180.0, 5.0, 179.995}) for (int i = 0; i < 8; ++i) {
        if (!seq::next("at %g %g corner %d", la, lo, i)) continue;
        auto P = [&](int k) { return pt{la + off[k][0], lo + off[k][1], off[k][2]}; };
        auto W = [&](int k) { pt p = P(k); return wposition1(p.la, p.lo, p.al); };
        // largest side and smallest height decide on the accuracy
        auto tri = [&](int a, int b, int c, double* tol) {
            v3 A = P(a).v(), B = P(b).v(), C = P(c).v();
            ld x = len(A - B), y = len(B - C), z = len(C - A), L = std::max(x, std::max(y, z)), area = 0.5L * len(cross(B - A, C - A));
            *tol = 1e-3 * (double)area + (area < 0.01L * L * L ? 0.02 * (double)(L * L) + 0.1 : 0);
            return (double)area;
        };
        for (int j = 0; j < 8; ++j) for (int k = 0; k < 8; ++k) {
            double tol, want = tri(i, j, k, &tol), got = W(i).area(W(j), W(k));
            seq::check(std::fabs(got - want) <= tol, "area of %d %d %d is %.9g instead of %.9g", i, j, k, got, want);
            seq::evaluated();
            for (int l = 0; l < 8; ++l) {
                double t2, w2 = tri(i, k, l, &t2), g2 = W(i).area(W(j), W(k), W(l));
                seq::check(std::fabs(g2 - want - w2) <= tol + t2, "area of %d %d %d %d is %.9g instead of %.9g", i, j, k, l, g2, want + w2);
            }
        }
        seq::observe("%d", i);
    }
}

SEQ_SECTION(direct, "directions", "every depression/elevation and azimuth in steps of ten degrees, three lengths") {
    for (int de = -90; de <= 90; de += 10) for (int az = -180; az < 360; az += 10) for (double L : {1e-3, 1.0, 1500.0}) {
        if (!seq::next("de %d az %d length %g", de, az, L)) continue;
        double d = de * M_PI / 180, a = az * M_PI / 180;
        wvector1 v(L * std::sin(d), -L * std::cos(d) * std::cos(a), L * std::cos(d) * std::sin(a));
        double DE, AZ;
        v.direction(&DE, &AZ);
        seq::check(seq::near(DE, de, 0, 1e-6), "elevation %.9g", DE);
        if (std::abs(de) < 90) seq::check(std::fabs(wrap180(AZ - az)) < 1e-9, "azimuth %.9g", AZ);
        seq::observe("%.6g", DE);
    }
}

// ---------------------------------------------------------------- element-wise functions
#define UN(f, ref, lo, hi) {#f, [](const vector<double>& x) -> vector<double> { return f(x); }, [](const matrix<double>& x) -> matrix<double> { return f(x); }, \
    [](const vector<float>& x) -> vector<float> { return f(x); }, [](const matrix<float>& x) -> matrix<float> { return f(x); }, [](double x) -> double { return ref; }, lo, hi}
struct unary {
    const char* name;
    vector<double> (*v)(const vector<double>&);
    matrix<double> (*m)(const matrix<double>&);
    vector<float> (*vf)(const vector<float>&);
    matrix<float> (*mf)(const matrix<float>&);
    double (*ref)(double);
    double lo, hi;
};
static const unary unaries[] = {
    UN(floor, std::floor(x), -9, 9), UN(ceil, std::ceil(x), -9, 9), UN(to_degrees, x * 180 / M_PI, -9, 9), UN(to_radians, x * M_PI / 180, -720, 720),
    UN(to_latitude, 90 - x * 180 / M_PI, -4, 4), UN(to_colatitude, (90 - x) * M_PI / 180, -90, 90), UN(abs, std::fabs(x), -9, 9), UN(abs2, x * x, -9, 9), UN(sqrt, std::sqrt(x), 0, 9),
    UN(cos, std::cos(x), -9, 9), UN(sin, std::sin(x), -9, 9), UN(tan, std::tan(x), -1.5, 1.5), UN(cosh, std::cosh(x), -3, 3), UN(sinh, std::sinh(x), -3, 3), UN(tanh, std::tanh(x), -3, 3),
    UN(acos, std::acos(x), -1, 1), UN(asin, std::asin(x), -1, 1), UN(atan, std::atan(x), -9, 9), UN(acosh, std::acosh(x), 1.1, 9), UN(asinh, std::asinh(x), -3, 3), UN(atanh, std::atanh(x), -0.9, 0.9),
    UN(exp, std::exp(x), -5, 5), UN(log, std::log(x), 0.01, 9), UN(log10, std::log10(x), 0.01, 9),
};
SEQ_SECTION(elements, "element-wise functions", "every function, every value in its lattice, every shape up to 3x3, double and float") {
    for (const unary& u : unaries) for (int n = 1; n <= 3; ++n) for (int m = 1; m <= 3; ++m) {
        if (!seq::next("%s %dx%d", u.name, n, m)) continue;
        int N = 121;
        for (int k = 0; k < N; ++k) {
            auto val = [&](int i) { return u.lo + (u.hi - u.lo) * ((k + 17 * i) % N) / (N - 1); };
            matrix<double> x(n, m);
            matrix<float> xf(n, m);
            vector<double> y(n * m);
            vector<float> yf(n * m);
            for (int i = 0; i < n * m; ++i) { x(i / m, i % m) = y(i) = val(i); xf(i / m, i % m) = yf(i) = (float)val(i); }
            matrix<double> a = u.m(x); vector<double> b = u.v(y);
            matrix<float> af = u.mf(xf); vector<float> bf = u.vf(yf);
            seq::check((int)a.size1() == n && (int)a.size2() == m && (int)b.size() == n * m, "size of the result");
            for (int i = 0; i < n * m; ++i) {
                double w = u.ref(val(i)), wf = u.ref((float)val(i));
                seq::check(seq::near(a(i / m, i % m), w, 1e-11, 1e-13), "matrix element %d of %s(%.9g) is %.12g", i, u.name, val(i), a(i / m, i % m));
                seq::check(seq::near(b(i), w, 1e-11, 1e-13), "vector element %d of %s(%.9g) is %.12g", i, u.name, val(i), b(i));
                seq::check(seq::near(af(i / m, i % m), wf, 3e-5, 3e-5), "float matrix element %d of %s(%.9g) is %.12g", i, u.name, val(i), af(i / m, i % m));
                seq::check(seq::near(bf(i), wf, 3e-5, 3e-5), "float vector element %d of %s(%.9g) is %.12g", i, u.name, val(i), bf(i));
                seq::evaluated();
            }
        }
        seq::observe("%s %d %d", u.name, n, m);
    }
}

struct binary { const char* name; double (*ref)(double, double); };
SEQ_SECTION(pairs, "element-wise operators", "every operator of vectors, matrices, and scalars, every pair of values in the lattice, every shape up to 3x3") {
    for (int n = 1; n <= 3; ++n) for (int m = 1; m <= 3; ++m) for (double s : {-2.5, -1.0, 0.5, 2.0, 3.0}) for (int k = 0; k < 11; ++k) {
        if (!seq::next("%dx%d scalar %g shift %d", n, m, s, k)) continue;
        matrix<double> x(n, m), y(n, m), p(n, m);
        vector<double> a(n * m), b(n * m), c(n * m);
        for (int i = 0; i < n * m; ++i) {
            x(i / m, i % m) = a(i) = -4.4 + 0.8 * ((k + 3 * i) % 11) + 0.01;
            y(i / m, i % m) = b(i) = 4.1 - 0.8 * ((k + 5 * i) % 11) + 0.017;
            p(i / m, i % m) = c(i) = 0.3 + 0.7 * ((k + 2 * i) % 11);
        }
        auto cmp = [&](const char* what, const matrix<double>& M, const vector<double>& V, auto ref) {
            seq::check((int)M.size1() == n && (int)M.size2() == m && (int)V.size() == n * m, "size of %s", what);
            for (int i = 0; i < n * m; ++i) {
                double w = ref(a(i), b(i), c(i));
                seq::check(seq::near(M(i / m, i % m), w, 1e-11, 1e-13), "matrix %s element %d is %.12g instead of %.12g", what, i, M(i / m, i % m), w);
                seq::check(seq::near(V(i), w, 1e-11, 1e-13), "vector %s element %d is %.12g instead of %.12g", what, i, V(i), w);
                seq::evaluated();
            }
        };
#define BI(what, me, ve, expr) cmp(what, me, ve, [&](double A, double B, double C) { (void)A; (void)B; (void)C; return expr; })
        BI("x + s", x + s, a + s, A + s); BI("s + x", s + x, s + a, s + A);
        BI("x - s", x - s, a - s, A - s); BI("s - x", s - x, s - a, s - A);
        BI("s / x", s / x, s / a, s / A);
        BI("x / s", x / s, a / s, A / s); BI("x * s", x * s, a * s, A * s);
        BI("max(x,s)", max(x, s), max(a, s), std::max(A, s)); BI("min(x,s)", min(x, s), min(a, s), std::min(A, s));
        BI("copysign", copysign(x, y), copysign(a, b), (B < 0 ? -A : A));
        BI("atan2", atan2(x, y), atan2(a, b), std::atan2(A, B));
        BI("pow(x,s)", pow(p, s), pow(c, s), std::pow(C, s));
        BI("pow(s,x)", pow(std::fabs(s), x), pow(std::fabs(s), a), std::pow(std::fabs(s), A));
        BI("pow(x,y)", pow(p, y), pow(c, b), std::pow(C, B));
        BI("product", element_prod(x, y), element_prod(a, b), A * B);
        BI("quotient", element_div(x, y), element_div(a, b), A / B);
        BI("expression", 2.0 * sin(x + s) - abs2(y), 2.0 * sin(a + s) - abs2(b), 2 * std::sin(A + s) - B * B);
        BI("expression 2", exp(-0.5 * abs2(element_div(x, p))), exp(-0.5 * abs2(element_div(a, c))), std::exp(-0.5 * (A / C) * (A / C)));
        seq::observe("%d %d %g", n, m, s);
    }
}

typedef std::complex<double> cd;
SEQ_SECTION(cplx, "complex element-wise functions", "every function, every complex value in the lattice, vector and matrix") {
    for (int i = -6; i <= 6; ++i) for (int j = -6; j <= 6; ++j) {
        if (!seq::next("%g%+gi", i / 3.0 + 0.05, j / 3.0 + 0.07)) continue;
        cd z(i / 3.0 + 0.05, j / 3.0 + 0.07);
        vector<cd> v(2);
        matrix<cd> m(2, 2);
        v(0) = m(0, 1) = z; v(1) = m(1, 0) = std::conj(z); m(0, 0) = cd(1, 2); m(1, 1) = cd(0.5, -0.25);
        auto near = [&](cd a, cd b) { return std::abs(a - b) <= 1e-10 * (1 + std::abs(b)); };
#define CU(f, ref) { auto F = [](cd x) -> cd { return ref; }; vector<cd> r = f(v); matrix<cd> q = f(m); \
        for (int k = 0; k < 2; ++k) seq::check(near(r(k), F(v(k))), #f " of vector"); \
        for (int k = 0; k < 4; ++k) seq::check(near(q(k / 2, k % 2), F(m(k / 2, k % 2))), #f " of matrix"); seq::evaluated(); }
        CU(sqrt, std::sqrt(x)) CU(exp, std::exp(x)) CU(log, std::log(x)) CU(log10, std::log10(x)) CU(sin, std::sin(x)) CU(cos, std::cos(x)) CU(tan, std::tan(x)) CU(sinh, std::sinh(x)) CU(cosh, std::cosh(x)) CU(tanh, std::tanh(x))
        // inverse functions, whatever branch
#define CI(f, g) { vector<cd> r = g(vector<cd>(f(v))); matrix<cd> q = g(matrix<cd>(f(m))); \
        for (int k = 0; k < 2; ++k) seq::check(near(r(k), v(k)), #f " is not the inverse of " #g " of vector"); \
        for (int k = 0; k < 4; ++k) seq::check(near(q(k / 2, k % 2), m(k / 2, k % 2)), #f " is not the inverse of " #g " of matrix"); seq::evaluated(); }
        CI(asin, sin) CI(acos, cos) CI(atan, tan) CI(asinh, sinh) CI(acosh, cosh) CI(atanh, tanh)
        vector<cd> p = pow(v, 2.0);
        seq::check(near(p(0), z * z), "pow of vector");
        seq::observe("%.6g", std::abs(p(0)));
    }
}
