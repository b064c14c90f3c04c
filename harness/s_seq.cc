// C14: sequences hold exactly the values they were asked for, and lookups agree
// with a linear search, for every sequence in a bounded lattice.
#include <seq.h>
#include <usml/types/types.h>

#include <cmath>
#include <stdexcept>
#include <vector>

using namespace usml::types;
typedef std::vector<double> vec;

static bool same(double a, double b) { return seq::near(a, b, 1e-9, 1e-9); }

// checks every public operation of s against the expected values
static void verify(const seq_vector& s, const vec& want, const char* what, double rel = 1e-9) {
    size_t n = want.size();
    seq::check(s.size() == n, "%s: size %d instead of %d", what, (int)s.size(), (int)n);
    double span = n ? std::fabs(want[n - 1] - want[0]) + std::fabs(want[0]) : 0.0;
    double tol = rel * span + 1e-12;
    for (size_t i = 0; i < n; ++i) {
        seq::check(seq::near(s[i], want[i], rel, tol), "%s: [%d] is %.17g instead of %.17g", what, (int)i, s[i], want[i]);
        seq::check(s(i) == s[i], "%s: (%d) differs from [%d]", what, (int)i, (int)i);
        seq::observe("%.6g ", s[i]);
    }
    seq::check(s.data().size() == n, "%s: data()", what);
    if (!n) return;
    for (size_t i = 0; i < n; ++i) seq::check(s.data()[i] == s[i], "%s: data()[%d]", what, (int)i);
    seq::check(s(n) == s[n - 1] && s(n + 5) == s[n - 1], "%s: index beyond the end is not clamped", what);
    // iterators
    size_t k = 0;
    for (double v : s) { seq::check(k < n && v == s[k], "%s: iterator at %d", what, (int)k); ++k; }
    seq::check(k == n, "%s: iterator visits %d of %d", what, (int)k, (int)n);
    k = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { seq::check(k > 0 && *it == s[k - 1], "%s: reverse iterator", what); --k; }
    seq::check(k == 0, "%s: reverse iterator stops early", what);
    for (size_t i = 0; i < n; ++i) seq::check(*s.find(i) == s[i], "%s: find(%d)", what, (int)i);
    // increments
    for (size_t i = 0; i + 1 < n; ++i)
        seq::check(seq::near(s.increment(i), s[i + 1] - s[i], 1e-9, tol), "%s: increment(%d) is %.17g", what, (int)i, s.increment(i));
    seq::check(s.increment(n) == s.increment(n - 1), "%s: increment beyond the end", what);
    // equality
    seq::check(s == s && !(s != s), "%s: not equal to itself", what);
    seq_data copy(s.data(), n);
    seq::check(s == copy && copy == s && !(s != copy), "%s: not equal to a copy of its values", what);
    // lookups
    double dir = n > 1 && s[1] < s[0] ? -1.0 : 1.0;
    vec q;
    for (size_t i = 0; i < n; ++i) {
        double step = i + 1 < n ? s[i + 1] - s[i] : (n > 1 ? s[n - 1] - s[n - 2] : 1.0);
        for (double f : {-1.7, -0.6, -0.01, 0.0, 0.01, 0.25, 0.49, 0.51, 0.75, 0.99, 2.3}) q.push_back(s[i] + f * step);
    }
    q.push_back(s[0] - dir * 1e6); q.push_back(s[n - 1] + dir * 1e6); q.push_back(0.0);
    for (double v : q) {
        size_t i = s.find_index(v);
        seq::evaluated();
        if (n == 1) {
            seq::check(i == 0, "%s: find_index(%.17g) is %d in a single element", what, v, (int)i);
        } else {
            seq::check(i <= n - 2, "%s: find_index(%.17g) is %d in %d elements", what, v, (int)i, (int)n);
            // a value on a grid point may be assigned to either side of it
            bool left = i == 0 || dir * (v - s[i]) >= -tol;
            bool right = i == n - 2 || dir * (s[i + 1] - v) >= -tol;
            seq::check(left && right, "%s: find_index(%.17g) is %d: [%.17g, %.17g]", what, v, (int)i, s[i], s[i + 1]);
        }
        size_t m = s.find_nearest(v);
        seq::check(m < n, "%s: find_nearest(%.17g) is %d", what, v, (int)m);
        double best = 1e300;
        for (size_t j = 0; j < n; ++j) best = std::min(best, std::fabs(s[j] - v));
        seq::check(std::fabs(s[m] - v) <= best + tol, "%s: find_nearest(%.17g) is %d at distance %g instead of %g", what, v, (int)m, std::fabs(s[m] - v), best);
    }
}

SEQ_SECTION(linear, "seq_linear", "every first, increment, size in the lattice, three constructors") {
    int maxn = seq::thorough() ? 24 : 8;
    for (double first : {-1000.0, -3.0, -1.0, 0.0, 0.1, 2.0, 1500.0})
        for (double inc : {-250.0, -2.0, -0.1, 0.1, 1.0 / 3.0, 1.0, 2.5, 100.0})
            for (int n = 1; n <= maxn; ++n)
                for (int c = 0; c < 4; ++c) {
                    if (!seq::next("first %g increment %g size %d constructor %d", first, inc, n, c)) continue;
                    vec want;
                    for (int i = 0; i < n; ++i) want.push_back(first + inc * i);
                    if (c == 0) verify(seq_linear(first, inc, n), want, "seq_linear(first,increment,int)");
                    if (c == 1) verify(seq_linear(first, inc, (size_t)n), want, "seq_linear(first,increment,size)");
                    if (c == 2 && n > 1) verify(seq_linear(first, want.back(), (size_t)n, true), want, "seq_linear(first,last,size)");
                    if (c == 3) {
                        verify(seq_linear(first, inc, want.back()), want, "seq_linear(first,increment,last)");
                        verify(seq_linear(first, inc, want.back() + 0.5 * inc), want, "seq_linear(first,increment,last+half)");
                        seq_linear a(first, inc, want.back()), b(a);
                        verify(b, want, "copy");
                    }
                }
}
SEQ_SECTION(logs, "seq_log", "every first, ratio, size in the lattice, three constructors") {
    int maxn = seq::thorough() ? 16 : 7;
    for (double first : {-10.0, -1.0, 0.01, 1.0, 10.0, 440.0})
        for (double inc : {0.1, 0.5, 0.9, 1.1, 1.2599210498948732, 2.0, 10.0})
            for (int n = 2; n <= maxn; ++n)
                for (int c = 0; c < 3; ++c) {
                    if (!seq::next("first %g ratio %g size %d constructor %d", first, inc, n, c)) continue;
                    vec want;
                    for (int i = 0; i < n; ++i) want.push_back(first * std::pow(inc, i));
                    auto run = [&](const seq_log& s, const char* w) {
                        // lookups are only defined for values of the same sign
                        seq::check(s.size() == want.size(), "%s: size %d instead of %d", w, (int)s.size(), (int)want.size());
                        for (int i = 0; i < n; ++i) {
                            seq::check(seq::near(s[i], want[i], 1e-9), "%s: [%d] is %.17g instead of %.17g", w, i, s[i], want[i]);
                            seq::observe("%.6g ", s[i]);
                        }
                        double dir = want[1] > want[0] ? 1.0 : -1.0;
                        for (int i = 0; i < n; ++i)
                            for (double f : {0.3, 0.8, 0.999, 1.0, 1.001, 1.2, 1.9, 7.0}) {
                                double v = s[i] * f;
                                size_t k = s.find_index(v), m = s.find_nearest(v);
                                double tol = 1e-9 * std::fabs(v);
                                seq::check(k <= (size_t)n - 2 && m < (size_t)n, "%s: find_index(%.17g) is %d, find_nearest %d", w, v, (int)k, (int)m);
                                bool left = k == 0 || dir * (v - s[k]) >= -tol, right = k == (size_t)n - 2 || dir * (s[k + 1] - v) >= -tol;
                                seq::check(left && right, "%s: find_index(%.17g) is %d: [%.17g, %.17g]", w, v, (int)k, s[k], s[k + 1]);
                                double best = 1e300;
                                for (int j = 0; j < n; ++j) best = std::min(best, std::fabs(s[j] - v));
                                seq::check(std::fabs(s[m] - v) <= best + tol, "%s: find_nearest(%.17g) is %d", w, v, (int)m);
                                seq::evaluated();
                            }
                        for (int i = 0; i + 1 < n; ++i) seq::check(seq::near(s.increment(i), s[i + 1] - s[i], 1e-9), "%s: increment(%d)", w, i);
                    };
                    if (c == 0) run(seq_log(first, inc, n), "seq_log(first,ratio,int)");
                    if (c == 1) run(seq_log(first, inc, (size_t)n), "seq_log(first,ratio,size)");
                    if (c == 2) run(seq_log(first, inc, want.back()), "seq_log(first,ratio,last)");
                }
}
// all sequences of a length over the lattice
template <class F> static void each(const vec& lattice, int n, F f) {
    std::vector<int> d(n, 0);
    for (;;) {
        vec v;
        for (int i : d) v.push_back(lattice[i]);
        f(v);
        int p = n - 1;
        while (p >= 0 && ++d[p] == (int)lattice.size()) d[p--] = 0;
        if (p < 0) return;
    }
}
static bool monotonic(const vec& v) {
    for (size_t i = 2; i < v.size(); ++i) if ((v[i] - v[i - 1]) * (v[1] - v[0]) <= 0) return false;
    return true;
}
static std::string text(const vec& v) { std::string s; char b[32]; for (double x : v) { snprintf(b, sizeof b, "%.9g ", x); s += b; } return s; }

SEQ_SECTION(data, "seq_data", "every sequence of up to 5 (6) values: kept exactly, or rejected if not monotonic") {
    vec lattice{-7.5, -1.0, 0.0, 0.25, 2.0, 40.0};
    for (int n = 1; n <= (seq::thorough() ? 6 : 5); ++n)
        each(lattice, n, [&](const vec& v) {
            if (!seq::next("values %s", text(v).c_str())) return;
            if (n == 2 && v[0] == v[1]) return;   // duplicates of a pair are unspecified
            bool thrown = false;
            try { verify(seq_data(v), v, "seq_data", 0.0); seq_data(v.data(), v.size()); } catch (const std::invalid_argument&) { thrown = true; }
            seq::check(thrown == !monotonic(v), thrown ? "monotonic series rejected" : "series that is not monotonic accepted");
            if (thrown) seq::observe("rejected");
        });
}
SEQ_SECTION(best, "seq_vector::build_best", "every sequence of up to 5 values: same values back, or rejected if not monotonic") {
    vec lattice{-4.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 8.0, 100.0};
    if (seq::thorough()) { lattice.push_back(16.0); lattice.push_back(0.5); }
    for (int n = 1; n <= 5; ++n)
        each(lattice, n, [&](const vec& v) {
            if (n == 5 && !monotonic(v)) return;
            if (!seq::next("values %s", text(v).c_str())) return;
            bool thrown = false;
            try {
                auto a = seq_vector::build_best(v);
                vec got(a->begin(), a->end());
                if (n > 1 && v[0] != v[1] && monotonic(v)) verify(*a, v, "build_best(vector)");
                else {
                    seq::check(got.size() == v.size(), "size");
                    for (size_t i = 0; i < v.size(); ++i) seq::check(same(got[i], v[i]), "[%d] is %g", (int)i, got[i]);
                }
                boost::numeric::ublas::vector<double> u(v.size());
                for (size_t i = 0; i < v.size(); ++i) u[i] = v[i];
                seq::check(*seq_vector::build_best(u) == *a, "build_best(ublas) differs");
                seq::check(*seq_vector::build_best(v.data(), v.size()) == *a, "build_best(pointer) differs");
            } catch (const std::invalid_argument&) { thrown = true; }
            seq::check(!thrown || !monotonic(v), "monotonic series rejected");
        });
    // series that are almost linear or logarithmic
    for (int kind = 0; kind < 3; ++kind)
        for (int n = 3; n <= 8; ++n)
            for (int at = 0; at < n; ++at)
                for (double eps : {0.0, 1e-7, 1e-3, 3e-3, -1e-3, 1e-2}) {
                    if (!seq::next("almost %s size %d element %d off by %g", kind == 0 ? "linear" : kind == 1 ? "octaves" : "decades down", n, at, eps)) continue;
                    vec v;
                    for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? 10.0 + i : kind == 1 ? std::pow(2.0, i) : 1000.0 * std::pow(10.0, -i));
                    v[at] *= 1 + eps;
                    auto a = seq_vector::build_best(v);
                    seq::check(a->size() == v.size(), "size");
                    for (int i = 0; i < n; ++i)
                        seq::check(seq::near((*a)[i], v[i], n * 2e-4), "[%d] is %.9g instead of %.9g", i, (*a)[i], v[i]);
                    seq::observe("%d %d %d", kind, n, at);
                }
}
SEQ_SECTION(clip, "seq_vector::clip", "every sequence in the lattice and every pair of limits") {
    std::vector<seq_vector::csptr> all;
    for (int n : {1, 2, 5, 9}) {
        all.push_back(seq_vector::csptr(new seq_linear(-2.0, 1.0, n)));
        all.push_back(seq_vector::csptr(new seq_linear(3.0, -0.5, n)));
        if (n > 1) all.push_back(seq_vector::csptr(new seq_log(0.5, 2.0, n)));
        if (n > 1) all.push_back(seq_vector::csptr(new seq_rayfan(-5, 5, n)));
    }
    vec lim{-10, -2.25, -2, -1, 0, 0.5, 0.75, 2, 3, 4, 5.5, 200};
    for (auto& s : all)
        for (double lo : lim)
            for (double hi : lim) {
                vec v(s->begin(), s->end());
                if (!seq::next("sequence %s limits %g %g", text(v).c_str(), lo, hi)) continue;
                vec want;
                for (double x : v) if (x >= lo && x <= hi) want.push_back(x);
                auto c = s->clip(lo, hi);
                seq::check(c->size() == want.size(), "size %d instead of %d", (int)c->size(), (int)want.size());
                for (size_t i = 0; i < want.size(); ++i) seq::check(seq::near((*c)[i], want[i], 1e-3, 1e-3), "[%d] is %g instead of %g", (int)i, (*c)[i], want[i]);
                seq::observe("%d %s", (int)c->size(), text(want).c_str());
            }
}
SEQ_SECTION(rayfan, "seq_rayfan", "every first, last, size, center, spread in the lattice") {
    for (double a : {-90.0, -45.0, -10.0, 0.0, 5.0, 90.0})
        for (double b : {-90.0, -20.0, 0.0, 15.0, 45.0, 90.0})
            for (int n : {2, 3, 4, 9, 31})
                for (double center : {0.0, -12.0, 20.0})
                    for (double spread : {1.0, 6.0, 30.0}) {
                        if (a == b) continue;
                        if (!seq::next("first %g last %g size %d center %g spread %g", a, b, n, center, spread)) continue;
                        double lo = std::min(a, b), hi = std::max(a, b);
                        vec want;
                        double t0 = std::atan((lo - center) / spread), t1 = std::atan((hi - center) / spread);
                        for (int i = 0; i < n; ++i) want.push_back(center + spread * std::tan(t0 + (t1 - t0) * i / (n - 1)));
                        want[0] = lo; want[n - 1] = hi;
                        verify(seq_rayfan(a, b, n, center, spread), want, "seq_rayfan");
                    }
    if (seq::next("defaults")) {
        seq_rayfan f;
        seq::check(f.size() == 181 && same(f[0], -90) && same(f[180], 90) && seq::near(f[90], 0, 0, 1e-9), "default fan");
    }
}
SEQ_SECTION(augment, "seq_augment", "every origin and number of added rays in the lattice") {
    for (double first : {-6.0, 0.0, 3.0})
        for (double inc : {0.25, 1.0, 2.0})
            for (int n = 3; n <= 9; ++n)
                for (int add = 0; add <= 9; ++add) {
                    if (!seq::next("first %g increment %g size %d plus %d", first, inc, n, add)) continue;
                    seq_vector::csptr o(new seq_linear(first, inc, n));
                    int low = add / 2, high = add - low;
                    vec want;
                    for (int i = 0; i <= low; ++i) want.push_back(first + inc * i / (low + 1));
                    for (int i = 1; i <= n - 2; ++i) want.push_back(first + inc * i);
                    for (int i = 1; i <= high + 1; ++i) want.push_back(first + inc * (n - 2) + inc * i / (high + 1));
                    verify(seq_augment(o, add), want, "seq_augment");
                }
}
