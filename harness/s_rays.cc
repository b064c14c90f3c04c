// C16: eigenray collections keep, find, sum, dead reckon, and write the rays of
// each target.
#include <seq.h>
#include <usml/eigenrays/eigenrays.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>

#include <cmath>
#include <complex>
#include <netcdf>
#include <set>
#include <vector>

using namespace usml::eigenrays;
using namespace usml::ocean;
using namespace usml::types;

static const double R2D = 180 / M_PI;
static double wrap(double a) { return std::remainder(a, 360.0); }
static bool angle(double a, double b, double tol = 1e-6) { return std::fabs(wrap(a - b)) < tol; }

// 12 different rays
static eigenray_model::csptr ray(int k, const seq_vector::csptr& freq) {
    auto* r = new eigenray_model();
    static const double t[] = {3.7, 1.25, 8.031, 2.2, 5.5, 1.9, 0.4, 6.123, 4.4, 7.7, 3.1, 2.9};
    static const double saz[] = {10, 350, 179, -179, 90, 270, 0, 45, -45, 200, 300, 135};
    r->travel_time = t[k];
    r->frequencies = freq;
    r->intensity.resize(freq->size());
    r->phase.resize(freq->size());
    for (size_t f = 0; f < freq->size(); ++f) {
        r->intensity(f) = 40 + 3.1 * ((k * 5 + (int)f * 3) % 12);
        r->phase(f) = -3 + 0.7 * ((k * 7 + (int)f) % 9);
    }
    r->source_de = -60 + 11 * k;
    r->source_az = saz[k];
    r->target_de = 50 - 9 * k;
    r->target_az = saz[11 - k];
    r->surface = k; r->bottom = 20 + k; r->caustic = 40 + k; r->upper = 60 + k; r->lower = 80 + k;
    return eigenray_model::csptr(r);
}
struct want { std::vector<double> tl, phase; double time, sde, saz, tde, taz; int strongest; };
static want total(const std::vector<eigenray_model::csptr>& rays, const seq_vector& freq, bool coherent) {
    want w;
    double sum = 0, t = 0, sd = 0, sx = 0, sy = 0, td = 0, tx = 0, ty = 0, best = -1;
    w.strongest = -1;
    for (size_t f = 0; f < freq.size(); ++f) {
        std::complex<long double> p(0, 0);
        long double power = 0;
        for (size_t i = 0; i < rays.size(); ++i) {
            const auto& r = *rays[i];
            long double a = std::pow(10.0L, -r.intensity(f) / 20.0L);
            p += std::polar(a, std::remainder(2.0L * M_PIl * freq[f] * r.travel_time, 2.0L * M_PIl) + r.phase(f));
            double a2 = a * a;
            power += a2;
            sum += a2; t += a2 * r.travel_time; sd += a2 * r.source_de; td += a2 * r.target_de;
            sx += a2 * std::cos(r.source_az / R2D); sy += a2 * std::sin(r.source_az / R2D);
            tx += a2 * std::cos(r.target_az / R2D); ty += a2 * std::sin(r.target_az / R2D);
            if (a2 > best * (1 + 1e-12)) { best = a2; w.strongest = (int)i; }
        }
        w.tl.push_back(coherent ? -20 * std::log10(std::max(1e-15, (double)std::abs(p))) : -10 * std::log10(std::max(1e-30, (double)power)));
        w.phase.push_back(coherent ? (double)std::arg(p) : 0.0);
    }
    w.time = t / sum; w.sde = sd / sum; w.tde = td / sum;
    w.saz = std::atan2(sy, sx) * R2D; w.taz = std::atan2(ty, tx) * R2D;
    return w;
}
static void compare(const eigenray_model& got, const std::vector<eigenray_model::csptr>& rays, const seq_vector& freq, bool coherent, const char* when) {
    want w = total(rays, freq, coherent);
    seq::check(got.intensity.size() == freq.size() && got.phase.size() == freq.size(), "%s: %d intensities", when, (int)got.intensity.size());
    for (size_t f = 0; f < freq.size(); ++f) {
        seq::check(std::fabs(got.intensity(f) - w.tl[f]) < 1e-5, "%s: loss %.7g dB instead of %.7g", when, got.intensity(f), w.tl[f]);
        if (w.tl[f] < 200) seq::check(angle(got.phase(f) * R2D, w.phase[f] * R2D, 1e-3), "%s: phase %.7g instead of %.7g", when, got.phase(f), w.phase[f]);
    }
    if (rays.empty()) {
        seq::check(got.surface == -1 && got.bottom == -1 && got.caustic == -1, "%s: bounces %d %d %d without rays", when, got.surface, got.bottom, got.caustic);
        return;
    }
    seq::check(seq::near(got.travel_time, w.time, 1e-9), "%s: travel time %.9g instead of %.9g", when, got.travel_time, w.time);
    seq::check(seq::near(got.source_de, w.sde, 1e-9, 1e-9) && seq::near(got.target_de, w.tde, 1e-9, 1e-9), "%s: elevations %.9g %.9g instead of %.9g %.9g", when, got.source_de, got.target_de, w.sde, w.tde);
    seq::check(angle(got.source_az, w.saz) && angle(got.target_az, w.taz), "%s: azimuths %.9g %.9g instead of %.9g %.9g", when, got.source_az, got.target_az, w.saz, w.taz);
    const auto& s = *rays[w.strongest];
    seq::check(got.surface == s.surface && got.bottom == s.bottom && got.caustic == s.caustic && got.upper == s.upper && got.lower == s.lower, "%s: counts of ray %d instead of %d", when, got.surface, s.surface);
}

SEQ_SECTION(sums, "totals", "every list of up to three of twelve rays at one to three frequencies, coherent and incoherent") {
    for (int nf = 1; nf <= 3; ++nf) {
        std::vector<double> fs = {120.0, 1000.0, 3333.0};
        seq_vector::csptr freq(new seq_data(fs.data(), nf));
        for (int coherent = 0; coherent < 2; ++coherent)
            for (int n = 0; n < 13 * 13 * 13; ++n) {
                if (!seq::next("%d frequencies, %s, rays %d", nf, coherent ? "coherent" : "incoherent", n)) continue;
                eigenray_collection c(freq, wposition1(1, 2, -3), wposition(1, 1, 4.0, 5.0, -6.0), 0, matrix<uint64_t>(), coherent);
                seq::check(c.coherent() == (bool)coherent, "coherent()");
                std::vector<eigenray_model::csptr> rays;
                double first = 0;
                int k = n;
                for (int i = 0; i < 3; ++i, k /= 13) {
                    if (k % 13 == 12) continue;
                    rays.push_back(ray(k % 13, freq));
                    c.add_eigenray(0, 0, rays.back());
                    if (first == 0 || rays.back()->travel_time < first) first = rays.back()->travel_time;
                    seq::check(c.initial_time(0, 0) == first && c.find_initial_time(0) == first, "initial time %g instead of %g", c.initial_time(0, 0), first);
                    if (n % 7 == 0) { c.sum_eigenrays(); compare(c.total(0, 0), rays, *freq, coherent, "early"); }
                }
                if (rays.empty()) seq::check(c.initial_time(0, 0) == 0, "initial time without rays");
                auto& list = c.eigenrays(0, 0);
                seq::check(list.size() == rays.size() && std::equal(list.begin(), list.end(), rays.begin()), "rays of the target");
                c.sum_eigenrays();
                compare(c.total(0, 0), rays, *freq, coherent, "total");
                c.sum_eigenrays();
                compare(c.total(0, 0), rays, *freq, coherent, "again");
                seq::observe("%.4f", rays.empty() ? 0.0 : c.total(0, 0).intensity(nf - 1));
            }
    }
}

// one netCDF variable as numbers
static std::vector<double> get(netCDF::NcFile& f, const char* name) {
    auto v = f.getVar(name);
    seq::check(!v.isNull(), "no variable %s", name);
    size_t n = 1;
    for (auto& d : v.getDims()) n *= d.getSize();
    std::vector<double> r(n);
    if (n) v.getVar(r.data());
    return r;
}
SEQ_SECTION(grids, "targets", "every size of target grid up to 3x3, with and without identification, every distribution of rays and search") {
    std::vector<double> fs = {500.0, 800.0};
    seq_vector::csptr freq(new seq_data(fs.data(), 2));
    for (int rows = 1; rows <= 3; ++rows) for (int cols = 1; cols <= 3; ++cols) for (int ids = 0; ids < 2; ++ids) for (int pattern = 0; pattern < 12; ++pattern) for (int coherent = 0; coherent < 2; ++coherent) {
        if (!seq::next("%dx%d targets ids %d pattern %d coherent %d", rows, cols, ids, pattern, coherent)) continue;
        wposition targets(rows, cols, 0.0, 0.0, 0.0);
        matrix<uint64_t> id(rows, cols);
        for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) {
            targets.latitude(r, c, 10 + r + 0.1 * c); targets.longitude(r, c, -20 + 2 * r - c); targets.altitude(r, c, -100.0 * r - 7 * c);
            id(r, c) = 100 + ((r * cols + c) * 5) % 9;
        }
        if (pattern >= 9 && rows * cols > 1) id(rows - 1, cols - 1) = id(0, 0);   // first one is found
        struct { eigenray_collection* c; } x{ids ? new eigenray_collection(freq, wposition1(9, 8, -7), targets, 77, id, coherent) : new eigenray_collection(freq, wposition1(9, 8, -7), targets, 0, matrix<uint64_t>(), coherent)};
        std::unique_ptr<eigenray_collection> c(x.c);
        eigenray_notifier notify;
        notify.add_eigenray_listener(c.get());
        notify.add_eigenray_listener(c.get());
        std::vector<std::vector<eigenray_model::csptr>> rays(rows * cols);
        for (int k = 0; k < 12; ++k) {
            int n = pattern == 0 ? k % (rows * cols) : pattern == 1 ? 0 : pattern == 2 ? rows * cols - 1 : pattern == 3 ? -1 : (k * (pattern + 1) + k / 5) % (rows * cols + 1);
            if (n < 0 || n >= rows * cols) continue;
            auto r = ray(k, freq);
            rays[n].push_back(r);
            notify.notify_eigenray_listeners(n / cols, n % cols, r, 3);
        }
        notify.remove_eigenray_listener(c.get());
        seq::check(!notify.has_eigenray_listeners(), "listener remains");
        notify.notify_eigenray_listeners(0, 0, ray(0, freq), 3);
        seq::check((int)c->size1() == rows && (int)c->size2() == cols && c->sourceID() == (ids ? 77 : 0) && c->frequencies() == freq, "size and source");
        c->sum_eigenrays();
        int num = 0;
        for (int n = 0; n < rows * cols; ++n) {
            int r = n / cols, k = n % cols;
            auto& list = c->eigenrays(r, k);
            num += (int)rays[n].size();
            seq::check(list.size() == rays[n].size() && std::equal(list.begin(), list.end(), rays[n].begin()), "rays of target %d", n);
            compare(c->total(r, k), rays[n], *freq, coherent, "total");
            double first = 0;
            for (auto& q : rays[n]) if (first == 0 || q->travel_time < first) first = q->travel_time;
            seq::check(c->initial_time(r, k) == first, "initial time of target %d", n);
            seq::check(c->targetID(r, k) == (ids ? id(r, k) : 0), "id of target %d", n);
            auto p = c->position(r, k);
            seq::check(seq::near(p.latitude(), targets.latitude(r, k)) && seq::near(p.longitude(), targets.longitude(r, k)) && seq::near(p.altitude(), targets.altitude(r, k), 1e-9, 1e-4), "position of target %d", n);
        }
        for (uint64_t want : {0, 1, 77, 100, 101, 102, 103, 104, 105, 106, 107, 108}) {
            int at = -1;
            for (int n = 0; n < rows * cols && at < 0; ++n) if (want == 0 || (ids ? id(n / cols, n % cols) : 0) == want) at = n;
            auto list = c->find_eigenrays(want);
            double t = c->find_initial_time(want);
            if (at < 0) seq::check(list.empty() && t == 0, "id %d found", (int)want);
            else {
                seq::check(list.size() == rays[at].size() && std::equal(list.begin(), list.end(), rays[at].begin()), "search for id %d", (int)want);
                seq::check(t == c->initial_time(at / cols, at % cols), "initial time for id %d", (int)want);
            }
        }
        // file
        std::string file = seq::scratch() + "/rays.nc";
        c->write_netcdf(file.c_str(), pattern % 2 ? "some rays" : nullptr);
        {
            netCDF::NcFile f(file, netCDF::NcFile::read);
            if (pattern % 2) { std::string s; f.getAtt("long_name").getValues(s); seq::check(s == "some rays", "long name %s", s.c_str()); }
            seq::check((int)f.getDim("rows").getSize() == rows && (int)f.getDim("cols").getSize() == cols && (int)f.getDim("eigenrays").getSize() == num + rows * cols, "dimensions of file");
            seq::check(get(f, "sourceID")[0] == (ids ? 77 : 0) && seq::near(get(f, "source_latitude")[0], 9) && seq::near(get(f, "source_longitude")[0], 8) && seq::near(get(f, "source_altitude")[0], -7, 1e-6, 1e-5), "source in file");
            auto fr = get(f, "frequencies");
            seq::check(fr == fs, "frequencies in file");
            std::map<std::string, std::vector<double>> v;
            for (const char* name : {"targetID", "latitude", "longitude", "altitude", "initial_time", "proploss_index", "eigenray_index", "eigenray_num", "intensity", "phase", "travel_time", "source_de", "source_az", "target_de", "target_az", "surface", "bottom", "caustic", "upper", "lower"}) v[name] = get(f, name);
            for (int n = 0; n < rows * cols; ++n) {
                int r = n / cols, k = n % cols;
                seq::check(v["targetID"][n] == (double)c->targetID(r, k) && seq::near(v["latitude"][n], targets.latitude(r, k)) && seq::near(v["longitude"][n], targets.longitude(r, k)) && seq::near(v["altitude"][n], targets.altitude(r, k), 1e-9, 1e-4) && v["initial_time"][n] == c->initial_time(r, k), "target %d in file", n);
                seq::check(v["eigenray_num"][n] == (double)rays[n].size(), "number of rays of target %d in file", n);
                for (int m = -1; m < (int)rays[n].size(); ++m) {
                    const eigenray_model& q = m < 0 ? c->total(r, k) : *rays[n][m];
                    size_t at = (size_t)(m < 0 ? v["proploss_index"][n] : v["eigenray_index"][n] + m);
                    seq::check(at < v["travel_time"].size(), "index of target %d in file", n);
                    for (int w = 0; w < 2; ++w) seq::check(v["intensity"][at * 2 + w] == q.intensity(w) && v["phase"][at * 2 + w] == q.phase(w), "loss of target %d ray %d in file", n, m);
                    bool nan = rays[n].empty();
                    seq::check(nan || (v["travel_time"][at] == q.travel_time && v["source_de"][at] == q.source_de && v["source_az"][at] == q.source_az && v["target_de"][at] == q.target_de && v["target_az"][at] == q.target_az), "angles of target %d ray %d in file", n, m);
                    seq::check(v["surface"][at] == q.surface && v["bottom"][at] == q.bottom && v["caustic"][at] == q.caustic && v["upper"][at] == q.upper && v["lower"][at] == q.lower, "counts of target %d ray %d in file", n, m);
                }
            }
        }
        seq::observe("%d rays %d", num, (int)c->find_eigenrays(105).size());
    }
}

// straight path in a round ocean of one sound speed
struct path { double time, sde, saz, tde, taz; };
struct vec { double x, y, z; };
static vec cart(const wposition1& p) { double la = p.latitude() / R2D, lo = p.longitude() / R2D; return {p.rho() * std::cos(la) * std::cos(lo), p.rho() * std::cos(la) * std::sin(lo), p.rho() * std::sin(la)}; }
static void look(const wposition1& at, vec d, double* de, double* az) {
    double la = at.latitude() / R2D, lo = at.longitude() / R2D;
    double e = -std::sin(lo) * d.x + std::cos(lo) * d.y;
    double n = -std::sin(la) * std::cos(lo) * d.x - std::sin(la) * std::sin(lo) * d.y + std::cos(la) * d.z;
    double u = std::cos(la) * std::cos(lo) * d.x + std::cos(la) * std::sin(lo) * d.y + std::sin(la) * d.z;
    *de = std::atan2(u, std::hypot(e, n)) * R2D;
    *az = std::atan2(e, n) * R2D;
}
static path straight(const wposition1& s, const wposition1& t, double c) {
    vec a = cart(s), b = cart(t), d{b.x - a.x, b.y - a.y, b.z - a.z};
    path p;
    p.time = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) / c;
    look(s, d, &p.sde, &p.saz);
    look(t, d, &p.tde, &p.taz);
    return p;
}
SEQ_SECTION(reckon, "dead reckoning", "every direction of source and target motion in a lattice against the straight path at the new positions") {
    const double c0 = 1500, k = 1852.0 * 60;
    attenuation_model::csptr atten(new attenuation_constant(1e-6));
    profile_model::csptr profile(new profile_linear(c0, atten));
    std::vector<double> fs = {1000.0, 4000.0};
    seq_vector::csptr freq(new seq_data(fs.data(), 2));
    const double origin[][2] = {{30, 40}, {-60, 179.9995}, {0, -179.9995}};
    for (auto& o : origin) for (double depth : {-50.0, -900.0}) for (double bearing : {0.0, 75.0, 200.0, 290.0}) for (double range : {3000.0, 9000.0})
        for (int ms = 0; ms < 28; ++ms) for (int mt = 0; mt < 28; ++mt) for (double step : {20.0}) {
            if (ms && mt && (ms + mt) % 3) continue;
            if (!seq::next("origin %g %g depth %g bearing %g range %g moves %d %d", o[0], o[1], depth, bearing, range, ms, mt)) continue;
            auto shift = [&](const wposition1& p, double n, double e, double u) {
                double lon = p.longitude() + e / k / std::cos(p.latitude() / R2D);
                return wposition1(p.latitude() + n / k, wrap(lon), p.altitude() + u);
            };
            auto go = [&](const wposition1& p, int m) { return m == 27 ? shift(p, 0.0002, 0, 0) : shift(p, step * (m % 3 - 1), step * (m / 3 % 3 - 1), step * (m / 9 - 1)); };
            wposition1 s(o[0], o[1], depth), t = shift(s, range * std::cos(bearing / R2D), range * std::sin(bearing / R2D), -400 - depth);
            wposition1 s2 = go(s, ms), t2 = go(t, mt);
            path was = straight(s, t, c0), now = straight(s2, t2, c0);
            eigenray_collection col(freq, s, wposition(t));
            auto* q = new eigenray_model();
            q->travel_time = was.time; q->source_de = was.sde; q->source_az = was.saz; q->target_de = was.tde; q->target_az = was.taz;
            q->frequencies = freq; q->intensity.resize(2); q->phase.resize(2);
            q->surface = 1; q->bottom = 2; q->caustic = 3; q->upper = 4; q->lower = 5;
            auto loss = [&](double t, int f) { return 20 * std::log10(t * c0) + 1e-6 * fs[f] * t * c0 + 3 + f; };
            for (int f = 0; f < 2; ++f) { q->intensity(f) = loss(was.time, f); q->phase(f) = 0.5 + f; }
            col.add_eigenray(0, 0, eigenray_model::csptr(q));
            auto list = col.dead_reckon(0, 0, s2, t2, profile);
            seq::check(list.size() == 1, "%d rays", (int)list.size());
            auto& r = *list.front();
            double tol = (8.0 * step * step / range + 0.01) / c0;
            seq::check(std::fabs(r.travel_time - now.time) < tol, "travel time %.9g instead of %.9g, was %.9g", r.travel_time, now.time, was.time);
            for (int f = 0; f < 2; ++f) seq::check(std::fabs(r.intensity(f) - loss(r.travel_time, f)) < 0.01, "loss %.9g instead of %.9g", r.intensity(f), loss(r.travel_time, f));
            seq::check(r.source_de == was.sde && r.source_az == was.saz && r.target_de == was.tde && r.target_az == was.taz && r.phase(0) == 0.5 && r.phase(1) == 1.5, "angles and phases changed");
            seq::check(r.surface == 1 && r.bottom == 2 && r.caustic == 3 && r.upper == 4 && r.lower == 5, "counts changed");
            seq::check(q->travel_time == was.time && q->intensity(0) == loss(was.time, 0), "the collection has changed");
            seq::observe("%.6f", r.travel_time - was.time);
        }
}
