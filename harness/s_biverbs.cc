// C18: bistatic eigenverbs are the overlap of their source and receiver eigenverbs.
#include "s_sys.h"

#include <netcdf>

using namespace usml::biverbs;
using namespace usml::eigenverbs;

static const double RAD = M_PI / 180;
static seq_vector::csptr freqs(int n) {
    static const double f[] = {500, 900, 2500};
    return seq_vector::csptr(new seq_data(f, n));
}
// point at a range and bearing on a sphere
static wposition1 destination(double lat, double lon, double range, double bearing) {
    double R = wposition::earth_radius, d = range / R, la = lat * RAD;
    double sl = std::sin(la) * std::cos(d) + std::cos(la) * std::sin(d) * std::cos(bearing), l2 = std::asin(sl);
    double lo = lon * RAD + std::atan2(std::sin(bearing) * std::sin(d) * std::cos(la), std::cos(d) - std::sin(la) * sl);
    return wposition1(l2 / RAD, std::remainder(lo / RAD, 360), 0);
}
struct geo { double length, width, direction, grazing, speed; };
static eigenverb_model::csptr verb(const wposition1& pos, const geo& g, int k = 0, int nf = 1) {
    eigenverb_model::csptr v(new eigenverb_model());
    v->travel_time = 1.5 + 0.37 * k;
    v->frequencies = freqs(nf);
    v->power.resize(nf);
    for (int f = 0; f < nf; ++f) v->power(f) = std::pow(10.0, -0.1 * k - 0.5 * f);
    v->length = g.length; v->width = g.width;
    v->position = pos;
    v->direction = g.direction; v->grazing = g.grazing; v->sound_speed = g.speed;
    v->de_index = 3 + k; v->az_index = 40 + k;
    v->source_de = (-40 + k) * RAD; v->source_az = (17 + 5 * k) * RAD;
    v->surface = k; v->bottom = 100 + k; v->caustic = 200 + k; v->upper = 300 + k; v->lower = 400 + k;
    return v;
}
static biverb_model::csptr only(const biverb_collection& c, size_t i) {
    auto l = c.biverbs(i);
    seq::check(l.size() == 1, "%d biverbs instead of one", (int)l.size());
    return l.front();
}

// overlap of two Gaussians by its definition with matrices
struct overlap { double scale, duration; };
static overlap define(const geo& s, const geo& r, double range, double bearing) {
    // coordinates: x across (right of) and y along the receiver direction
    double x = range * std::sin(bearing - r.direction), y = range * std::cos(bearing - r.direction), a = s.direction - r.direction;
    double ux = std::sin(a), uy = std::cos(a), vx = std::cos(a), vy = -std::sin(a);   // along, across the source direction
    double l2 = s.length * s.length, w2 = s.width * s.width;
    double sxx = l2 * ux * ux + w2 * vx * vx, sxy = l2 * ux * uy + w2 * vx * vy, syy = l2 * uy * uy + w2 * vy * vy;
    double rxx = r.width * r.width, ryy = r.length * r.length;
    double txx = sxx + rxx, txy = sxy, tyy = syy + ryy, det = txx * tyy - txy * txy;
    double q = (tyy * x * x - 2 * txy * x * y + txx * y * y) / det;
    // product of both Gaussians: inverse covariances add
    double sd = sxx * syy - sxy * sxy;
    double pxx = syy / sd + 1 / rxx, pxy = -sxy / sd, pyy = sxx / sd + 1 / ryy;
    double var = pxx / (pxx * pyy - pxy * pxy);
    return {0.125 * std::exp(-0.5 * q) / std::sqrt(det), 0.5 * std::cos(r.grazing) / r.speed * std::sqrt(var)};
}
SEQ_SECTION(formula, "overlap", "every source and receiver size, direction, grazing angle, and offset in a lattice, against the overlap of Gaussians by definition") {
    const double sizes[][2] = {{1000, 1000}, {2000, 300}, {150, 900}};
    const double deg[] = {0, 35, 90, 160, 225, 300, -70};
    for (auto& ss : sizes) for (auto& rs : sizes)
        for (double sd : deg) for (double rd : deg)
            for (double pos : {0.002, 45.0, -70.0})
                for (int bearing = 0; bearing < 8; ++bearing) {
                    if (!seq::next("source %gx%g at %g, receiver %gx%g at %g, latitude %g, bearing %d", ss[0], ss[1], sd, rs[0], rs[1], rd, pos, bearing * 45 + 10)) continue;
                    for (double range : {0.0, 1.0, 250.0, 900.0, 2400.0})
                        for (double grazing : {5.0, 60.0}) {
                            geo s{ss[0], ss[1], sd * RAD, 12 * RAD, 1480}, r{rs[0], rs[1], rd * RAD, grazing * RAD, 1520};
                            double b = (bearing * 45 + 10) * RAD, lon = pos < 1 && pos > 0 ? 179.999 : 20;
                            double old = biverb_collection::power_threshold;
                            biverb_collection::power_threshold = 0;
                            biverb_collection c;
                            vector<double> scatter(1, 0.25);
                            c.add_biverb(verb(destination(pos, lon, range, b), s, 3), verb(wposition1(pos, lon, 0), r, 5), scatter, 0);
                            biverb_collection::power_threshold = old;
                            auto v = only(c, 0);
                            overlap o = define(s, r, range, b);
                            double p = std::pow(10.0, -0.8) * 0.25 * o.scale;
                            seq::check(seq::near(v->power(0), p, 2e-3, 1e-25), "power %.8g instead of %.8g at range %g", v->power(0), p, range);
                            seq::check(seq::near(v->duration, o.duration, 1e-9), "duration %.8g instead of %.8g", v->duration, o.duration);
                            seq::observe("%.3g ", v->power(0));
                            seq::evaluated();
                        }
                }
}
SEQ_SECTION(equator, "equator", "four bearings from a receiver on the equator") {
    for (int bearing = 0; bearing < 4; ++bearing) {
        if (!seq::next("bearing %d", bearing * 90 + 45)) continue;
        geo s{1000, 500, 0.2, 0.2, 1480}, r{600, 900, 0.7, 0.3, 1520};
        double b = (bearing * 90 + 45) * RAD;
        biverb_collection c;
        c.add_biverb(verb(destination(0, 20, 700, b), s), verb(wposition1(0, 20, 0), r), vector<double>(1, 1.0), 0);
        seq::check(seq::near(only(c, 0)->power(0), define(s, r, 700, b).scale, 2e-3), "power is not that of the overlap");
    }
}
SEQ_SECTION(fields, "contents", "every number of frequencies, interface, and history of a biverb: copied fields, thresholds, order by travel time") {
    const geo s{800, 400, 0.3, 0.2, 1480}, r{300, 900, 1.3, 0.4, 1510};
    for (int layers = 0; layers <= 2; ++layers) for (int i = 0; i < 2 + 2 * layers; ++i)
        for (int nf = 1; nf <= 3; ++nf)
            for (int order = 0; order < 6; ++order) {
                if (!seq::next("%d layers interface %d, %d frequencies, order %d", layers, i, nf, order)) continue;
                biverb_collection c(layers);
                seq::check(c.num_interfaces() == (size_t)(2 + 2 * layers), "%d interfaces", (int)c.num_interfaces());
                static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
                vector<double> scatter(nf);
                for (int f = 0; f < nf; ++f) scatter(f) = 0.1 * (f + 1);
                overlap o = define(s, r, 0, 0);
                for (int k : perm[order]) {
                    auto sv = verb(wposition1(1, 2, 0), s, k == 2 ? 0 : k, nf), rv = verb(wposition1(1, 2, 0), r, k == 2 ? 1 : 2 * k, nf);
                    c.add_biverb(sv, rv, scatter, i);
                }
                for (size_t j = 0; j < c.num_interfaces(); ++j) seq::check(c.size(j) == ((int)j == i ? 3u : 0u), "%d biverbs at interface %d", (int)c.size(j), (int)j);
                auto l = c.biverbs(i);
                int n = 0;
                for (auto& v : l) {
                    int k = n++ == 0 ? 0 : n == 2 ? 2 : 1, a = k == 2 ? 0 : k, b = k == 2 ? 1 : 2 * k;
                    seq::check(seq::near(v->travel_time, 3.0 + 0.37 * (a + b)), "travel time %g of biverb %d", v->travel_time, n);
                    seq::check(v->frequencies->size() == (size_t)nf && v->power.size() == (size_t)nf, "%d frequencies", (int)v->power.size());
                    for (int f = 0; f < nf; ++f) {
                        seq::check((*v->frequencies)(f) == (*freqs(nf))(f), "frequency");
                        seq::check(seq::near(v->power(f), std::pow(10.0, -0.1 * (a + b) - f) * scatter(f) * o.scale, 1e-6), "power %g at frequency %d", v->power(f), f);
                    }
                    seq::check(v->de_index == (size_t)(3 + b) && v->az_index == (size_t)(40 + b), "index of biverb");
                    seq::check(v->source_de == (-40 + a) * RAD && v->source_az == (17 + 5 * a) * RAD && v->receiver_de == (-40 + b) * RAD && v->receiver_az == (17 + 5 * b) * RAD, "angles of biverb");
                    seq::check(v->source_surface == a && v->source_bottom == 100 + a && v->source_caustic == 200 + a && v->source_upper == 300 + a && v->source_lower == 400 + a, "source counts");
                    seq::check(v->receiver_surface == b && v->receiver_bottom == 100 + b && v->receiver_caustic == 200 + b && v->receiver_upper == 300 + b && v->receiver_lower == 400 + b, "receiver counts");
                }
                seq::observe("%d", n);
            }
    // a biverb is kept if its strongest frequency reaches the threshold
    for (int e = -30; e <= 0; ++e) for (int strong = 0; strong < 3; ++strong) for (double th : {1e-20, 1e-12}) {
        if (!seq::next("threshold %g power 1e%d at frequency %d", th, e, strong)) continue;
        double old = biverb_collection::power_threshold;
        if (th != old) biverb_collection::power_threshold = th;
        biverb_collection c;
        vector<double> scatter(3, 1e-40);
        scatter(strong) = std::pow(10.0, e + strong) / define(s, r, 0, 0).scale * 1.5;
        c.add_biverb(verb(wposition1(1, 2, 0), s, 0, 3), verb(wposition1(1, 2, 0), r, 0, 3), scatter, 1);
        biverb_collection::power_threshold = old;
        bool keep = 1.5 * std::pow(10.0, e) >= th;
        seq::check(c.size(1) == keep, "biverb of power 1e%d %s", e, keep ? "is missing" : "is kept");
        seq::observe("%d", keep);
    }
}

// records its arguments in its result
class probe : public scattering_model {
   public:
    mutable std::mutex m;
    mutable std::vector<std::vector<double>> calls;
    static double value(double lat, double dei, double des, double azi, double azs, int f) { return 0.01 * (1 + f) * (1.3 + std::sin(lat * 3000) * 0.1 + std::sin(dei) * 0.31 + std::sin(2 * des) * 0.2 + std::sin(azi + 0.3) * 0.17 + std::sin(azs * 1.7) * 0.13); }
    void scattering(const wposition1& l, const seq_vector::csptr& f, double dei, double des, double azi, double azs, vector<double>* a) const override {
        seq::check(a->size() == f->size(), "scattering buffer has %d of %d frequencies", (int)a->size(), (int)f->size());
        for (size_t i = 0; i < f->size(); ++i) (*a)(i) = value(l.latitude(), dei, des, azi, azs, i) * scale;
        std::lock_guard<std::mutex> g(m);
        ++count;
    }
    void scattering(const wposition&, const seq_vector::csptr&, double, matrix<double>, double, matrix<double>, matrix<vector<double>>*) const override { seq::check(false, "unexpected call"); }
    double scale = 1;
    mutable int count = 0;
};
struct ear : public update_listener<biverb_collection::csptr> {
    std::vector<biverb_collection::csptr> heard;
    void notify_update(const biverb_collection::csptr* c) override { heard.push_back(*c); }
};
SEQ_SECTION(generate, "generator", "every assignment of source and receiver eigenverbs on a lattice of places to the interfaces of an ocean with up to two volume layers") {
    quiet();
    for (int layers = 0; layers <= 2; ++layers)
        for (int ns = 0; ns <= 3; ++ns) for (int nr = 0; nr <= 3; ++nr)
            for (int pattern = 0; pattern < (seq::thorough() ? 125 : 24); ++pattern)
                for (int nf = 1; nf <= 2; ++nf) {
                    if (!seq::next("%d layers, %d source and %d receiver eigenverbs, pattern %d, %d frequencies", layers, ns, nr, pattern, nf)) continue;
                    int num = 2 + 2 * layers;
                    std::vector<std::shared_ptr<probe>> probes;
                    for (int i = 0; i < 2 + layers; ++i) { probes.emplace_back(new probe()); probes.back()->scale = 1.0 + i; }
                    reflect_loss_model::csptr loss(new reflect_loss_constant(0.0));
                    boundary_model::csptr surface(new boundary_flat(0.0, loss, probes[1])), bottom(new boundary_flat(-2000.0, loss, probes[0]));
                    std::vector<volume_model::csptr> vol;
                    for (int i = 0; i < layers; ++i) vol.push_back(volume_model::csptr(new volume_flat(-100.0 - i, 10.0, probes[2 + i])));
                    ocean_shared::update(ocean_model::csptr(new ocean_model(surface, bottom, profile_model::csptr(new profile_linear(1500.0, attenuation_model::csptr(new attenuation_constant(0.0)))), &vol)));
                    sensor_manager::reset();
                    sensor_manager::instance()->frequencies(freqs(nf));
                    sensor_model::sptr sensor(new sensor_model(1, "s"));
                    sensor->time_maximum(1.0);
                    bp_model::csptr omni(new bp_omni());
                    sensor->src_beam(0, omni); sensor->rcv_beam(0, omni);
                    sensor_manager::instance()->add_sensor(sensor);
                    auto pair = sensor_manager::instance()->find("1_1");
                    seq::check(pair != nullptr, "no pair");

                    auto* src = new eigenverb_collection(layers);
                    auto* rcv = new eigenverb_collection(layers);
                    eigenverb_collection::csptr srcp(src), rcvp(rcv);
                    std::vector<std::pair<eigenverb_model::csptr, int>> sv, rv;
                    for (int k = 0; k < ns + nr; ++k) {
                        int p = pattern * 7 + k * 5 + pattern / 3;
                        // places 0, 900, 1800, 6000 m apart: near, overlapping, outside
                        static const double at[] = {0, 350, 1300, 6000};
                        geo g{500, 200, (p % 5) * 0.9, 0.1 + 0.1 * (p % 3), 1490.0 + k};
                        auto v = verb(destination(10, 20, at[p % 4], 0.8), g, k, nf);
                        int i = (p / 2) % num;
                        if (k < ns) { src->add_eigenverb(v, i); sv.push_back({v, i}); } else { rcv->add_eigenverb(v, i); rv.push_back({v, i}); }
                    }
                    ear e;
                    {
                        std::shared_ptr<biverb_generator> gen(new biverb_generator(pair, srcp, rcvp));
                        gen->add_listener(&e);
                        gen->run();
                        seq::check(gen->done(), "generator is not done");
                        gen->remove_listener(&e);
                    }
                    seq::check(e.heard.size() == 1, "%d results", (int)e.heard.size());
                    auto c = e.heard[0];
                    seq::check(pair->biverbs() == c, "result is not in the pair");
                    seq::check(c->num_interfaces() == (size_t)num, "%d interfaces", (int)c->num_interfaces());
                    // expected contents from an exhaustive comparison of all eigenverbs
                    std::vector<std::multiset<double>> want(num);
                    std::vector<biverb_collection*> ref;
                    int found = 0, calls = 0;
                    for (int i = 0; i < num; ++i) {
                        biverb_collection one(0);
                        for (auto& r : rv) for (auto& s : sv) {
                            if (r.second != i || s.second != i) continue;
                            eigenverb_collection single(0);
                            single.add_eigenverb(s.first, 0);
                            if (single.find_eigenverbs(r.first, 0).empty()) continue;
                            ++calls;
                            vector<double> scatter(nf);
                            double sc = 1.0 + (i < 2 ? i : 2 + (i - 2) / 2);
                            for (int f = 0; f < nf; ++f) scatter(f) = sc * probe::value(r.first->position.latitude(), s.first->grazing, r.first->grazing, s.first->direction, r.first->direction, f);
                            one.add_biverb(s.first, r.first, scatter, 0);
                        }
                        auto w = one.biverbs(0), got = c->biverbs(i);
                        seq::check(w.size() == got.size(), "%d biverbs at interface %d instead of %d", (int)got.size(), i, (int)w.size());
                        for (auto& a : w) {
                            int n = 0;
                            for (auto& b : got) {
                                bool ok = a->travel_time == b->travel_time && a->de_index == b->de_index && a->source_surface == b->source_surface && a->receiver_surface == b->receiver_surface && seq::near(a->duration, b->duration);
                                for (int f = 0; ok && f < nf; ++f) ok = seq::near(a->power(f), b->power(f), 1e-9);
                                n += ok;
                            }
                            seq::check(n == 1, "a biverb at interface %d is there %d times", i, n);
                        }
                        found += got.size();
                    }
                    int asked = 0;
                    for (auto& p : probes) asked += p->count;
                    seq::check(asked == calls, "%d scattering strengths for %d overlaps", asked, calls);
                    seq::observe("%d", found);
                    seq::evaluated(found);
                    sensor_manager::reset();
                }
}

static std::vector<double> get(netCDF::NcFile& f, const char* name) {
    auto v = f.getVar(name);
    seq::check(!v.isNull(), "no variable %s", name);
    size_t n = 1;
    for (auto& d : v.getDims()) n *= d.getSize();
    std::vector<double> r(n);
    if (n) v.getVar(r.data());
    return r;
}
SEQ_SECTION(files, "files", "every interface, number of biverbs and frequencies: file contents") {
    const geo s{800, 400, 0.3, 0.2, 1480}, r{300, 900, 1.3, 0.4, 1510};
    for (int layers = 0; layers <= 2; ++layers) for (int i = 0; i < 2 + 2 * layers; ++i)
        for (int n : {0, 1, 2, 7}) for (int nf = 1; nf <= 3; ++nf) {
            if (!seq::next("%d layers interface %d, %d biverbs of %d frequencies", layers, i, n, nf)) continue;
            biverb_collection c(layers);
            vector<double> scatter(nf, 0.2);
            for (int k = 0; k < n; ++k) {
                c.add_biverb(verb(wposition1(1, 2, 0), s, (k * 5) % 7, nf), verb(wposition1(1, 2, 0), r, 10 + (k * 3) % 7, nf), scatter, i);
                c.add_biverb(verb(wposition1(1, 2, 0), s, 20, nf), verb(wposition1(1, 2, 0), r, 21, nf), scatter, (i + 1) % c.num_interfaces());
            }
            std::string file = seq::scratch() + "/biverbs.nc";
            c.write_netcdf(file.c_str(), i);
            netCDF::NcFile f(file, netCDF::NcFile::read);
            std::string name;
            f.getAtt("long_name").getValues(name);
            bool ok = i == 0 ? name.find("bottom") == 0 : i == 1 ? name.find("surface") == 0 : name.find(i % 2 ? "lower volume" : "upper volume") == 0;
            seq::check(ok, "long name of interface %d is %s", i, name.c_str());
            if (i >= 2) { int layer; f.getAtt("layer").getValues(&layer); seq::check(layer == i / 2, "layer %d of interface %d", layer, i); }
            if (n == 0) { seq::check(f.getVarCount() == 0, "variables without biverbs"); continue; }
            auto l = c.biverbs(i);
            seq::check(f.getDim("eigenverbs").getSize() == l.size() && f.getDim("frequencies").getSize() == (size_t)nf, "dimensions of the file");
            const char* names[] = {"travel_time", "duration", "de_index", "az_index", "source_de", "source_az", "source_surface", "source_bottom", "source_caustic", "source_upper", "source_lower", "receiver_de", "receiver_az", "receiver_surface", "receiver_bottom", "receiver_caustic", "receiver_upper", "receiver_lower"};
            std::map<std::string, std::vector<double>> d;
            for (auto x : names) d[x] = get(f, x);
            auto p = get(f, "power"), fr = get(f, "frequencies");
            int k = 0;
            for (auto& v : l) {
                double w[] = {v->travel_time, v->duration, (double)v->de_index, (double)v->az_index, v->source_de / RAD, v->source_az / RAD, (double)v->source_surface, (double)v->source_bottom, (double)v->source_caustic, (double)v->source_upper, (double)v->source_lower,
                              v->receiver_de / RAD, v->receiver_az / RAD, (double)v->receiver_surface, (double)v->receiver_bottom, (double)v->receiver_caustic, (double)v->receiver_upper, (double)v->receiver_lower};
                for (int x = 0; x < 18; ++x) seq::check(seq::near(d[names[x]][k], w[x]), "%s of biverb %d is %g instead of %g", names[x], k, d[names[x]][k], w[x]);
                for (int q = 0; q < nf; ++q) seq::check(seq::near(p[k * nf + q], 10 * std::log10(v->power(q))) && fr[q] == (*v->frequencies)(q), "power of biverb %d", k);
                ++k;
            }
            seq::observe("%d %d", n, nf);
        }
}
