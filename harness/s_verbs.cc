// C17: eigenverb collections keep eigenverbs by interface, find exactly those in
// the search area, and read back the files they write.
#include <seq.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/types/types.h>

#include <algorithm>
#include <cmath>
#include <netcdf>
#include <set>
#include <vector>

using namespace usml::eigenverbs;
using namespace usml::types;

static const double RAD = M_PI / 180;
static seq_vector::csptr freqs(int n) {
    static const double f[] = {500, 900, 2500};
    return seq_vector::csptr(new seq_data(f, n));
}
static eigenverb_model::csptr verb(double lat, double lon, double length, double width, double heading, int k = 0, int nf = 1) {
    eigenverb_model::csptr v(new eigenverb_model());
    v->travel_time = 1.5 + 0.37 * k;
    v->frequencies = freqs(nf);
    v->power.resize(nf);
    for (int f = 0; f < nf; ++f) v->power(f) = std::pow(10.0, -0.3 * k - f);
    v->length = length; v->width = width;
    v->position = wposition1(lat, lon, -1000.0 - k);
    v->direction = heading * RAD;
    v->grazing = (10 + k) * RAD;
    v->sound_speed = 1500 + k;
    v->de_index = 3 + k; v->az_index = 400 + k;
    v->source_de = (-40 + k) * RAD; v->source_az = (170 + 5 * k) * RAD;
    v->surface = k; v->bottom = 100 + k; v->caustic = 200 + k; v->upper = 300 + k; v->lower = 400 + k;
    return v;
}
typedef std::set<const eigenverb_model*> vset;
static vset set_of(const eigenverb_list& l) {
    vset s;
    for (auto& v : l) s.insert(v.get());
    seq::check(s.size() == l.size(), "an eigenverb is listed twice");
    return s;
}

static void area(double lat, double lon, double heading, int size, double scale, int half, int& miss, int& extra) {
    const double k = 1852.0 * 60;
    double length = size == 0 ? 1000 : size == 1 ? 300 : 2000, width = size == 0 ? 500 : size == 1 ? 1200 : 60;
    double old = eigenverb_collection::search_scale;
    eigenverb_collection c(1);
    double step = half == 10 ? 190 : 420;
    vset must, may, here;
    int n = 0;
    for (int i = -half; i <= half; ++i) for (int j = -half; j <= half; ++j, ++n) {
        double e = i * step + 3.3, m = j * step + 1.7;
        double lo = lon + e / k / std::cos(lat * RAD);
        auto v = verb(lat + m / k, lo > 180 ? lo - 360 : lo < -180 ? lo + 360 : lo, 1, 1, 0, n % 7);
        c.add_eigenverb(v, n % 4);
        if (n % 4 != half % 4) continue;
        here.insert(v.get());
        double h = heading * RAD, along = std::fabs(e * std::sin(h) + m * std::cos(h)), across = std::fabs(e * std::cos(h) - m * std::sin(h));
        double d = along / (scale * length) + across / (scale * width);
        if (d < 0.99) must.insert(v.get());
        if (d < 1.01) may.insert(v.get());
    }
    eigenverb_collection::search_scale = scale;
    auto got = c.find_eigenverbs(verb(lat, lon, length, width, heading), half % 4);
    eigenverb_collection::search_scale = old;
    vset s = set_of(got);
    for (auto v : s) seq::check(here.count(v), "an eigenverb of another interface is found");
    for (auto v : must) miss += !s.count(v);
    for (auto v : s) extra += !may.count(v);
    seq::observe("%d ", (int)s.size());
    seq::evaluated(n);
}
SEQ_SECTION(search, "search", "every position, heading, size, and scale of the search area in a lattice, among 81 and 441 eigenverbs on a grid") {
    for (double lat : {0.0, 20.0, -45.0, 70.0})
        for (double lon : {0.0, 60.0, -100.0, 179.999, -179.999})
            {
                if (!seq::next("at %g %g", lat, lon)) continue;
                int miss = 0, extra = 0;
                for (double heading : {0.0, 30.0, 90.0, 200.0, -60.0}) for (int size = 0; size < 3; ++size) for (double scale : {1.5, 3.0}) for (int half : {4, 10}) area(lat, lon, heading, size, scale, half, miss, extra);
                seq::check(miss == 0 && extra == 0, "in 60 searches %d eigenverbs are missing, %d do not belong", miss, extra);
            }
    if (seq::next("default scale")) seq::check(eigenverb_collection::search_scale == 1.5, "search_scale is %g", eigenverb_collection::search_scale);
}

SEQ_SECTION(add, "interfaces", "every number of volume layers, every distribution of eigenverbs over the interfaces") {
    for (int layers = 0; layers <= 3; ++layers)
        for (int pattern = 0; pattern < 64; ++pattern) {
            if (!seq::next("%d layers pattern %d", layers, pattern)) continue;
            eigenverb_collection c(layers);
            size_t num = 2 * (1 + layers);
            seq::check(c.num_interfaces() == num, "%d interfaces", (int)c.num_interfaces());
            std::vector<std::vector<eigenverb_model::csptr>> want(num);
            eigenverb_notifier n;
            n.add_eigenverb_listener(&c);
            n.add_eigenverb_listener(&c);
            for (int k = 0; k < pattern; ++k) {
                size_t i = (k * (pattern % 7 + 1) + k / 3) % num;
                // some at the same place
                auto v = verb(10 + k % 5, 20 + k % 3, 100, 100, 0, k);
                n.notify_eigenverb_listeners(v, i);
                want[i].push_back(v);
            }
            n.remove_eigenverb_listener(&c);
            n.notify_eigenverb_listeners(verb(0, 0, 1, 1, 0), 0);
            for (size_t i = 0; i < num; ++i) {
                auto l = c.eigenverbs(i);
                vset s = set_of(l), w;
                for (auto& v : want[i]) w.insert(v.get());
                seq::check(s == w && c.size(i) == w.size(), "interface %d has %d eigenverbs instead of %d", (int)i, (int)c.size(i), (int)w.size());
            }
            seq::observe("%d", (int)c.size(num - 1));
        }
}

static std::vector<double> get(netCDF::NcFile& f, const char* name) {
    auto v = f.getVar(name);
    seq::check(!v.isNull(), "no variable %s", name);
    size_t n = 1;
    for (auto& d : v.getDims()) n *= d.getSize();
    std::vector<double> r(n);
    if (n) v.getVar(r.data());
    return r;
}
static bool same(const eigenverb_model& a, const eigenverb_model& b) {
    bool ok = a.travel_time == b.travel_time && a.power.size() == b.power.size() && a.frequencies->size() == b.frequencies->size();
    for (size_t f = 0; ok && f < a.power.size(); ++f) ok = seq::near(a.power(f), b.power(f), 1e-9) && (*a.frequencies)(f) == (*b.frequencies)(f);
    return ok && a.length == b.length && a.width == b.width && seq::near(a.position.latitude(), b.position.latitude(), 1e-9, 1e-9) && seq::near(a.position.longitude(), b.position.longitude(), 1e-9, 1e-9) &&
           seq::near(a.position.altitude(), b.position.altitude(), 1e-9, 1e-4) && seq::near(a.direction, b.direction) && seq::near(a.grazing, b.grazing) && a.sound_speed == b.sound_speed && a.de_index == b.de_index && a.az_index == b.az_index &&
           seq::near(a.source_de, b.source_de) && seq::near(a.source_az, b.source_az) && a.surface == b.surface && a.bottom == b.bottom && a.caustic == b.caustic && a.upper == b.upper && a.lower == b.lower;
}
SEQ_SECTION(files, "files", "every interface, number of eigenverbs and frequencies: file contents, and reading it into empty and filled collections") {
    for (int layers = 0; layers <= 2; ++layers)
        for (int i = 0; i < 2 + 2 * layers; ++i)
            for (int n : {0, 1, 2, 5, 20})
                for (int nf = 1; nf <= 3; ++nf)
                    for (int filled = 0; filled < 2; ++filled) {
                        if (!seq::next("%d layers interface %d with %d eigenverbs of %d frequencies read into %s", layers, i, n, nf, filled ? "filled" : "empty")) continue;
                        eigenverb_collection c(layers), back(layers);
                        std::vector<eigenverb_model::csptr> want;
                        for (int k = 0; k < n; ++k) {
                            auto v = verb(-30 + 3 * k, -170 + 17 * k, 100 + k, 200 + k, 20 * k, k, nf);
                            want.push_back(v);
                            c.add_eigenverb(v, i);
                            c.add_eigenverb(verb(1, 2, 3, 4, 5, 50 + k, nf), (i + 1) % c.num_interfaces());
                        }
                        std::string file = seq::scratch() + "/verbs.nc";
                        c.write_netcdf(file.c_str(), i);
                        {
                            netCDF::NcFile f(file, netCDF::NcFile::read);
                            std::string name;
                            f.getAtt("long_name").getValues(name);
                            bool ok = i == 0 ? name == "bottom eigenverbs" : i == 1 ? name == "surface eigenverbs" : name.find(i % 2 ? "lower volume" : "upper volume") == 0;
                            seq::check(ok, "long name of interface %d is %s", i, name.c_str());
                            if (i >= 2) { int layer; f.getAtt("layer").getValues(&layer); seq::check(layer == i / 2, "layer %d of interface %d", layer, i); }
                            if (n == 0) seq::check(f.getDimCount() == 0 && f.getVarCount() == 0, "file without eigenverbs has variables");
                            else {
                                auto t = get(f, "travel_time"), p = get(f, "power"), fr = get(f, "frequencies"), d = get(f, "direction"), g = get(f, "grazing"), sd = get(f, "source_de"), sa = get(f, "source_az");
                                seq::check((int)t.size() == n && (int)fr.size() == nf, "dimensions of file");
                                for (auto& v : want) {
                                    size_t at = std::find(t.begin(), t.end(), v->travel_time) - t.begin();
                                    seq::check(at < t.size(), "eigenverb is missing in file");
                                    for (int w = 0; w < nf; ++w) seq::check(seq::near(p[at * nf + w], 10 * std::log10(v->power(w)), 1e-9, 1e-9) && fr[w] == (*v->frequencies)(w), "power in file");
                                    seq::check(seq::near(d[at], v->direction / RAD) && seq::near(g[at], v->grazing / RAD) && seq::near(sd[at], v->source_de / RAD, 1e-9, 1e-9) && seq::near(sa[at], v->source_az / RAD), "angles in file");
                                }
                            }
                        }
                        int to = (i + filled) % (int)back.num_interfaces();
                        auto other = verb(5, 5, 5, 5, 5, 60, nf);
                        if (filled) back.add_eigenverb(other, to);
                        back.read_netcdf(file.c_str(), to);
                        seq::check((int)back.size(to) == n + filled, "%d eigenverbs read", (int)back.size(to));
                        for (size_t j = 0; j < back.num_interfaces(); ++j) if ((int)j != to) seq::check(back.size(j) == 0, "eigenverbs in interface %d", (int)j);
                        auto list = back.eigenverbs(to);
                        for (auto& v : want) {
                            int found = 0;
                            for (auto& r : list) found += same(*r, *v);
                            seq::check(found == 1, "eigenverb read back %d times", found);
                            // and the index is restored with them
                            auto center = verb(v->position.latitude(), v->position.longitude(), 100, 100, 0);
                            if (!filled) seq::check(back.find_eigenverbs(center, to).size() == c.find_eigenverbs(center, i).size(), "search finds a different number of eigenverbs than in the original");
                        }
                        seq::observe("%d %d", n, nf);
                    }
}
