// C24: files read into grids: every grid point carries the value that the file
// stores at its coordinates, and the grid covers the window asked for.
#include <seq.h>
#include <usml/netcdf/netcdf_bathy.h>
#include <usml/netcdf/netcdf_coards.h>
#include <usml/netcdf/netcdf_profile.h>
#include <usml/netcdf/netcdf_woa.h>
#include <usml/ocean/ascii_arc_bathy.h>
#include <usml/ocean/ascii_profile.h>
#include <usml/types/types.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

using namespace usml::netcdf;
using namespace usml::types;
using namespace usml::ocean;

// ------------------------------------------------------------ synthetic files
struct layout {
    const char* name;
    double lng0, dlng;
    int nlng;
    bool global, dup;
    double lat0, dlat;
    int nlat;
};
static const layout layouts[] = {
    {"0..359", 0, 1, 360, true, false, -60, 15, 9},
    {"0..360", 0, 1, 361, true, true, -60, 15, 9},
    {"0..360 by 10", 0, 10, 37, true, true, -90, 30, 7},
    {"-180..179", -180, 1, 360, true, false, -60, 15, 9},
    {"-180..180", -180, 1, 361, true, true, -60, 15, 9},
    {"-180..180 by 7.5", -180, 7.5, 49, true, true, -45, 22.5, 5},
    {"0.5..359.5", 0.5, 1, 360, true, false, -89.5, 17.9, 11},
    {"-179.5..179.5", -179.5, 1, 360, true, false, -89.5, 17.9, 11},
    {"0..359.5", 0, 0.5, 720, true, false, -60, 15, 9},
    {"-180..179.5", -180, 0.5, 720, true, false, -60, 15, 9},
    {"20..60", 20, 2, 21, false, false, 10, 2, 11},
    {"-75..-30", -75, 1.5, 31, false, false, -20, 2, 11},
    {"285..330", 285, 1.5, 31, false, false, -20, 2, 11},
    {"170..200", 170, 1, 31, false, false, -70, 5, 15},
    {"-200..-170", -200, 1, 31, false, false, -70, 5, 15},
    {"-10..20", -10, 1, 31, false, false, 40, 0.5, 11},
    {"350..380", 350, 1, 31, false, false, 40, 0.5, 11},
};
static double coded(const layout& L, int a, int i, int j) {  // value stored at node (i,j) of level a
    if (L.dup && j == L.nlng - 1) j = 0;
    return -(double)(a * 8000 + (i * L.nlng + j) % 7919);
}
static const double times_[] = {15.25, 15.75, 46, 136.5, 320};
static const double depths_[] = {0, 10, 50, 125};
static const size_t NT = 5, NA = 4;

static void put_axis(netCDF::NcFile& f, const char* name, const std::vector<double>& v, netCDF::NcType type) {
    netCDF::NcDim d = f.addDim(name, v.size());
    f.addVar(name, type, d).putVar(v.data());
}
static std::vector<double> axis_of(double a, double d, int n) {
    std::vector<double> v(n);
    for (int i = 0; i < n; ++i) v[i] = a + d * i;
    return v;
}
static std::string bathy_file(int k) {
    static std::map<int, std::string> done;
    std::string& name = done[k];
    if (!name.empty()) return name;
    name = seq::scratch() + "/bathy" + std::to_string(k) + ".nc";
    const layout& L = layouts[k];
    netCDF::NcFile f(name, netCDF::NcFile::replace);
    netCDF::NcType axt = k % 2 ? netCDF::NcType(netCDF::ncDouble) : netCDF::NcType(netCDF::ncFloat);
    put_axis(f, k % 3 ? "lat" : "y", axis_of(L.lat0, L.dlat, L.nlat), axt);
    put_axis(f, k % 3 ? "lon" : "x", axis_of(L.lng0, L.dlng, L.nlng), axt);
    netCDF::NcType vt = k % 3 == 0 ? netCDF::NcType(netCDF::ncShort) : k % 3 == 1 ? netCDF::NcType(netCDF::ncFloat) : netCDF::NcType(netCDF::ncInt);
    std::vector<netCDF::NcDim> dims = {f.getDim(k % 3 ? "lat" : "y"), f.getDim(k % 3 ? "lon" : "x")};
    std::vector<double> v;
    for (int i = 0; i < L.nlat; ++i) for (int j = 0; j < L.nlng; ++j) v.push_back(coded(L, 0, i, j));
    f.addVar("alt", vt, dims).putVar(v.data());
    return name;
}
// bit 0: other 4-D variables present; bit 1: packed; bit 2: fill value
static std::string profile_file(int k, int opt) {
    static std::map<int, std::string> done;
    std::string& name = done[k * 8 + opt];
    if (!name.empty()) return name;
    name = seq::scratch() + "/prof" + std::to_string(k) + "_" + std::to_string(opt) + ".nc";
    const layout& L = layouts[k];
    netCDF::NcFile f(name, netCDF::NcFile::replace);
    put_axis(f, "time", std::vector<double>(times_, times_ + NT), netCDF::ncDouble);
    put_axis(f, "depth", std::vector<double>(depths_, depths_ + NA), netCDF::ncFloat);
    put_axis(f, "lat", axis_of(L.lat0, L.dlat, L.nlat), netCDF::ncFloat);
    put_axis(f, "lon", axis_of(L.lng0, L.dlng, L.nlng), netCDF::ncFloat);
    std::vector<netCDF::NcDim> dims = {f.getDim("time"), f.getDim("depth"), f.getDim("lat"), f.getDim("lon")};
    std::vector<double> v, w;
    for (size_t t = 0; t < NT; ++t) for (size_t a = 0; a < NA; ++a) for (int i = 0; i < L.nlat; ++i) for (int j = 0; j < L.nlng; ++j) {
        double x = coded(L, a, i, j) / 8.0 + 1.0 * t;
        w.push_back(x + 7);
        if ((opt & 4) && (i + (L.dup && j == L.nlng - 1 ? 0 : j) + (int)a) % 3 == 2) x = -32768;
        v.push_back(x);
    }
    netCDF::NcVar var = f.addVar("sea_temp", netCDF::ncDouble, dims);
    if (opt & 2) {
        var.putAtt("scale_factor", netCDF::ncDouble, 0.5);
        if (opt & 1) var.putAtt("add_offset", netCDF::ncFloat, 20.0f);
    } else if (opt == 1) {
        var.putAtt("add_offset", netCDF::ncDouble, 20.0);
    }
    if (opt & 4) var.putAtt("_FillValue", netCDF::ncDouble, -32768.0);
    var.putVar(v.data());
    if (opt & 1) {
        f.addVar("another", netCDF::ncDouble, dims).putVar(w.data());
        f.addVar("zSalinity", netCDF::ncFloat, dims).putVar(w.data());
    }
    return name;
}
static double unpack(int opt, double x) {
    if (opt & 2) return 0.5 * x + (opt & 1 ? 20.0 : 0.0);
    return opt == 1 ? x + 20.0 : x;
}

// ------------------------------------------------------------- window oracle
struct window { double south, north, west, east; };
struct grid_view {
    size_t n[2];
    const seq_vector* lat;
    const seq_vector* lng;
};
// Node of the file at a position, or -1.
static int node_lng(const layout& L, double deg) {
    for (int turn = -2; turn <= 2; ++turn) {
        double x = (deg + 360.0 * turn - L.lng0) / L.dlng, r = std::floor(x + 0.5);
        if (std::fabs(x - r) < 1e-4 && r >= 0 && r < L.nlng) return (int)r;
    }
    return -1;
}
static int node_lat(const layout& L, double deg) {
    double x = (deg - L.lat0) / L.dlat, r = std::floor(x + 0.5);
    return std::fabs(x - r) < 1e-4 && r >= 0 && r < L.nlat ? (int)r : -1;
}
// Checks both axes of a window, returns file nodes.
static bool axes_case(const layout& L, const window& w, const seq_vector& A, const seq_vector& B, std::vector<int>* I, std::vector<int>* J) {
    const double e = 1e-5;
    bool ok = true;
    for (size_t r = 0; r < A.size(); ++r) {
        I->push_back(node_lat(L, to_latitude(A[r])));
        if (I->back() < 0) ok = false;
        if (r && I->back() != (*I)[r - 1] + 1) ok = false;
    }
    seq::check(ok && A.size() > 0, "latitudes are rows of the file");
    if (!ok || !A.size()) return false;
    for (size_t c = 0; c < B.size(); ++c) {
        J->push_back(node_lng(L, to_degrees(B[c])));
        if (J->back() < 0) ok = false;
        if (c && !seq::near(to_degrees(B[c] - B[c - 1]), L.dlng, 0, e)) ok = false;
    }
    seq::check(ok && B.size() > 0, "longitudes are columns of the file");
    if (!ok || !B.size()) return false;
    // latitude coverage: every row inside of the window, at most a cell outside of it
    double a0 = to_latitude(A[0]), a1 = to_latitude(A[A.size() - 1]), top = L.lat0 + L.dlat * (L.nlat - 1);
    seq::check(a0 - L.dlat < L.lat0 - e || a0 <= w.south + e, "southern edge: %g starts at %g", w.south, a0);
    seq::check(a0 > w.south - L.dlat - e, "too far south: %g starts at %g", w.south, a0);
    seq::check(a1 + L.dlat > top + e || a1 + L.dlat > w.north - e, "northern edge: %g ends at %g", w.north, a1);
    seq::check(a1 < w.north + L.dlat + e, "too far north: %g ends at %g", w.north, a1);
    // longitude coverage, in the convention of the caller
    double b0 = to_degrees(B[0]), b1 = to_degrees(B[B.size() - 1]);
    seq::check(b0 > w.west - L.dlng - e || !L.global, "too far west: %g starts at %g", w.west, b0);
    seq::check(b1 < w.east + L.dlng + e, "too far east: %g ends at %g", w.east, b1);
    if (L.global) {
        seq::check(b0 <= w.west + e, "western edge: %g starts at %g", w.west, b0);
        seq::check(b1 + L.dlng > w.east - e || b1 - b0 > 360 - 1.001 * L.dlng, "eastern edge: %g ends at %g", w.east, b1);
    } else {
        for (int turn = -1; turn <= 1; ++turn) for (int j = 0; j < L.nlng; ++j) {
            double x = L.lng0 + L.dlng * j + 360.0 * turn;
            if (x < w.west - e || x > w.east + e) continue;
            seq::check(x > b0 - e && x < b1 + e, "column %g of [%g,%g] missing: [%g,%g]", x, w.west, w.east, b0, b1);
        }
        seq::check(b0 > w.west - L.dlng - e, "too far west: %g starts at %g", w.west, b0);
    }
    return true;
}
// Number of separate pieces of the file inside of the window.
static int pieces(const layout& L, const window& w) {
    int n = 0;
    for (int turn = -2; turn <= 2; ++turn) {
        double a = L.lng0 + 360.0 * turn, b = a + L.dlng * (L.nlng - 1);
        if (a <= w.east && b >= w.west) ++n;
    }
    return n;
}
static bool usable(const layout& L, const window& w) {
    double top = L.lat0 + L.dlat * (L.nlat - 1);
    if (w.north < L.lat0 || w.south > top) return false;
    if (w.east > 360.0) return L.global ? w.west >= 0 && w.east < 540 : false;
    if (L.global) return true;
    return pieces(L, w) == 1;
}
template <class F>
static void each_window(const layout& L, int every, F f) {
    static const double wests[] = {-180, -179.75, -179.5, -150.25, -90, -75.5, -40, -10.5, -1, -0.25, 0, 0.25, 0.75, 1, 25, 44.5, 90, 150.5, 172, 178.75, 179.5, 180, 181.25, 195, 270.75, 290, 300.5, 340, 355.25, 359, 359.75};
    static const double widths[] = {0, 0.25, 1, 2.75, 15, 40.5, 90, 180.25, 300, 359, 360};
    static const double souths[] = {-90, -62.5, -17.9, -15, 0, 14, 40.25};
    static const double heights[] = {0, 1, 15, 37.5, 180};
    int k = 0;
    for (double we : wests) for (double wi : widths) for (double so : souths) for (double he : heights) {
        ++k;
        if (so + he > 90) continue;
        if (every > 1 && (he == 180 || so == 0) && wi > 50) continue;
        if (k % every) continue;
        window w = {so, so + he, we, we + wi};
        if (usable(L, w)) f(w);
    }
}

SEQ_SECTION(bathy, "bathymetry windows", "every file layout x western edge x width x southern edge x height") {
    for (int k = 0; k < (int)(sizeof layouts / sizeof *layouts); ++k) {
        const layout& L = layouts[k];
        each_window(L, seq::thorough() ? 1 : 3, [&](const window& w) {
            if (!seq::next("%s lat %g..%g lng %g..%g", L.name, w.south, w.north, w.west, w.east)) return;
            double R = k % 2 ? 0.0 : 6371000.0;
            netcdf_bathy g(bathy_file(k).c_str(), w.south, w.north, w.west, w.east, R);
            std::vector<int> I, J;
            if (!axes_case(L, w, g.axis(0), g.axis(1), &I, &J)) return;
            bool ok = true;
            for (size_t r = 0; r < I.size(); ++r) for (size_t c = 0; c < J.size(); ++c) {
                size_t i[2] = {r, c};
                if (g.data(i) != coded(L, 0, I[r], J[c]) + R) ok = false;
            }
            seq::check(ok, "depth differs from the file");
            seq::observe("%zu %zu %d %d", I.size(), J.size(), I[0], J[0]);
        });
    }
}

SEQ_SECTION(profile, "profile windows", "every file layout x window x packing x date x variable name") {
    static const double dates[] = {-100, 15.25, 15.4, 15.6, 16, 40, 100, 229, 1000};
    static const int nearest[] = {0, 0, 0, 1, 1, 2, 3, 4, 4};
    int q = 0;
    for (int k = 0; k < (int)(sizeof layouts / sizeof *layouts); ++k) {
        const layout& L = layouts[k];
        each_window(L, seq::thorough() ? 2 : 5, [&](const window& w) {
            int opt = (++q) % 8, d = q % 9, var = (opt & 1) ? q / 8 % 4 : q / 8 % 2;
            if (!seq::thorough() && w.east - w.west > 100 && L.nlng > 400) return;
            if (!seq::next("%s lat %g..%g lng %g..%g packing %d date %g name %d", L.name, w.south, w.north, w.west, w.east, opt, dates[d], var)) return;
            const char* name = var == 0 ? "sea_temp" : var == 1 ? "TEMP" : var == 2 ? "sALin" : nullptr;
            netcdf_profile g(profile_file(k, opt).c_str(), dates[d], w.south, w.north, w.west, w.east, name);
            const seq_vector& D = g.axis(0);
            seq::check(D.size() == NA, "depths");
            if (D.size() != NA) return;
            bool ok = true;
            for (size_t a = 0; a < NA; ++a) ok = ok && D[a] == wposition::earth_radius - depths_[a];
            seq::check(ok, "depth axis");
            std::vector<int> I, J;
            if (!axes_case(L, w, g.axis(1), g.axis(2), &I, &J)) return;
            ok = true;
            for (size_t a = 0; a < NA; ++a) for (size_t r = 0; r < I.size(); ++r) for (size_t c = 0; c < J.size(); ++c) {
                size_t i[3] = {a, r, c};
                double x = coded(L, a, I[r], J[c]) / 8.0 + nearest[d], y = g.data(i);
                bool gone = (opt & 4) && (I[r] + (L.dup && J[c] == L.nlng - 1 ? 0 : J[c]) + (int)a) % 3 == 2;
                bool other = var == 2 || (var == 3 && false);
                if (var == 3) {  // the first variable of the file in whichever order is acceptable
                    if (std::isnan(y) ? gone : std::fabs(y - unpack(opt, x)) < 1e-9 || y == x + 7) continue;
                    ok = false;
                } else if (other) ok = ok && y == x + 7;
                else if (gone) ok = ok && std::isnan(y);
                else ok = ok && std::fabs(y - unpack(opt, x)) < 1e-9;
            }
            seq::check(ok, "value differs from the file");
            seq::observe("%zu %zu %d %d %d", I.size(), J.size(), I[0], J[0], opt);
        });
    }
    for (int k : {0, 10}) for (int opt = 0; opt < 8; ++opt) {
        if (!seq::next("names %d %d", k, opt)) continue;
        const layout& L = layouts[k];
        bool thrown = false;
        try { netcdf_profile g(profile_file(k, opt).c_str(), 0, L.lat0, L.lat0 + L.dlat, L.lng0, L.lng0 + L.dlng, "density"); } catch (const std::invalid_argument&) { thrown = true; }
        seq::check(thrown, "unknown variable");
        thrown = false;
        try { netcdf_bathy g(profile_file(k, opt).c_str(), L.lat0, L.lat0 + L.dlat, L.lng0, L.lng0 + L.dlng); } catch (const std::invalid_argument&) { thrown = true; }
        seq::check(thrown, "no bathymetry in the file");
        thrown = false;
        try { netcdf_profile g(bathy_file(k).c_str(), 0, L.lat0, L.lat0 + L.dlat, L.lng0, L.lng0 + L.dlng); } catch (const std::invalid_argument&) { thrown = true; }
        seq::check(thrown, "no profile in the file");
        seq::observe("%d", thrown);
    }
}

// ------------------------------------------------------------- missing values
struct mask_world {
    std::vector<int> valid;  // number of valid levels of every column
    size_t na, ni, nj;
};
static double level_value(int pattern, size_t a, size_t i, size_t j) {
    switch (pattern) {
        case 0: return 20.0 - 3.0 * a;
        case 1: return 10.0 + 2.0 * i - 5.0 * j - (1.0 + i + 3.0 * j) * a + 0.5 * a * a;
        default: return -4.0 + ((a * 7 + i * 5 + j * 3) % 6);
    }
}
static const double deep_[] = {0, 10, 40, 100, 150, 400};
static std::string fill_file(const std::string& key, const std::vector<mask_world>& worlds, int pattern) {
    static std::map<std::string, std::string> done;
    std::string& name = done[key];
    if (!name.empty()) return name;
    name = seq::scratch() + "/fill" + key + ".nc";
    const mask_world& w0 = worlds[0];
    netCDF::NcFile f(name, netCDF::NcFile::replace);
    put_axis(f, "time", axis_of(0, 1, worlds.size()), netCDF::ncDouble);
    put_axis(f, "depth", std::vector<double>(deep_, deep_ + w0.na), netCDF::ncDouble);
    put_axis(f, "lat", axis_of(10, 1, w0.ni + 1), netCDF::ncDouble);
    put_axis(f, "lon", axis_of(20, 1, w0.nj + 1), netCDF::ncDouble);
    std::vector<netCDF::NcDim> dims = {f.getDim("time"), f.getDim("depth"), f.getDim("lat"), f.getDim("lon")};
    std::vector<double> v;
    for (const mask_world& w : worlds) for (size_t a = 0; a < w.na; ++a) for (size_t i = 0; i <= w.ni; ++i) for (size_t j = 0; j <= w.nj; ++j)
        v.push_back(i == w.ni || j == w.nj ? 1e5 : (int)a < w.valid[i * w.nj + j] ? level_value(pattern, a, i, j) : -999.0);
    netCDF::NcVar var = f.addVar("t", netCDF::ncDouble, dims);
    var.putAtt("_FillValue", netCDF::ncDouble, -999.0);
    var.putVar(v.data());
    return name;
}
// What filling promises about a grid, given what was valid before.
template <class V>
static void filled_case(const gen_grid<3>& g, size_t na, size_t ni, size_t nj, V value, const std::vector<int>& valid, const double* dep) {
    auto at = [&](size_t a, size_t i, size_t j) { size_t x[3] = {a, i, j}; return g.data(x); };
    int deepest = *std::max_element(valid.begin(), valid.end());
    for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) {
        int n = valid[i * nj + j];
        for (size_t a = 0; a < na; ++a) {
            double x = at(a, i, j);
            seq::check(!std::isnan(x) && !std::isinf(x), "not a number remains");
            if ((int)a < n) { seq::check(x == value(a, i, j), "valid data changed"); continue; }
            double lo = 1e300, hi = -1e300;
            if (a == 0 || (int)a < deepest) {
                for (size_t p = 0; p < ni; ++p) for (size_t q = 0; q < nj; ++q) if ((int)a < valid[p * nj + q]) {
                    double y = a == 0 ? value(0, p, q) : (value(a, p, q) - value(a - 1, p, q)) / (dep[a] - dep[a - 1]);
                    lo = std::min(lo, y);
                    hi = std::max(hi, y);
                }
                double y = a == 0 ? x : (x - at(a - 1, i, j)) / (dep[a] - dep[a - 1]);
                seq::check(y >= lo - 1e-9 && y <= hi + 1e-9, a == 0 ? "surface not an average" : "gradient not an average");
            } else {
                double up = a >= 2 ? (at(a - 1, i, j) - at(a - 2, i, j)) / (dep[a - 1] - dep[a - 2]) : 0.0;
                double y = (x - at(a - 1, i, j)) / (dep[a] - dep[a - 1]);
                seq::check(seq::near(y, up / 2, 1e-9, 1e-9), "gradient does not taper");
            }
        }
    }
}
SEQ_SECTION(fill, "missing values", "every combination of valid depths of the columns x data pattern") {
    struct shape { size_t na, ni, nj; int step; };
    static const shape shapes[] = {{4, 1, 2, 1}, {5, 1, 3, 1}, {4, 2, 2, 1}, {6, 3, 1, 1}, {3, 2, 3, 3}, {6, 2, 2, 2}, {4, 3, 3, 41}};
    for (const shape& s : shapes) {
        std::vector<mask_world> worlds;
        size_t total = 1, base = s.na + 1;
        for (size_t k = 0; k < s.ni * s.nj; ++k) total *= base;
        for (size_t c = 0; c < total; c += seq::thorough() ? (s.step + 6) / 7 : s.step) {
            mask_world w;
            w.na = s.na; w.ni = s.ni; w.nj = s.nj;
            size_t x = c;
            bool any = false;
            for (size_t k = 0; k < s.ni * s.nj; ++k) { w.valid.push_back(x % base); any = any || x % base; x /= base; }
            if (any) worlds.push_back(w);
        }
        if (s.step > 1 && !seq::thorough() && worlds.size() > 1500) {
            std::vector<mask_world> few;
            for (size_t c = 0; c < worlds.size(); c += worlds.size() / 1500 + 1) few.push_back(worlds[c]);
            worlds.swap(few);
        }
        for (int pattern = 0; pattern < 3; ++pattern) for (size_t c = 0; c < worlds.size(); ++c) {
            if (!seq::next("%zux%zux%zu pattern %d mask %zu", s.na, s.ni, s.nj, pattern, c)) continue;
            std::string key = std::to_string(s.na) + "_" + std::to_string(s.ni) + "_" + std::to_string(s.nj) + "_" + std::to_string(pattern);
            netcdf_profile g(fill_file(key, worlds, pattern).c_str(), (double)c, 10, 9.0 + s.ni, 20, 19.0 + s.nj);
            const mask_world& w = worlds[c];
            seq::check(g.axis(1).size() == s.ni && g.axis(2).size() == s.nj, "window");
            if (g.axis(1).size() != s.ni || g.axis(2).size() != s.nj) continue;
            uint64_t h = 0;
            for (size_t a = 0; a < s.na; ++a) for (size_t i = 0; i < s.ni; ++i) for (size_t j = 0; j < s.nj; ++j) {
                size_t x[3] = {a, i, j};
                bool there = (int)a < w.valid[i * s.nj + j];
                seq::check(there ? g.data(x) == level_value(pattern, a, i, j) : std::isnan(g.data(x)), "before");
            }
            g.fill_missing();
            filled_case(g, s.na, s.ni, s.nj, [&](size_t a, size_t i, size_t j) { return level_value(pattern, a, i, j); }, w.valid, deep_);
            for (size_t a = 0; a < s.na; ++a) { size_t x[3] = {a, 0, 0}; h = seq::mix(h, (uint64_t)(int64_t)(g.data(x) * 1e6)); }
            seq::observe_hash(h);
        }
    }
    // closer columns have more weight
    for (int gap = 2; gap <= 6; ++gap) for (int hole = 1; hole < gap; ++hole) {
        if (!seq::next("weights %d %d", gap, hole)) continue;
        std::vector<mask_world> worlds(1);
        worlds[0].na = 3; worlds[0].ni = 1; worlds[0].nj = gap + 1;
        worlds[0].valid.assign(gap + 1, 0);
        worlds[0].valid[0] = worlds[0].valid[gap] = 3;
        netcdf_profile g(fill_file("w" + std::to_string(gap), worlds, 1).c_str(), 0, 10, 10, 20, 20 + gap);
        g.fill_missing();
        size_t x[3] = {0, 0, (size_t)hole};
        double a = level_value(1, 0, 0, 0), b = level_value(1, 0, 0, gap), f = (g.data(x) - a) / (b - a);
        if (2 * hole == gap) seq::check(seq::near(f, 0.5), "equal weights");
        else seq::check(2 * hole < gap ? f < 0.5 : f > 0.5, "closer point has more weight");
        seq::observe("%.3f", f);
    }
}

// ------------------------------------------------------------ world ocean atlas
static std::string woa_file(bool shallow, int variant) {
    static std::map<int, std::string> done;
    std::string& name = done[shallow + 2 * variant];
    if (!name.empty()) return name;
    name = seq::scratch() + "/woa" + std::to_string(shallow) + std::to_string(variant) + ".nc";
    static const std::vector<double> monthly = {15, 46, 75, 106, 136, 167, 197, 228, 259, 289, 320, 350}, seasonal = {46, 136, 228, 320}, yearly = {182};
    const std::vector<double>& t = shallow ? monthly : variant % 2 ? yearly : seasonal;
    size_t na = shallow ? 3 : 6;
    netCDF::NcFile f(name, netCDF::NcFile::replace);
    put_axis(f, "time", t, netCDF::ncFloat);
    put_axis(f, "depth", std::vector<double>(deep_, deep_ + na), netCDF::ncFloat);
    put_axis(f, "lat", axis_of(-2.5, 1, 6), netCDF::ncFloat);
    put_axis(f, "lon", axis_of(0.5, 1, 360), netCDF::ncFloat);
    std::vector<netCDF::NcDim> dims = {f.getDim("time"), f.getDim("depth"), f.getDim("lat"), f.getDim("lon")};
    std::vector<float> v;
    for (size_t k = 0; k < t.size(); ++k) for (size_t a = 0; a < na; ++a) for (int i = 0; i < 6; ++i) for (int j = 0; j < 360; ++j) {
        bool land = variant >= 2 && (int)a >= 6 - (i + j) % 6;
        v.push_back(land ? 1e20f : (float)((shallow ? 1000 : 0) + 64.0 * k + a + 0.125 * i + 0.001 * j));
    }
    netCDF::NcVar var = f.addVar("t_an", netCDF::ncFloat, dims);
    var.putAtt("_FillValue", netCDF::ncFloat, 1e20f);
    var.putVar(v.data());
    return name;
}
SEQ_SECTION(woa, "shallow over deep", "every month x with or without shallow data x window x seasonal or yearly deep data x land") {
    static const int season[] = {0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3};
    struct { double s, n, w, e; int i0, j0, ni, nj; } wins[] = {{-1.5, 0.5, 10.5, 13.5, 1, 10, 3, 4}, {-2.5, 2.5, -2.5, 1.5, 0, 357, 6, 5}, {0.5, 0.5, 359.5, 359.5, 3, 359, 1, 1}, {-0.5, 1.5, -179.5, -176.5, 2, 180, 3, 4}};
    for (int month = 1; month <= 12; ++month) for (int sh = 0; sh < 2; ++sh) for (int v = 0; v < 4; ++v) for (auto& w : wins) {
        if (!seq::next("month %d shallow %d variant %d west %g", month, sh, v, w.w)) continue;
        std::string d = woa_file(false, v), s = woa_file(true, v);
        netcdf_woa g(d.c_str(), sh ? s.c_str() : nullptr, month, w.s, w.n, w.w, w.e);
        seq::check((int)g.axis(0).size() == 6 && (int)g.axis(1).size() == w.ni && (int)g.axis(2).size() == w.nj, "window");
        if ((int)g.axis(0).size() != 6 || (int)g.axis(1).size() != w.ni || (int)g.axis(2).size() != w.nj) continue;
        std::vector<int> valid;
        for (int i = 0; i < w.ni; ++i) for (int j = 0; j < w.nj; ++j) valid.push_back(v >= 2 ? 6 - (w.i0 + i + (w.j0 + j) % 360) % 6 : 6);
        int kd = v % 2 ? 0 : season[month - 1];
        auto value = [&](size_t a, size_t i, size_t j) {
            bool top = sh && a < 3;
            return (double)(float)((top ? 1000 : 0) + 64.0 * (top ? month - 1 : kd) + a + 0.125 * (w.i0 + i) + 0.001 * ((w.j0 + j) % 360));
        };
        filled_case(g, 6, w.ni, w.nj, value, valid, deep_);
        for (int i = 0; i < w.ni; ++i) for (int j = 0; j < w.nj; ++j) {  // interpolation passes through the points
            double x[3] = {wposition::earth_radius - deep_[1], g.axis(1)[i], g.axis(2)[j]};
            size_t k[3] = {1, (size_t)i, (size_t)j};
            seq::check(seq::near(g.interpolate(x), g.data(k), 1e-9, 1e-9), "interpolated at a point");
        }
        seq::observe("%d %d %d %g", month, sh, v, w.w);
    }
}

// ---------------------------------------------------------------- whole grids
static const std::vector<double> coards_axes[] = {{5}, {1, 2}, {0, 10, 20, 30}, {1, 10, 100, 1000}, {0, 5, 7, 30, 31}, {-4, -2, 0}, {100, 50, 10}};
template <int N>
static void coards_case(const std::vector<int>& pick, int opt) {
    std::string name = seq::scratch() + "/coards.nc";
    std::vector<std::vector<double>> ax;
    size_t total = 1;
    for (int p : pick) { ax.push_back(coards_axes[p]); total *= ax.back().size(); }
    {
        netCDF::NcFile f(name, netCDF::NcFile::replace);
        std::vector<netCDF::NcDim> dims;
        for (int n = 0; n < N; ++n) {
            std::string s = "axis" + std::to_string(n);
            put_axis(f, s.c_str(), ax[n], netCDF::ncDouble);
            dims.push_back(f.getDim(s));
        }
        std::vector<double> v(total), u(total);
        for (size_t k = 0; k < total; ++k) { v[k] = 3.25 * k - 7; u[k] = -v[k]; if ((opt & 1) && k % 3 == 1) v[k] = -99.5; if ((opt & 4) && k % 4 == 2) v[k] = 1e6; }
        f.addVar("Grid", netCDF::ncDouble, dims).putVar(u.data());
        netCDF::NcVar var = f.addVar("grid", netCDF::ncDouble, dims);
        if (opt & 1) var.putAtt("missing_value", netCDF::ncDouble, -99.5);
        if (opt & 4) var.putAtt("_FillValue", netCDF::ncDouble, 1e6);
        var.putVar(v.data());
    }
    netCDF::NcFile f(name, netCDF::NcFile::read);
    netcdf_coards<N> g(f, "grid", (opt & 2) != 0);
    bool ok = true;
    for (int n = 0; n < N; ++n) {
        ok = ok && g.axis(n).size() == ax[n].size();
        for (size_t k = 0; ok && k < ax[n].size(); ++k) ok = seq::near(g.axis(n)[k], ax[n][k], 1e-3, 1e-12);
    }
    seq::check(ok, "axes");
    if (!ok) return;
    for (size_t k = 0; k < total; ++k) {
        size_t x[N], r = k;
        for (int n = N - 1; n >= 0; --n) { x[n] = r % ax[n].size(); r /= ax[n].size(); }
        double y = g.data(x);
        if ((opt & 4) && k % 4 == 2) ok = ok && y == 1e6;
        else if ((opt & 1) && k % 3 == 1) ok = ok && ((opt & 2) && (opt & 4) ? y == 1e6 : std::isnan(y));
        else ok = ok && y == 3.25 * k - 7;
    }
    seq::check(ok, "values");
    seq::observe("%zu %d", total, opt);
}
SEQ_SECTION(coards, "whole grids", "every combination of axes x missing value x fill value") {
    for (int opt = 0; opt < 8; ++opt) for (int a = 0; a < 7; ++a) {
        if (seq::next("1-D axes %d options %d", a, opt)) coards_case<1>({a}, opt);
        for (int b = 0; b < 7; ++b) {
            if (seq::next("2-D axes %d %d options %d", a, b, opt)) coards_case<2>({a, b}, opt);
            for (int c = 0; c < 7; ++c) if (seq::next("3-D axes %d %d %d options %d", a, b, c, opt)) coards_case<3>({a, b, c}, opt);
        }
    }
}

SEQ_SECTION(arc, "ASCII bathymetry", "every size x corner x cell size x layout of the text") {
    static const double corners[][2] = {{-80.25, 26}, {0, 0}, {179, -60}, {-170, 80}};
    for (int nr = 1; nr <= 4; ++nr) for (int nc = 1; nc <= 4; ++nc) for (auto& k : corners) for (double cell : {0.5, 1.0, 0.00083333}) for (int style = 0; style < 3; ++style) {
        if (!seq::next("%dx%d at %g %g by %g style %d", nr, nc, k[0], k[1], cell, style)) continue;
        std::string name = seq::scratch() + "/arc.asc";
        std::ofstream o(name);
        o.precision(12);
        o << "NCOLS   " << nc << "\nNROWS  " << nr << (style == 1 ? "\r\nXLLCENTER " : "\nXLLCENTER  ") << k[0] << "\nYLLCENTER " << k[1] << "\nCELLSIZE " << cell << "\nNODATA_VALUE  999999\n";
        auto z = [&](int r, int c) { return 6.0 - 100.25 * r + 3 * c * c; };
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c) o << (c ? (style == 2 ? "\t" : "     ") : " ") << z(r, c) << (c + 1 == nc || style == 1 ? "\n" : "");
        o.close();
        ascii_arc_bathy g(name.c_str());
        bool ok = (int)g.axis(0).size() == nr && (int)g.axis(1).size() == nc;
        seq::check(ok, "size");
        if (!ok) continue;
        for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c) {
            size_t x[2] = {(size_t)r, (size_t)c};
            ok = ok && seq::near(to_latitude(g.axis(0)[r]), k[1] + cell * (nr - 1 - r), 1e-12, 1e-9) && seq::near(to_degrees(g.axis(1)[c]), k[0] + cell * c, 1e-12, 1e-9);
            ok = ok && seq::near(g.data(x) - wposition::earth_radius, z(r, c), 1e-7, 1e-7);
            double at[2] = {g.axis(0)[r], g.axis(1)[c]};
            if (nr > 1 && nc > 1) ok = ok && seq::near(g.interpolate(at), g.data(x), 1e-12);
        }
        seq::check(ok, "first row is the northernmost, first column the westernmost");
        seq::observe("%d %d", nr, nc);
    }
}

SEQ_SECTION(text, "ASCII profiles", "every number of points x separator x line end x number format") {
    static const char* seps[] = {",", " ", "\t", ", ", " ,", " , ", ",\t", "   "};
    static const char* ends[] = {"\n", "\r\n", " \n", "\n\n"};
    for (int n = 1; n <= 6; ++n) for (const char* s : seps) for (const char* e : ends) for (int fmt = 0; fmt < 3; ++fmt) for (int last = 0; last < 3; ++last) {
        if (!seq::next("%d points, separator '%s', end %zu '%c', format %d, last %d", n, s, std::string(e).size(), e[0] == '\n' ? 'n' : e[0], fmt, last)) continue;
        static const double dep[] = {0, 10, 35.5, 100, 1000, 5000}, spd[] = {1500, 1502.25, 1480.5, -1, 1e3, 1550};
        std::string name = seq::scratch() + "/profile.csv";
        std::ofstream o(name);
        for (int k = 0; k < n; ++k) {
            char b[80];
            snprintf(b, sizeof b, fmt == 0 ? "%g%s%g" : fmt == 1 ? " %.3f%s%.6e" : "%8.2f%s%+.4f", dep[k], s, spd[k]);
            o << b;
            if (k + 1 < n || last == 0) o << e;
            else if (last == 2) o << e << e << "\n";
        }
        o.close();
        ascii_profile g(name.c_str());
        bool ok = (int)g.axis(0).size() == n;
        seq::check(ok, "number of points %zu", g.axis(0).size());
        if (!ok) continue;
        for (int k = 0; k < n; ++k) {
            size_t x[1] = {(size_t)k};
            double v = fmt == 2 ? std::floor(spd[k] * 1e4 + 0.5) / 1e4 : spd[k];
            ok = ok && seq::near(g.axis(0)[k], wposition::earth_radius - dep[k], 1e-12) && seq::near(g.data(x), v, 1e-9);
            double at[1] = {g.axis(0)[k]};
            if (n > 2) ok = ok && seq::near(g.interpolate(at), v, 1e-9);
        }
        if (n > 2) {  // values are held beyond the ends
            double at[1] = {wposition::earth_radius + 100.0};
            ok = ok && seq::near(g.interpolate(at), 1500, 1e-9);
        }
        seq::check(ok, "points");
        seq::observe("%d", n);
    }
}
