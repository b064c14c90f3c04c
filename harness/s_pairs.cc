// C12: the pairs of the sensor manager are a function of the managed sensors,
// after every sequence of additions and removals; a pair's direct paths describe
// the way from its source to its receiver whichever end computed them.
#include "s_sys.h"

struct config { bool src, rcv; int group; double min_range; bool reverb; };
// every behaviour of a sensor that decides about pairs
static const config configs[] = {
    {true, true, 0, 0, true},   {true, true, 1, 0, true},  {true, true, 1, 100, false}, {true, false, 1, 0, true},
    {false, true, 1, 0, true},  {false, true, 2, 0, true}, {true, true, 2, 0, false},   {false, false, 1, 0, true},
    {true, false, 0, 0, false},
};
static const int NC = sizeof configs / sizeof *configs;
static seq_vector::csptr freq() { static seq_vector::csptr f(new seq_linear(1000.0, 100.0, 1)); return f; }

struct ears : public update_listener<sensor_pair> {
    std::multiset<const sensor_pair*> heard;
    void notify_update(const sensor_pair* p) override { heard.insert(p); }
};
struct world {
    std::vector<config> cfg;
    std::vector<sensor_model::sptr> s;
    std::vector<int> key;
    std::vector<char> in;
    ears ear[3];
    std::map<std::pair<int, int>, int> pairs;   // (source, receiver) -> listener of the add that made it
    world(const std::vector<config>& c, const std::vector<int>& keys) : cfg(c), key(keys), in(c.size(), 0) {
        sensor_manager::reset();
        sensor_manager::instance()->frequencies(freq());
        bp_model::csptr omni(new bp_omni());
        for (size_t i = 0; i < c.size(); ++i) {
            sensor_model::sptr m(new sensor_model(keys[i], "s" + std::to_string(i)));
            m->time_maximum(1.0);
            if (c[i].src) m->src_beam(0, omni);
            if (c[i].rcv) m->rcv_beam(0, omni);
            m->multistatic(c[i].group);
            m->min_range(c[i].min_range);
            m->compute_reverb(c[i].reverb);
            s.push_back(m);
        }
    }
    ~world() { s.clear(); sensor_manager::reset(); }
    bool paired(int a, int b) const {
        if (!in[a] || !in[b] || !cfg[a].src || !cfg[b].rcv) return false;
        return a == b ? cfg[a].min_range < 1e-6 : cfg[a].group > 0 && cfg[a].group == cfg[b].group;
    }
    void add(int i, int who) {
        auto* m = sensor_manager::instance();
        bool thrown = false;
        try { m->add_sensor(s[i], who < 0 ? nullptr : &ear[who]); } catch (const std::exception&) { thrown = true; }
        seq::check(thrown == (in[i] != 0), thrown ? "sensor %d can not be added" : "sensor %d added twice", i);
        if (thrown) return;
        in[i] = 1;
        for (size_t j = 0; j < s.size(); ++j) {
            if (paired(i, j)) pairs[{i, (int)j}] = who;
            if (paired(j, i)) pairs[{(int)j, i}] = who;
        }
    }
    void remove(int i, int who) {
        sensor_manager::instance()->remove_sensor(s[i], who < 0 ? nullptr : &ear[who]);
        in[i] = 0;
        for (auto it = pairs.begin(); it != pairs.end();) if (it->first.first == i || it->first.second == i) it = pairs.erase(it); else ++it;
    }
    void compare() {
        auto* m = sensor_manager::instance();
        auto list = m->list();
        seq::check(list.size() == pairs.size(), "%d pairs instead of %d", (int)list.size(), (int)pairs.size());
        for (auto& p : pairs) {
            int a = p.first.first, b = p.first.second;
            std::string hash = std::to_string(key[a]) + "_" + std::to_string(key[b]);
            auto q = m->find(hash);
            seq::check(q != nullptr, "no pair %s", hash.c_str());
            seq::check(q->keyID() == hash && q->hash_key() == hash && sensor_pair::generate_hash_key(key[a], key[b]) == hash, "key of pair %s", hash.c_str());
            seq::check(q->source() == s[a] && q->receiver() == s[b], "ends of pair %s", hash.c_str());
            seq::check(q->complement(s[a]) == s[b] && q->complement(s[b]) == s[a], "complement in pair %s", hash.c_str());
            seq::check(q->compute_reverb() == (cfg[a].reverb && cfg[b].reverb), "reverberation of pair %s", hash.c_str());
            int n = 0;
            for (auto& l : list) if (l == q) ++n;
            seq::check(n == 1, "pair %s listed %d times", hash.c_str(), n);
            for (auto& e : ear) e.heard.clear();
            q->notify_update(q.get());
            for (int w = 0; w < 3; ++w) seq::check(ear[w].heard.size() == (size_t)(p.second == w), "pair %s calls listener %d %d times", hash.c_str(), w, (int)ear[w].heard.size());
        }
        for (size_t i = 0; i < s.size(); ++i) {
            std::multiset<std::string> fs, fr, ws, wr;
            for (auto& q : m->find_source(key[i])) fs.insert(q->keyID());
            for (auto& q : m->find_receiver(key[i])) fr.insert(q->keyID());
            for (auto& p : pairs) {
                std::string hash = std::to_string(key[p.first.first]) + "_" + std::to_string(key[p.first.second]);
                if (p.first.first == (int)i) ws.insert(hash);
                if (p.first.second == (int)i) wr.insert(hash);
            }
            seq::check(fs == ws, "find_source(%d) finds %d of %d", key[i], (int)fs.size(), (int)ws.size());
            seq::check(fr == wr, "find_receiver(%d) finds %d of %d", key[i], (int)fr.size(), (int)wr.size());
            seq::check(m->find_sensor(key[i]) == (in[i] ? s[i] : nullptr), "find_sensor(%d)", key[i]);
            seq::check(platform_manager::instance()->find(key[i]) == (in[i] ? s[i] : nullptr), "platform %d", key[i]);
        }
        size_t n = 0;
        for (char c : in) n += c;
        seq::check(platform_manager::instance()->list().size() == n, "%d platforms", (int)platform_manager::instance()->list().size());
        uint64_t h = 7;
        for (char c : in) h = seq::mix(h, c);
        for (auto& p : pairs) h = seq::mix(h, p.first.first * 64 + p.first.second * 8 + p.second + 1);
        seq::state(h);
        seq::observe("%s", pairs.empty() ? "-" : "");
        for (auto& p : pairs) seq::observe("%d_%d:%d ", p.first.first, p.first.second, p.second);
    }
};
// every program of add and remove of a length; pruned by nothing
static void programs(const std::vector<config>& cfg, const std::vector<int>& keys, int len, const char* what, int listeners) {
    int n = cfg.size(), ops = n * (listeners + 1);
    int total = 1;
    for (int i = 0; i < len; ++i) total *= ops;
    for (int c = 0; c < total; ++c) {
        if (!seq::next("%s program %d in base %d, %d operations", what, c, ops, len)) continue;
        world w(cfg, keys);
        int o = c;
        for (int k = 0; k < len; ++k, o /= ops) {
            int op = o % ops, i = op % n, v = op / n;
            if (v == listeners) w.remove(i, k % 2 ? 0 : -1); else w.add(i, listeners == 1 ? k % 3 : v - 1);
            seq::transition();
            w.compare();
        }
    }
}
SEQ_SECTION(one, "one sensor", "every configuration, every program of 4 operations") {
    for (int a = 0; a < NC; ++a) programs({configs[a]}, {7}, 4, ("config " + std::to_string(a)).c_str(), 3);
}
SEQ_SECTION(two, "two sensors", "every pair of configurations, every program of 4 (5) operations") {
    for (int a = 0; a < NC; ++a)
        for (int b = 0; b < NC; ++b) programs({configs[a], configs[b]}, {1, 11}, seq::thorough() ? 5 : 4, ("configs " + std::to_string(a) + " " + std::to_string(b)).c_str(), 1);
}
SEQ_SECTION(three, "three sensors", "every triple of configurations, add in every order and remove in every order") {
    int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int a = 0; a < NC; ++a)
        for (int b = 0; b < NC; ++b)
            for (int c = 0; c < NC; ++c)
                for (auto& x : orders)
                    for (int y = 0; y < 6; y += seq::thorough() ? 1 : 2) {
                        if (!seq::next("configs %d %d %d add %d%d%d remove order %d", a, b, c, x[0], x[1], x[2], y)) continue;
                        world w({configs[a], configs[b], configs[c]}, {1, 11, 111});
                        for (int k = 0; k < 3; ++k) { w.add(x[k], k); w.compare(); seq::transition(); }
                        for (int k = 0; k < 3; ++k) {
                            w.remove(orders[y][k], k - 1); w.compare(); seq::transition();
                            if (k == 0) { w.add(orders[y][k], 2); w.compare(); w.remove(orders[y][k], 1); w.compare(); seq::transition(2); }
                        }
                    }
}
SEQ_SECTION(four, "four sensors of one group", "every set of sources and receivers, add in every order of the first two") {
    for (int mask = 0; mask < 256; ++mask)
        for (int rot = 0; rot < 4; ++rot) {
            if (!seq::next("roles %02x rotation %d", mask, rot)) continue;
            std::vector<config> c;
            for (int i = 0; i < 4; ++i) c.push_back({(mask >> i & 1) != 0, (mask >> (4 + i) & 1) != 0, 3, i == 2 ? 50.0 : 0.0, i != 1});
            world w(c, {4, 3, 2, 1});
            for (int k = 0; k < 4; ++k) { w.add((k + rot) % 4, k % 3); w.compare(); }
            for (int k = 0; k < 4; ++k) { w.remove((k * 3 + rot) % 4, -1); w.compare(); }
        }
}
SEQ_SECTION(errors, "rejected sensors", "missing frequencies, missing time, automatic keys") {
    for (int f = 0; f < 3; ++f)
        for (int t = 0; t < 2; ++t)
            for (int k = 0; k < 2; ++k) {
                if (!seq::next("frequencies %d time %d key %d", f, t, k)) continue;
                sensor_manager::reset();
                auto* m = sensor_manager::instance();
                if (f == 1) m->frequencies(seq_vector::csptr(new seq_linear(1000.0, 1.0, 0)));
                if (f == 2) m->frequencies(freq());
                sensor_model::sptr s(new sensor_model(k ? 5 : 0, "s"));
                bp_model::csptr omni(new bp_omni());
                s->src_beam(0, omni); s->rcv_beam(0, omni);
                if (t) s->time_maximum(2.0);
                int thrown = 0;
                try { m->add_sensor(s); }
                catch (const sensor_manager::freq_missing&) { thrown = 1; }
                catch (const sensor_manager::time_maximum_missing&) { thrown = 2; }
                int want = f < 2 ? 1 : !t ? 2 : 0;
                seq::check(thrown == want, "exception %d instead of %d", thrown, want);
                bool in = want == 0;
                seq::check(m->list().size() == (size_t)in && platform_manager::instance()->list().size() == (size_t)in, "rejected sensor is managed");
                if (in) {
                    seq::check(s->keyID() != 0 && m->find_sensor(s->keyID()) == s, "key %d", (int)s->keyID());
                    if (!k) {
                        sensor_model::sptr z(new sensor_model(0, "z"));
                        z->time_maximum(1);
                        m->add_sensor(z);
                        seq::check(z->keyID() != s->keyID() && m->find_sensor(z->keyID()) == z, "second automatic key %d", (int)z->keyID());
                    }
                }
                sensor_manager::reset();
            }
}

// ------------------------------------------------------- results of the pairs
static sensor_model::sptr node(int key, const wposition1& pos, bool src, bool rcv, bool reverb) {
    sensor_model::sptr s(new sensor_model(key, "node", 0, pos));
    bp_model::csptr omni(new bp_omni());
    if (src) s->src_beam(0, omni);
    if (rcv) s->rcv_beam(0, omni);
    s->multistatic(1);
    s->compute_reverb(reverb);
    s->time_step(0.1);
    s->time_maximum(1.6);
    s->de_fan(seq_vector::csptr(new seq_linear(-60.0, 1.0, 60.0)));
    s->az_fan(seq_vector::csptr(new seq_linear(0.0, 5.0, 360.0)));
    return s;
}
static double wrap(double a) { return std::remainder(a, 360.0); }
SEQ_SECTION(paths, "direct paths of pairs", "every geometry, every order of updates: first direct path against straight line") {
    quiet();
    ocean_utils::make_iso(2000.0);
    double depth[][2] = {{-100, -100}, {-50, -400}, {-500, -120}};
    double bearing[] = {20, 110, 200, 290};
    for (auto& d : depth)
        for (double b : bearing)
            for (int order = 0; order < 6; ++order) {
                if (!seq::next("depths %g %g bearing %g updates %d", d[0], d[1], b, order)) continue;
                sensor_manager::reset();
                auto* m = sensor_manager::instance();
                m->frequencies(freq());
                double range = 1500.0, lat = 30.0, k = 1852.0 * 60.0;
                double dlat = range * std::cos(b * M_PI / 180) / k, dlon = range * std::sin(b * M_PI / 180) / k / std::cos((lat + dlat / 2) * M_PI / 180);
                auto src = node(1, wposition1(lat, -40.0, d[0]), true, false, false);
                auto rcv = node(2, wposition1(lat + dlat, -40.0 + dlon, d[1]), false, true, false);
                if (order % 2) { m->add_sensor(src); m->add_sensor(rcv); } else { m->add_sensor(rcv); m->add_sensor(src); }
                auto up = [&](const sensor_model::sptr& s, int n) { s->update(n, s->position(), orientation(), 0.0, platform_model::FORCE_UPDATE); idle(); };
                int who[6][3] = {{0, -1, -1}, {1, -1, -1}, {0, 1, -1}, {1, 0, -1}, {0, 1, 0}, {1, 0, 1}};
                auto p = m->find("1_2");
                seq::check(p != nullptr, "no pair");
                for (int i = 0; i < 3; ++i) {
                    if (who[order][i] < 0) break;
                    up(who[order][i] ? rcv : src, i + 1);
                    auto e = p->dirpaths();
                    seq::check(e != nullptr, "no direct paths after update %d", i);
                    seq::check(e->sourceID() == 1 && e->targetID(0, 0) == 2 && e->size1() == 1 && e->size2() == 1, "direct paths from %d to %d", (int)e->sourceID(), (int)e->targetID(0, 0));
                    wposition1 t = e->position(0, 0), r = rcv->position();
                    seq::check(std::fabs(t.latitude() - r.latitude()) < 1e-9 && std::fabs(wrap(t.longitude() - r.longitude())) < 1e-9 && std::fabs(t.altitude() - r.altitude()) < 1e-4, "direct paths end at %.6f %.6f %.2f", t.latitude(), t.longitude(), t.altitude());
                    const eigenray_model* best = nullptr;
                    for (auto& ray : e->eigenrays(0, 0)) if (ray->surface == 0 && ray->bottom == 0) best = ray.get();
                    seq::check(best != nullptr, "no direct path among %d", (int)e->eigenrays(0, 0).size());
                    double slant = src->position().distance(rcv->position());
                    double de = std::asin((d[1] - d[0]) / slant) * 180 / M_PI;
                    seq::check(seq::near(best->travel_time, slant / 1500.0, 2e-3), "travel time %g instead of %g", best->travel_time, slant / 1500.0);
                    seq::check(std::fabs(best->source_de - de) < 0.3 && std::fabs(best->target_de - de) < 0.3, "elevation %g and %g instead of %g", best->source_de, best->target_de, de);
                    seq::check(std::fabs(wrap(best->source_az - b)) < 0.5 && std::fabs(wrap(best->target_az - b)) < 0.5, "azimuth %g and %g instead of %g", best->source_az, best->target_az, b);
                    seq::check(std::fabs(best->intensity(0) - 20 * std::log10(slant)) < 0.5, "transmission loss %g instead of %g", best->intensity(0), 20 * std::log10(slant));
                    seq::observe("%.3f %.2f %.1f", best->travel_time, best->source_de, best->source_az);
                    seq::transition();
                }
                sensor_manager::reset();
            }
    thread_controller::reset();
}
