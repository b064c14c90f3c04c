// C07: the beams, steerings and schedule of a sensor behave like one atomic object.
#include <mc.h>
#include <usml/beampatterns/beampatterns.h>
#include <usml/sensors/sensors.h>
#include <usml/transmit/transmit.h>

#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

using namespace usml::sensors;

static bp_model::csptr pattern(int n) {
    static bp_model::csptr p[3] = {bp_model::csptr(new bp_omni()), bp_model::csptr(new bp_omni()), bp_model::csptr(new bp_omni())};
    return p[n];
}
static int pattern_no(const bp_model::csptr& q) { if (q == nullptr) return -1; for (int n = 0; n < 3; ++n) if (q == pattern(n)) return n; return 99; }
static bvector steer(int n) { return n == 0 ? bvector(1, 0, 0) : n == 1 ? bvector(0, 1, 0) : bvector(0, 0, 1); }
static int steer_no(const bvector& v) { return v.front() > 0.9 ? 0 : v.right() > 0.9 ? 1 : v.up() > 0.9 ? 2 : 99; }
static transmit_list schedule(int n) {
    transmit_list l;
    for (int i = 0; i < n; ++i) l.push_back(transmit_model::csptr(new transmit_cw("cw", 1.0 * n, 1000.0, i)));
    return l;
}
struct model { std::map<int, int> src, rcv, st; int sched{0}; };
static std::string model_apply(model& m, const std::string& op) {
    std::istringstream in(op); std::ostringstream out;
    std::string f; int k = 0, n = 0, s = 0; in >> f >> k >> n >> s;
    if (f == "src+") { m.src[k] = n; out << m.src.size(); }
    else if (f == "src0") m.src.clear();
    else if (f == "src?") out << (m.src.count(k) ? m.src[k] : -1);
    else if (f == "srcs") for (auto& p : m.src) out << p.first << " ";
    else if (f == "is_src") out << !m.src.empty();
    else if (f == "src#") out << m.src.size();
    else if (f == "rcv+") { m.rcv[k] = n; m.st[k] = s; out << m.rcv.size(); }
    else if (f == "rcv0") { m.rcv.clear(); m.st.clear(); }
    else if (f == "rcv?") out << (m.rcv.count(k) ? m.rcv[k] : -1);
    else if (f == "rcvs") for (auto& p : m.rcv) out << p.first << " ";
    else if (f == "is_rcv") out << !m.rcv.empty();
    else if (f == "rcv#") out << m.rcv.size();
    else if (f == "steer=") m.st[k] = n;
    else if (f == "steer?") out << (m.st.count(k) ? m.st[k] : 0);
    else if (f == "tx=") m.sched = k;
    else if (f == "tx?") out << m.sched;
    return out.str();
}
struct text {
    std::string s;
    text& operator<<(long v) { s += std::to_string(v); return *this; }
    text& operator<<(const char* v) { s += v; return *this; }
    std::string str() const { return s; }
};
static std::string run(sensor_model& m, const std::string& op) {
    // no iostreams here: their locale reference counts would add scheduling points
    char name[16]; int k = 0, n = 0, s = 0;
    sscanf(op.c_str(), "%15s %d %d %d", name, &k, &n, &s);
    const std::string f(name);
    text out;
    if (f == "src+") out << m.src_beam(k, pattern(n));
    else if (f == "src0") m.reset_src_beams();
    else if (f == "src?") out << pattern_no(m.src_beam(k));
    else if (f == "srcs") for (int p : m.src_keys()) out << p << " ";
    else if (f == "is_src") out << m.is_source();
    else if (f == "src#") out << m.src_num_keys();
    else if (f == "rcv+") out << m.rcv_beam(k, pattern(n), steer(s));
    else if (f == "rcv0") m.reset_rcv_beams();
    else if (f == "rcv?") out << pattern_no(m.rcv_beam(k));
    else if (f == "rcvs") for (int p : m.rcv_keys()) out << p << " ";
    else if (f == "is_rcv") out << m.is_receiver();
    else if (f == "rcv#") out << m.rcv_num_keys();
    else if (f == "steer=") m.rcv_steering(k, steer(n));
    else if (f == "steer?") out << steer_no(m.rcv_steering(k));
    else if (f == "tx=") m.transmit_schedule(schedule(k));
    else if (f == "tx?") {
        auto l = m.transmit_schedule();
        for (auto& t : l) mc::check(t->duration == (double)l.size(), "schedule is a mixture of two schedules");
        out << l.size();
    }
    return out.str();
}
static void play(std::vector<std::string> setup, std::vector<std::vector<std::string>> prog) {
    sensor_manager::reset();
    sensor_manager::instance();
    sensor_model::sptr s(new sensor_model(1, "s"));
    model init;
    for (auto& o : setup) { auto r = run(*s, o), e = model_apply(init, o); mc::check(r == e, "setup %s: '%s' instead of '%s'", o.c_str(), r.c_str(), e.c_str()); }
    std::mutex hm;
    std::vector<mc::hist_op> hist;
    auto doit = [&](int t, const std::string& o) {
        unsigned long c = mc::now(); std::string r = run(*s, o); unsigned long e = mc::now();
        std::lock_guard<std::mutex> g(hm); hist.push_back({t, o, r, c, e});
    };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < prog.size(); ++i) ts.emplace_back([&, i] { for (auto& o : prog[i]) doit((int)i, o); });
    for (auto& o : prog[0]) doit(0, o);
    for (auto& t : ts) t.join();
    for (auto o : {"srcs", "rcvs", "src#", "rcv#", "tx?"}) doit(0, o);
    std::string all;
    for (auto& h : hist) all += "T" + std::to_string(h.thread) + ":" + h.op + " -> '" + h.result + "'; ";
    auto f = [](model& m, const std::string& o) { return model_apply(m, o); };
    mc::check(mc::linearizable(hist, init, f), "no sequential order of the operations explains: %s", all.c_str());
    for (int t = 0; t < 4; ++t) for (auto& h : hist) if (h.thread == t) mc::observe("%s;", h.result.c_str());
    sensor_manager::reset();
}
MC_SCENARIO(src, "source beams: add, reset, and query", 8, 40) { play({"src+ 5 1"}, {{"src+ 1 0", "src0", "is_src"}, {"src? 1", "srcs", "src#"}}); }
MC_SCENARIO(src2, "source beams: two writers and a reader", 3, 40) { play({}, {{"src+ 1 0", "src? 2"}, {"src+ 2 1", "src+ 1 2"}, {"srcs", "is_src"}}); }
MC_SCENARIO(rcv, "receiver beams: add, reset, and query", 8, 40) { play({"rcv+ 5 1 2"}, {{"rcv+ 1 0 1", "rcv0", "is_rcv"}, {"rcv? 1", "steer? 5", "rcvs"}}); }
MC_SCENARIO(rcv2, "receiver beams: two writers and a reader", 3, 40) { play({}, {{"rcv+ 1 0 1", "rcv# 0"}, {"rcv+ 2 1 2", "steer= 1 2"}, {"rcvs", "steer? 2"}}); }
MC_SCENARIO(steering, "steering: change, query, unknown channel", 8, 40) { play({"rcv+ 1 0 0", "steer? 7"}, {{"steer= 1 1", "steer? 1", "steer? 9"}, {"steer= 1 2", "steer? 1"}}); }
MC_SCENARIO(tx, "transmit schedule: replaced while read", 8, 40) { play({"tx? 0"}, {{"tx= 2", "tx?"}, {"tx= 3", "tx?"}}); }
MC_SCENARIO(tx3, "transmit schedule: writers and reader", 8, 40) { play({"tx= 1"}, {{"tx= 2"}, {"tx= 0", "tx?"}, {"tx?", "tx?"}}); }
MC_SCENARIO(mixed, "beams against motion updates", 8, 40) {
    sensor_manager::reset();
    sensor_manager::instance();
    sensor_model::sptr s(new sensor_model(1, "s"));
    s->src_beam(1, pattern(1));
    std::thread t([&] { s->update(100, wposition1(1, 1, -10), orientation(), 1.0, platform_model::NO_UPDATE); });
    std::thread u([&] { s->set_needs_update(); s->reset_src_beams(); s->rcv_beam(4, pattern(2)); });
    mc::observe("%d%d", s->is_source(), s->is_receiver());
    t.join(); u.join();
    mc::check(!s->is_source() && s->is_receiver() && s->time() == 100, "final state");
    sensor_manager::reset();
}

// every program of two threads with two operations each
static void every(std::vector<std::string> setup, const std::vector<std::string>& ops) {
    int n = (int)ops.size();
    int a = mc::choose(n), b = mc::choose(n), c = mc::choose(n), d = mc::choose(n);
    if (a * n + b > c * n + d) return;  // threads are symmetric
    play(setup, {{ops[a], ops[b]}, {ops[c], ops[d]}});
}
MC_SCENARIO(all_src, "every 2x2 program over the source beam operations", 2, 40) { every({"src+ 5 1"}, {"src+ 1 0", "src+ 5 2", "src0", "src? 1", "srcs", "is_src"}); }
MC_SCENARIO(all_rcv, "every 2x2 program over the receiver beam operations", 2, 40) { every({"rcv+ 5 1 1"}, {"rcv+ 1 0 1", "rcv+ 5 2 2", "rcv0", "rcv? 1", "steer= 5 0", "steer? 5"}); }
