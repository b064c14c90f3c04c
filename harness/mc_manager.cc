// C04: manager_template is linearizable and its listeners see every change once.
#include <mc.h>
#include <usml/managed/managed.h>

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

using namespace usml::managed;

static int g_alive;
struct item : public managed_obj<int, item> {
    int tag;
    item(int key, int t) : managed_obj<int, item>(key, "item"), tag(t) { __atomic_add_fetch(&g_alive, 1, __ATOMIC_ACQ_REL); }
    ~item() { tag = -1; __atomic_sub_fetch(&g_alive, 1, __ATOMIC_ACQ_REL); }
};
using mgr = manager_template<item>;

static thread_local std::string* t_log;  // callbacks made by the operation of this thread
struct ear : public manager_listener<item> {
    char id;
    ear(char c) : id(c) {}
    void notify_add(const item* o) const override {
        mc::check(t_log != nullptr, "callback outside an operation");
        *t_log += std::string("+") + id + std::to_string(o->keyID()) + "." + std::to_string(o->tag);
    }
    void notify_remove(int key) const override { *t_log += std::string("-") + id + std::to_string(key); }
};

// sequential model
struct model {
    std::map<int, int> m;
    std::set<char> ears;
};
static std::string model_apply(model& s, const std::string& op) {
    std::istringstream in(op);
    std::string f; in >> f;
    std::ostringstream out;
    if (f == "add") {
        int k, t; in >> k >> t;
        if (s.m.count(k)) return "dup";
        s.m[k] = t;
        for (char c : s.ears) out << "+" << c << k << "." << t;
        out << " key" << k;
    } else if (f == "remove") {
        int k; in >> k;
        if (!s.m.count(k)) return "no";
        for (char c : s.ears) out << "-" << c << k;
        s.m.erase(k);
        out << " yes";
    } else if (f == "find") {
        int k; in >> k;
        if (!s.m.count(k)) return "none";
        out << s.m[k];
    } else if (f == "list") {
        for (auto& p : s.m) out << p.first << "." << p.second << " ";
    } else if (f == "listen") {
        char c; in >> c; s.ears.insert(c);
    } else if (f == "unlisten") {
        char c; in >> c; s.ears.erase(c);
    }
    return out.str();
}
struct text {
    std::string s;
    text& operator<<(long v) { s += std::to_string(v); return *this; }
    text& operator<<(const char* v) { s += v; return *this; }
    std::string str() const { return s; }
};
struct world {
    mgr m;
    ear a{'a'}, b{'b'};
    std::mutex hm;
    std::vector<mc::hist_op> hist;
    std::string run(const std::string& op) {
        // no iostreams here: their locale reference counts would add scheduling points
        char name[16]; char c = 0; int k = 0, t = 0;
        sscanf(op.c_str(), "%15s", name);
        const std::string f(name);
        if (f == "listen" || f == "unlisten") sscanf(op.c_str(), "%*s %c", &c); else sscanf(op.c_str(), "%*s %d %d", &k, &t);
        std::string log; t_log = &log;
        text out;
        if (f == "add") {
            
            try { int r = m.add(std::make_shared<item>(k, t)); out << log.c_str() << " key" << r; }
            catch (mgr::duplicate_key&) { mc::check(log.empty(), "listener notified of a rejected add"); out << "dup"; }
        } else if (f == "remove") {
            
            bool r = m.remove(k);
            if (r) out << log.c_str() << " yes"; else { mc::check(log.empty(), "listener notified of a removal that did not happen"); out << "no"; }
        } else if (f == "find") {
            
            auto p = m.find(k);
            if (p) { mc::check(p->keyID() == k, "wrong object"); out << p->tag; } else out << "none";
        } else if (f == "list") {
            for (auto& p : m.list()) out << p->keyID() << "." << p->tag << " ";
        } else if (f == "listen") { m.add_listener(c == 'a' ? &a : &b); }
        else if (f == "unlisten") { m.remove_listener(c == 'a' ? &a : &b); }
        t_log = nullptr;
        return out.str();
    }
    void op(int thread, const std::string& o) {
        unsigned long c = mc::now();
        std::string r = run(o);
        unsigned long e = mc::now();
        std::lock_guard<std::mutex> g(hm);
        hist.push_back({thread, o, r, c, e});
    }
    void verify(const model& init) {
        auto f = [](model& s, const std::string& o) { return model_apply(s, o); };
        bool ok = mc::linearizable(hist, init, f);
        std::string text;
        for (auto& h : hist) text += "T" + std::to_string(h.thread) + ":" + h.op + " -> '" + h.result + "'; ";
        mc::check(ok, "no sequential order of the operations explains: %s", text.c_str());
        for (int t = 0; t < 4; ++t)
            for (auto& h : hist) if (h.thread == t) mc::observe("%s=%s;", h.op.c_str(), h.result.c_str());
    }
};
static void play(std::vector<std::string> setup, std::vector<std::vector<std::string>> prog) {
    g_alive = 0;
    {
        world w; model init;
        for (auto& s : setup) { std::string r = w.run(s), e = model_apply(init, s); mc::check(r == e, "setup %s: got '%s', expected '%s'", s.c_str(), r.c_str(), e.c_str()); }
        std::vector<std::thread> ts;
        for (size_t i = 1; i < prog.size(); ++i)
            ts.emplace_back([&w, &prog, i] { for (auto& o : prog[i]) w.op((int)i, o); });
        for (auto& o : prog[0]) w.op(0, o);
        for (auto& t : ts) t.join();
        w.op(0, "list");
        w.verify(init);
    }
    mc::check(g_alive == 0, "%d objects alive after the manager was destroyed", g_alive);
}
MC_SCENARIO(same_key, "two threads add the same key", 8, 40) { play({"listen a"}, {{"add 1 10", "find 1"}, {"add 1 20", "find 1"}}); }
MC_SCENARIO(add_remove, "add, remove, and find of one key", 8, 40) { play({"listen a", "add 1 5"}, {{"remove 1", "add 1 10"}, {"find 1", "remove 1"}, {"list"}}); }
MC_SCENARIO(two_removes, "two threads remove the same key", 8, 40) { play({"listen a", "listen b", "add 1 5", "add 2 6"}, {{"remove 1", "find 2"}, {"remove 1", "find 1"}}); }
MC_SCENARIO(listeners, "listener registration against add and remove", 8, 40) { play({"listen a", "add 3 3"}, {{"add 1 10", "remove 3"}, {"listen b", "unlisten a"}}); }
MC_SCENARIO(snapshot, "list is a snapshot", 8, 40) { play({"add 1 1"}, {{"add 2 2", "remove 1"}, {"list", "list"}, {"add 3 3"}}); }
MC_SCENARIO(lifetime, "found objects outlive their removal", 8, 40) {
    g_alive = 0;
    {
        mgr m;
        m.add(std::make_shared<item>(1, 7));
        std::thread t([&] { auto p = m.find(1); if (p) { mc::point(); mc::check(p->tag == 7, "object changed under its holder"); mc::observe("found"); } });
        m.remove(1);
        t.join();
        mc::check(g_alive == 0, "removed object not destroyed after its last holder is gone");
    }
}
struct holder_listener : public manager_listener<item> {
    mutable std::atomic<int> adds{0}, removes{0};
    void notify_add(const item* o) const override { ++adds; mc::check(o->tag == 7, "bad object"); }
    void notify_remove(int) const override { ++removes; }
};
MC_SCENARIO(unlisten, "no callback after remove_listener returned", 8, 40) {
    mgr m;
    auto l = std::make_unique<holder_listener>();
    m.add_listener(l.get());
    std::thread t([&] { m.add(std::make_shared<item>(1, 7)); m.remove(1); });
    m.remove_listener(l.get());
    mc::observe("%d %d", (int)l->adds, (int)l->removes);
    mc::check(l->removes <= 1 && l->adds <= 1, "notified twice");
    l.reset();
    t.join();
}

// update_notifier
struct counter_listener : public update_listener<int> {
    std::atomic<int> n{0}; int last{0};
    void notify_update(const int* v) override { last = *v; ++n; }
};
MC_SCENARIO(notifier, "update_notifier: registration against notification", 8, 40) {
    update_notifier<int> n;
    auto a = std::make_unique<counter_listener>(), b = std::make_unique<counter_listener>();
    n.add_listener(a.get());
    int v = 5;
    std::thread t([&] { n.notify_update(&v); });
    n.add_listener(b.get());
    n.remove_listener(a.get());
    mc::check(a->n <= 1, "notified twice");
    mc::observe("a%d", (int)a->n);
    a.reset();
    t.join();
    mc::check(b->n <= 1, "notified twice");
    mc::observe("b%d", (int)b->n);
    int k = b->n;
    n.notify_update(&v);
    mc::check(b->n == k + 1 && b->last == 5, "registered listener not notified exactly once");
}

// every program of two threads with two operations each
MC_SCENARIO(all, "every 2x2 program over add, remove, find, list, listen, unlisten", 3, 40) {
    std::vector<std::string> ops{"add 1 10", "add 2 20", "remove 1", "find 1", "list", "listen b", "unlisten a"};
    int n = (int)ops.size();
    int a = mc::choose(n), b = mc::choose(n), c = mc::choose(n), d = mc::choose(n);
    if (a * n + b > c * n + d) return;  // threads are symmetric
    play({"listen a", "add 1 5"}, {{ops[a], ops[b]}, {ops[c], ops[d]}});
}
