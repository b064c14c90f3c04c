// C02: task identification, active count, abort and done, under every interleaving.
#include <mc.h>
#include <usml/threads/threads.h>

#include <atomic>
#include <memory>
#include <set>
#include <thread>

using namespace usml::threads;

struct quick : public thread_task {
    std::atomic<int>* running;
    quick(std::atomic<int>* r = nullptr) : running(r) {}
    void run() override { if (running) ++*running; _done = true; }
};

MC_SCENARIO(ids, "3 threads create tasks", 4, 8) {
    std::size_t id[3][2];
    auto make = [&](int k) { quick a, b; id[k][0] = a.id(); id[k][1] = b.id(); };
    std::thread t1(make, 1), t2(make, 2);
    make(0);
    t1.join(); t2.join();
    std::set<std::size_t> s;
    for (auto& r : id) { s.insert(r[0]); s.insert(r[1]); mc::check(r[0] != r[1], "same id twice in one thread"); }
    mc::check(s.size() == 6, "duplicate task ids");
    mc::check(thread_task::num_active() == 0, "destroyed tasks are still active: %d", (int)thread_task::num_active());
    mc::observe("%d%d%d", id[0][0] < id[1][0], id[1][0] < id[2][0], id[0][0] < id[2][0]);
}

MC_SCENARIO(active, "active count while tasks are created, run and dropped", 3, 5) {
    std::atomic<int> ran{0};
    {
        thread_pool pool(2);
        auto a = std::make_shared<quick>(&ran);
        auto b = std::make_shared<quick>(&ran);
        mc::check(thread_task::num_active() == 2, "2 tasks created, %d active", (int)thread_task::num_active());
        pool.run(a);
        std::size_t n = thread_task::num_active();
        mc::check(n == 1 || n == 2, "active %d", (int)n);
        { auto c = std::make_shared<quick>(); std::size_t m = thread_task::num_active(); mc::check(m == 2 || m == 3, "active %d", (int)m); }
        pool.run(b);
        thread_task::wait();
        mc::check(ran == 2, "wait returned before all tasks ran: %d", (int)ran);
        mc::check(a->done() && b->done(), "done not set");
        mc::observe("n %d", (int)n);
    }
    mc::check(thread_task::num_active() == 0, "active");
}

struct patient : public thread_task {
    std::atomic<int> turns{0}; int result{0};
    void run() override {
        if (_abort) { result = 1; _done = true; return; }
        while (!_abort) { sleep(); }
        result = 2;
        _done = true;
    }
};
MC_SCENARIO(abort_running, "abort is seen by a waiting task and ends it", 4, 7) {
    thread_pool pool(1);
    auto t = std::make_shared<patient>();
    pool.run(t);
    std::thread other([&] { t->abort(); });
    t->abort();
    while (!t->done()) thread_task::sleep();
    mc::check(t->result == 1 || t->result == 2, "result %d not published by done", t->result);
    mc::observe("result %d", t->result);
    other.join();
}

struct producer : public thread_task {
    int value{0};
    void run() override { value = 7; _done = true; }
};
MC_SCENARIO(done_publish, "done publishes the result to pollers", 4, 7) {
    thread_pool pool(1);
    auto t = std::make_shared<producer>();
    pool.run(t);
    auto poll = [&] { while (!t->done()) thread_task::sleep(); mc::check(t->value == 7, "done before the result"); };
    std::thread other(poll);
    poll();
    other.join();
}

MC_SCENARIO(waiters, "two threads wait for the same tasks", 3, 5) {
    std::atomic<int> ran{0};
    thread_pool pool(1);
    auto a = std::make_shared<quick>(&ran);
    pool.run(a);
    std::thread other([&] { thread_task::wait(); mc::check(ran == 1, "wait returned early"); });
    thread_task::wait();
    mc::check(ran == 1, "wait returned early");
    other.join();
}

struct stubborn : public thread_task {
    int result{0};
    void run() override { sleep(); result = 1 + _abort; sleep(); result += 10; _done = true; }
};
static void aborted(int workers) {
    auto t = std::make_shared<stubborn>();
    int when = mc::choose(3);
    thread_pool pool(workers);
    if (when == 0) t->abort();
    pool.run(t);
    if (when == 1) t->abort();
    thread_task::wait();
    mc::check(t->result >= 11, "wait returned although the aborted task is still running");
    mc::check(when != 0 || t->result == 12, "the abort was forgotten");
    mc::check(t->done(), "done not set");
    if (when == 2) t->abort();
    mc::check(thread_task::num_active() == 0, "active");
    mc::observe("when %d result %d", when, t->result);
}
MC_SCENARIO(abort_counts, "aborted tasks count as active until they return, 1 worker", 4, 7) { aborted(1); }
MC_SCENARIO(abort_counts2, "aborted tasks count as active until they return, 2 workers", 3, 5) { aborted(2); }
MC_SCENARIO(bounded_wait, "wait with a limit fails only while tasks are active", 4, 6) {
    std::atomic<int> ran{0};
    thread_pool pool(1);
    auto a = std::make_shared<quick>(&ran);
    pool.run(a);
    bool late = false;
    try { thread_task::wait(1); } catch (const std::range_error&) { late = true; }
    mc::check(late || ran == 1, "wait returned early");
    mc::observe("late %d", late);
    thread_task::wait();
    mc::check(ran == 1, "not run");
    thread_task::wait(1);
}
