// C01: thread_pool runs every submitted task exactly once, in submission order,
// and terminates, under every interleaving.
#include <mc.h>
#include <usml/threads/threads.h>

#include <atomic>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>

using namespace usml::threads;

struct book {
    std::atomic<int> runs[4];
    std::atomic<int> dead{0};
    std::atomic<int> order{0};
    std::atomic<int> pos[4];
    book() { for (int i = 0; i < 4; ++i) { runs[i] = 0; pos[i] = -1; } }
};
struct task : public thread_task {
    book& b; int n; bool bomb; int payload{0}; int kind{0};
    task(book& bk, int k, bool bm = false) : b(bk), n(k), bomb(bm) {}
    ~task() override { ++b.dead; }
    void run() override {
        b.pos[n] = b.order++;
        ++b.runs[n];
        payload = 40 + n;   // plain: must be ordered before wait() returns
        if (bomb) {
            switch (kind) {
                case 0: throw std::runtime_error("task failure");
                case 1: throw 5;
                case 2: throw "failure";
                case 3: throw std::bad_alloc();
            }
        }
    }
};
using tref = std::shared_ptr<task>;

MC_SCENARIO(two_two, "2 workers, 2 tasks, wait, destroy", 3, 5) {
    book b;
    {
        auto pool = std::make_unique<thread_pool>(2);
        tref t0 = std::make_shared<task>(b, 0), t1 = std::make_shared<task>(b, 1);
        pool->run(t0);
        pool->run(t1);
        thread_task::wait();
        mc::check(b.runs[0] == 1 && b.runs[1] == 1, "after wait: runs %d %d", (int)b.runs[0], (int)b.runs[1]);
        mc::check(t0->payload == 40 && t1->payload == 41, "results of the tasks are not visible after wait");
        mc::observe("order %d %d", (int)b.pos[0], (int)b.pos[1]);
    }
    mc::check(b.runs[0] == 1 && b.runs[1] == 1, "runs after destruction");
    mc::check(thread_task::num_active() == 0, "tasks active after all completed");
    mc::check(b.dead == 2, "pool keeps references to finished tasks");
}

MC_SCENARIO(one_three, "1 worker, 3 tasks: first in, first out", 3, 6) {
    book b;
    {
        thread_pool pool(1);
        for (int i = 0; i < 3; ++i) pool.run(std::make_shared<task>(b, i));
        thread_task::wait();
        for (int i = 0; i < 3; ++i) {
            mc::check(b.runs[i] == 1, "task %d ran %d times", i, (int)b.runs[i]);
            mc::check(b.pos[i] == i, "task %d was started as number %d", i, (int)b.pos[i]);
        }
    }
    mc::check(b.dead == 3, "pool keeps references to finished tasks");
}

MC_SCENARIO(destroy_queued, "destroy with tasks queued", 3, 5) {
    book b;
    {
        auto pool = std::make_unique<thread_pool>(2);
        pool->run(std::make_shared<task>(b, 0));
        pool->run(std::make_shared<task>(b, 1));
        pool->run(std::make_shared<task>(b, 2));
    }
    int total = 0;
    for (int i = 0; i < 3; ++i) { mc::check(b.runs[i] <= 1, "task %d ran twice", i); total += b.runs[i]; }
    mc::check(thread_task::num_active() == 0, "%d tasks active without a pool", (int)thread_task::num_active());
    mc::check(b.dead == 3, "tasks leaked");
    thread_task::wait();
    mc::observe("ran %d", total);
}

MC_SCENARIO(destroy_idle, "destroy idle pool", 4, 7) {
    { thread_pool pool(2); }
    { thread_pool pool(1); }
    mc::observe("done");
}

MC_SCENARIO(two_producers, "2 producers, 1 worker", 3, 5) {
    book b;
    {
        thread_pool pool(1);
        std::thread p([&] { pool.run(std::make_shared<task>(b, 0)); pool.run(std::make_shared<task>(b, 1)); });
        pool.run(std::make_shared<task>(b, 2));
        p.join();
        thread_task::wait();
        for (int i = 0; i < 3; ++i) mc::check(b.runs[i] == 1, "task %d ran %d times", i, (int)b.runs[i]);
        mc::check(b.pos[0] < b.pos[1], "tasks of one producer were started out of order");
        mc::observe("%d %d %d", (int)b.pos[0], (int)b.pos[1], (int)b.pos[2]);
    }
    mc::check(b.dead == 3, "pool keeps references to finished tasks");
}

static void fails(int workers) {
    book b;
    {
        thread_pool pool(workers);
        tref t = std::make_shared<task>(b, 0, true);
        t->kind = mc::choose(4);
        if (mc::choose(2)) t->abort();
        pool.run(t);
        pool.run(std::make_shared<task>(b, 1));
        thread_task::wait();
        mc::check(b.runs[0] == 1 && b.runs[1] == 1, "runs %d %d", (int)b.runs[0], (int)b.runs[1]);
        mc::check(t->payload == 40, "results of the failed task are not visible after wait");
    }
    mc::check(b.dead == 2, "pool keeps references to finished tasks");
}
MC_SCENARIO(failing, "failing task, any exception type, does not take its worker down", 3, 5) { fails(1); }
MC_SCENARIO(failing2, "failing task with 2 workers", 2, 4) { fails(2); }

struct spawner : public thread_task {
    thread_pool& pool; book& b;
    spawner(thread_pool& p, book& k) : pool(p), b(k) {}
    void run() override { pool.run(std::make_shared<task>(b, 1)); ++b.runs[0]; }
};
MC_SCENARIO(nested, "task that submits a task", 3, 5) {
    book b;
    {
        thread_pool pool(2);
        pool.run(std::make_shared<spawner>(pool, b));
        thread_task::wait();
        mc::check(b.runs[0] == 1 && b.runs[1] == 1, "runs %d %d", (int)b.runs[0], (int)b.runs[1]);
    }
    mc::check(thread_task::num_active() == 0, "tasks active");
}

MC_SCENARIO(reset_pool, "thread_controller reset while its tasks run", 2, 4) {
    book b;
    thread_controller::reset(1);
    struct user : public thread_task {
        book& b;
        user(book& k) : b(k) {}
        void run() override { ++b.runs[0]; mc::check(thread_controller::instance() != nullptr, "no pool"); }
    };
    thread_controller::instance()->run(std::make_shared<user>(b));
    thread_controller::reset(1);
    mc::check(b.runs[0] <= 1, "ran twice");
    mc::check(thread_task::num_active() == 0, "task of the previous pool still active");
    thread_controller::instance()->run(std::make_shared<task>(b, 1));
    thread_task::wait();
    mc::check(b.runs[1] == 1, "task in the new pool not run");
    mc::observe("ran %d", (int)b.runs[0]);
}
