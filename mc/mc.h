// mc.h - controlled-concurrency model checker for real (clang -fsanitize=thread
// instrumented) code. See /verif/DESIGN.md, section "mc runtime".
//
// A scenario is ordinary C++ using std::thread, std::mutex, ... ; every
// interleaving of it (up to a preemption bound) is executed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {

// Fails the current execution with this message when cond is false.
void check(bool cond, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// Appends to the outcome of this execution (used to count distinct outcomes,
// printed with a violation).
void observe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Data nondeterminism: every value 0..n-1 is explored.
int choose(int n);

// An explicit scheduling point (for harness code that wants one).
void point();

// Number of logical threads created so far in this execution.
int threads_created();

// True if code runs under the controlled scheduler.
bool controlled();

struct scenario {
    const char* name;
    void (*prepare)();  // run once, uncontrolled, before exploring (may be null)
    void (*body)();     // run under every schedule, as main thread
    int quick_bound;    // preemption bound for the quick tier
    int thorough_bound; // preemption bound for the thorough tier
    double weight;      // share of time budget
};

struct registrar {
    registrar(const char* name, void (*prepare)(), void (*body)(), int q, int t,
              double weight);
};

}  // namespace mc

#define MC_SCENARIO(id, name, q, t)                                      \
    static void id##_body();                                             \
    static mc::registrar id##_reg(name, nullptr, id##_body, q, t, 1.0);  \
    static void id##_body()

#define MC_SCENARIO_P(id, name, prep, q, t)                              \
    static void id##_body();                                             \
    static mc::registrar id##_reg(name, prep, id##_body, q, t, 1.0);     \
    static void id##_body()

#include <vector>
#include <string>
namespace mc {
// Unique increasing logical time stamp (not a scheduling point).
unsigned long now();

// Brute-force linearizability: history of completed operations, each with its
// call and return time stamps and the name + result text; apply(state, op)
// replays op on a sequential model and returns its result text.
struct hist_op { int thread; std::string op; std::string result; unsigned long call, ret; };
template <typename Model, typename Apply>
bool linearizable(const std::vector<hist_op>& h, const Model& init, Apply apply) {
    struct rec {
        static bool go(const std::vector<hist_op>& h, unsigned done, const Model& m, Apply& apply) {
            if (done == (1u << h.size()) - 1) return true;
            unsigned long minret = ~0ul;
            for (size_t i = 0; i < h.size(); ++i)
                if (!(done >> i & 1) && h[i].ret < minret) minret = h[i].ret;
            for (size_t i = 0; i < h.size(); ++i) {
                if ((done >> i & 1) || h[i].call > minret) continue;
                Model next = m;
                if (apply(next, h[i].op) == h[i].result && go(h, done | 1u << i, next, apply)) return true;
            }
            return false;
        }
    };
    return rec::go(h, 0, init, apply);
}
}  // namespace mc
