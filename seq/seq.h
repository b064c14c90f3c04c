// seq.h - bounded-exhaustive enumeration of sequential behaviour of the real
// code: a section enumerates every case of a finite space in a fixed order; the
// runtime shards the cases over worker processes, counts distinct outcomes and
// turns a failed check, a crash, an escaped exception or a hang into a
// replayable violation (section name + case number).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace seq {

// Starts the next case. True if this process must evaluate it.
bool next(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// Fails the current case when cond is false.
void check(bool cond, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// Numeric agreement: |a-b| <= abs + rel*max(|a|,|b|); NaN never agrees.
bool near(double a, double b, double rel = 1e-9, double abs = 1e-12);

// Adds to the outcome of the current case (distinct outcomes are counted).
void observe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void observe_hash(uint64_t h);

// Explicit-state search accounting.
bool state(uint64_t key);        // true if new in this section and process
void transition(uint64_t n = 1);
void evaluated(uint64_t n = 1);  // extra oracle evaluations inside one case

bool thorough();
const std::string& scratch();    // private scratch directory of this process

uint64_t mix(uint64_t h, uint64_t v);

struct registrar {
    registrar(const char* name, void (*fn)(), const char* rule);
};

}  // namespace seq

#define SEQ_SECTION(id, name, rule)                        \
    static void id##_fn();                                 \
    static seq::registrar id##_reg(name, id##_fn, rule);   \
    static void id##_fn()
