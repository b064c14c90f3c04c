// mc_runtime.cc - controlled scheduler, race/UAF monitor and exhaustive
// preemption-bounded explorer. Compiled WITHOUT -fsanitize=thread; provides the
// __tsan_* entry points that the instrumented code calls and interposes the
// pthread primitives. See mc.h and DESIGN.md ("mc runtime").
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>
#include <typeinfo>
#include <type_traits>
#include <string>

extern "C" char __libc_single_threaded;

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

// ------------------------------------------------------------------ constants
enum { MAXT = 12, MAXPTS = 20000, MSGLEN = 6000, OUTLEN = 2000 };
static const u64 ARENA_BASE = 0x100000000000ull;
static const u64 ARENA_SIZE = 0x100000000ull;  // 4 GB virtual per thread
static const u64 STACK_BASE = 0x200000000000ull;
static const u64 STACK_STRIDE = 0x1000000ull;  // 16 MB
static const u64 STACK_SIZE = 0x400000ull;     // 4 MB

struct Point {        // one choice point with more than one option
    u64 hash;         // state hash here
    u8 nopt;          // number of options
    u8 chosen;        // option taken
    u8 cost_rest;     // cost of any option but 0 (0 or 1)
    u8 cost;          // preemptions before this point
};
enum Status { ST_NONE, ST_OK, ST_PRUNED, ST_VIOLATION, ST_DIVERGED, ST_CRASH, ST_TIMEOUT };
struct Slot {
    volatile int status;
    u32 nprefix;
    u64 expect_hash;      // state hash expected at the branching point
    u32 npoints;
    u32 ntransitions;     // scheduling steps taken
    u32 nthreads;
    u64 new_states;
    int replay;           // 1: replay mode (no pruning)
    u8 prefix[MAXPTS];
    Point pts[MAXPTS];
    char msg[MSGLEN];
    char out[OUTLEN];
};

// ------------------------------------------------------------------ globals
static volatile bool g_on = false;     // controlled mode
static volatile bool g_verbose = false;
static volatile int g_cur = 0;
static int g_nthreads = 0;
static Slot* g_slot = nullptr;
static u32 g_npts = 0;        // points so far
static u32 g_cost = 0;        // preemptions so far
static u32 g_steps = 0;
static u32 g_outlen = 0;
static u64 g_vclock_ns = 0;   // virtual time
static int g_bound = 0;
static u32 g_horizon = 100000;
static u64 g_datahash = 0;
static int g_quiet_rounds = 0;
static bool g_writeflag = false;   // a non-pure write happened since last quiescent wake

struct VisEnt { u64 key; u64 val; };
static VisEnt* g_vis = nullptr;
static const u64 VIS_N = 1ull << 24;

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29;
    h *= 0x94D049BB133111EBull; h ^= h >> 32;
    return h;
}

// raw syscalls (so that interposed wrappers are never used by the runtime)
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ threads
enum Pend { P_RUN, P_LOCK, P_RDLOCK, P_WRLOCK, P_JOIN, P_SLEEP, P_COND, P_GUARD, P_ONCE, P_DONE, P_FUTEX };
struct VC { u32 c[MAXT]; };
struct SyncObj;
struct PollEnt { SyncObj* o; u64 m0, r0, m1, r1; };
struct Thread {
    int futex;
    Pend pend;
    u64 obj;            // address waited for
    int join_tid;
    bool woken;         // sleeper: something it read was written / notified
    bool notified;
    bool timed;
    u64 h;              // history hash
    u64 h_wake;         // history hash when last woken from sleep
    u32 wake_clk;
    u64 bump_wake;
    bool impure;
    bool finished, joined, detached;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    VC vc;
    VC acq_pend;        // for fences
    VC rel_fence;
    u64 stack_lo, stack_hi;
    u64 bump;
    u32 nsync;
    uintptr_t pcs[64];  // shadow call stack
    int depth;
    PollEnt poll[8];
    int npoll;
    u32 wait_seq;
};
static Thread g_t[MAXT];

struct SyncObj {
    u64 key;            // address
    int owner;          // writer / mutex owner, -1 none
    u32 rec;            // recursion count
    u8 readers[MAXT];
    int nreaders;
    VC vc;              // release clock (writers)
    VC rvc;             // release clock of readers
    u64 m, mr;          // hashes
    u32 seq;            // cond: notify sequence
};
static const u32 SYNC_N = 1 << 15;
static SyncObj* g_sync;  // open addressing, NORESERVE
static SyncObj* sync_get(u64 a) {
    u32 i = (u32)(mix(a, 77) & (SYNC_N - 1));
    for (;;) {
        SyncObj& s = g_sync[i];
        if (s.key == a) return &s;
        if (s.key == 0) {
            memset(&s, 0, sizeof s);
            s.key = a; s.owner = -1; s.m = mix(a, 5);
            return &s;
        }
        i = (i + 1) & (SYNC_N - 1);
    }
}
static inline void vc_join(VC& a, const VC& b) {
    for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

[[noreturn]] static void finish(int status);
[[noreturn]] static void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

static void append(char* buf, u32& len, u32 cap, const char* fmt, ...) {
    if (len + 1 >= cap) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf + len, cap - len, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    len += (u32)n; if (len >= cap) len = cap - 1;
}

static bool in_stack(int t, u64 a) { return a >= g_t[t].stack_lo && a < g_t[t].stack_hi; }

static void dump_threads(char* buf, u32& len, u32 cap) {
    static const char* nm[] = {"running", "waiting for mutex", "waiting for read lock", "waiting for write lock", "joining thread", "sleeping", "waiting on condition", "waiting for static init", "waiting for once", "finished", "futex"};
    for (int t = 0; t < g_nthreads; ++t) {
        Thread& th = g_t[t];
        append(buf, len, cap, "  T%d %s", t, nm[th.pend]);
        if (th.pend == P_LOCK || th.pend == P_RDLOCK || th.pend == P_WRLOCK) {
            SyncObj* s = sync_get(th.obj);
            append(buf, len, cap, " obj=%llx owner=T%d readers=", (unsigned long long)th.obj, s->owner);
            for (int i = 0; i < MAXT; ++i) if (s->readers[i]) append(buf, len, cap, "T%d ", i);
        }
        if (th.pend == P_JOIN) append(buf, len, cap, " T%d", th.join_tid);
        append(buf, len, cap, " stack:");
        for (int i = th.depth - 1, k = 0; i >= 0 && k < 8; --i, ++k)
            if (i < 64) append(buf, len, cap, " @%llx", (unsigned long long)th.pcs[i]);
        append(buf, len, cap, "\n");
    }
}

static void violation(const char* fmt, ...) {
    u32 len = 0;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(g_slot->msg, MSGLEN, fmt, ap);
    va_end(ap);
    len = n < 0 ? 0 : (u32)n; if (len >= MSGLEN) len = MSGLEN - 1;
    append(g_slot->msg, len, MSGLEN, "\nthreads at the time (T%d running):\n", g_cur);
    dump_threads(g_slot->msg, len, MSGLEN);
    finish(ST_VIOLATION);
}

static void finish(int status) {
    g_on = false;
    g_slot->npoints = g_npts;
    g_slot->ntransitions = g_steps;
    g_slot->nthreads = g_nthreads;
    g_slot->status = status;
    rawsys(SYS_exit_group, 0);
    __builtin_unreachable();
}

static void futex_wait(int* p) {
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) rawsys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void futex_post(int* p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    rawsys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1);
}

// ------------------------------------------------------------------ enabledness
static bool enabled(int t) {
    Thread& th = g_t[t];
    switch (th.pend) {
        case P_RUN: return true;
        case P_LOCK: { SyncObj* s = sync_get(th.obj); return s->owner == -1 || (s->owner == t && s->rec); }
        case P_RDLOCK: { SyncObj* s = sync_get(th.obj); return s->owner == -1; }
        case P_WRLOCK: { SyncObj* s = sync_get(th.obj); return s->owner == -1 && s->nreaders == 0; }
        case P_GUARD: case P_ONCE: { SyncObj* s = sync_get(th.obj); return s->owner == -1; }
        case P_JOIN: return g_t[th.join_tid].finished;
        case P_SLEEP: return th.woken;
        case P_COND: return th.notified || (th.timed && th.woken);
        case P_FUTEX: return th.woken;
        case P_DONE: return false;
    }
    return false;
}

static u64 state_hash() {
    u64 h = mix(0x1234, g_datahash);
    for (int t = 0; t < g_nthreads; ++t) {
        Thread& th = g_t[t];
        u64 v = mix(th.h, (u64)th.pend * 8 + (th.woken ? 1 : 0) + (th.notified ? 2 : 0) + (th.finished ? 4 : 0));
        h = mix(h, v);
    }
    return h;
}

// returns false if this state was visited with no more preemptions
static bool visit(u64 key, u32 cost) {
    if (key == 0) key = 1;
    u64 i = mix(key, 3) & (VIS_N - 1);
    for (u64 probe = 0; probe < 4096; ++probe, i = (i + 1) & (VIS_N - 1)) {
        u64 k = __atomic_load_n(&g_vis[i].key, __ATOMIC_ACQUIRE);
        if (k == 0) {
            u64 z = 0;
            // value first: 0 means "cost unknown yet", stored as cost+1
            if (__atomic_compare_exchange_n(&g_vis[i].key, &z, key, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                __atomic_store_n(&g_vis[i].val, (u64)cost + 1, __ATOMIC_RELEASE);
                g_slot->new_states++;
                return true;
            }
            k = z;
        }
        if (k == key) {
            u64 v = __atomic_load_n(&g_vis[i].val, __ATOMIC_ACQUIRE);
            for (;;) {
                if (v != 0 && v <= (u64)cost + 1) return false;
                if (__atomic_compare_exchange_n(&g_vis[i].val, &v, (u64)cost + 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return true;
            }
        }
    }
    return true;  // table crowded: explore without pruning
}

// records a choice among n>1 options and returns the option to take
static int decide(int n, int cost_rest, u64 hash) {
    if (g_npts >= MAXPTS) violation("horizon: more than %d choice points in one execution (livelock?)", MAXPTS);
    Point& p = g_slot->pts[g_npts];
    p.nopt = (u8)n; p.cost_rest = (u8)cost_rest; p.cost = (u8)g_cost; p.hash = hash;
    int c = 0;
    if (g_npts < g_slot->nprefix) {
        c = g_slot->prefix[g_npts];
        if (c >= n) { p.chosen = 0; finish(ST_DIVERGED); }
        if (g_npts + 1 == g_slot->nprefix && g_slot->expect_hash && g_slot->expect_hash != hash) finish(ST_DIVERGED);
    } else if (!g_slot->replay) {
        p.chosen = 0;
        if (!visit(hash, g_cost)) finish(ST_PRUNED);
    }
    p.chosen = (u8)c;
    g_npts++;
    if (c != 0) g_cost += cost_rest;
    return c;
}

static void perform_switch(int self, int next) {
    if (next == self) return;
    g_cur = next;
    g_t[self].futex = 0;
    futex_post(&g_t[next].futex);
    if (g_t[self].finished) return;
    futex_wait(&g_t[self].futex);
}

// Runs the scheduler on behalf of the current thread, whose pending operation is
// in g_t[g_cur]. Returns when the current thread has been chosen again.
static void schedule() {
    int self = g_cur;
    if (++g_steps > g_horizon) violation("horizon: more than %u scheduling steps in one execution (livelock?)", g_horizon);
    g_vclock_ns += 1000;
    int opts[MAXT], n = 0;
    bool self_en = !g_t[self].finished && enabled(self);
    bool self_yield = g_t[self].pend == P_SLEEP;
    bool self_first = self_en && !self_yield;
    if (self_first) opts[n++] = self;
    for (int t = 0; t < g_nthreads; ++t)
        if (!(t == self && self_first) && enabled(t)) opts[n++] = t;
    int next = -1;
    if (n == 0) {
        // only sleepers (or nobody): quiescent rounds
        int rr = -1; u32 best = ~0u;
        for (int t = 0; t < g_nthreads; ++t) {
            Thread& th = g_t[t];
            if (th.pend == P_SLEEP || (th.pend == P_COND && th.timed) || th.pend == P_FUTEX)
                if (th.wait_seq < best) { best = th.wait_seq; rr = t; }
        }
        if (rr < 0) {
            violation("deadlock: no thread can make progress");
        }
        if (g_writeflag) { g_quiet_rounds = 0; g_writeflag = false; }
        if (++g_quiet_rounds > 400) violation("hang: every live thread polls or waits forever (no progress possible)");
        g_vclock_ns += 1000000ull;
        g_t[rr].woken = true;
        next = rr;
    } else if (n == 1) {
        next = opts[0];
    } else {
        u64 key = mix(state_hash(), self_first ? self + 1 : 0);
        next = opts[decide(n, self_first ? 1 : 0, key)];
    }
    perform_switch(self, next);
}

// ------------------------------------------------------------------ shadow memory
struct Cell {
    u32 rclk[MAXT], wclk[MAXT];
    u32 rpc[MAXT], wpc[MAXT];
    u8 rmask[MAXT], wmask[MAXT];
    u16 ratom, watom;   // bit per thread: last access atomic
    u8 freed; u8 freed_by;
    u32 freed_pc;
};
enum { BLK = 16 };
struct DirEnt { u64 key; Cell* cells; };
static const u32 DIR_N = 1 << 20;
static DirEnt* g_dir;
static u8* g_cellpool; static u64 g_cellpos;
static u8* g_freedpage;  // per 4K page of arenas

static DirEnt* g_lastdir; static u64 g_lastkey = ~0ull;
static Cell* cell_get(u64 gran, bool create) {
    u64 key = gran / BLK + 1;
    if (key == g_lastkey) return &g_lastdir->cells[gran % BLK];
    u32 i = (u32)(((key * 0x9E3779B97F4A7C15ull) >> 40)) & (DIR_N - 1);
    for (;;) {
        DirEnt& d = g_dir[i];
        if (d.key == key) { g_lastdir = &d; g_lastkey = key; return &d.cells[gran % BLK]; }
        if (d.key == 0) {
            if (!create) return nullptr;
            d.cells = (Cell*)(g_cellpool + g_cellpos);
            g_cellpos += sizeof(Cell) * BLK;
            d.key = key;
            g_lastdir = &d; g_lastkey = key;
            return &d.cells[gran % BLK];
        }
        i = (i + 1) & (DIR_N - 1);
    }
}

static bool in_arena(u64 a) { return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE * MAXT; }

static const char* where(u64 a) {
    for (int t = 0; t < g_nthreads; ++t) if (in_stack(t, a)) return "stack";
    if (in_arena(a)) return "heap";
    return "global/static";
}

struct Block { u32 size; u32 magic; u32 pc; u32 tid; };  // header before each arena block

static void check_freed_page(u64 a, u32 pc, const char* what) {
    if (in_arena(a) && g_freedpage[(a - ARENA_BASE) >> 12])
        violation("use after free: %s of freed heap memory %llx at @%x", what, (unsigned long long)a, pc);
}

static void report_race(u64 a, Cell* c, int t, bool prevw, bool write, bool atomic, u32 pc) {
    violation("data race on %s address %llx: T%d %s%s at @%x is concurrent with %s%s by T%d at @%x",
              where(a), (unsigned long long)a, g_cur, atomic ? "atomic " : "", write ? "write" : "read", pc,
              ((prevw ? c->watom : c->ratom) >> t) & 1 ? "atomic " : "", prevw ? "write" : "read", t,
              prevw ? c->wpc[t] : c->rpc[t]);
}

static inline void wake_check(Cell* c, u8 mask) {
    for (int t = 0; t < g_nthreads; ++t) {
        Thread& th = g_t[t];
        if (t != g_cur && !th.woken && (th.pend == P_SLEEP || (th.pend == P_COND && th.timed))
            && c->rclk[t] >= th.wake_clk && (c->rmask[t] & mask)) th.woken = true;
    }
}

// rc: refcount operation (commutes: no wakeups, not impure)
static void access1(u64 gran, u8 mask, bool write, bool atomic, u32 pc, bool rc) {
    Cell* c = cell_get(gran, true);
    int me = g_cur;
    Thread& th = g_t[me];
    u32 myclk = th.vc.c[me];
    if (c->freed) {
        violation("use after free: %s of heap memory %llx at @%x, freed by T%d at @%x", write ? "write" : "read",
                  (unsigned long long)(gran * 8), pc, c->freed_by, c->freed_pc);
    }
    // fast path: same thread, same clock, already recorded
    if (!write && c->rclk[me] == myclk && (c->rmask[me] & mask) == mask && (!!((c->ratom >> me) & 1)) == atomic) return;
    for (int t = 0; t < g_nthreads; ++t) {
        if (t == me) continue;
        if (c->wclk[t] > th.vc.c[t] && (c->wmask[t] & mask) && !(atomic && ((c->watom >> t) & 1))) report_race(gran * 8, c, t, true, write, atomic, pc);
        if (write && c->rclk[t] > th.vc.c[t] && (c->rmask[t] & mask) && !(atomic && ((c->ratom >> t) & 1))) report_race(gran * 8, c, t, false, write, atomic, pc);
    }
    if (write) {
        if (c->wclk[me] == myclk) c->wmask[me] |= mask; else { c->wmask[me] = mask; c->wclk[me] = myclk; c->watom |= (1u << me); }
        if (!atomic) c->watom &= ~(1u << me);
        c->wpc[me] = pc;
        if (!rc) {
            u64 a = gran * 8;
            if (!in_stack(me, a) && !(a >= th.bump_wake && a < th.bump && in_arena(a))) { th.impure = true; g_writeflag = true; }
            wake_check(c, mask);
        }
    } else {
        if (c->rclk[me] == myclk) c->rmask[me] |= mask; else { c->rmask[me] = mask; c->rclk[me] = myclk; c->ratom |= (1u << me); }
        if (!atomic) c->ratom &= ~(1u << me);
        c->rpc[me] = pc;
    }
}

static inline void access_range(u64 a, u64 size, bool write, bool atomic, u64 pc, bool rc = false) {
    if (!g_on || size == 0) return;
    u64 g0 = a >> 3, g1 = (a + size - 1) >> 3;
    if (in_arena(a)) { check_freed_page(a, (u32)pc, write ? "write" : "read"); }
    if (g0 == g1) {
        u8 mask = (u8)(((1u << size) - 1) << (a & 7));
        access1(g0, mask, write, atomic, (u32)pc, rc);
        return;
    }
    for (u64 g = g0; g <= g1; ++g) {
        u64 lo = g * 8 < a ? a : g * 8, hi = (g + 1) * 8 < a + size ? (g + 1) * 8 : a + size;
        u8 mask = (u8)(((1u << (hi - lo)) - 1) << (lo & 7));
        access1(g, mask, write, atomic, (u32)pc, rc);
    }
}

// ------------------------------------------------------------------ allocation
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
static const u32 MAGIC = 0xA110C8EDu;
static void* arena_alloc(size_t n, u64 pc, size_t align = 16) {
    Thread& th = g_t[g_cur];
    u64 p = th.bump + sizeof(Block);
    p = (p + align - 1) & ~(u64)(align - 1);
    if (n >= 16384) p = (p + 4095 + sizeof(Block)) & ~4095ull;   // big: page aligned
    Block* b = (Block*)(p - sizeof(Block));
    u64 end = (p + n + 15) & ~15ull;
    if (n >= 16384) end = (end + 4095) & ~4095ull;
    if (end >= ARENA_BASE + ARENA_SIZE * (g_cur + 1)) violation("out of arena memory (%zu bytes requested)", n);
    if (n >= 0xffffffffu) violation("allocation of %zu bytes", n);
    th.bump = end;
    b->size = (u32)n; b->magic = MAGIC; b->pc = (u32)pc; b->tid = g_cur;
    return (void*)p;
}
static void* do_new(size_t n, u64 pc, size_t align = 16) {
    if (!g_on) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    return arena_alloc(n ? n : 1, pc, align);
}
static void do_delete(void* p, u64 pc) {
    if (!p) return;
    u64 a = (u64)p;
    if (!g_on) { if (!in_arena(a)) free(p); return; }
    if (!in_arena(a)) {  // allocated before exploration started
        access_range(a & ~7ull, 8, true, false, pc);
        Cell* c = cell_get(a >> 3, true);
        c->freed = 1; c->freed_by = (u8)g_cur; c->freed_pc = (u32)pc;
        return;
    }
    Block* b = (Block*)(a - sizeof(Block));
    if (b->magic != MAGIC) violation("bad delete of %llx at @%llx (double delete or invalid pointer)", (unsigned long long)a, (unsigned long long)pc);
    u32 n = b->size;
    b->magic = 0xDEADDEADu;
    if (n >= 16384) {
        u64 end = (a + n + 4095) & ~4095ull;
        for (u64 q = a; q < end; q += 4096) g_freedpage[(q - ARENA_BASE) >> 12] = 1;
        madvise((void*)a, end - a, MADV_DONTNEED);
    } else {
        for (u64 q = a; q < a + n; q += 8) {
            access1(q >> 3, (u8)(q + 8 <= a + n ? 0xff : (1u << (a + n - q)) - 1), true, false, (u32)pc, true);
            Cell* c = cell_get(q >> 3, true);
            c->freed = 1; c->freed_by = (u8)g_cur; c->freed_pc = (u32)pc;
        }
    }
}
#define PC ((u64)__builtin_return_address(0))
void* operator new(size_t n) { return do_new(n, PC); }
void* operator new[](size_t n) { return do_new(n, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, PC); }
void* operator new(size_t n, std::align_val_t al) { return do_new(n, PC, (size_t)al); }
void* operator new[](size_t n, std::align_val_t al) { return do_new(n, PC, (size_t)al); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }

// ------------------------------------------------------------------ sync helpers
static inline void tick(int t) { g_t[t].vc.c[t]++; }
static inline void impure() { g_t[g_cur].impure = true; g_writeflag = true; }

static PollEnt* poll_track(SyncObj* s) {
    Thread& th = g_t[g_cur];
    for (int i = 0; i < th.npoll; ++i) if (th.poll[i].o == s) return &th.poll[i];
    if (th.npoll < 8) {
        PollEnt* p = &th.poll[th.npoll++];
        p->o = s; p->m0 = p->m1 = s->m; p->r0 = p->r1 = s->mr;
        return p;
    }
    th.impure = true;
    return nullptr;
}
// called before modifying s->m / s->mr
static void track_before(SyncObj* s) {
    PollEnt* p = poll_track(s);
    if (p && (p->m1 != s->m || p->r1 != s->mr)) { p->m0 = s->m; p->r0 = s->mr; g_t[g_cur].impure = true; }
}
static void track_after(SyncObj* s) {
    PollEnt* p = poll_track(s);
    if (p) { p->m1 = s->m; p->r1 = s->mr; }
}

static void acquire_w(SyncObj* s) {   // exclusive acquire of hash+clock
    Thread& th = g_t[g_cur];
    track_before(s);
    th.h = mix(mix(mix(th.h, s->key), s->m), s->mr);
    vc_join(th.vc, s->vc); vc_join(th.vc, s->rvc);
}
static void release_w(SyncObj* s) {
    Thread& th = g_t[g_cur];
    track_before(s);
    s->vc = th.vc; memset(&s->rvc, 0, sizeof s->rvc);
    tick(g_cur);
    th.h = mix(th.h, s->key ^ 0x77);
    s->m = th.h; s->mr = 0;
    track_after(s);
}
static void acquire_r(SyncObj* s) {
    Thread& th = g_t[g_cur];
    track_before(s);
    th.h = mix(mix(th.h, s->key ^ 0x3), s->m);
    vc_join(th.vc, s->vc);
}
static void release_r(SyncObj* s) {
    Thread& th = g_t[g_cur];
    track_before(s);
    vc_join(s->rvc, th.vc);
    tick(g_cur);
    th.h = mix(th.h, s->key ^ 0x79);
    s->mr += mix(th.h, 9);
    track_after(s);
}

static void freed_check(u64 a, u64 pc, const char* what) {
    if (in_arena(a)) {
        check_freed_page(a, (u32)pc, what);
    }
    Cell* c = cell_get(a >> 3, false);
    if (c && c->freed) violation("use after free: %s on freed object %llx at @%llx, freed by T%d at @%x", what, (unsigned long long)a, (unsigned long long)pc, c->freed_by, c->freed_pc);
}

static void block_on(Pend p, u64 obj) {
    Thread& th = g_t[g_cur];
    th.pend = p; th.obj = obj;
    schedule();
    th.pend = P_RUN;
}

// try-locks observe unlocks, so the first execution that uses one makes the whole
// scenario start over with a scheduling point before every unlock
static volatile int* g_tryseen;
static bool g_unlock_points;
static void sched_point();
static void saw_trylock() { if (g_tryseen) *g_tryseen = 1; }
static void unlock_point() { if (g_unlock_points) sched_point(); }

static void sched_point() {
    g_t[g_cur].pend = P_RUN;
    schedule();
}

static void do_sleep(bool timed_clock, u64 ns) {
    Thread& th = g_t[g_cur];
    static u32 seq = 0;
    if (!th.impure) {
        // pure poll: erase it from the history
        bool ok = true;
        for (int i = 0; i < th.npoll; ++i) {
            PollEnt& p = th.poll[i];
            if (p.o->m != p.m1 || p.o->mr != p.r1) ok = false;
        }
        if (ok) {
            for (int i = 0; i < th.npoll; ++i) { th.poll[i].o->m = th.poll[i].m0; th.poll[i].o->mr = th.poll[i].r0; }
            th.h = th.h_wake;
        } else {
            th.h = mix(th.h, 0x51ee9);
        }
    } else {
        th.h = mix(th.h, 0x51ee9);
    }
    th.woken = false;
    th.wait_seq = ++seq;
    th.pend = P_SLEEP;
    g_vclock_ns += ns > 1000000000ull ? 1000000000ull : ns;
    u64 h0 = th.h;
    // data this thread read since the last wake decides when it is woken
    schedule();
    th.pend = P_RUN;
    th.woken = false;
    tick(g_cur);
    th.wake_clk = th.vc.c[g_cur];
    th.h_wake = h0;
    th.bump_wake = th.bump;
    th.impure = false;
    th.npoll = 0;
}

// ------------------------------------------------------------------ pthread interposition
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

static int tid_of(pthread_t p) {
    for (int t = g_nthreads - 1; t >= 0; --t) if (pthread_equal(g_t[t].real, p)) return t;
    return -1;
}

static void* trampoline(void* a) {
    int me = (int)(long)a;
    Thread& th = g_t[me];
    futex_wait(&th.futex);
    try {
        th.ret = th.fn(th.arg);
    } catch (...) {
        violation("uncaught exception left a thread");
    }
    if (!g_on) return th.ret;
    th.finished = true;
    th.pend = P_DONE;
    th.h = mix(th.h, 0xd0e);
    g_writeflag = true;
    // wake joiners
    schedule();
    return th.ret;
}

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept {
    if (!real_create) real_create = REAL(pthread_create);
    if (!g_on) return real_create(out, attr, fn, arg);
    sched_point();
    if (g_nthreads >= MAXT) violation("harness limit: more than %d threads", MAXT);
    int t = g_nthreads;
    Thread& th = g_t[t];
    memset(&th, 0, sizeof th);
    th.fn = fn; th.arg = arg;
    th.stack_lo = STACK_BASE + STACK_STRIDE * t;
    th.stack_hi = th.stack_lo + STACK_SIZE;
    th.bump = th.bump_wake = ARENA_BASE + ARENA_SIZE * t + 64;
    Thread& me = g_t[g_cur];
    me.h = mix(me.h, 0xc4ea7e + t);
    th.h = mix(me.h, t);
    th.h_wake = th.h;
    th.impure = true;
    th.vc = me.vc;
    tick(g_cur);
    th.vc.c[t] = 1;
    th.wake_clk = 1;
    th.pend = P_RUN;
    impure();
    pthread_attr_t a2;
    pthread_attr_init(&a2);
    pthread_attr_setstack(&a2, (void*)th.stack_lo, STACK_SIZE);
    bool on = g_on; g_on = false;
    int rc = real_create(&th.real, &a2, trampoline, (void*)(long)t);
    g_on = on;
    pthread_attr_destroy(&a2);
    if (rc) violation("harness: pthread_create failed %d", rc);
    g_nthreads++;
    if (attr) { int ds; if (pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) th.detached = true; }
    *out = th.real;
    access_range((u64)out, sizeof *out, true, false, PC);
    return 0;
}

int pthread_join(pthread_t p, void** ret) {
    if (!real_join) real_join = REAL(pthread_join);
    if (!g_on) return real_join(p, ret);
    int t = tid_of(p);
    if (t < 0) violation("join of an unknown thread");
    if (t == g_cur) return EDEADLK;
    if (g_t[t].joined || g_t[t].detached) violation("join of a thread already joined or detached");
    Thread& me = g_t[g_cur];
    me.join_tid = t;
    block_on(P_JOIN, 0);
    vc_join(me.vc, g_t[t].vc);
    me.h = mix(mix(me.h, 0x101), g_t[t].h);
    g_t[t].joined = true;
    impure();
    if (ret) *ret = g_t[t].ret;
    return 0;
}

int pthread_detach(pthread_t p) noexcept {
    if (!real_detach) real_detach = REAL(pthread_detach);
    if (!g_on) return real_detach(p);
    int t = tid_of(p);
    if (t >= 0) g_t[t].detached = true;
    return 0;
}

// ---- mutexes
static bool mutex_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!g_on) return 0;
    freed_check((u64)m, PC, "lock");
    SyncObj* s = sync_get((u64)m);
    if (s->owner == g_cur && mutex_recursive(m)) { s->rec++; return 0; }
    if (s->owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    if (s->owner == g_cur) violation("self deadlock: thread T%d locks a mutex it already holds at @%llx", g_cur, (unsigned long long)PC);
    block_on(P_LOCK, (u64)m);
    freed_check((u64)m, PC, "lock");
    s->owner = g_cur; s->rec = 0;
    acquire_w(s);
    track_after(s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!g_on) return 0;
    saw_trylock();
    freed_check((u64)m, PC, "lock");
    sched_point();
    SyncObj* s = sync_get((u64)m);
    if (s->owner == g_cur && mutex_recursive(m)) { s->rec++; return 0; }
    Thread& th = g_t[g_cur];
    if (s->owner != -1) {
        access1((u64)m >> 3, 1, false, true, (u32)PC, false);
        th.h = mix(mix(th.h, 0xbadd), s->owner);
        return EBUSY;
    }
    s->owner = g_cur; s->rec = 0;
    acquire_w(s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!g_on) return 0;
    freed_check((u64)m, PC, "unlock");
    SyncObj* s = sync_get((u64)m);
    if (s->owner != g_cur) violation("unlock of a mutex not held by this thread at @%llx", (unsigned long long)PC);
    if (s->rec) { s->rec--; return 0; }
    unlock_point();
    s->owner = -1;
    release_w(s);
    Cell* c = cell_get((u64)m >> 3, false);
    if (c) wake_check(c, 1);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    memset((void*)m, 0, sizeof *m);
    if (a) { int k; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (g_on) { SyncObj* s = sync_get((u64)m); s->owner = -1; s->rec = 0; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
    if (!g_on) return 0;
    SyncObj* s = sync_get((u64)m);
    if (s->owner != -1) violation("destroying a locked mutex at @%llx", (unsigned long long)PC);
    return 0;
}

// ---- rwlocks (glibc default: readers preferred, so a reader never waits for a waiting writer)
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { memset((void*)m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    SyncObj* s = sync_get((u64)m);
    if (s->owner != -1 || s->nreaders) violation("destroying a locked shared mutex (held by T%d, %d readers) at @%llx", s->owner, s->nreaders, (unsigned long long)PC);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    freed_check((u64)m, PC, "lock");
    SyncObj* s = sync_get((u64)m);
    if (s->owner == g_cur) return EDEADLK;
    block_on(P_RDLOCK, (u64)m);
    freed_check((u64)m, PC, "lock");
    s->nreaders++; s->readers[g_cur]++;
    acquire_r(s);
    track_after(s);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    freed_check((u64)m, PC, "lock");
    SyncObj* s = sync_get((u64)m);
    if (s->owner == g_cur) return EDEADLK;
    if (s->readers[g_cur]) violation("self deadlock: thread T%d requests a write lock while it holds a read lock at @%llx", g_cur, (unsigned long long)PC);
    block_on(P_WRLOCK, (u64)m);
    freed_check((u64)m, PC, "lock");
    s->owner = g_cur;
    acquire_w(s);
    track_after(s);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    saw_trylock();
    freed_check((u64)m, PC, "lock");
    sched_point();
    SyncObj* s = sync_get((u64)m);
    if (s->owner != -1) { access1((u64)m >> 3, 1, false, true, (u32)PC, false); g_t[g_cur].h = mix(g_t[g_cur].h, 0xbadd); return EBUSY; }
    s->nreaders++; s->readers[g_cur]++;
    acquire_r(s);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    saw_trylock();
    freed_check((u64)m, PC, "lock");
    sched_point();
    SyncObj* s = sync_get((u64)m);
    if (s->owner != -1 || s->nreaders) { access1((u64)m >> 3, 1, false, true, (u32)PC, false); g_t[g_cur].h = mix(g_t[g_cur].h, 0xbadd); return EBUSY; }
    s->owner = g_cur;
    acquire_w(s);
    return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec*) noexcept { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec*) noexcept { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) noexcept { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const struct timespec*) noexcept { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (!g_on) return 0;
    freed_check((u64)m, PC, "unlock");
    SyncObj* s = sync_get((u64)m);
    if (s->owner == g_cur || s->readers[g_cur]) unlock_point();
    if (s->owner == g_cur) { s->owner = -1; release_w(s); }
    else if (s->readers[g_cur]) { s->readers[g_cur]--; s->nreaders--; release_r(s); }
    else violation("unlock of a shared mutex not held by this thread at @%llx", (unsigned long long)PC);
    Cell* c = cell_get((u64)m >> 3, false);
    if (c) wake_check(c, 1);
    return 0;
}

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset((void*)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    static u32 seq = 1u << 30;
    freed_check((u64)c, PC, "wait");
    Thread& th = g_t[g_cur];
    SyncObj* s = sync_get((u64)c);
    th.pend = P_COND; th.obj = (u64)c; th.notified = false; th.woken = false; th.timed = timed; th.wait_seq = ++seq;
    th.h = mix(th.h, (u64)c);
    // release the mutex (without a scheduling point: atomic with starting to wait)
    SyncObj* ms = sync_get((u64)m);
    if (ms->owner != g_cur) violation("condition wait without holding the mutex");
    ms->owner = -1; release_w(ms);
    schedule();
    th.pend = P_RUN;
    bool n = th.notified;
    th.notified = false; th.timed = false; th.woken = false;
    if (n) { vc_join(th.vc, s->vc); th.h = mix(th.h, s->m); } else th.h = mix(th.h, 0x7e0);
    tick(g_cur); th.wake_clk = th.vc.c[g_cur]; th.h_wake = th.h; th.impure = true; th.npoll = 0;
    th.bump_wake = th.bump;
    pthread_mutex_lock(m);
    return n ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g_on ? cond_wait_impl(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return g_on ? cond_wait_impl(c, m, true) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return g_on ? cond_wait_impl(c, m, true) : 0; }
static void cond_notify(pthread_cond_t* c, bool all) {
    freed_check((u64)c, PC, "notify");
    sched_point();
    SyncObj* s = sync_get((u64)c);
    Thread& me = g_t[g_cur];
    vc_join(s->vc, me.vc); tick(g_cur);
    me.h = mix(mix(me.h, (u64)c), s->m);
    impure();
    int w[MAXT], n = 0;
    for (int t = 0; t < g_nthreads; ++t) if (g_t[t].pend == P_COND && g_t[t].obj == (u64)c && !g_t[t].notified) w[n++] = t;
    if (n == 0) return;
    s->m = me.h;
    if (all) { for (int i = 0; i < n; ++i) g_t[w[i]].notified = true; return; }
    int k = 0;
    if (n > 1) k = decide(n, 0, mix(state_hash(), 0xc0d + g_cur));
    g_t[w[k]].notified = true;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (g_on) cond_notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (g_on) cond_notify(c, true); return 0; }

// ---- once
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!g_on) { if (*o == 2) return 0; *o = 1; try { fn(); } catch (...) { *o = 0; throw; } *o = 2; return 0; }
    SyncObj* s = sync_get((u64)o);
    block_on(P_ONCE, (u64)o);
    acquire_w(s);
    if (*o == 2) { s->vc = g_t[g_cur].vc; return 0; }
    s->owner = g_cur; *o = 1;
    impure();
    try { fn(); } catch (...) { *o = 0; s->owner = -1; release_w(s); throw; }
    *o = 2; s->owner = -1; release_w(s);
    return 0;
}

// ---- static local initialisation
int __cxa_guard_acquire(u64* g) {
    char* b = (char*)g;
    if (b[0]) return 0;
    if (!g_on) { b[1] = 1; return 1; }
    SyncObj* s = sync_get((u64)g);
    if (s->owner == g_cur) violation("recursive initialisation of a function-local static at @%llx", (unsigned long long)PC);
    block_on(P_GUARD, (u64)g);
    acquire_w(s);
    if (b[0]) return 0;
    s->owner = g_cur;
    impure();
    return 1;
}
void __cxa_guard_release(u64* g) noexcept {
    char* b = (char*)g;
    b[0] = 1;
    if (!g_on) return;
    SyncObj* s = sync_get((u64)g);
    s->owner = -1; release_w(s);
    impure();
}
void __cxa_guard_abort(u64* g) noexcept {
    ((char*)g)[1] = 0;
    if (!g_on) return;
    SyncObj* s = sync_get((u64)g);
    s->owner = -1; release_w(s);
}

// ---- time
int nanosleep(const struct timespec* ts, struct timespec*) {
    if (!g_on) { return (int)rawsys(SYS_nanosleep, (long)ts, 0); }
    do_sleep(true, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* ts, struct timespec*) {
    if (!g_on) { return (int)-rawsys(SYS_clock_nanosleep, c, f, (long)ts, 0); }
    do_sleep(true, 1000000);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield() noexcept { if (g_on) do_sleep(false, 0); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!g_on) return (int)rawsys(SYS_clock_gettime, c, (long)ts);
    u64 v = 1700000000ull * 1000000000ull + g_vclock_ns;
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

// futexes used directly by std::atomic::wait
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (g_on && n == SYS_futex) {
        int op = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            Thread& th = g_t[g_cur];
            th.woken = false; th.h = mix(th.h, a);
            block_on(P_FUTEX, (u64)a);
            th.woken = false; th.h = mix(th.h, 0xf7);
            return 0;
        }
        if (op == FUTEX_WAKE) {
            sched_point();
            int k = 0;
            for (int t = 0; t < g_nthreads; ++t) if (g_t[t].pend == P_FUTEX && g_t[t].obj == (u64)a && !g_t[t].woken && k < (int)c) { g_t[t].woken = true; ++k; }
            impure();
            return k;
        }
    }
    long r = rawsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ tsan ABI: plain accesses
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if (!g_on) return;
    Thread& th = g_t[g_cur];
    if (th.depth < 64) th.pcs[th.depth] = (uintptr_t)pc;
    th.depth++;
}
void __tsan_func_exit() { if (g_on && g_t[g_cur].depth > 0) g_t[g_cur].depth--; }
#define RW(N) \
    void __tsan_read##N(void* a) { access_range((u64)a, N, false, false, PC); } \
    void __tsan_write##N(void* a) { access_range((u64)a, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* a) { access_range((u64)a, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* a) { access_range((u64)a, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* a) { access_range((u64)a, N, false, false, PC); } \
    void __tsan_volatile_write##N(void* a) { access_range((u64)a, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void* a) { access_range((u64)a, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* a) { access_range((u64)a, N, true, false, PC); } \
    void __tsan_read_write##N(void* a) { access_range((u64)a, N, false, false, PC); access_range((u64)a, N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void* a) { access_range((u64)a, N, false, false, PC); access_range((u64)a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access_range((u64)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access_range((u64)p, 8, false, false, PC); }
void __tsan_read_range(void* a, u64 n) { access_range((u64)a, n, false, false, PC); }
void __tsan_write_range(void* a, u64 n) { access_range((u64)a, n, true, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, u64 n) {
    access_range((u64)s, n, false, false, PC); access_range((u64)d, n, true, false, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, u64 n) {
    access_range((u64)s, n, false, false, PC); access_range((u64)d, n, true, false, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, u64 n) { access_range((u64)d, n, true, false, PC); return memset(d, c, n); }

// ------------------------------------------------------------------ tsan ABI: atomics
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
static inline bool is_acq(int mo) { return mo == MO_ACQUIRE || mo == MO_CONSUME || mo == MO_ACQ_REL || mo == MO_SEQ; }
static inline bool is_rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ; }

static void at_load(u64 a, int mo) {
    SyncObj* s = sync_get(a);
    Thread& th = g_t[g_cur];
    track_before(s);
    th.h = mix(mix(th.h, a ^ 0x11), s->m);
    s->mr += mix(th.h, 11);
    track_after(s);
    if (is_acq(mo)) vc_join(th.vc, s->vc); else vc_join(th.acq_pend, s->vc);
}
static void at_store(u64 a, int mo, bool rmw) {
    SyncObj* s = sync_get(a);
    Thread& th = g_t[g_cur];
    track_before(s);
    th.h = mix(mix(mix(th.h, a ^ 0x13), s->m), s->mr);
    s->m = th.h; s->mr = 0;
    track_after(s);
    if (rmw && is_acq(mo)) vc_join(th.vc, s->vc);
    else if (rmw) vc_join(th.acq_pend, s->vc);
    if (!rmw) memset(&s->vc, 0, sizeof s->vc);
    if (is_rel(mo)) vc_join(s->vc, th.vc); else vc_join(s->vc, th.rel_fence);
    tick(g_cur);
}
static void fence(int mo) {
    Thread& th = g_t[g_cur];
    if (is_acq(mo)) vc_join(th.vc, th.acq_pend);
    if (is_rel(mo)) { th.rel_fence = th.vc; tick(g_cur); }
}
}  // extern "C" (templates below)

template <typename T> static T a_load(const volatile T* a, int mo, u64 pc) {
    if (!g_on) return *a;
    if (sizeof(T) == 1 && mo == MO_ACQUIRE && *(const volatile char*)a) {   // guard byte already set: commutes
        access_range((u64)a, sizeof(T), false, true, pc);
        SyncObj* s = sync_get((u64)a);
        vc_join(g_t[g_cur].vc, s->vc);
        return *a;
    }
    freed_check((u64)a, pc, "atomic load");
    sched_point();
    access_range((u64)a, sizeof(T), false, true, pc);
    at_load((u64)a, mo);
    T v = *a;
    return v;
}
template <typename T> static void a_store(volatile T* a, T v, int mo, u64 pc) {
    if (!g_on) { *a = v; return; }
    freed_check((u64)a, pc, "atomic store");
    sched_point();
    access_range((u64)a, sizeof(T), true, true, pc);
    at_store((u64)a, mo, false);
    impure();
    *a = v;
}
template <typename T, typename F> static T a_rmw(volatile T* a, int mo, u64 pc, F f) {
    if (!g_on) { T o = *a; *a = f(o); return o; }
    freed_check((u64)a, pc, "atomic update");
    sched_point();
    access_range((u64)a, sizeof(T), true, true, pc);
    // an RMW also reads: lets it wake pollers and be seen by them
    Cell* c = cell_get((u64)a >> 3, true);
    c->rclk[g_cur] = g_t[g_cur].vc.c[g_cur]; c->rmask[g_cur] |= (u8)((sizeof(T) >= 8 ? 0xff : ((1u << sizeof(T)) - 1)) << ((u64)a & 7)); c->ratom |= 1u << g_cur; c->rpc[g_cur] = (u32)pc;
    at_store((u64)a, mo, true);
    impure();
    T o = *a; *a = f(o);
    return o;
}
// shared_ptr reference counts: 32 bit, acq_rel
template <typename T> static T a_ref(volatile T* a, T delta, u64 pc) {
    Thread& th = g_t[g_cur];
    access_range((u64)a, sizeof(T), true, true, pc, true);
    SyncObj* s = sync_get((u64)a);
    T o = *a; T n = o + delta; *a = n;
    if ((long)(std::make_signed_t<T>)delta < 0) {
        vc_join(s->vc, th.vc);
        tick(g_cur);
        if (n == 0) vc_join(th.vc, s->vc);
        th.h = mix(th.h, n == 0 ? 0xdec0 : 0xdec1);
    }
    return o;
}
template <typename T> static int a_cas(volatile T* a, T* e, T v, int mo, int fmo, u64 pc) {
    if (!g_on) { if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }
    freed_check((u64)a, pc, "atomic compare-exchange");
    sched_point();
    if (*a == *e) {
        access_range((u64)a, sizeof(T), true, true, pc);
        at_store((u64)a, mo, true);
        impure();
        *a = v;
        return 1;
    }
    access_range((u64)a, sizeof(T), false, true, pc);
    at_load((u64)a, fmo);
    *e = *a;
    return 0;
}
extern "C" {
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC); } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [=](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { if (N == 32 && mo == MO_ACQ_REL && g_on) return a_ref<T>(a, v, PC); return a_rmw<T>(a, mo, PC, [=](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { if (N == 32 && mo == MO_ACQ_REL && g_on) return a_ref<T>(a, (T)(0 - v), PC); return a_rmw<T>(a, mo, PC, [=](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [=](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [=](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [=](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [=](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas<T>(a, e, v, mo, fmo, PC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas<T>(a, e, v, mo, fmo, PC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { a_cas<T>(a, &e, v, mo, fmo, PC); return e; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) { if (g_on) fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}

// libstdc++.so routines that touch container memory without instrumentation:
// report their accesses, then run the real code.
namespace std {
struct _Rb_tree_node_base;
namespace __detail { struct _List_node_base; }
}
#define LIBFN(ret, sym, args, call, note) \
    extern "C" ret sym args { typedef ret (*fn_t) args; static fn_t real; if (!real) real = (fn_t)dlsym(RTLD_NEXT, #sym); note; return real call; }
struct RbNode { u32 color; RbNode* parent; RbNode* left; RbNode* right; };
static inline void rd(void* p, u64 n, u64 pc) { access_range((u64)p, n, false, false, pc); }
static inline void wr(void* p, u64 n, u64 pc) { access_range((u64)p, n, true, false, pc); }
static void rb_write(RbNode* x, u64 pc) { if (x) wr(x, sizeof(RbNode), pc); }
LIBFN(void, _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_, (bool l, RbNode* x, RbNode* p, RbNode* h), (l, x, p, h),
      if (g_on) { u64 pc = PC; rb_write(x, pc); rb_write(p, pc); rb_write(h, pc); if (p != h && p->parent) rb_write(p->parent, pc); })
LIBFN(RbNode*, _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_, (RbNode * z, RbNode* h), (z, h),
      if (g_on) { u64 pc = PC; rb_write(z, pc); rb_write(h, pc); rb_write(z->parent, pc); rb_write(z->left, pc); rb_write(z->right, pc); })
static void rb_inc(RbNode* x, u64 pc) {
    if (!g_on || !x) return;
    rd(x, sizeof(RbNode), pc);
    if (x->right) { x = x->right; rd(x, sizeof(RbNode), pc); while (x->left) { x = x->left; rd(x, sizeof(RbNode), pc); } }
    else { RbNode* y = x->parent; rd(y, sizeof(RbNode), pc); while (x == y->right) { x = y; y = y->parent; rd(y, sizeof(RbNode), pc); } }
}
static void rb_dec(RbNode* x, u64 pc) { if (g_on && x) { rd(x, sizeof(RbNode), pc); if (x->left) rd(x->left, sizeof(RbNode), pc); else if (x->parent) rd(x->parent, sizeof(RbNode), pc); } }
LIBFN(RbNode*, _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base, (RbNode * x), (x), rb_inc(x, PC))
LIBFN(const RbNode*, _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base, (const RbNode* x), (x), rb_inc((RbNode*)x, PC))
LIBFN(RbNode*, _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base, (RbNode * x), (x), rb_dec(x, PC))
LIBFN(const RbNode*, _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base, (const RbNode* x), (x), rb_dec((RbNode*)x, PC))
struct LNode { LNode* next; LNode* prev; };
LIBFN(void, _ZNSt8__detail15_List_node_base7_M_hookEPS0_, (LNode * self, LNode* pos), (self, pos),
      if (g_on) { u64 pc = PC; wr(self, 16, pc); wr(&pos->prev, 8, pc); wr(&pos->prev->next, 8, pc); })
LIBFN(void, _ZNSt8__detail15_List_node_base9_M_unhookEv, (LNode * self), (self),
      if (g_on) { u64 pc = PC; rd(self, 16, pc); wr(&self->prev->next, 8, pc); wr(&self->next->prev, 8, pc); })

// ------------------------------------------------------------------ harness API
namespace mc {
bool controlled() { return g_on; }
void check(bool cond, const char* fmt, ...) {
    if (cond) return;
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (!g_on) { fprintf(stderr, "check failed outside exploration: %s\n", buf); abort(); }
    violation("%s", buf);
}
void observe(const char* fmt, ...) {
    if (!g_slot || g_outlen + 1 >= OUTLEN) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(g_slot->out + g_outlen, OUTLEN - g_outlen, fmt, ap);
    va_end(ap);
    if (n > 0) { g_outlen += n; if (g_outlen >= OUTLEN) g_outlen = OUTLEN - 1; }
}
int choose(int n) {
    if (!g_on || n <= 1) return 0;
    int c = decide(n, 0, mix(state_hash(), 0xda7a + g_cur));
    g_datahash = mix(g_datahash, c + 1);
    g_t[g_cur].h = mix(g_t[g_cur].h, 0xda + c);
    return c;
}
void point() { if (g_on) { sched_point(); Thread& th = g_t[g_cur]; th.h = mix(th.h, 0x90); } }
int threads_created() { return g_nthreads; }
unsigned long now() { static unsigned long n; return ++n; }

static const scenario* g_scen[256]; static int g_nscen;
static scenario g_scen_store[256];
registrar::registrar(const char* n, void (*p)(), void (*b)(), int q, int t, double w) {
    g_scen_store[g_nscen] = scenario{n, p, b, q, t, w};
    g_scen[g_nscen] = &g_scen_store[g_nscen]; g_nscen++;
}
}  // namespace mc
using mc::scenario;

// ------------------------------------------------------------------ explorer
struct Bucket { u64 top; u64 count; };     // LIFO stack of records
enum { MAXB = 12 };
static const u64 BUCKET_SIZE = 4ull << 30;
struct Shared {
    volatile int lock;
    Bucket b[MAXB];
    volatile int active;
    volatile int stop;       // 1: violation or error found, 2: time
    volatile int viol_worker;
    u64 execs, complete, pruned, transitions, states, maxpts, maxsteps, maxthreads;
    u64 outcome_hash[4096]; u32 nout; char outsample[12][OUTLEN]; u32 noutsample;
    u64 hist_len;
};
static Shared* g_sh; static u8* g_bk[MAXB]; static Slot* g_slots;

static void spin_lock() { while (__atomic_exchange_n(&g_sh->lock, 1, __ATOMIC_ACQUIRE)) rawsys(SYS_sched_yield); }
static void spin_unlock() { __atomic_store_n(&g_sh->lock, 0, __ATOMIC_RELEASE); }
static double now() { struct timespec ts; rawsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

static void* shm(u64 n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap shared"); _exit(2); }
    return p;
}
static void* priv(u64 n, u64 at = 0) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}

static void push(u32 cost, const u8* prefix, u32 n, u64 hash) {
    Bucket& b = g_sh->b[cost];
    u64 need = n + 4 + 8;
    if (b.top + need > BUCKET_SIZE) { g_sh->stop = 3; return; }
    u8* base = g_bk[cost] + b.top;
    memcpy(base, prefix, n);
    memcpy(base + n, &hash, 8);
    memcpy(base + n + 8, &n, 4);
    b.top += need; b.count++;
}
static bool pop(Slot* s) {
    for (int c = 0; c < MAXB; ++c) {
        Bucket& b = g_sh->b[c];
        if (!b.count) continue;
        u32 n; memcpy(&n, g_bk[c] + b.top - 4, 4);
        b.top -= n + 12; b.count--;
        memcpy(s->prefix, g_bk[c] + b.top, n);
        memcpy(&s->expect_hash, g_bk[c] + b.top + n, 8);
        s->nprefix = n;
        return true;
    }
    return false;
}

static void on_signal(int sig, siginfo_t* si, void*) {
    if (!g_on) { g_slot->status = ST_CRASH; rawsys(SYS_exit_group, 1); }
    if (sig == SIGPROF || sig == SIGXCPU) violation("execution did not finish within its CPU limit (infinite loop?)");
    violation("crash: signal %d (%s) address %p", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic" : "other", si ? si->si_addr : nullptr);
}
static void on_terminate() {
    if (g_on) {
        const char* what = "";
        static char buf[512];
        try { std::exception_ptr e = std::current_exception(); if (e) std::rethrow_exception(e); }
        catch (std::exception& e) { snprintf(buf, sizeof buf, "%s: %s", typeid(e).name(), e.what()); what = buf; }
        catch (...) { what = "unknown exception"; }
        violation("std::terminate called (%s)", what);
    }
    abort();
}

static int g_cpu_limit = 20;
[[noreturn]] static void run_child(const scenario* sc, Slot* s) {
    g_slot = s;
    s->status = ST_NONE; s->npoints = 0; s->ntransitions = 0; s->out[0] = 0; s->msg[0] = 0; s->new_states = 0; s->nthreads = 0;
    struct itimerval it = {{0, 0}, {g_cpu_limit, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    stack_t ss; static char altstack[65536]; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sig : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF}) sigaction(sig, &sa, nullptr);
    std::set_terminate(on_terminate);
    memset(&g_t[0], 0, sizeof(Thread));
    g_nthreads = 1; g_cur = 0;
    Thread& th = g_t[0];
    char here;
    th.stack_lo = (u64)&here - (8ull << 20); th.stack_hi = (u64)&here + (1ull << 20);
    th.bump = th.bump_wake = ARENA_BASE + 64;
    th.vc.c[0] = 1; th.wake_clk = 1; th.impure = true; th.h = 1; th.h_wake = 1;
    th.real = pthread_self();
    __libc_single_threaded = 0;
    g_on = true;
    try { sc->body(); }
    catch (std::exception& e) { if (g_on) violation("uncaught exception from the scenario: %s", e.what()); }
    catch (...) { if (g_on) violation("uncaught exception from the scenario"); }
    finish(ST_OK);
}

static void account(Slot* s) {
    spin_lock();
    g_sh->execs++;
    g_sh->transitions += s->ntransitions;
    g_sh->states += s->new_states;
    if (s->npoints > g_sh->maxpts) g_sh->maxpts = s->npoints;
    if (s->ntransitions > g_sh->maxsteps) g_sh->maxsteps = s->ntransitions;
    if (s->nthreads > g_sh->maxthreads) g_sh->maxthreads = s->nthreads;
    if (s->status == ST_OK) {
        g_sh->complete++;
        u64 h = 14695981039346656037ull;
        for (const char* p = s->out; *p; ++p) h = (h ^ (u8)*p) * 1099511628211ull;
        if (!h) h = 1;
        bool found = false;
        for (u32 i = 0; i < g_sh->nout; ++i) if (g_sh->outcome_hash[i] == h) { found = true; break; }
        if (!found && g_sh->nout < 4096) {
            g_sh->outcome_hash[g_sh->nout++] = h;
            if (g_sh->noutsample < 12) memcpy(g_sh->outsample[g_sh->noutsample++], s->out, OUTLEN);
        }
    } else if (s->status == ST_PRUNED) g_sh->pruned++;
    for (u32 i = s->nprefix; i < s->npoints; ++i) {
        Point& p = s->pts[i];
        for (int alt = p.nopt - 1; alt >= 1; --alt) {
            u32 cost = p.cost + p.cost_rest;
            if ((int)cost > g_bound) break;
            static u8 buf[MAXPTS];
            for (u32 k = 0; k < i; ++k) buf[k] = s->pts[k].chosen;
            buf[i] = (u8)alt;
            push(cost, buf, i + 1, p.hash);
        }
    }
    spin_unlock();
}

static int spawn(const scenario* sc, Slot* s) {
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return -1; }
    if (pid == 0) run_child(sc, s);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->status == ST_NONE) { s->status = ST_CRASH; snprintf(s->msg, MSGLEN, "execution ended abnormally (wait status %x)", st); }
    return s->status;
}

static void worker(const scenario* sc, int w, double deadline) {
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w, &cs); sched_setaffinity(0, sizeof cs, &cs);
    Slot* s = &g_slots[w];
    bool active = true;
    for (;;) {
        if (g_sh->stop) break;
        if (now() > deadline) { g_sh->stop = 2; break; }
        spin_lock();
        bool got = pop(s);
        if (got && !active) { active = true; g_sh->active++; }
        if (!got && active) { active = false; g_sh->active--; }
        bool idle_all = !got && g_sh->active == 0;
        spin_unlock();
        if (!got) {
            if (idle_all) break;
            struct timespec ts = {0, 200000}; rawsys(SYS_nanosleep, (long)&ts);
            continue;
        }
        s->replay = 0;
        int st = spawn(sc, s);
        if (st == ST_OK || st == ST_PRUNED) { account(s); continue; }
        spin_lock();
        if (!g_sh->stop) { g_sh->stop = 1; g_sh->viol_worker = w; }
        g_sh->execs++;
        spin_unlock();
        break;
    }
    _exit(0);
}

static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if (*s == '\n') fputs("\\n", f);
        else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s);
        else fputc(*s, f);
    }
    fputc('"', f);
}

// replaces "@hex" by "function file:line" using addr2line on this executable
static void symbolize(char* msg, u64 cap) {
    char exe[1024]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return; exe[n] = 0;
    static char out[4 * MSGLEN]; u64 o = 0;
    for (char* p = msg; *p && o + 600 < sizeof out;) {
        if (*p == '@' && ((p[1] >= '0' && p[1] <= '9') || (p[1] >= 'a' && p[1] <= 'f'))) {
            char* e; u64 a = strtoull(p + 1, &e, 16);
            char cmd[1300]; snprintf(cmd, sizeof cmd, "addr2line -Cfs -e '%s' %llx 2>/dev/null", exe, (unsigned long long)(a ? a - 1 : 0));
            FILE* f = popen(cmd, "r");
            char fn[400] = "?", ln[200] = "?";
            if (f) { if (!fgets(fn, sizeof fn, f)) fn[0] = 0; if (!fgets(ln, sizeof ln, f)) ln[0] = 0; pclose(f); }
            fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n")] = 0;
            if (strlen(fn) > 80) fn[80] = 0;
            o += snprintf(out + o, sizeof out - o, "[%s %s]", fn, ln);
            p = e;
        } else out[o++] = *p++;
    }
    out[o] = 0;
    snprintf(msg, cap, "%s", out);
}

static void setup_memory() {
    g_sync = (SyncObj*)priv(sizeof(SyncObj) * SYNC_N);
    g_dir = (DirEnt*)priv(sizeof(DirEnt) * DIR_N);
    g_cellpool = (u8*)priv(64ull << 30);
    g_freedpage = (u8*)priv(ARENA_SIZE * MAXT >> 12);
    priv(ARENA_SIZE * MAXT, ARENA_BASE);
    for (int t = 1; t < MAXT; ++t) priv(STACK_SIZE, STACK_BASE + STACK_STRIDE * t);
    g_vis = (VisEnt*)shm(sizeof(VisEnt) * VIS_N);
    g_sh = (Shared*)shm(sizeof(Shared));
    g_tryseen = (volatile int*)shm(4096);
    for (int i = 0; i < MAXB; ++i) g_bk[i] = (u8*)shm(BUCKET_SIZE);
    g_slots = (Slot*)shm(sizeof(Slot) * 65);
}

int main(int argc, char** argv) {
    // no address randomisation: identical addresses in every run
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR")) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    double tlimit = 30; int workers = 8; bool thorough = false; int boundo = -1;
    const char* only = nullptr; const char* json = nullptr; const char* replay = nullptr; const char* replay_out = nullptr;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) thorough = true;
        else if (!strcmp(argv[i], "--bound")) boundo = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--json")) json = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
        else if (!strcmp(argv[i], "--list")) { for (int k = 0; k < mc::g_nscen; ++k) puts(mc::g_scen[k]->name); return 0; }
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
    }
    real_create = REAL(pthread_create); real_join = REAL(pthread_join); real_detach = REAL(pthread_detach);
    setup_memory();
    // resolve lazily bound symbols once, before forking
    {
        static const char* names[] = {"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"};
        (void)names;
    }
    bool rep_unlock = false;
    std::string repscen; static u8 rep[MAXPTS]; u32 nrep = 0;
    if (replay) {
        FILE* f = fopen(replay, "r");
        if (!f) { perror(replay); return 2; }
        static char line[8 * MAXPTS];
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (!strncmp(line, "scenario ", 9)) repscen = line + 9;
            if (!strncmp(line, "unlock_points 1", 15)) rep_unlock = true;
            if (!strncmp(line, "choices", 7)) { char* p = line + 7; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; rep[nrep++] = (u8)v; p = e; } }
        }
        fclose(f);
        only = repscen.c_str();
    }
    double totw = 0; int nsel = 0;
    for (int k = 0; k < mc::g_nscen; ++k) if (!only || !strcmp(only, mc::g_scen[k]->name)) { totw += mc::g_scen[k]->weight; ++nsel; }
    if (!nsel) { fprintf(stderr, "no scenario selected\n"); return 2; }
    FILE* jf = json ? fopen(json, "w") : nullptr;
    if (jf) fprintf(jf, "[");
    int rc = 0; bool first = true;
    double left = tlimit;
    for (int k = 0; k < mc::g_nscen && !rc; ++k) {
        const scenario* sc = mc::g_scen[k];
        if (only && strcmp(only, sc->name)) continue;
        g_bound = boundo >= 0 ? boundo : thorough ? sc->thorough_bound : sc->quick_bound;
        if (g_bound >= MAXB) g_bound = MAXB - 1;
        bool again = false;
        double budget = left * sc->weight / totw;
        totw -= sc->weight;
    retry:
        g_unlock_points = again || rep_unlock;
        *g_tryseen = 0;
        double t0; t0 = now();
        fflush(stdout); fflush(stderr);
        if (jf) fflush(jf);
        // everything of a scenario happens in its own process, so that prepare()
        // of one scenario cannot influence another
        memset((void*)g_sh, 0, sizeof *g_sh);
        madvise(g_vis, sizeof(VisEnt) * VIS_N, MADV_REMOVE);
        for (int i = 0; i < MAXB; ++i) madvise(g_bk[i], BUCKET_SIZE, MADV_REMOVE);
        pid_t mp = fork();
        if (mp == 0) {
            int nul = open("/dev/null", O_WRONLY);
            if (!getenv("MC_OUTPUT")) { dup2(nul, 1); dup2(nul, 2); }
            if (sc->prepare) sc->prepare();
            if (replay) {
                Slot* s = &g_slots[64];
                memcpy(s->prefix, rep, nrep); s->nprefix = nrep; s->expect_hash = 0; s->replay = 1;
                spawn(sc, s);
                _exit(0);
            }
            // warm up: one execution of the default schedule in a scratch slot so
            // that the parent binds its lazily resolved symbols deterministically
            g_sh->active = workers;
            push(0, nullptr, 0, 0);
            pid_t pids[64];
            for (int w = 0; w < workers; ++w) { pids[w] = fork(); if (pids[w] == 0) worker(sc, w, t0 + budget); }
            for (int w = 0; w < workers; ++w) waitpid(pids[w], nullptr, 0);
            if (g_sh->stop == 1) {   // confirm by replaying twice
                Slot* v = &g_slots[g_sh->viol_worker];
                Slot* s = &g_slots[64];
                g_cpu_limit = 60;
                int same = 0;
                for (int r = 0; r < 2; ++r) {
                    s->nprefix = v->npoints < MAXPTS ? v->npoints : MAXPTS;
                    if (v->npoints < v->nprefix) { s->nprefix = v->nprefix; memcpy(s->prefix, v->prefix, v->nprefix); }
                    else for (u32 i = 0; i < s->nprefix; ++i) s->prefix[i] = v->pts[i].chosen;
                    s->expect_hash = 0; s->replay = 1;
                    spawn(sc, s);
                    if (s->status == v->status && !strcmp(s->out, v->out)) same++;
                }
                g_sh->hist_len = same;
            }
            _exit(0);
        }
        int st; waitpid(mp, &st, 0);
        double dt = now() - t0;
        left -= dt;
        if (replay) {
            Slot* s = &g_slots[64];
            symbolize(s->msg, MSGLEN);
            printf("replay of %s: %s\n%s\n", sc->name, s->status == ST_VIOLATION ? "VIOLATION" : s->status == ST_OK ? "ok" : "other", s->msg);
            printf("outcome: %s\n", s->out);
            return s->status == ST_OK ? 0 : s->status == ST_VIOLATION || s->status == ST_CRASH ? 1 : 2;
        }
        if (*g_tryseen && !g_unlock_points && g_sh->stop != 1) { again = true; goto retry; }
        int done_bound = g_bound;
        if (g_sh->stop == 2 || g_sh->stop == 3) { done_bound = -1; for (int c = 0; c <= g_bound; ++c) { if (g_sh->b[c].count) break; done_bound = c; } if (done_bound >= g_bound && !g_sh->b[g_bound].count) done_bound = g_bound - 1; }
        const char* verdict = g_sh->stop == 1 ? "violation" : (g_sh->stop ? "capped" : "complete");
        Slot* v = &g_slots[g_sh->viol_worker];
        if (g_sh->stop == 1) {
            if (v->status == ST_DIVERGED || (v->status != ST_VIOLATION && v->status != ST_CRASH)) {
                fprintf(stderr, "error: scenario %s: nondeterministic replay (status %d)\n", sc->name, v->status);
                rc = 2; verdict = "error";
            } else if (g_sh->hist_len < 2) {
                fprintf(stderr, "error: scenario %s: violation did not replay identically: %s\n", sc->name, v->msg);
                rc = 2; verdict = "error";
            } else rc = 1;
            symbolize(v->msg, MSGLEN);
        }
        if (st != 0 && g_sh->execs == 0) { fprintf(stderr, "error: scenario %s: prepare failed (%x)\n", sc->name, st); rc = 2; verdict = "error"; }
        printf("%-34s %-9s bound=%d done=%d execs=%llu complete=%llu pruned=%llu states=%llu steps=%llu maxpts=%llu threads=%llu outcomes=%u %.1fs\n", sc->name, verdict, g_bound,
               done_bound, (unsigned long long)g_sh->execs, (unsigned long long)g_sh->complete, (unsigned long long)g_sh->pruned, (unsigned long long)g_sh->states,
               (unsigned long long)g_sh->transitions, (unsigned long long)g_sh->maxpts, (unsigned long long)g_sh->maxthreads, g_sh->nout, dt);
        if (rc == 1) {
            printf("  violation: %s\n  outcome so far: %s\n", v->msg, v->out);
            if (replay_out) {
                FILE* f = fopen(replay_out, "w");
                if (f) {
                    fprintf(f, "scenario %s\nbound %d\nunlock_points %d\nchoices", sc->name, g_bound, (int)g_unlock_points);
                    u32 n = v->npoints;
                    for (u32 i = 0; i < n; ++i) fprintf(f, " %d", v->pts[i].chosen);
                    fprintf(f, "\n# %s\n# outcome: %s\n", v->msg, v->out);
                    fclose(f);
                }
            }
        }
        fflush(stdout);
        if (jf) {
            fprintf(jf, "%s\n{\"scenario\":\"%s\",\"verdict\":\"%s\",\"bound\":%d,\"bound_completed\":%d,\"schedules\":%llu,\"complete\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_choice_points\":%llu,\"max_steps\":%llu,\"threads\":%llu,\"distinct_outcomes\":%u,\"seconds\":%.2f,\"outcomes\":[",
                    first ? "" : ",", sc->name, verdict, g_bound, done_bound, (unsigned long long)g_sh->execs, (unsigned long long)g_sh->complete, (unsigned long long)g_sh->pruned,
                    (unsigned long long)g_sh->states, (unsigned long long)g_sh->transitions, (unsigned long long)g_sh->maxpts, (unsigned long long)g_sh->maxsteps, (unsigned long long)g_sh->maxthreads, g_sh->nout, dt);
            for (u32 i = 0; i < g_sh->noutsample; ++i) { if (i) fputc(',', jf); json_str(jf, g_sh->outsample[i]); }
            fprintf(jf, "],\"message\":"); json_str(jf, rc ? v->msg : ""); fprintf(jf, "}");
            first = false;
        }
    }
    if (jf) { fprintf(jf, "]\n"); fclose(jf); }
    return rc;
}
