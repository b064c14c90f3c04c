#include "seq.h"

#include <dirent.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <math.h>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
enum { SHARDS = 64, DESC = 1600, MSG = 3000, NSAMP = 6 };
static const u64 OUT_N = 1ull << 20;

struct ShardInfo {
    volatile u64 cases, evals, states, transitions, checks;
    volatile u64 index;      // running case
    volatile int status;     // 0 running, 1 done, 2 violation, 3 capped
    volatile u64 known;
    char desc[DESC];
    char msg[MSG];
};
struct Sh {
    ShardInfo s[SHARDS];
    u64 outcomes[OUT_N];
    volatile u64 nout;
    char samples[NSAMP][DESC + 300];
    volatile int nsamp;
    volatile int stop;
    char known[256][MSG];
    volatile int nknown;
};
static Sh* sh;
static ShardInfo* me;
static int g_shard = 0, g_shards = 1;
static u64 g_idx = 0, g_only = ~0ull;
static double g_deadline = 1e300;
static bool g_thorough = false, g_incase = false;
static u64 g_out = 0; static char g_outtext[300]; static int g_outlen;
static std::string g_scratch;
static const char* g_section = "";
static std::set<std::string>* g_knownset;
static std::unordered_set<u64>* g_states;

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

namespace seq {
u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
    return h;
}
struct sect { const char* name; void (*fn)(); const char* rule; };
static std::vector<sect>& sects() { static std::vector<sect> v; return v; }
registrar::registrar(const char* n, void (*f)(), const char* r) { sects().push_back({n, f, r}); }

static void close_case() {
    if (!g_incase) return;
    g_incase = false;
    me->cases = me->cases + 1;
    u64 h = g_out; if (!h) h = 1;
    u64 i = mix(h, 1) & (OUT_N - 1);
    for (int p = 0; p < 200; ++p, i = (i + 1) & (OUT_N - 1)) {
        u64 z = 0;
        if (sh->outcomes[i] == h) break;
        if (__atomic_compare_exchange_n(&sh->outcomes[i], &z, h, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            __atomic_add_fetch(&sh->nout, 1, __ATOMIC_RELAXED);
            int n = __atomic_load_n(&sh->nsamp, __ATOMIC_RELAXED);
            if (n < NSAMP && __atomic_compare_exchange_n(&sh->nsamp, &n, n + 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
                snprintf(sh->samples[n], DESC + 300, "%s => %s", me->desc, g_outtext);
            break;
        }
        if (z == h) break;
    }
}
bool next(const char* fmt, ...) {
    close_case();
    u64 i = g_idx++;
    if (g_only != ~0ull) { if (i != g_only) return false; }
    else {
        if ((int)(i % g_shards) != g_shard) return false;
        if (sh->stop) { me->status = 3; return false; }
        if ((me->cases & 15) == 0 && now() > g_deadline) { me->status = 3; sh->stop = 2; return false; }
    }
    me->index = i;
    va_list ap; va_start(ap, fmt); vsnprintf(me->desc, DESC, fmt, ap); va_end(ap);
    g_out = 0; g_outlen = 0; g_outtext[0] = 0;
    g_incase = true;
    return true;
}
[[noreturn]] static void fail(const char* msg) {
    snprintf(me->msg, MSG, "%s", msg);
    me->status = 2;
    if (!sh->stop) sh->stop = 1;
    _exit(1);
}
void check(bool cond, const char* fmt, ...) {
    me->checks = me->checks + 1;
    if (cond) return;
    char buf[MSG];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, MSG, fmt, ap); va_end(ap);
    if (g_knownset) {
        std::string sig = std::string(g_section) + "|" + me->desc + "|" + buf;
        if (g_knownset->count(sig)) {
            me->known = me->known + 1;
            int n = sh->nknown;
            bool dup = false;
            for (int i = 0; i < n && i < 256; ++i) if (sig == sh->known[i]) dup = true;
            if (!dup && n < 256) { snprintf(sh->known[n], MSG, "%s", sig.c_str()); sh->nknown = n + 1; }
            return;
        }
    }
    if (const char* all = getenv("SEQ_COLLECT")) {  // development: list every failing case
        FILE* f = fopen(all, "a");
        if (f) { fprintf(f, "%s|%s|%s\n", g_section, me->desc, buf); fclose(f); }
        return;
    }
    fail(buf);
}
bool near(double a, double b, double rel, double abs) {
    if (isnan(a) || isnan(b)) return false;
    if (a == b) return true;
    double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
    return fabs(a - b) <= abs + rel * m;
}
void observe(const char* fmt, ...) {
    char buf[300];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char* p = buf; *p; ++p) g_out = mix(g_out, (unsigned char)*p);
    int n = snprintf(g_outtext + g_outlen, sizeof g_outtext - g_outlen, "%s", buf);
    if (n > 0) { g_outlen += n; if (g_outlen >= (int)sizeof g_outtext) g_outlen = sizeof g_outtext - 1; }
}
void observe_hash(u64 h) { g_out = mix(g_out, h); }
bool state(u64 k) { if (g_states->insert(k).second) { me->states = me->states + 1; return true; } return false; }
void transition(u64 n) { me->transitions = me->transitions + n; }
void evaluated(u64 n) { me->evals = me->evals + n; }
bool thorough() { return g_thorough; }
const std::string& scratch() {
    if (g_scratch.empty()) {
        const char* base = getenv("SEQ_SCRATCH");
        char buf[512]; snprintf(buf, sizeof buf, "%s/s%d", base ? base : "/tmp", (int)getpid());
        mkdir(buf, 0755);
        g_scratch = buf;
    }
    return g_scratch;
}
}  // namespace seq
using namespace seq;

static char g_asan[MSG];
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12"; }
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(const char*));
static void asan_cb(const char* s) { if (!g_asan[0]) snprintf(g_asan, MSG, "%s", s); }
static void on_sig(int sig, siginfo_t* si, void*) {
    if (me->status != 2) {
        if (g_asan[0]) snprintf(me->msg, MSG, "memory error: %s", g_asan);
        else snprintf(me->msg, MSG, "crash: signal %d", sig);
        me->status = 2;
        if (!sh->stop) sh->stop = 1;
    }
    _exit(1);
}
static void run_section(const sect& sc, int shard, int shards) {
    me = &sh->s[shard]; g_shard = shard; g_shards = shards; g_idx = 0; g_section = sc.name;
    g_states = new std::unordered_set<u64>();
    g_scratch.clear();
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
    try { sc.fn(); close_case(); if (me->status == 0) me->status = 1; }
    catch (std::exception& e) { char b[600]; snprintf(b, sizeof b, "uncaught exception %s: %s", typeid(e).name(), e.what()); snprintf(me->msg, MSG, "%s", b); me->status = 2; if (!sh->stop) sh->stop = 1; }
    catch (...) { snprintf(me->msg, MSG, "uncaught exception"); me->status = 2; if (!sh->stop) sh->stop = 1; }
    fflush(stdout);
    _exit(me->status == 2);
}
static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
int main(int argc, char** argv) {
    double tlimit = 600; int shards = 8; const char *json = nullptr, *only = nullptr, *replay_out = nullptr, *known = nullptr, *replay = nullptr;
    std::string rsec;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) shards = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
        else if (!strcmp(argv[i], "--json")) json = argv[++i];
        else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--case")) g_only = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
        else if (!strcmp(argv[i], "--known")) known = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--list")) { for (auto& s : sects()) puts(s.name); return 0; }
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
    }
    if (replay) {
        FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
        char line[4000];
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (!strncmp(line, "scenario ", 9)) rsec = line + 9;
            if (!strncmp(line, "case ", 5)) g_only = strtoull(line + 5, nullptr, 10);
            if (!strcmp(line, "tier thorough")) g_thorough = true;
        }
        fclose(f);
        only = rsec.c_str();
    }
    if (g_only != ~0ull) shards = 1;
    if (shards > SHARDS) shards = SHARDS;
    if (known) {
        g_knownset = new std::set<std::string>();
        FILE* f = fopen(known, "r"); char line[6000];
        if (f) { while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (line[0]) g_knownset->insert(line); } fclose(f); }
    }
    sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    FILE* jf = json ? fopen(json, "w") : nullptr;
    if (jf) fprintf(jf, "[");
    int rc = 0; bool first = true; double t00 = now();
    size_t nsel = 0, done = 0;
    for (auto& s : sects()) if (!only || !strcmp(only, s.name)) ++nsel;
    if (!nsel) { fprintf(stderr, "no section selected\n"); return 2; }
    for (auto& sc : sects()) {
        if (only && strcmp(only, sc.name)) continue;
        memset((void*)sh, 0, sizeof(Sh));
        double t0 = now();
        g_deadline = t0 + (tlimit - (t0 - t00)) / (nsel - done) * (nsel - done > 1 ? 2 : 1);
        if (g_deadline > t00 + tlimit) g_deadline = t00 + tlimit;
        ++done;
        fflush(stdout); fflush(stderr); if (jf) fflush(jf);
        pid_t pids[SHARDS]; u64 last[SHARDS]; double lastt[SHARDS]; int alive = shards;
        for (int w = 0; w < shards; ++w) {
            pids[w] = fork();
            if (pids[w] == 0) {
                if (!getenv("SEQ_OUTPUT")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); }
                run_section(sc, w, shards);
            }
            last[w] = ~0ull; lastt[w] = t0;
        }
        while (alive) {
            int st; bool got = false;
            for (int w = 0; w < shards; ++w) {
                if (pids[w] <= 0) continue;
                pid_t p = waitpid(pids[w], &st, WNOHANG);
                if (p == pids[w]) {
                    pids[w] = 0; --alive; got = true;
                    if (sh->s[w].status == 0) { snprintf(sh->s[w].msg, MSG, "process ended abnormally (wait status %x)", st); sh->s[w].status = 2; if (!sh->stop) sh->stop = 1; }
                    continue;
                }
                u64 cur = sh->s[w].index * 1000003 + sh->s[w].cases + sh->s[w].checks + sh->s[w].evals + sh->s[w].transitions;
                double t = now();
                if (cur != last[w]) { last[w] = cur; lastt[w] = t; }
                else if (t - lastt[w] > 100) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; --alive;
                    snprintf(sh->s[w].msg, MSG, "case did not finish within 100 s (hang)"); sh->s[w].status = 2; if (!sh->stop) sh->stop = 1;
                }
            }
            if (!got && alive) usleep(3000);
        }
        u64 cases = 0, evals = 0, states = 0, trans = 0, checks = 0; int viol = -1; bool capped = false; u64 known_n = 0;
        for (int w = 0; w < shards; ++w) {
            ShardInfo& s = sh->s[w];
            cases += s.cases; evals += s.evals; states += s.states; trans += s.transitions; checks += s.checks; known_n += s.known;
            if (s.status == 3) capped = true;
            if (s.status == 2 && (viol < 0 || s.index < sh->s[viol].index)) viol = w;
        }
        const char* verdict = viol >= 0 ? "violation" : capped ? "capped" : "complete";
        printf("%-40s %-9s cases=%llu checks=%llu distinct=%llu states=%llu transitions=%llu %.1fs\n", sc.name, verdict, (unsigned long long)cases, (unsigned long long)checks,
               (unsigned long long)sh->nout, (unsigned long long)states, (unsigned long long)trans, now() - t0);
        for (int i = 0; i < sh->nknown; ++i) printf("  known finding: %s\n", sh->known[i]);
        if (viol >= 0) {
            ShardInfo& s = sh->s[viol];
            printf("  violation in case %llu: %s\n  %s\n", (unsigned long long)s.index, s.desc, s.msg);
            if (replay_out) {
                FILE* f = fopen(replay_out, "w");
                if (f) { fprintf(f, "scenario %s\ncase %llu\ntier %s\n# %s\n# %s\n", sc.name, (unsigned long long)s.index, g_thorough ? "thorough" : "quick", s.desc, s.msg); fclose(f); }
            }
            rc = 1;
        }
        fflush(stdout);
        if (jf) {
            fprintf(jf, "%s\n{\"scenario\":", first ? "" : ","); first = false;
            json_str(jf, sc.name);
            fprintf(jf, ",\"rule\":"); json_str(jf, sc.rule);
            fprintf(jf, ",\"verdict\":\"%s\",\"cases\":%llu,\"checks\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"known\":[", verdict, (unsigned long long)cases, (unsigned long long)checks,
                    (unsigned long long)(evals + cases), (unsigned long long)sh->nout, (unsigned long long)states, (unsigned long long)trans);
            for (int i = 0; i < sh->nknown; ++i) { if (i) fputc(',', jf); json_str(jf, sh->known[i]); }
            fprintf(jf, "],\"seconds\":%.2f,\"samples\":[", now() - t0);
            for (int i = 0; i < sh->nsamp && i < NSAMP; ++i) { if (i) fputc(',', jf); json_str(jf, sh->samples[i]); }
            fprintf(jf, "],\"message\":");
            static char mm[DESC + MSG + 50]; mm[0] = 0;
            if (viol >= 0) snprintf(mm, sizeof mm, "case %llu: %s: %s", (unsigned long long)sh->s[viol].index, sh->s[viol].desc, sh->s[viol].msg);
            json_str(jf, mm); fprintf(jf, "}");
        }
        if (rc) break;
    }
    if (jf) { fprintf(jf, "]\n"); fclose(jf); }
    return rc;
}
