// Deterministic simulation runtime.
//
// One process is one run. Threads of the program under test are real pthreads,
// but exactly one of them ever executes: the holder of the baton. Every
// synchronisation call, atomic operation and (optionally) every memory access
// is a point at which the seeded scheduler may hand the baton to another
// thread. Clocks, the heap, files and thread creation are simulated too.
#include <algorithm>
#include "rt.hpp"
#include "rt_int.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <initializer_list>
#include <exception>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <linux/futex.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start, _end;
}

namespace sim {

Shm* shm = nullptr;

// ---------------------------------------------------------------- constants
constexpr int MAXT = 192;
constexpr uintptr_t REGION = 0x100000000000ULL;
constexpr size_t STACK_SZ = 256 * 1024;
constexpr size_t STACKS = STACK_SZ * MAXT;
constexpr uintptr_t HEAP = REGION + STACKS;
constexpr size_t HEAP_SZ = 1ULL << 29;
constexpr uintptr_t SHADOW = 0x200000000000ULL;  // 1 byte per 8 heap bytes
constexpr uintptr_t RSHADOW = 0x300000000000ULL; // race cells, region
constexpr uintptr_t GSHADOW = 0x380000000000ULL; // race cells, globals

struct Cell {
    uint32_t wclk;
    uint16_t wtid;
    uint8_t wmask, wat;
    struct R {
        uint32_t clk;
        uint16_t tid;
        uint8_t mask, at;
    } r[3];
};
static_assert(sizeof(Cell) == 32);

enum St { UNUSED, RUNNABLE, BLOCKED, FINISHED };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_SLEEP, W_RW, W_SEM, W_ONCE };
static const char* why_name[] = {"-", "mutex", "condition variable", "join", "atomic wait", "sleep", "rwlock", "semaphore", "once"};

struct Th {
    int st;
    int why;
    uintptr_t obj;
    int64_t deadline;  // <0: none
    int timed_out;
    int woken;
    int prio;
    int batonf;        // futex word
    int detached, joined;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    uint64_t seq;      // wait order
    uint32_t vc[MAXT];
};

static Th th[MAXT];
static int nth = 0;
static int cur = -1;
static bool active = false;       // a run is in progress
static thread_local int me = -1;  // simulated thread id of this OS thread
static thread_local int quiet = 0;

static uint64_t steps = 0, budget = 40000000, last_switch_step = 0;
static int64_t clock_ns = 1000000000000LL;
static int64_t tick = 0;
static bool races = false;
static int mode = 0, gscale = 0;
static int64_t gap = INT64_MAX;
static int pct_low = 0, pct_left = 0;
static uint64_t seq_no = 0;
static const char* watch = nullptr;
static bool replaying = false;
static const uint32_t* rchoices = nullptr;
static int rn = 0, ri = 0;
static uint64_t prng[4];
static bool faults_on = true;
static const Scenario* cur_sc = nullptr;

static inline bool in_sim() { return active && me >= 0 && quiet == 0; }
bool rt_in_sim() { return in_sim(); }
bool rt_thread_in_sim() { return active && me >= 0; }

Quiet::Quiet() { ++quiet; }
Quiet::~Quiet() { --quiet; }
struct Q {
    Q() { ++quiet; }
    ~Q() { --quiet; }
};

// ---------------------------------------------------------------- hashing
static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 33);
}
uint64_t hash_bytes(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    auto* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
    return h;
}
static inline void hist(uint64_t v) { shm->hist_hash = mix(shm->hist_hash, v); }
static inline void sched(uint64_t v) {
    shm->sched_hash = mix(shm->sched_hash, v);
    hist(v);
}

static void trace_raw(const char* s, int n) {
    if (!shm->trace_on || shm->trace_len + n + 2 > TRACE_CAP) return;
    for (int i = 0; i < n; ++i) shm->trace[shm->trace_len++] = s[i];
    shm->trace[shm->trace_len++] = '\n';
    shm->trace[shm->trace_len] = 0;
}
static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...) {
    if (!shm->trace_on) return;
    Q q;
    char b[512];
    int k = snprintf(b, sizeof b, "[%llu t=%lldns T%d] ", (unsigned long long)steps,
                     (long long)(clock_ns - 1000000000000LL), me);
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b + k, sizeof b - k, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    n += k;
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    trace_raw(b, n);
}
void note(const char* fmt, ...) {
    if (!shm->trace_on) return;
    Q q;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    tracef("%s", b);
}
void log(const char* fmt, ...) {
    Q q;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    ++seq_no;
    uint64_t h = hash_bytes(b, n);
    shm->state_hash = mix(shm->state_hash, h);
    hist(h);
    tracef("%s", b);
}
uint64_t event_seq() { return ++seq_no; }

[[noreturn]] static void finish_process(int code) {
    shm->steps = steps;
    shm->sim_ns = clock_ns - 1000000000000LL;
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}

void fail(const char* cls, const char* fmt, ...) {
    ++quiet;
    active = false;
    if (!shm->violated) {
        shm->violated = 1;
        snprintf(shm->cls, sizeof shm->cls, "%s", cls);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
        va_end(ap);
        tracef("VIOLATION %s: %s", shm->cls, shm->msg);
    }
    hist(hash_bytes(cls, strlen(cls)));
    finish_process(42);
}

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t rnd() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(prng[1] * 5, 7) * 9, t = prng[1] << 17;
    prng[2] ^= prng[0];
    prng[3] ^= prng[1];
    prng[1] ^= prng[2];
    prng[0] ^= prng[3];
    prng[2] ^= t;
    prng[3] = rotl(prng[3], 45);
    return r;
}
// nz: random mode never yields 0 (0 is reserved for the shrinker: "never")
static int again = -1, again_end = 0, rewinds = 0;
static uint32_t draw_impl(uint32_t n, bool nz, const char* label) {
    if (n <= 1) return 0;
    uint32_t v;
    if (again >= 0) {  // repeats what was drawn before, see rewind()
        v = again < again_end ? shm->choices[again++] : 0;
        v = v >= n ? n - 1 : v;
        hist(v);
        return v;
    }
    if (replaying) {
        v = ri < rn ? rchoices[ri++] : 0;
        if (v >= n) v = n - 1;
    } else if (nz) {
        v = 1 + (uint32_t)(((rnd() >> 32) * (uint64_t)(n - 1)) >> 32);
    } else {
        v = (uint32_t)(((rnd() >> 32) * (uint64_t)n) >> 32);
    }
    if (shm->nchoices < MAX_CHOICES) shm->choices[shm->nchoices++] = v;
    hist(v);
    (void)label;
    return v;
}
uint32_t draw(uint32_t n, const char* label) {
    uint32_t v = draw_impl(n, false, label);
    if (label && n > 1) tracef("choose %s = %u of %u", label, v, n);
    return v;
}
int64_t range(int64_t lo, int64_t hi, const char* label) {
    if (hi <= lo) return lo;
    return lo + draw((uint32_t)(hi - lo + 1), label);
}
bool chance(uint32_t num, uint32_t den, const char* label) {
    uint32_t v = draw_impl(den, false, label);
    return v >= den - num;
}

// ---------------------------------------------------------------- faults
struct FaultState {
    const char* name;
    int enabled;  // 0 unknown, 1 off, 2 on
};
static FaultState fstate[MAX_FAULTS];
static int nfs = 0;
static NamedCount* named(NamedCount* tab, int& n, int cap, const char* name) {
    for (int i = 0; i < n; ++i)
        if (strncmp(tab[i].name, name, sizeof tab[i].name - 1) == 0) return &tab[i];
    if (n >= cap) return &tab[cap - 1];
    auto* c = &tab[n++];
    int i = 0;
    for (; name[i] && i < (int)sizeof c->name - 1; ++i) c->name[i] = name[i];
    c->name[i] = 0;
    c->count = 0;
    return c;
}
void count_fault(const char* kind, uint64_t n) {
    named(shm->faults, shm->nfaults, MAX_FAULTS, kind)->count += n;
    shm->nontrivial = 1;
}
void probe(const char* name) { named(shm->probes, shm->nprobes, MAX_PROBES, name)->count++; }
void faults_allowed(bool on) { faults_on = on; }
bool faults_are_allowed() { return faults_on; }
bool fault(const char* kind, uint32_t num, uint32_t den) {
    if (!faults_on || !active) return false;
    FaultState* f = nullptr;
    for (int i = 0; i < nfs; ++i)
        if (strcmp(fstate[i].name, kind) == 0) f = &fstate[i];
    if (!f) {
        if (nfs >= MAX_FAULTS) return false;
        f = &fstate[nfs++];
        f->name = kind;
        f->enabled = 1 + (int)draw_impl(2, false, nullptr);
    }
    if (f->enabled != 2) return false;
    if (!chance(num, den)) return false;
    count_fault(kind);
    tracef("fault %s", kind);
    hist(hash_bytes(kind, strlen(kind)));
    return true;
}
void nontrivial() { shm->nontrivial = 1; }

// ---------------------------------------------------------------- threads
static inline long raw_futex(int* a, int op, int v) {
    long ret;
    register long r10 asm("r10") = 0;
    asm volatile("syscall" : "=a"(ret) : "0"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return ret;
}
static void baton_wait(int t) {
    while (__atomic_load_n(&th[t].batonf, __ATOMIC_ACQUIRE) == 0) raw_futex(&th[t].batonf, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&th[t].batonf, 0, __ATOMIC_RELAXED);
}
static void baton_give(int t) {
    __atomic_store_n(&th[t].batonf, 1, __ATOMIC_RELEASE);
    raw_futex(&th[t].batonf, FUTEX_WAKE_PRIVATE, 1);
}

static void new_gap() {
    if (mode == 0) {
        gap = INT64_MAX;
        return;
    }
    if (mode >= 3) {
        if (pct_left <= 0) {
            gap = INT64_MAX;
            return;
        }
        --pct_left;
    }
    uint32_t v = draw_impl(2 * gscale + 1, true, nullptr);
    gap = v == 0 ? INT64_MAX : v;
}

[[noreturn]] static void deadlock() {
    char b[700];
    int k = 0;
    for (int i = 0; i < nth && k < (int)sizeof b - 80; ++i)
        if (th[i].st == BLOCKED) k += snprintf(b + k, sizeof b - k, " thread %d waits on %s;", i, why_name[th[i].why]);
    b[k] = 0;
    fail("deadlock", "no thread can ever run again%s%s:%s", watch ? " while " : "", watch ? watch : "", b);
}

static int best_prio(bool include_cur) {
    int b = -1;
    for (int i = 0; i < nth; ++i) {
        if (th[i].st != RUNNABLE || (!include_cur && i == cur)) continue;
        if (b < 0 || th[i].prio > th[b].prio) b = i;
    }
    return b;
}

// Chooses who runs next; the current thread cannot continue (or yields).
static int pick_other(bool allow_self) {
    for (;;) {
        int c[MAXT], n = 0;
        for (int i = 0; i < nth; ++i)
            if (th[i].st == RUNNABLE && (allow_self || i != cur)) c[n++] = i;
        if (n) {
            if (mode >= 3) {
                int b = -1;
                for (int i = 0; i < n; ++i)
                    if (b < 0 || th[c[i]].prio > th[b].prio) b = c[i];
                return b;
            }
            return c[draw_impl(n, false, nullptr)];
        }
        // Nobody can run: let time pass until the next timer.
        int t = -1;
        for (int i = 0; i < nth; ++i)
            if (th[i].st == BLOCKED && th[i].deadline >= 0 && (t < 0 || th[i].deadline < th[t].deadline)) t = i;
        if (t < 0) return -1;
        if (th[t].deadline > clock_ns) clock_ns = th[t].deadline;
        th[t].st = RUNNABLE;
        th[t].timed_out = 1;
        th[t].why = W_NONE;
        th[t].obj = 0;
        th[t].deadline = -1;
        if (t == cur) return t;
    }
}

static void go(int t, bool wait_self) {
    int self = cur;
    ++shm->switches;
    clock_ns += tick;
    last_switch_step = steps;
    sched(0x100 + t);
    cur = t;
    tracef("switch to T%d", t);
    baton_give(t);
    if (wait_self) baton_wait(self);
}

// Voluntary/involuntary reschedule while still runnable.
static void preempt_now() {
    int t;
    if (mode >= 3) {
        t = best_prio(true);
    } else {
        t = pick_other(false);
    }
    if (t >= 0 && t != cur) {
        ++shm->preemptions;
        shm->nontrivial = 1;
        go(t, true);
    }
}

static int runnable_others() {
    int n = 0;
    for (int i = 0; i < nth; ++i)
        if (i != cur && th[i].st == RUNNABLE) ++n;
    return n;
}

static void over_budget() {
    fail("no-progress", "no result after %llu simulated steps%s%s", (unsigned long long)steps, watch ? " while " : "", watch ? watch : "");
}

static inline void point(bool sync) {
    // caller guarantees in_sim()
    ++steps;
    if (__builtin_expect(steps > budget, 0)) over_budget();
    if (nth <= 1) return;
    if (sync) {
        if (mode >= 3) {
            // a higher priority thread that became runnable takes over
            Q q;
            int b = best_prio(true);
            if (b >= 0 && b != cur && th[b].prio > th[cur].prio) {
                preempt_now();
                return;
            }
        }
    } else if (mode != 2 && mode != 4) {
        if (__builtin_expect(steps - last_switch_step > 300000, 0)) {
            Q q;
            if (runnable_others()) {
                if (mode >= 3) th[cur].prio = --pct_low;
                preempt_now();
            }
            last_switch_step = steps;
        }
        return;
    }
    if (__builtin_expect(--gap <= 0, 0)) {
        Q q;
        if (runnable_others() == 0) {
            gap = 1;  // keep it pending until it can matter
            return;
        }
        if (mode >= 3) th[cur].prio = --pct_low;
        new_gap();
        preempt_now();
    } else if (__builtin_expect(steps - last_switch_step > 300000, 0)) {
        Q q;
        if (runnable_others()) {
            if (mode >= 3) th[cur].prio = --pct_low;
            preempt_now();
        }
        last_switch_step = steps;
    }
}

// Blocks the current thread. Returns true if the deadline passed.
static bool block(Why why, uintptr_t obj, int64_t deadline) {
    Th& t = th[cur];
    int self = cur;
    t.st = BLOCKED;
    t.why = why;
    t.obj = obj;
    t.deadline = deadline;
    t.timed_out = 0;
    t.woken = 0;
    t.seq = ++seq_no;
    tracef("blocks on %s", why_name[why]);
    int n = pick_other(true);
    if (n < 0) deadlock();
    if (n != self) go(n, true);
    return t.timed_out;
}
static void wake(int i) {
    th[i].st = RUNNABLE;
    th[i].woken = 1;
    th[i].why = W_NONE;
    th[i].obj = 0;
    th[i].deadline = -1;
}
static int wake_all(Why why, uintptr_t obj) {
    int k = 0;
    for (int i = 0; i < nth; ++i)
        if (th[i].st == BLOCKED && th[i].why == why && th[i].obj == obj) wake(i), ++k;
    return k;
}
static int waiters(Why why, uintptr_t obj, int* out) {
    int k = 0;
    for (int i = 0; i < nth; ++i)
        if (th[i].st == BLOCKED && th[i].why == why && th[i].obj == obj) out[k++] = i;
    return k;
}

int64_t now() { return clock_ns; }
void advance(int64_t ns) {
    if (ns > 0) clock_ns += ns;
    hist(ns);
}
void yield() {
    if (!in_sim()) return;
    Q q;
    ++steps;
    if (nth > 1 && runnable_others()) {
        clock_ns += 1000;
        if (mode >= 3) th[cur].prio = --pct_low;
        preempt_now();
    }
}
void settle(int64_t ns) {
    Q q;
    if (mode >= 3) th[cur].prio = --pct_low;
    block(W_SLEEP, 0, clock_ns + ns);
}
int live_threads() {
    int n = 0;
    for (int i = 0; i < nth; ++i) n += th[i].st != FINISHED && th[i].st != UNUSED;
    return n;
}
int self() { return me; }
void set_tick(int64_t ns) { tick = ns; }
static uint64_t budget_floor = 0;
void set_budget(uint64_t s) { budget = std::max(steps + s, budget_floor); }
void raise_budget(uint64_t s) {
    budget_floor = std::max(budget_floor, steps + s);
    budget = std::max(budget, budget_floor);
}
void race_detection(bool on) { races = on; }
void begin_hang_watch(const char* w) { watch = w; }
void end_hang_watch() { watch = nullptr; }

void schedule_mode(int m, int scale) {
    static const int scales_sync[] = {2, 4, 8, 16, 48};
    static const int scales_mem[] = {8, 32, 128, 512, 2048, 8192};
    if (m < 0) {
        // half of the runs look at synchronisation points only
        static const int pick[] = {0, 1, 1, 1, 3, 3, 2, 2, 4};
        m = pick[draw(9, "schedule-mode")];
    }
    mode = m;
    if (mode == 0) {
        gap = INT64_MAX;
        return;
    }
    bool mem = mode == 2 || mode == 4;
    gscale = scale > 0 ? scale : mem ? scales_mem[draw(6)] : scales_sync[draw(5)];
    if (mode >= 3) {
        gscale *= mem ? 4 : 2;
        pct_left = 1 + (int)draw(5);
        for (int i = 0; i < nth; ++i) th[i].prio = 1 + (int)draw(1000);
        pct_low = 0;
    }
    new_gap();
}

static int64_t vars[NVARS];
int64_t get(int i) { return vars[i]; }
void set(int i, int64_t v) { vars[i] = v; }
int64_t add(int i, int64_t v) { return vars[i] += v; }

static struct {
    int at, nfs, mode, gscale, pct_low, pct_left, prio;
    int64_t gap;
    uint64_t since;
    bool faults_on, races, thread_faults;
    int64_t vars[NVARS];
    FaultState fstate[MAX_FAULTS];
} marked;
int generation() { return rewinds; }
bool take_turns() {
    static int in = -1, left = 0;
    if (in != rewinds) left = draw(4, "users") == 3 ? 40 : 0;
    in = rewinds;
    if (left <= 0 || draw(3) != 2) return false;
    --left;
    return true;
}
void mark() {
    marked.at = shm->nchoices;
    marked.nfs = nfs;
    marked.mode = mode;
    marked.gscale = gscale;
    marked.pct_low = pct_low;
    marked.pct_left = pct_left;
    marked.prio = th[cur].prio;
    marked.gap = gap;
    marked.since = steps - last_switch_step;
    marked.faults_on = faults_on;
    marked.races = races;
    marked.thread_faults = rt_thread_faults;
    memcpy(marked.vars, vars, sizeof vars);
    memcpy(marked.fstate, fstate, sizeof fstate);
    again_end = -1;
}
void rewind() {
    Quiet q;
    if (again_end < 0) again_end = shm->nchoices;
    again = marked.at;
    nfs = marked.nfs;
    mode = marked.mode;
    gscale = marked.gscale;
    pct_low = marked.pct_low;
    pct_left = marked.pct_left;
    th[cur].prio = marked.prio;
    gap = marked.gap;
    last_switch_step = steps - marked.since;
    faults_on = marked.faults_on;
    races = marked.races;
    rt_thread_faults = marked.thread_faults;
    memcpy(vars, marked.vars, sizeof vars);
    memcpy(fstate, marked.fstate, sizeof fstate);
    ++rewinds;
    tracef("everything once more");
}

// ---------------------------------------------------------------- vector clocks
struct SyncVar {
    uintptr_t addr;
    uint32_t vc[MAXT];
};
constexpr int SV_N = 1 << 14;
static SyncVar* sv_tab = nullptr;
static SyncVar* sv(uintptr_t a) {
    uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ULL) >> 40) & (SV_N - 1);
    for (int i = 0; i < SV_N; ++i) {
        SyncVar* s = &sv_tab[(h + i) & (SV_N - 1)];
        if (s->addr == a) return s;
        if (s->addr == 0) {
            s->addr = a;
            return s;
        }
    }
    return &sv_tab[h];
}
static void acquire(uintptr_t a) {
    if (!races) return;
    SyncVar* s = sv(a);
    for (int i = 0; i < nth; ++i)
        if (s->vc[i] > th[cur].vc[i]) th[cur].vc[i] = s->vc[i];
}
static void release_join(uintptr_t a) {
    if (!races) return;
    SyncVar* s = sv(a);
    for (int i = 0; i < nth; ++i)
        if (th[cur].vc[i] > s->vc[i]) s->vc[i] = th[cur].vc[i];
    th[cur].vc[cur]++;
}
static void release_set(uintptr_t a) {
    if (!races) return;
    SyncVar* s = sv(a);
    memcpy(s->vc, th[cur].vc, sizeof s->vc[0] * nth);
    th[cur].vc[cur]++;
}

static uintptr_t g_lo, g_hi;
static inline Cell* cell(uintptr_t a) {
    if (a - REGION < STACKS + HEAP_SZ) return reinterpret_cast<Cell*>(RSHADOW) + ((a - REGION) >> 3);
    if (a >= g_lo && a < g_hi) return reinterpret_cast<Cell*>(GSHADOW) + ((a - g_lo) >> 3);
    return nullptr;
}
static const char* where(uintptr_t a) {
    if (a - HEAP < HEAP_SZ) return "heap";
    if (a - REGION < STACKS) return "stack";
    return "global";
}
[[noreturn]] static void report_race(uintptr_t a, bool w, int other, bool ow, void* pc) {
    fail("data-race", "%s by thread %d and %s by thread %d of the same %s memory are not ordered (pc %p)", w ? "write" : "read", cur,
         ow ? "write" : "read", other, where(a), pc);
}
static void race_access(uintptr_t a, size_t n, bool w, bool at, void* pc) {
    if (nth <= 1) return;
    Th& t = th[cur];
    uintptr_t g = a & ~7ULL, e = a + n;
    for (; g < e; g += 8) {
        Cell* c = cell(g);
        if (!c) return;
        int lo = a > g ? (int)(a - g) : 0, hi = e < g + 8 ? (int)(e - g) : 8;
        uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        if ((c->wmask & m) && c->wtid != cur && !(at && c->wat) && t.vc[c->wtid] < c->wclk) report_race(g, w, c->wtid, true, pc);
        if (w) {
            for (auto& r : c->r)
                if ((r.mask & m) && r.tid != cur && !(at && r.at) && t.vc[r.tid] < r.clk) report_race(g, w, r.tid, false, pc);
            if (c->wtid == cur && c->wclk == t.vc[cur] && c->wat == at)
                c->wmask |= m;
            else {
                c->wtid = (uint16_t)cur;
                c->wclk = t.vc[cur];
                c->wmask = m;
                c->wat = at;
            }
        } else {
            int slot = -1;
            for (int i = 0; i < 3; ++i)
                if (c->r[i].mask && c->r[i].tid == cur) slot = i;
            if (slot < 0)
                for (int i = 0; i < 3; ++i)
                    if (!c->r[i].mask) {
                        slot = i;
                        break;
                    }
            if (slot < 0) slot = (int)((steps) % 3);
            auto& r = c->r[slot];
            if (r.tid == cur && r.clk == t.vc[cur] && r.at == at)
                r.mask |= m;
            else {
                r.tid = (uint16_t)cur;
                r.clk = t.vc[cur];
                r.mask = m;
                r.at = at;
            }
        }
    }
}

// ---------------------------------------------------------------- heap
struct Hdr {
    size_t size;
    uint64_t magic;
    uint64_t pad[2];
};
constexpr uint64_t LIVE = 0x5152535455565758ULL, DEAD = 0x6162636465666768ULL;
static uintptr_t heap_top = HEAP + 4096;
static size_t live = 0;
static size_t maxalloc = 128u << 20;
static uint64_t ooms = 0;
static int alloc_nth = 0;
static bool alloc_fired = false, alloc_main = false;

static inline uint8_t* sh(uintptr_t a) { return reinterpret_cast<uint8_t*>(SHADOW) + ((a - HEAP) >> 3); }
bool is_heap(const void* p) { return (uintptr_t)p - HEAP < HEAP_SZ; }

[[noreturn]] static void report_mem(uintptr_t a, size_t n, bool w, void* pc) {
    uint8_t s = *sh(a);
    // find the nearest block below
    const char* kind = s == 9 ? "use of freed memory" : "access outside any live block";
    size_t bs = 0;
    long off = 0;
    for (uintptr_t p = a & ~15ULL, k = 0; p > HEAP + 4096 && k < 100000; p -= 16, ++k) {
        Hdr* h = reinterpret_cast<Hdr*>(p);
        if ((h->magic == LIVE || h->magic == DEAD) && h->pad[0] == (h->magic ^ (uintptr_t)h)) {
            bs = h->size;
            off = (long)(a - (p + sizeof(Hdr)));
            break;
        }
    }
    fail(s == 9 ? "use-after-free" : "out-of-bounds", "%s: %s of %zu bytes at offset %ld of a %zu byte heap block (pc %p)", kind,
         w ? "write" : "read", n, off, bs, pc);
}
static inline void mem_access(uintptr_t a, size_t n, bool w, void* pc) {
    if (a - HEAP >= HEAP_SZ) return;
    if (n == 0) return;
    uintptr_t last = a + n - 1;
    if (last - HEAP >= HEAP_SZ) report_mem(a, n, w, pc);
    uintptr_t g = a & ~7ULL;
    for (uintptr_t x = g; x <= last; x += 8) {
        uint8_t s = *sh(x);
        if (s == 8) continue;
        uintptr_t end = last < x + 7 ? last : x + 7;
        if (s == 0 || s == 9 || (end - x) >= s) report_mem(x < a ? a : x, n, w, pc);
    }
}
void check_mem(const void* p, size_t n, bool w, const char*) {
    if (!rt_thread_in_sim()) return;
    mem_access((uintptr_t)p, n, w, __builtin_return_address(0));
    if (races && nth > 1) race_access((uintptr_t)p, n, w, false, __builtin_return_address(0));
}

static void* heap_alloc(size_t n, size_t align) {
    ++shm->allocs;
    if (alloc_nth > 0 && (!alloc_main || cur == 0) && --alloc_nth == 0) {
        alloc_fired = true;
        count_fault("alloc-failure");
        tracef("fault alloc-failure (%zu bytes)", n);
        errno = ENOMEM;
        return nullptr;
    }
    if (n > maxalloc || heap_top + n + 4096 > HEAP + HEAP_SZ) {
        ++ooms;
        tracef("allocation of %zu bytes refused", n);
        errno = ENOMEM;
        return nullptr;
    }
    if (align < 16) align = 16;
    uintptr_t p = (heap_top + sizeof(Hdr) + align - 1) & ~(align - 1);
    Hdr* h = reinterpret_cast<Hdr*>(p - sizeof(Hdr));
    h->size = n;
    h->magic = LIVE;
    h->pad[0] = LIVE ^ (uintptr_t)h;
    heap_top = ((p + n + 15) & ~15ULL) + 32;
    uint8_t* s = sh(p);
    memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = n & 7;
    memset((void*)p, 0xCB, n);
    live += n;
    return (void*)p;
}
static void heap_free(void* vp) {
    uintptr_t p = (uintptr_t)vp;
    Hdr* h = reinterpret_cast<Hdr*>(p - sizeof(Hdr));
    if (h->magic == DEAD && h->pad[0] == (DEAD ^ (uintptr_t)h)) fail("double-free", "a heap block of %zu bytes was released twice", h->size);
    if (h->magic != LIVE || h->pad[0] != (LIVE ^ (uintptr_t)h)) fail("bad-free", "a pointer that is not the start of a live heap block was released");
    for (int i = 0; i < nth; ++i)
        if (i != cur && th[i].st == BLOCKED && th[i].obj >= p && th[i].obj < p + h->size)
            fail("use-after-free", "memory holding the %s thread %d waits on was released", why_name[th[i].why], i);
    if (races && nth > 1) race_access(p, h->size, true, false, __builtin_return_address(0));
    h->magic = DEAD;
    h->pad[0] = DEAD ^ (uintptr_t)h;
    live -= h->size;
    uint8_t* s = sh(p);
    memset(s, 9, (h->size + 7) >> 3);
    if (h->size < 65536) memset(vp, 0xDD, h->size);
}
static size_t heap_size(void* p) { return reinterpret_cast<Hdr*>((uintptr_t)p - sizeof(Hdr))->size; }
void alloc_faults(int n, bool main_only) {
    alloc_nth = n;
    alloc_main = main_only;
    alloc_fired = false;
}
bool alloc_fault_fired() { return alloc_fired; }
size_t live_bytes() { return live; }
void mem_limit(size_t b) { maxalloc = b; }
uint64_t oom_count() { return ooms; }

// ---------------------------------------------------------------- access hooks
static inline __attribute__((always_inline)) void access_hook(void* p, size_t n, bool w, void* pc) {
    if (!in_sim()) return;
    point(false);
    mem_access((uintptr_t)p, n, w, pc);
    if (races && nth > 1) race_access((uintptr_t)p, n, w, false, pc);
}
static void range_hook(const void* p, size_t n, bool w, void* pc) {
    if (!n || !in_sim()) return;
    Q q;
    ++steps;
    mem_access((uintptr_t)p, n, w, pc);
    if (races && nth > 1) race_access((uintptr_t)p, n, w, false, pc);
}
void rt_range(const void* p, size_t n, bool w) { range_hook(p, n, w, __builtin_return_address(0)); }
void rt_sync_point() {
    if (in_sim()) point(true);
}
void rt_trace(const char* s) { tracef("%s", s); }
void rt_block_sleep(int64_t ns) { block(W_SLEEP, 0, clock_ns + ns); }

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static inline bool rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }

static void atomic_pre(const volatile void* p, size_t n, bool w, void* pc) {
    if (!in_sim()) return;
    sched(0x3000 + cur);
    point(true);
    mem_access((uintptr_t)p, n, w, pc);
    if (races && nth > 1) race_access((uintptr_t)p, n, w, true, pc);
}
static void atomic_post(const volatile void* p, bool load, bool store, int mo) {
    if (!in_sim() || !races) return;
    uintptr_t a = (uintptr_t)p;
    if (load && acq(mo)) acquire(a);
    if (store) {
        if (load) {
            if (rel(mo)) release_join(a);
        } else if (rel(mo)) {
            release_set(a);
        } else {
            SyncVar* s = sv(a);
            memset(s->vc, 0, sizeof s->vc);
        }
    }
}

// ---------------------------------------------------------------- thread entry
static void thread_finish(int t) {
    th[t].st = FINISHED;
    if (races) {
        release_join((uintptr_t)&th[t]);
    }
    wake_all(W_JOIN, (uintptr_t)&th[t]);
    sched(0x700 + t);
    tracef("thread %d ends", t);
}
// Destructors of thread_local objects run as part of the simulated thread.
struct AtExit {
    void (*fn)(void*);
    void* obj;
};
static constexpr int MAXTA = 64;
static thread_local AtExit tatexit[MAXTA];
static thread_local int ntatexit = 0;
static void run_thread_atexit() {
    while (ntatexit > 0) {
        AtExit x = tatexit[--ntatexit];
        x.fn(x.obj);
    }
}
bool rt_thread_atexit(void (*f)(void*), void* o) {
    if (me < 0) return false;
    if (ntatexit >= MAXTA) fail("harness", "too many thread_local objects");
    tatexit[ntatexit++] = {f, o};
    return true;
}
static void* thread_main(void* a) {
    int t = (int)(intptr_t)a;
    quiet = 1;
    baton_wait(t);
    me = t;
    quiet = 0;
    void* r = nullptr;
    r = th[t].fn(th[t].arg);
    run_thread_atexit();
    ++quiet;
    th[t].ret = r;
    thread_finish(t);
    int n = pick_other(false);
    if (n < 0) {
        bool all = true;
        for (int i = 0; i < nth; ++i)
            if (th[i].st != FINISHED) all = false;
        if (!all) deadlock();
        finish_process(shm->violated ? 42 : 0);
    }
    me = -1;
    int self = cur;
    (void)self;
    go(n, false);
    return r;
}

bool rt_thread_faults = false;
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static int spawn(void* (*fn)(void*), void* arg, pthread_t* out) {
    if (nth >= MAXT) return EAGAIN;
    int t = nth;
    Th& x = th[t];
    memset(&x, 0, sizeof x);
    x.st = RUNNABLE;
    x.deadline = -1;
    x.fn = fn;
    x.arg = arg;
    if (cur >= 0) {
        for (int i = 0; i < nth; ++i) x.vc[i] = th[cur].vc[i];
        th[cur].vc[cur]++;
    }
    x.vc[t] = 1;
    if (mode >= 3) x.prio = 1 + (int)draw_impl(1000, false, nullptr);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(REGION + t * STACK_SZ), STACK_SZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    ++nth;
    int e = real_pthread_create(&x.real, &at, thread_main, (void*)(intptr_t)t);
    pthread_attr_destroy(&at);
    if (e) {
        --nth;
        return e;
    }
    *out = x.real;
    return 0;
}

static void term_handler() {
    const char* name = "no active exception";
    if (std::type_info* ti = abi::__cxa_current_exception_type()) name = ti->name();
    fail("terminate", "std::terminate was called (%s)%s%s", name, watch ? " while " : "", watch ? watch : "");
}
static void sig_handler(int s) {
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "signal";
    if (s == SIGVTALRM || s == SIGALRM) {
        fail("no-progress", "run used up its CPU time limit%s%s", watch ? " while " : "", watch ? watch : "");
    }
    fail("crash", "process would die of %s%s%s", n, watch ? " while " : "", watch ? watch : "");
}

static void* scenario_thread(void*) {
    try {
        cur_sc->fn();
    } catch (const std::exception& e) {
        fail("exception", "an exception left the library: %s (%s)", typeid(e).name(), e.what());
    } catch (...) {
        if (abi::__cxa_current_exception_type() && strcmp(abi::__cxa_current_exception_type()->name(), "N10__cxxabiv115__forced_unwindE") == 0) throw;
        fail("exception", "an exception left the library");
    }
    shm->finished = 1;
    return nullptr;
}

void run(const Scenario* s, uint64_t seed, const uint32_t* choices, int n) {
    cur_sc = s;
    replaying = choices != nullptr;
    rchoices = choices;
    rn = n;
    ri = 0;
    uint64_t z = seed;
    for (auto& p : prng) p = splitmix(z);
    shm->hist_hash = 0x1234;
    shm->sched_hash = 0x77;
    shm->state_hash = 0x99;
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    auto mm = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) {
            static const char m[] = "simrt: cannot map region\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(99);
        }
    };
    mm(REGION, STACKS + HEAP_SZ);
    mm(SHADOW, HEAP_SZ / 8);
    mm(RSHADOW, (STACKS + HEAP_SZ) / 8 * sizeof(Cell));
    g_lo = (uintptr_t)&__data_start & ~7ULL;
    g_hi = (uintptr_t)&_end;
    mm(GSHADOW, ((g_hi - g_lo) / 8 + 16) * sizeof(Cell));
    sv_tab = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * SV_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    std::set_terminate(term_handler);
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) {
        struct sigaction sa{};
        sa.sa_handler = sig_handler;
        sa.sa_flags = SA_NODEFER;
        sigaction(sg, &sa, nullptr);
    }
    itimerval it{};
    it.it_value.tv_sec = 60;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);

    budget = 40000000;
    pthread_t dummy;
    active = true;
    cur = -1;
    if (spawn(scenario_thread, nullptr, &dummy) != 0) _exit(98);
    cur = 0;
    baton_give(0);
    for (;;) pause();
}

// ---------------------------------------------------------------- registry
static Scenario regs[128];
static int nregs = 0;
void add_scenario(const char* p, const char* n, ScenarioFn f, int w) {
    if (nregs < 128) regs[nregs++] = Scenario{p, n, f, w};
}
int scenario_count() { return nregs; }
const Scenario* scenario_at(int i) { return &regs[i]; }

}  // namespace sim

// =============================================================== interposers
using namespace sim;

#define RETPC __builtin_return_address(0)

extern "C" {

// ---- tsan callbacks ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
    void __tsan_read##n(void* p) { access_hook(p, n, false, RETPC); }      \
    void __tsan_write##n(void* p) { access_hook(p, n, true, RETPC); }      \
    void __tsan_unaligned_read##n(void* p) { access_hook(p, n, false, RETPC); }  \
    void __tsan_unaligned_write##n(void* p) { access_hook(p, n, true, RETPC); }  \
    void __tsan_volatile_read##n(void* p) { access_hook(p, n, false, RETPC); }   \
    void __tsan_volatile_write##n(void* p) { access_hook(p, n, true, RETPC); }   \
    void __tsan_unaligned_volatile_read##n(void* p) { access_hook(p, n, false, RETPC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access_hook(p, n, true, RETPC); } \
    void __tsan_read_write##n(void* p) { access_hook(p, n, true, RETPC); } \
    void __tsan_unaligned_read_write##n(void* p) { access_hook(p, n, true, RETPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access_hook(p, 8, true, RETPC);
}
void __tsan_vptr_read(void** p) { access_hook(p, 8, false, RETPC); }
void __tsan_read_range(void* p, unsigned long n) { range_hook(p, n, false, RETPC); }
void __tsan_write_range(void* p, unsigned long n) { range_hook(p, n, true, RETPC); }

static uint64_t cov_hash_unused;
void __sanitizer_cov_trace_pc() {
    (void)cov_hash_unused;
    if (!in_sim()) return;
    if (++steps > budget) over_budget();
}

// ---- atomics ----
#define ATOM(bits, T)                                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                  \
        atomic_pre(a, bits / 8, false, RETPC);                                                   \
        T v = *a;                                                                                \
        atomic_post(a, true, false, mo);                                                         \
        return v;                                                                                \
    }                                                                                            \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                               \
        atomic_pre(a, bits / 8, true, RETPC);                                                    \
        *a = v;                                                                                  \
        atomic_post(a, false, true, mo);                                                         \
    }                                                                                            \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                               \
        atomic_pre(a, bits / 8, true, RETPC);                                                    \
        T o = *a;                                                                                \
        *a = v;                                                                                  \
        atomic_post(a, true, true, mo);                                                          \
        return o;                                                                                \
    }                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {     \
        atomic_pre(a, bits / 8, true, RETPC);                                                    \
        if (*a == *c) {                                                                          \
            *a = v;                                                                              \
            atomic_post(a, true, true, mo);                                                      \
            return 1;                                                                            \
        }                                                                                        \
        *c = *a;                                                                                 \
        atomic_post(a, true, false, fmo);                                                        \
        return 0;                                                                                \
    }                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {       \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                  \
    }                                                                                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {     \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                        \
        return c;                                                                                \
    }
#define FETCH(bits, T, name, expr)                                       \
    T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int mo) {   \
        atomic_pre(a, bits / 8, true, RETPC);                            \
        T o = *a;                                                        \
        *a = (T)(expr);                                                  \
        atomic_post(a, true, true, mo);                                  \
        return o;                                                        \
    }
#define ALLF(bits, T)              \
    ATOM(bits, T)                  \
    FETCH(bits, T, add, o + v)     \
    FETCH(bits, T, sub, o - v)     \
    FETCH(bits, T, and, o& v)      \
    FETCH(bits, T, or, o | v)      \
    FETCH(bits, T, xor, o ^ v)     \
    FETCH(bits, T, nand, ~(o & v))
ALLF(8, uint8_t) ALLF(16, uint16_t) ALLF(32, uint32_t) ALLF(64, uint64_t) ALLF(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {
    if (!in_sim()) return;
    point(true);
    acquire(8);
    release_join(8);
}
void __tsan_atomic_signal_fence(int) {}

// ---- heap ----
void* malloc(size_t n) {
    if (!in_sim()) return __libc_malloc(n);
    Q q;
    return heap_alloc(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (is_heap(p)) {
        if (!active || me < 0) return;
        Q q;
        heap_free(p);
        return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (!in_sim()) return __libc_calloc(a, b);
    Q q;
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = heap_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!is_heap(p)) return __libc_realloc(p, n);
    Q q;
    if (n == 0) {
        heap_free(p);
        return nullptr;
    }
    void* r = heap_alloc(n, 16);
    if (!r) return nullptr;
    size_t o = heap_size(p);
    memcpy(r, p, o < n ? o : n);
    heap_free(p);
    return r;
}
void* memalign(size_t al, size_t n) {
    if (!in_sim()) return __libc_memalign(al, n);
    Q q;
    return heap_alloc(n, al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    if (is_heap(p)) return heap_size(p);
    static size_t (*real)(void*) = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
    return real(p);
}

// ---- memory functions ----
void* memcpy(void* d, const void* s, size_t n) {
    if (n && rt_in_sim()) {
        range_hook(s, n, false, RETPC);
        range_hook(d, n, true, RETPC);
    }
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (n && rt_in_sim()) {
        range_hook(s, n, false, RETPC);
        range_hook(d, n, true, RETPC);
    }
    void* r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        char* dd = (char*)d + n;
        const char* ssrc = (const char*)s + n;
        while (n--) {
            *--dd = *--ssrc;
            asm volatile("" ::: "memory");
        }
    }
    return r;
}
void* memset(void* d, int c, size_t n) {
    if (n && rt_in_sim()) range_hook(d, n, true, RETPC);
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}

// ---- threads ----
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!in_sim()) {
        if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
        return real_pthread_create(out, at, fn, arg);
    }
    {
        Q q;
        if (rt_thread_faults && fault("thread-create-refused", 1, 8)) return EAGAIN;
        int e = spawn(fn, arg, out);
        if (e) fail("harness", "too many threads in one run");
        sched(0x500 + nth);
        tracef("creates thread %d", nth - 1);
    }
    point(true);
    return 0;
}
static int find_thread(pthread_t t) {
    for (int i = 0; i < nth; ++i)
        if (th[i].real == t) return i;
    return -1;
}
int pthread_join(pthread_t t, void** ret) {
    if (!in_sim()) {
        static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
        return real(t, ret);
    }
    point(true);
    Q q;
    int i = find_thread(t);
    if (i < 0) return ESRCH;
    if (i == cur) return EDEADLK;
    if (th[i].detached || th[i].joined) return EINVAL;
    th[i].joined = 1;
    tracef("joins thread %d", i);
    while (th[i].st != FINISHED) block(W_JOIN, (uintptr_t)&th[i], -1);
    acquire((uintptr_t)&th[i]);
    if (ret) *ret = th[i].ret;
    sched(0x600 + cur);
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!in_sim()) {
        static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
        return real(t);
    }
    Q q;
    int i = find_thread(t);
    if (i < 0) return ESRCH;
    th[i].detached = 1;
    return 0;
}

// ---- mutexes: owner kept inside the object (0 free, tid+1 owned) ----
struct SimMutex {
    int owner;
    int depth;
};
static int sim_mlock(pthread_mutex_t* m, bool try_only, int64_t deadline) {
    auto* s = reinterpret_cast<SimMutex*>(m);
    point(true);
    Q q;
    mem_access((uintptr_t)m, 8, true, RETPC);
    sched(0x1000 + cur);
    bool rec = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
    if (s->owner == cur + 1) {
        if (rec) {
            s->depth++;
            return 0;
        }
        if (try_only) return EBUSY;
        if (deadline < 0) fail("deadlock", "a thread locked a mutex it already holds");
    }
    while (s->owner != 0) {
        if (try_only) return EBUSY;
        if (block(W_MUTEX, (uintptr_t)m, deadline)) return ETIMEDOUT;
    }
    s->owner = cur + 1;
    s->depth = 1;
    acquire((uintptr_t)m);
    return 0;
}
static int munlock_inner(pthread_mutex_t* m) {
    auto* s = reinterpret_cast<SimMutex*>(m);
    if (s->owner != cur + 1) fail("mutex-misuse", "a thread released a mutex it does not hold");
    if (--s->depth > 0) return 0;
    release_join((uintptr_t)m);
    s->owner = 0;
    wake_all(W_MUTEX, (uintptr_t)m);
    sched(0x1100 + cur);
    return 0;
}
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_sim()) {
        REAL(int, pthread_mutex_lock, pthread_mutex_t*);
        return real(m);
    }
    return sim_mlock(m, false, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_sim()) {
        REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
        return real(m);
    }
    return sim_mlock(m, true, -1);
}
static int64_t ts_ns(const timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return sim_mlock(m, false, ts_ns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return sim_mlock(m, false, ts_ns(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_sim()) {
        REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
        return real(m);
    }
    {
        Q q;
        munlock_inner(m);
    }
    point(true);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (!in_sim()) {
        REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*);
        return real(m, a);
    }
    memset(m, 0, sizeof *m);
    int k = 0;
    if (a) pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!in_sim()) {
        REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
        return real(m);
    }
    auto* s = reinterpret_cast<SimMutex*>(m);
    if (s->owner) fail("mutex-misuse", "a locked mutex was destroyed");
    return 0;
}

// ---- condition variables ----
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    point(true);  // between the check of the condition and the wait
    Q q;
    mem_access((uintptr_t)c, 8, true, RETPC);
    auto* s = reinterpret_cast<SimMutex*>(m);
    int depth = s->depth;
    sched(0x2000 + cur);
    s->depth = 1;
    munlock_inner(m);
    bool to = false;
    if (fault("spurious-wakeup", 1, 6)) {
        // returns without a notification; others may run in between
        if (runnable_others()) preempt_now();
    } else {
        to = block(W_COND, (uintptr_t)c, deadline);
    }
    while (s->owner != 0) block(W_MUTEX, (uintptr_t)m, -1);
    s->owner = cur + 1;
    s->depth = depth;
    acquire((uintptr_t)m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_sim()) {
        REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
        return real(c, m);
    }
    return cwait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!in_sim()) {
        REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
        return real(c, m, t);
    }
    return cwait(c, m, ts_ns(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* t) {
    if (!in_sim()) {
        REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
        return real(c, m, ck, t);
    }
    return cwait(c, m, ts_ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!in_sim()) {
        REAL(int, pthread_cond_signal, pthread_cond_t*);
        return real(c);
    }
    point(true);
    {
        Q q;
        mem_access((uintptr_t)c, 8, true, RETPC);
        int w[MAXT], n = waiters(W_COND, (uintptr_t)c, w);
        sched(0x2100 + cur + n * 64);
        if (n) wake(w[draw_impl(n, false, nullptr)]);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!in_sim()) {
        REAL(int, pthread_cond_broadcast, pthread_cond_t*);
        return real(c);
    }
    point(true);
    {
        Q q;
        mem_access((uintptr_t)c, 8, true, RETPC);
        int n = wake_all(W_COND, (uintptr_t)c);
        sched(0x2200 + cur + n * 64);
    }
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (!in_sim()) {
        REAL(int, pthread_cond_init, pthread_cond_t*, const pthread_condattr_t*);
        return real(c, a);
    }
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!in_sim()) {
        REAL(int, pthread_cond_destroy, pthread_cond_t*);
        return real(c);
    }
    int w[MAXT];
    if (waiters(W_COND, (uintptr_t)c, w)) fail("use-after-free", "a condition variable was destroyed while a thread waits on it");
    return 0;
}

// ---- reader/writer locks: state inside the object ----
struct SimRw {
    int writer;
    int readers;
};
static int rwlock(pthread_rwlock_t* l, bool w, bool try_only, int64_t dl) {
    auto* s = reinterpret_cast<SimRw*>(l);
    point(true);
    Q q;
    sched(0x1200 + cur);
    while (w ? (s->writer || s->readers) : s->writer != 0) {
        if (try_only) return EBUSY;
        if (block(W_RW, (uintptr_t)l, dl)) return ETIMEDOUT;
    }
    if (w)
        s->writer = cur + 1;
    else
        s->readers++;
    acquire((uintptr_t)l);
    return 0;
}
#define RWI(name, w, t)                                      \
    int pthread_rwlock_##name(pthread_rwlock_t* l) {         \
        if (!in_sim()) {                                     \
            REAL(int, pthread_rwlock_##name, pthread_rwlock_t*); \
            return real(l);                                  \
        }                                                    \
        return rwlock(l, w, t, -1);                          \
    }
RWI(rdlock, false, false)
RWI(wrlock, true, false)
RWI(tryrdlock, false, true)
RWI(trywrlock, true, true)
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!in_sim()) {
        REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
        return real(l);
    }
    {
        Q q;
        auto* s = reinterpret_cast<SimRw*>(l);
        release_join((uintptr_t)l);
        if (s->writer)
            s->writer = 0;
        else if (s->readers > 0)
            s->readers--;
        else
            fail("mutex-misuse", "a read/write lock that is not held was released");
        wake_all(W_RW, (uintptr_t)l);
    }
    point(true);
    return 0;
}

// ---- semaphores ----
static int swait(sem_t* sm, bool try_only, int64_t dl) {
    int* v = reinterpret_cast<int*>(sm);
    point(true);
    Q q;
    while (*v <= 0) {
        if (try_only) {
            errno = EAGAIN;
            return -1;
        }
        if (block(W_SEM, (uintptr_t)sm, dl)) {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    --*v;
    acquire((uintptr_t)sm);
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) {
    memset(s, 0, sizeof *s);
    *reinterpret_cast<int*>(s) = (int)v;
    return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) { return swait(s, false, -1); }
int sem_trywait(sem_t* s) { return swait(s, true, -1); }
int sem_timedwait(sem_t* s, const timespec* t) { return swait(s, false, ts_ns(t)); }
int sem_clockwait(sem_t* s, clockid_t, const timespec* t) { return swait(s, false, ts_ns(t)); }
int sem_post(sem_t* s) {
    point(true);
    Q q;
    release_join((uintptr_t)s);
    ++*reinterpret_cast<int*>(s);
    wake_all(W_SEM, (uintptr_t)s);
    return 0;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!in_sim()) {
        REAL(int, pthread_once, pthread_once_t*, void (*)());
        return real(o, f);
    }
    point(true);
    while (*o == 0x5151) {
        Q q;
        block(W_ONCE, (uintptr_t)o, -1);
    }
    if (*o == 2) {
        acquire((uintptr_t)o);
        return 0;
    }
    *o = 0x5151;
    try {
        f();
    } catch (...) {
        *o = 0;
        wake_all(W_ONCE, (uintptr_t)o);
        throw;
    }
    *o = 2;
    Q q;
    release_join((uintptr_t)o);
    wake_all(W_ONCE, (uintptr_t)o);
    return 0;
}

// ---- initialisation of function-local statics ----
// byte 0 of the guard: initialised (the compiler reads it inline), byte 1: someone is at it
int __cxa_guard_acquire(int64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    bool sim = in_sim();
    if (sim) point(true);
    while (true) {
        Q q;
        if (b[0]) {
            if (sim) acquire((uintptr_t)g);
            return 0;
        }
        if (!b[1] || !sim) break;
        block(W_ONCE, (uintptr_t)g, -1);
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(int64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    bool sim = rt_thread_in_sim();
    Q q;
    b[0] = 1;
    b[1] = 0;
    if (!sim) return;
    release_join((uintptr_t)g);
    wake_all(W_ONCE, (uintptr_t)g);
}
void __cxa_guard_abort(int64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    bool sim = rt_thread_in_sim();
    Q q;
    b[1] = 0;
    if (sim) wake_all(W_ONCE, (uintptr_t)g);
}

int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
    if (rt_thread_atexit(f, o)) return 0;
    REAL(int, __cxa_thread_atexit, void (*)(void*), void*, void*);
    return real(f, o, dso);
}

// ---- futex behind std::atomic::wait ----
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && in_sim()) {
        int op = (int)a[1] & 127;
        int* addr = (int*)a[0];
        point(true);
        Q q;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*addr != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            int64_t dl = -1;
            if (a[3]) {
                dl = ts_ns((timespec*)a[3]);
                if (op == FUTEX_WAIT) dl += clock_ns;
            }
            if (fault("spurious-wakeup", 1, 6)) {
                if (runnable_others()) preempt_now();
                return 0;
            }
            if (block(W_FUTEX, (uintptr_t)addr, dl)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int w[MAXT], n = waiters(W_FUTEX, (uintptr_t)addr, w), k = 0;
            while (n && k < (int)a[2]) {
                int i = (int)draw_impl(n, false, nullptr);
                wake(w[i]);
                w[i] = w[--n];
                ++k;
            }
            return k;
        }
    }
    long ret;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(ret) : "0"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}

// ---- the machine: always four processors ----
int get_nprocs() { return 4; }
int get_nprocs_conf() { return 4; }

// ---- time ----
int sched_yield() {
    if (!in_sim()) {
        REAL(int, sched_yield, void);
        return real();
    }
    sim::yield();
    return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
    if (!in_sim()) {
        REAL(int, nanosleep, const timespec*, timespec*);
        return real(t, rem);
    }
    Q q;
    block(W_SLEEP, 0, clock_ns + ts_ns(t));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!in_sim()) {
        REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
        return real(c, fl, t, rem);
    }
    Q q;
    int64_t d = ts_ns(t);
    block(W_SLEEP, 0, (fl & TIMER_ABSTIME) ? d : clock_ns + d);
    return 0;
}
int usleep(useconds_t us) {
    if (!in_sim()) {
        REAL(int, usleep, useconds_t);
        return real(us);
    }
    Q q;
    block(W_SLEEP, 0, clock_ns + us * 1000LL);
    return 0;
}
unsigned sleep(unsigned s) {
    Q q;
    if (rt_thread_in_sim()) block(W_SLEEP, 0, clock_ns + s * 1000000000LL);
    return 0;
}
extern int64_t rt_wall_offset;
int64_t rt_wall_offset = 0;
int clock_gettime(clockid_t c, timespec* t) {
    if (!in_sim()) {
        REAL(int, clock_gettime, clockid_t, timespec*);
        return real(c, t);
    }
    int64_t v;
    if (rt_clock_hook) rt_clock_hook();
    v = clock_ns;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += rt_wall_offset;
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(timeval* tv, void*) {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
clock_t clock() {
    if (!in_sim()) {
        REAL(clock_t, clock, void);
        return real();
    }
    return clock_ns / 1000;
}
}  // extern "C"
namespace sim {
void (*rt_clock_hook)() = nullptr;
void set_wall_offset(int64_t ns) { rt_wall_offset = ns; }
void set_clock_hook(void (*f)()) { rt_clock_hook = f; }
void jump_clock(int64_t ns) { clock_ns += ns; }
}  // namespace sim
