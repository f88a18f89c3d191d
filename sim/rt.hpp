// Deterministic simulation runtime: public interface used by scenarios, stubs
// and the driver. Everything here is uninstrumented and allocation free.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int MAX_CHOICES = 1 << 17;
constexpr int MAX_FAULTS = 48;
constexpr int MAX_PROBES = 96;
constexpr int TRACE_CAP = 1 << 19;

struct NamedCount {
    char name[40];
    uint64_t count;
};

/// Lives in memory shared between the driver and the run it forked, so that
/// whatever the run recorded survives a crash of the run.
struct Shm {
    int violated;       // 1: a violation was recorded
    int finished;       // 1: scenario ran to its end
    char cls[64];       // violation class (stable under shrinking)
    char msg[1024];     // human readable
    uint64_t hist_hash; // everything logged, every scheduling decision
    uint64_t sched_hash;  // interleaving of synchronisation operations
    uint64_t state_hash;  // observed history only (sim::log)
    uint64_t steps;
    uint64_t switches;
    uint64_t preemptions;
    int64_t sim_ns;
    uint64_t allocs;
    int nontrivial;
    int trace_on;
    int nfaults;
    NamedCount faults[MAX_FAULTS];
    int nprobes;
    NamedCount probes[MAX_PROBES];
    int nchoices;
    uint32_t choices[MAX_CHOICES];
    int trace_len;
    char trace[TRACE_CAP];
};

extern Shm* shm;

using ScenarioFn = void (*)();
struct Scenario {
    const char* property;
    const char* name;
    ScenarioFn fn;
    int weight;
};
void add_scenario(const char* property, const char* name, ScenarioFn fn, int weight = 1);
int scenario_count();
const Scenario* scenario_at(int i);
struct Reg {
    Reg(const char* p, const char* n, ScenarioFn f, int w = 1) { add_scenario(p, n, f, w); }
};

/// Runs one scenario inside this process and never returns: the process ends.
/// choices == nullptr: random run from `seed`; otherwise replay of the list.
[[noreturn]] void run(const Scenario* s, uint64_t seed, const uint32_t* choices, int n);

// ---- choices -------------------------------------------------------------
/// Uniform choice in [0,n). 0 is always the simplest alternative.
uint32_t draw(uint32_t n, const char* label = nullptr);
/// Uniform in [lo,hi].
int64_t range(int64_t lo, int64_t hi, const char* label = nullptr);
/// True with probability num/den; recorded 0 means false.
bool chance(uint32_t num, uint32_t den, const char* label = nullptr);

/// mark() remembers this moment of a run, rewind() makes everything drawn since
/// then come once more (with no other thread alive and all objects of the
/// scenario gone; disk, sound system and the threads' numbers are left alone).
void mark();
void rewind();
int generation();  // how often that happened
bool take_turns();  // whether another thread is to make this call

// ---- faults --------------------------------------------------------------
/// A fault point. Each kind is switched on or off per run (swarm); when on it
/// fires with probability num/den. Counts every firing.
bool fault(const char* kind, uint32_t num = 1, uint32_t den = 8);
void faults_allowed(bool on);
bool faults_are_allowed();
void count_fault(const char* kind, uint64_t n = 1);

// ---- observation ---------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only
void probe(const char* name);
void nontrivial();
uint64_t event_seq();  // global, strictly increasing event number
uint64_t hash_bytes(const void* p, size_t n);

// ---- threads and time ----------------------------------------------------
int64_t now();
void advance(int64_t ns);       // time passes while this thread runs
void yield();                   // scheduling point
void settle(int64_t ns = 1000000000LL);  // sleep; others run until blocked
int live_threads();             // simulated threads not yet finished (incl. caller)
int self();
void set_tick(int64_t ns);      // simulated ns per scheduling switch
void set_budget(uint64_t steps);
/// Like set_budget, but later set_budget calls do not lower it (a run with a large size or a long session).
void raise_budget(uint64_t steps);
void race_detection(bool on);
void schedule_mode(int mode, int scale);  // -1: draw per run (default)
void begin_hang_watch(const char* what);  // label used if the run deadlocks
void end_hang_watch();

// ---- memory --------------------------------------------------------------
void alloc_faults(int nth, bool main_only = false);  // fail the nth allocation from now (0: off)
bool alloc_fault_fired();
size_t live_bytes();
void mem_limit(size_t bytes);   // largest single allocation
uint64_t oom_count();           // allocations refused because of mem_limit
bool is_heap(const void* p);
void check_mem(const void* p, size_t n, bool write, const char* what);

// A guard making calls from the harness into libc invisible to the simulator.
struct Quiet {
    Quiet();
    ~Quiet();
};

// ---- harness variables: shared between simulated threads, invisible to the
// scheduler and to race detection ------------------------------------------
int64_t get(int i);
void set(int i, int64_t v);
int64_t add(int i, int64_t v);  // returns the new value
constexpr int NVARS = 4096;

// ---- virtual disk --------------------------------------------------------
namespace disk {
constexpr int CAP = 1 << 20;
void put(const char* path, const void* data, size_t n);
long size(const char* path);                 // -1: missing
size_t get(const char* path, void* out, size_t cap);
void set_full_after(long bytes);             // ENOSPC once this many bytes were written; -1 off
void fail_writes_after(long bytes, int err); // EIO once this many bytes were written; -1 off
void fail_reads_after(long bytes, int err);
void crash_after(int ops, unsigned torn_seed);    // freeze image at the ops-th write
bool crashed();
size_t crash_image(const char* path, void* out, size_t cap);
int write_ops();
int open_files();
void fragment(bool on);                      // short reads/writes, EINTR
void fail_open(const char* path, int err);
}  // namespace disk

}  // namespace sim
