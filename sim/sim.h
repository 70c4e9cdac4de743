// Deterministic simulator core interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- faults
enum FaultKind {
    F_CAS_WEAK, F_SPURIOUS_WAKE, F_MALLOC, F_THREAD_CREATE, F_MUTEX_INIT, F_COND_INIT, F_TLS_INIT,
    F_SIGINT, F_GC_PRESSURE, F_STALL,
    F_EINTR, F_SHORT_IO, F_IO_ERROR, F_ENOSPC, F_OPEN_FAIL, F_MMAP_FAIL, F_FLOCK_FAIL,
    F_FORK_FAIL, F_EXEC_FAIL, F_CHILD_TIMING, F_PIPE_FAIL,
    F_NET_DELAY, F_NET_RESET, F_NET_REFUSE, F_CLOCK_JUMP, F_HEAP_LIMIT, F_DGRAM_DROP, F_DGRAM_DUP, F_DGRAM_REORDER,
    F_SELECT_FAIL, F_SYSCALL_FAIL, F_SLOW_IO,
    F_COUNT
};
extern const char *const fault_names[F_COUNT];

// Fault point: returns 0 (no fault) or 1..variants (which variant).
unsigned fault(FaultKind k, unsigned variants = 1);

// ---------------------------------------------------------------- run config
struct SwitchDec { uint64_t step; int tid; };
struct FaultDec { int kind; uint64_t occ; uint32_t variant; };

enum Strategy { ST_NONE, ST_RANDOM, ST_PCT, ST_HOT, ST_STALL, ST_SITE, ST_REPLAY };

struct RunSpec {
    std::string scenario;
    uint64_t seed = 1;          // run seed; drives schedule, faults and workload
    bool replay = false;        // use explicit decisions
    std::vector<SwitchDec> switches;
    std::vector<FaultDec> faults;
    std::vector<uint32_t> drop_ops;  // workload operations removed by the minimiser
};

// Scenario controls (set by the scenario, from the workload rng, before go())
struct Knobs {
    uint32_t rate[F_COUNT];     // fault probability in 1/65536 per opportunity
    uint32_t burst_limit[F_COUNT]; // max number of injected faults of that kind (0 = unlimited)
    uint64_t at[F_COUNT];       // inject at opportunities at .. at + at_len - 1 (1-based; 0 = not)
    uint64_t at_len[F_COUNT];
    bool     count_plain;       // plain accesses are scheduling points
    uint64_t max_steps;
    Strategy force_strategy;
};
extern Knobs knobs;
extern uint64_t fault_raw[F_COUNT];  // opportunities since the process started, whether or not faults are enabled

// ---------------------------------------------------------------- result (shared memory)
enum Status { R_NONE = 0, R_PASS = 1, R_VIOLATION = 2, R_HARNESS = 3, R_INCONCLUSIVE = 4 };

struct ResultShm {
    volatile int status;
    char     kind[64];          // violation kind (signature)
    char     msg[2048];
    char     where[512];        // best effort location
    uint64_t steps;
    uint64_t switches;
    uint64_t sim_ns;
    uint64_t trace_hash;        // schedule+event hash (determinism)
    uint64_t inter_hash;        // interleaving hash (distinct interleavings measure)
    uint64_t faults[F_COUNT];
    uint64_t fault_opps[F_COUNT];
    uint64_t ops;               // workload operations performed
    uint64_t gcs;               // garbage collections observed
    uint64_t custom[8];
    uint32_t nswitch;           // recorded decisions
    uint32_t nfault;
    uint32_t overflow;
    SwitchDec sw[200000];
    FaultDec  fl[20000];
    uint32_t nops;              // op ids available to the minimiser
};
extern ResultShm *res;

// ---------------------------------------------------------------- scheduling
typedef void *(*thread_fn)(void *);
int  spawn_thread(thread_fn fn, void *arg, const char *name = nullptr); // returns tid (-1 on failure)
void join_thread(int tid);
int  self();
void yield_point();                        // voluntary yield
void pause_point();                        // plain scheduling point (may be preempted)
uint64_t now_ns();
void sleep_ns(uint64_t ns, bool *interrupted = nullptr);
uint64_t step();
void begin_run();                          // called by scenario once set-up is done: scheduling + faults on
void end_faults();                         // stop injecting faults (heal)
void resume_faults();
void set_group(int g);                      // of the calling thread and the threads it creates
int  thread_group();
extern int fault_group;                     // if not 0: only threads of this group meet faults
void spare_thread(bool on);                // the calling thread meets no faults
void suppress_faults();                    // nested; harness sections which must not be disturbed
void unsuppress_faults();
void no_preempt_begin();                   // harness critical section
void no_preempt_end();
bool faults_on();
const char *thread_name(int tid);
int  num_live_threads();

// block current thread until pred() is true (evaluated by scheduler); returns false if interrupted by signal
struct WaitObj;
bool wait_until(const std::function<bool()> &pred, const char *what, bool interruptible = false, uint64_t deadline_ns = ~0ull, bool *timed_out = nullptr);

// signals
typedef void (*sig_fn)(int);
uint64_t change_sigmask(int how, const uint64_t *set);
void post_signal(int sig);                 // process-directed signal
void set_sigact(int sig, sig_fn fn, int flags);
sig_fn get_sigact(int sig);                // null = default or ignored
int  sim_threads();                        // simulated threads created so far
void set_event(uint64_t at_ns, std::function<void()> fn); // timed simulator event

// ---------------------------------------------------------------- reporting
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool tracing;
void event_hash(uint64_t v);

// ---------------------------------------------------------------- memory
void  mem_init();
void *sim_alloc(size_t size, size_t align, bool can_fail);
void  sim_dealloc(void *p);
size_t mem_live_bytes();
size_t mem_live_blocks();
uint64_t mem_epoch();                       // allocation counter
std::string mem_describe_live(uint64_t since_epoch, int max, int group = -1);
void  mem_check(const void *p, size_t n, bool write);
void  mem_poison(void *p, size_t n, bool poison);
size_t mem_live_blocks_since(uint64_t epoch, int group = -1);

// ---------------------------------------------------------------- workload
Rng &wrng();                                // workload random stream
bool op_enabled();                          // next op id kept? (minimiser can drop)
extern RunSpec spec;

// ---------------------------------------------------------------- scenario registry
struct Scenario {
    const char *name;
    void (*setup)();    // runs once before snapshot (may be null)
    void (*run)();      // one simulated run
};
void register_scenario(const Scenario &s);
const std::vector<Scenario> &scenarios();

struct Reg { Reg(const char *n, void (*s)(), void (*r)()) { Scenario sc{n, s, r}; register_scenario(sc); } };
#define SCENARIO(name, setup, run) static sim::Reg reg_##run(name, setup, run)

} // namespace sim
