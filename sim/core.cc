// Simulator core: coroutine threads, seeded scheduler, fault decisions,
// instrumentation runtime (TSan ABI), shadow-checked allocator, pthread seam.
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>

namespace sim {

const char *const fault_names[F_COUNT] = {
    "cas_weak_spurious_failure", "condvar_spurious_wakeup", "malloc_failure", "thread_create_failure",
    "mutex_init_failure", "cond_init_failure", "tls_init_failure", "signal", "gc_pressure", "thread_stall",
    "eintr", "short_io", "io_error", "enospc", "open_failure", "mmap_failure", "flock_failure",
    "fork_failure", "exec_failure", "child_timing", "pipe_failure",
    "net_delay", "net_reset", "net_refuse", "clock_jump", "heap_limit", "dgram_drop", "dgram_dup", "dgram_reorder",
    "select_failure", "syscall_failure", "slow_io"
};

Knobs knobs;
ResultShm *res;
RunSpec spec;
bool tracing;

uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
    r.next();
    return r.next();
}

static void backtrace_into(char *out, size_t n, void *pc0, void **fp);
// ---------------------------------------------------------------- threads
static const uintptr_t STACK_BASE = 0x300000000000ull;
static const size_t    STACK_SIZE = 2u << 20;
static const int       MAX_THR    = 250;

struct Thr {
    int         id;
    void       *sp;
    int         saved_errno;
    bool        started, done;
    bool        blocked;
    bool        interruptible;
    const std::function<bool()> *pred;
    uint64_t    deadline;
    const char *what;
    thread_fn   fn;
    void       *arg;
    void       *ret;
    bool        joined;
    bool        detached;
    int64_t     prio;
    uint64_t    stalled_until;
    uint64_t    switch_in;
    std::vector<int> sigs;
    uint64_t    sigmask;
    std::unordered_map<unsigned, void *> tls;
    char        name[24];
    int         in_handler;
    int         group;      // threads inherit the group of their creator
};

static Thr *thr[MAX_THR];
static int  nthr;
static Thr *cur;
static bool running;      // between begin_run and end
static int  np_depth;
static bool faults_enabled;
static int  faults_suppressed;
static bool thr_safe[250];               // threads which are spared

extern "C" {
uint64_t sim_step;
uint64_t sim_next = ~0ull;
int      sim_count_plain;
uint64_t sim_atomics;
}

static Rng g_srng, g_frng, g_wrng;
static Strategy strategy;
static uint32_t sw_k;           // random switch mean gap
static uint32_t hot_p;          // out of 256
// ST_SITE: a few randomly chosen places in the code, where threads are preempted often and kept off for long
static bool site_on;
static uint64_t site_salt;
static uint32_t site_mask;
static bool site_stall;
static uint16_t site_hits[1024];
static uint64_t next_planned;   // strategy-planned preemption step
static std::vector<uint64_t> pct_points;
static size_t pct_idx;
static int64_t pct_low, pct_high;
static uint64_t next_starve;     // PCT alone is unfair: threads which wait too long are boosted
static uint64_t FAIR = 60000;
static uint64_t clock_base_ns;
static uint64_t clock_extra_ns;
static uint64_t last_sw_atomics;
static size_t replay_idx;
static uint64_t fault_occ[F_COUNT];
static std::map<std::pair<int, uint64_t>, uint32_t> replay_faults;
static uint32_t op_counter;
static std::vector<bool> dropped;

struct TimedEvent { uint64_t at; uint64_t seq; std::function<void()> fn; };
static std::vector<TimedEvent> events;
static uint64_t event_seq;

extern "C" void sim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

Rng &wrng() { return g_wrng; }
int self() { return cur ? cur->id : 0; }
uint64_t step() { return sim_step; }
bool faults_on() { return faults_enabled; }
const char *thread_name(int tid) { return thr[tid]->name; }
int num_live_threads() { int n = 0; for (int i = 0; i < nthr; i++) n += !thr[i]->done; return n; }
uint64_t now_ns() { return clock_base_ns + clock_extra_ns + sim_step * 25; }

static inline void hash_in(uint64_t v) { res->trace_hash = (res->trace_hash ^ v) * 0x100000001B3ull + (res->trace_hash >> 29); }
void event_hash(uint64_t v) { hash_in(v); }

bool op_enabled()
{
    const uint32_t id = op_counter++;
    res->nops = op_counter;
    return !(id < dropped.size() && dropped[id]);
}

void trace(const char *fmt, ...)
{
    if (!tracing) return;
    static char buf[1 << 16], b2[(1 << 16) + 100];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    int n = snprintf(b2, sizeof b2, "[%llu t%d] %s\n", (unsigned long long)sim_step, self(), buf);
    (void)!write(2, b2, n);
}

// ---------------------------------------------------------------- reporting
bool in_child;
static void finish(int status)
{
    res->steps  = sim_step;
    res->sim_ns = now_ns() - clock_base_ns;
    res->status = status;
    if (tracing) fflush(stderr);
    if (!in_child) {
        // scenario set-up, before any simulated run
        printf("SETUP-%s kind=%s where=%s msg=%s\n", status == R_VIOLATION ? "VIOLATION" : "ERROR", res->kind, res->where, res->msg);
        fflush(stdout);
        _exit(status == R_VIOLATION ? 4 : 3);
    }
    _exit(0);
}

static void backtrace_into(char *out, size_t n, void *pc0, void **fp)
{
    size_t off = 0;
    if (pc0) off += snprintf(out + off, n - off, "%p ", pc0);
    for (int i = 0; i < 24 && off + 24 < n; i++) {
        uintptr_t f = (uintptr_t)fp;
        if (f < STACK_BASE || f >= STACK_BASE + (uintptr_t)MAX_THR * STACK_SIZE || (f & 7)) break;
        off += snprintf(out + off, n - off, "%p ", fp[1]);
        void **nf = (void **)fp[0];
        if (nf <= fp) break;
        fp = nf;
    }
}

static void vfail(int status, const char *kind, const char *fmt, va_list ap, void *pc0, void **fp)
{
    if (res->status) _exit(0);
    snprintf(res->kind, sizeof res->kind, "%s", kind);
    vsnprintf(res->msg, sizeof res->msg, fmt, ap);
    backtrace_into(res->where, sizeof res->where, pc0, fp);
    finish(status);
}

[[noreturn]] void violation(const char *kind, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(R_VIOLATION, kind, fmt, ap, nullptr, (void **)__builtin_frame_address(0));
    abort();
}
[[noreturn]] void harness_error(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(R_HARNESS, "harness", fmt, ap, nullptr, (void **)__builtin_frame_address(0));
    abort();
}
[[noreturn]] void finish_ok() { finish(R_PASS); abort(); }

static void crash_handler(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = (ucontext_t *)uc_;
    if (res && !res->status) {
        snprintf(res->kind, sizeof res->kind, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT");
        snprintf(res->msg, sizeof res->msg, "signal %d at address %p", sig, si->si_addr);
        backtrace_into(res->where, sizeof res->where, (void *)uc->uc_mcontext.gregs[REG_RIP], (void **)uc->uc_mcontext.gregs[REG_RBP]);
        res->steps = sim_step;
        if (!in_child) finish(R_VIOLATION);
        res->status = R_VIOLATION;
    }
    _exit(0);
}

static void install_crash_handlers()
{
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
}

// ---------------------------------------------------------------- faults
uint64_t fault_raw[F_COUNT];
int fault_group;
unsigned fault(FaultKind k, unsigned variants)
{
    fault_raw[k]++;
    if (!faults_enabled || faults_suppressed || thr_safe[self()] || (fault_group && cur->group != fault_group)) return 0;
    const uint64_t occ = fault_occ[k]++;
    res->fault_opps[k]++;
    unsigned v = 0;
    if (spec.replay) {
        auto it = replay_faults.find({(int)k, occ});
        if (it != replay_faults.end()) v = it->second;
        if (v > variants) v = variants;
    } else {
        if (knobs.at[k] && occ + 1 >= knobs.at[k] && occ + 1 < knobs.at[k] + knobs.at_len[k]) v = 1 + (unsigned)g_frng.below(variants);
        if (!v) {
        if (!knobs.rate[k]) return 0;
        if (knobs.burst_limit[k] && res->faults[k] >= knobs.burst_limit[k]) return 0;
        if (g_frng.below(65536) >= knobs.rate[k]) return 0;
        v = 1 + (unsigned)g_frng.below(variants);
        }
    }
    if (!v) return 0;
    res->faults[k]++;
    if (res->nfault < sizeof res->fl / sizeof res->fl[0])
        res->fl[res->nfault++] = FaultDec{(int)k, occ, v};
    else
        res->overflow = 1;
    hash_in(0xFA000000u + k * 131 + occ * 7919 + v);
    res->inter_hash = (res->inter_hash ^ (0xFA000000u + k * 131 + occ * 7919 + v)) * 0x100000001B3ull + (res->inter_hash >> 31);
    if (tracing) {
        char bt[700] = "";
        backtrace_into(bt, sizeof bt, nullptr, (void **)__builtin_frame_address(0));
        trace("FAULT %s occ=%llu v=%u at %s", fault_names[k], (unsigned long long)occ, v, bt);
    }
    return v;
}

// ---------------------------------------------------------------- scheduler
static void thread_entry();

static void recompute_next()
{
    uint64_t n = ~0ull;
    if (running) {
        if (spec.replay) {
            while (replay_idx < spec.switches.size() && spec.switches[replay_idx].step < sim_step) replay_idx++;
            n = replay_idx < spec.switches.size() ? spec.switches[replay_idx].step : ~0ull;
        } else
        {
            n = next_planned;
            if (strategy == ST_PCT && next_starve < n) n = next_starve;
        }
        uint64_t f = cur->switch_in + FAIR;
        if (f < n) n = f;
        if (knobs.max_steps < n) n = knobs.max_steps;
    }
    sim_next = n;
}

static void plan_next()
{
    switch (strategy) {
        case ST_RANDOM: case ST_HOT: case ST_STALL: case ST_SITE: {
            // geometric-ish gap with mean sw_k
            uint64_t g = 1 + (sw_k > 1 ? g_srng.below(2 * sw_k) : 0);
            next_planned = sim_step + g;
            break;
        }
        case ST_PCT:
            while (pct_idx < pct_points.size() && pct_points[pct_idx] <= sim_step) pct_idx++;
            next_planned = pct_idx < pct_points.size() ? pct_points[pct_idx] : ~0ull;
            break;
        default:
            next_planned = ~0ull;
    }
}

static int deliverable(Thr *t);

static bool is_ready(Thr *t)
{
    if (t->done || !t->started) return false;
    if (!t->blocked) return true;
    if (deliverable(t) >= 0) return true;
    if (t->deadline != ~0ull && now_ns() >= t->deadline) return true;
    if (t->pred && (*t->pred)()) return true;
    return false;
}

static void fire_events()
{
    for (;;) {
        size_t best = events.size();
        for (size_t i = 0; i < events.size(); i++)
            if (events[i].at <= now_ns() && (best == events.size() || events[i].at < events[best].at ||
                (events[i].at == events[best].at && events[i].seq < events[best].seq)))
                best = i;
        if (best == events.size()) return;
        auto fn = std::move(events[best].fn);
        events.erase(events.begin() + best);
        fn();
    }
}

void set_event(uint64_t at_ns, std::function<void()> fn) { events.push_back({at_ns, event_seq++, std::move(fn)}); }

static int collect(Thr **out, bool include_cur)
{
    int n = 0;
    fire_events();
    for (int i = 0; i < nthr; i++) {
        Thr *t = thr[i];
        if (t == cur && !include_cur) continue;
        if (is_ready(t)) out[n++] = t;
    }
    return n;
}

static bool run_signals();

static void do_switch(Thr *t)
{
    if (t == cur) { cur->switch_in = sim_step; recompute_next(); return; }
    Thr *me = cur;
    if (running) {
        res->switches++;
        if (res->nswitch < sizeof res->sw / sizeof res->sw[0])
            res->sw[res->nswitch++] = SwitchDec{sim_step, t->id};
        else
            res->overflow = 1;
        const uint64_t da = sim_atomics - last_sw_atomics;
        last_sw_atomics = sim_atomics;
        res->inter_hash = (res->inter_hash ^ (da * 64 + t->id)) * 0x100000001B3ull + (res->inter_hash >> 31);
        hash_in(sim_step * 1000003u + t->id);
    }
    if (tracing) trace("switch -> t%d(%s)", t->id, t->name);
    me->saved_errno = errno;
    cur = t;
    t->switch_in = sim_step;
    recompute_next();
    sim_switch(&me->sp, t->sp);
    // back
    errno = me->saved_errno;
}

static Thr *cyclic_next(Thr **c, int n)
{
    Thr *best = nullptr;
    for (int i = 0; i < n; i++) if (c[i]->id > cur->id && (!best || c[i]->id < best->id)) best = c[i];
    if (!best) for (int i = 0; i < n; i++) if (!best || c[i]->id < best->id) best = c[i];
    return best;
}

static Thr *choose(Thr **c, int n, bool voluntary)
{
    if (n == 1 && !spec.replay) return c[0];
    if (!running) return cyclic_next(c, n);
    if (spec.replay) {
        while (replay_idx < spec.switches.size() && spec.switches[replay_idx].step < sim_step) replay_idx++;
        if (replay_idx < spec.switches.size() && spec.switches[replay_idx].step == sim_step) {
            const int id = spec.switches[replay_idx].tid;
            replay_idx++;
            for (int i = 0; i < n; i++) if (c[i]->id == id) return c[i];
        }
        return cyclic_next(c, n);
    }
    if (strategy == ST_PCT) {
        Thr *b = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
        return b;
    }
    if (strategy == ST_NONE) return cyclic_next(c, n);
    if (strategy == ST_STALL || strategy == ST_SITE) {
        Thr *ok[MAX_THR]; int m = 0;
        for (int i = 0; i < n; i++) if (c[i]->stalled_until <= sim_step) ok[m++] = c[i];
        if (m) return ok[g_srng.below(m)];
    }
    return c[g_srng.below(n)];
}

static void check_limit()
{
    if (running && sim_step >= knobs.max_steps)
        violation("liveness:step-limit", "no completion within %llu steps; thread %d (%s) running",
                  (unsigned long long)knobs.max_steps, cur->id, cur->name);
}

// Involuntary scheduling point reached sim_next.
static void slow_point_c()
{
    if (!running || np_depth) { sim_next = running ? sim_step + 1 : ~0ull; return; }
    check_limit();
    const bool fair = sim_step >= cur->switch_in + FAIR;
    bool take = fair;
    if (spec.replay) {
        while (replay_idx < spec.switches.size() && spec.switches[replay_idx].step < sim_step) replay_idx++;
        if (replay_idx < spec.switches.size() && spec.switches[replay_idx].step == sim_step) take = true;
    } else if (sim_step >= next_planned) {
        take = true;
        if (strategy == ST_PCT) cur->prio = --pct_low;
        if ((strategy == ST_STALL && g_srng.chance(1, 4)) || site_stall) {
            site_stall = false;
            cur->stalled_until = sim_step + (strategy == ST_SITE ? 1ull << g_srng.range(8, 16) : 1ull << g_srng.range(4, 14));
            res->faults[F_STALL]++;
        }
        plan_next();
    }
    if (fair && strategy == ST_PCT && !spec.replay) cur->prio = --pct_low;
    if (strategy == ST_PCT && !spec.replay && sim_step >= next_starve) {
        next_starve = sim_step + FAIR;
        Thr *old = nullptr;
        for (int i = 0; i < nthr; i++)
            if (thr[i] != cur && is_ready(thr[i]) && (!old || thr[i]->switch_in < old->switch_in)) old = thr[i];
        if (old && sim_step > old->switch_in + 4 * FAIR) { old->prio = ++pct_high; take = true; }
    }
    if (take) {
        Thr *c[MAX_THR];
        int n;
        if (spec.replay || strategy == ST_PCT) {
            n = collect(c, !fair);
            if (spec.replay && !fair) {
                // explicit decision only
                Thr *t = n ? choose(c, n, false) : nullptr;
                if (t && t != cur) do_switch(t); else recompute_next();
                run_signals();
                return;
            }
        } else
            n = collect(c, false);
        if (n) {
            Thr *t = choose(c, n, false);
            do_switch(t);
        } else
            cur->switch_in = sim_step;
    }
    recompute_next();
    run_signals();
}

extern "C" void sim_slow_point() { slow_point_c(); }

// About to execute an operation other threads can observe, at a given place in the code
static __attribute__((noinline)) void site_hook(const void *pc)
{
    const uint64_t h = ((uint64_t)(uintptr_t)pc * 0x9E3779B97F4A7C15ull) ^ site_salt;
    const uint64_t m = h * 0xD6E8FEB86659FD93ull;
    if ((m >> 40) & site_mask) return;
    uint16_t &n = site_hits[(m >> 20) & 1023];
    const uint32_t one_in = n < 24 ? 2 : n < 96 ? 16 : 512;
    if (n < 60000) n++;
    if (!running || np_depth || (g_srng.next() >> 20) % one_in) return;
    site_stall = g_srng.chance(3, 4);
    next_planned = sim_step + 1;
    if (next_planned < sim_next) sim_next = next_planned;
}
#define SITE() do { if (__builtin_expect(site_on, 0)) site_hook(__builtin_return_address(0)); } while (0)

static inline void point() { if (__builtin_expect(++sim_step >= sim_next, 0)) sim_slow_point(); }

void pause_point() { point(); }

// In PCT mode a newly runnable higher-priority thread must preempt at sync operations.
static inline __attribute__((always_inline)) void sync_point()
{
    SITE();
    ++sim_step;
    if (running && !np_depth && strategy == ST_PCT && !spec.replay) {
        check_limit();
        Thr *c[MAX_THR];
        int n = collect(c, true);
        if (n) { Thr *t = choose(c, n, false); if (t != cur) do_switch(t); }
        run_signals();
    }
    if (sim_step >= sim_next) sim_slow_point();
}

void yield_point()
{
    ++sim_step;
    if (np_depth) return;
    if (running) check_limit();
    if (strategy == ST_PCT && running) cur->prio = --pct_low;
    Thr *c[MAX_THR];
    int n = collect(c, false);
    if (n) do_switch(choose(c, n, true));
    else if (running && sim_step >= sim_next) { cur->switch_in = sim_step; recompute_next(); }
    run_signals();
    if (!n && events.empty()) return;
    // let simulated time move when everybody only spins
    clock_extra_ns += 1000;
}

bool wait_until(const std::function<bool()> &pred, const char *what, bool interruptible, uint64_t deadline, bool *timed_out)
{
    if (timed_out) *timed_out = false;
    if (np_depth) { if (pred()) return true; harness_error("blocking (%s) inside no-preempt section", what); }
    for (;;) {
        ++sim_step;
        if (running) check_limit();
        if (pred()) break;
        if (deadline != ~0ull && now_ns() >= deadline) { if (timed_out) *timed_out = true; break; }
        cur->blocked = true;
        cur->pred = &pred;
        cur->deadline = deadline;
        cur->what = what;
        cur->interruptible = interruptible;
        for (;;) {
            Thr *c[MAX_THR];
            int n = collect(c, true);
            if (n) { do_switch(choose(c, n, true)); break; }
            // nobody can run: advance time to the next timer or event
            uint64_t t = ~0ull;
            for (int i = 0; i < nthr; i++)
                if (!thr[i]->done && thr[i]->blocked && thr[i]->deadline < t) t = thr[i]->deadline;
            for (auto &e : events) if (e.at < t) t = e.at;
            if (t == ~0ull) {
                std::string d;
                for (int i = 0; i < nthr; i++)
                    if (!thr[i]->done) { d += " t" + std::to_string(i) + "(" + thr[i]->name + ") waits for " + (thr[i]->what ? thr[i]->what : "?") + ";"; }
                violation("deadlock", "no thread can run:%s", d.c_str());
            }
            if (t > now_ns()) clock_extra_ns += t - now_ns();
        }
        cur->blocked = false;
        cur->pred = nullptr;
        cur->deadline = ~0ull;
        if (deliverable(cur) >= 0) {
            const bool restart = run_signals();
            if (interruptible && !pred() && !(restart && deadline == ~0ull && strcmp(what, "select"))) {
                errno = EINTR;
                return false;
            }
        }
    }
    return true;
}

void sleep_ns(uint64_t ns, bool *interrupted)
{
    const uint64_t dl = now_ns() + ns;
    bool to;
    bool ok = wait_until([] { return false; }, "sleep", true, dl, &to);
    if (interrupted) *interrupted = !ok;
}

void no_preempt_begin() { np_depth++; }
void no_preempt_end() { if (--np_depth == 0) recompute_next(); }

static void thread_entry()
{
    Thr *t = cur;
    errno = 0;
    run_signals();
    t->ret = t->fn(t->arg);
    t->done = true;
    ++sim_step;
    for (;;) {
        Thr *c[MAX_THR];
        int n = collect(c, false);
        if (n) { do_switch(choose(c, n, true)); abort(); }
        uint64_t tm = ~0ull;
        for (int i = 0; i < nthr; i++)
            if (!thr[i]->done && thr[i]->blocked && thr[i]->deadline < tm) tm = thr[i]->deadline;
        for (auto &e : events) if (e.at < tm) tm = e.at;
        if (tm == ~0ull) {
            std::string d;
            for (int i = 0; i < nthr; i++)
                if (!thr[i]->done) { d += " t" + std::to_string(i) + "(" + thr[i]->name + ") waits for " + (thr[i]->what ? thr[i]->what : "?") + ";"; }
            violation("deadlock", "no thread can run:%s", d.c_str());
        }
        if (tm > now_ns()) clock_extra_ns += tm - now_ns();
    }
}

static Thr *new_thr(thread_fn fn, void *arg, const char *name)
{
    if (nthr >= MAX_THR) harness_error("too many simulated threads");
    Thr *t = new Thr();
    t->id = nthr;
    t->fn = fn; t->arg = arg;
    t->deadline = ~0ull;
    t->prio = (int64_t)(g_srng.next() >> 2);
    t->sigmask = cur ? cur->sigmask : 0;
    t->group = cur ? cur->group : 0;
    snprintf(t->name, sizeof t->name, "%s", name ? name : "thread");
    char *base = (char *)(STACK_BASE + (uintptr_t)t->id * STACK_SIZE);
    void *m = mmap(base, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (m != base) harness_error("cannot map stack");
    mprotect(base, 4096, PROT_NONE);
    uint64_t *sp = (uint64_t *)(base + STACK_SIZE - 64);
    *--sp = 0;                       // alignment / fake return
    *--sp = (uint64_t)(void *)thread_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp;
    ((uint32_t *)sp)[0] = 0x1F80; ((uint16_t *)sp)[2] = 0x037F;
    t->sp = sp;
    t->started = true;
    thr[nthr++] = t;
    return t;
}

int spawn_thread(thread_fn fn, void *arg, const char *name)
{
    Thr *t = new_thr(fn, arg, name);
    trace("spawn t%d %s", t->id, t->name);
    sync_point();
    return t->id;
}

void join_thread(int tid)
{
    Thr *t = thr[tid];
    wait_until([t] { return t->done; }, "join");
    t->joined = true;
}

// ---------------------------------------------------------------- signals
struct SigAct { sig_fn fn; int flags; bool set; };
static SigAct sigacts[65];

static int deliverable(Thr *t)
{
    if (t->sigs.empty() || t->in_handler) return -1;
    for (size_t i = 0; i < t->sigs.size(); i++)
        if (!(t->sigmask >> t->sigs[i] & 1)) return (int)i;
    return -1;
}

// returns whether an interrupted system call is to be restarted
static bool run_signals()
{
    bool restart = true;
    while (cur && !np_depth) {
        const int idx = deliverable(cur);
        if (idx < 0) return restart;
        int sig = cur->sigs[idx];
        cur->sigs.erase(cur->sigs.begin() + idx);
        if (!sigacts[sig].set || !sigacts[sig].fn) continue;
        trace("signal %d handler runs", sig);
        cur->in_handler++;
        if (!(sigacts[sig].flags & SA_RESTART)) restart = false;
        sigacts[sig].fn(sig);
        cur->in_handler--;
    }
    return restart;
}

void post_signal(int sig)
{
    if (!sigacts[sig].set) return;
    std::vector<Thr *> live;
    for (int i = 0; i < nthr; i++)
        if (!thr[i]->done && thr[i]->started && !thr[i]->detached) live.push_back(thr[i]);
    if (live.empty()) return;
    {   // the signal goes to a thread which does not block it, if there is one
        std::vector<Thr *> open;
        for (Thr *t : live) if (!(t->sigmask >> sig & 1)) open.push_back(t);
        if (!open.empty()) live = open;
    }
    uint64_t r;
    if (spec.replay) {
        auto it = replay_faults.find({(int)F_SIGINT, fault_occ[F_SIGINT]});
        r = it != replay_faults.end() ? it->second - 1 : 0;
    } else
        r = g_frng.below(live.size());
    fault_occ[F_SIGINT]++;
    res->faults[F_SIGINT]++;
    if (res->nfault < sizeof res->fl / sizeof res->fl[0])
        res->fl[res->nfault++] = FaultDec{(int)F_SIGINT, fault_occ[F_SIGINT] - 1, (uint32_t)r + 1};
    Thr *t = live[r % live.size()];
    trace("post signal %d to t%d", sig, t->id);
    for (int s : t->sigs) if (s == sig) return; // standard signals do not queue
    t->sigs.push_back(sig);
}

// how: SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK; delivers what became deliverable
uint64_t change_sigmask(int how, const uint64_t *set)
{
    const uint64_t old = cur->sigmask;
    if (set) {
        if (how == SIG_BLOCK) cur->sigmask |= *set;
        else if (how == SIG_UNBLOCK) cur->sigmask &= ~*set;
        else cur->sigmask = *set;
        if (running) run_signals();
    }
    return old;
}


// ---------------------------------------------------------------- run control
void begin_run()
{
    g_srng = Rng(mix(spec.seed, 1));
    g_frng = Rng(mix(spec.seed, 2));
#ifdef CONFIG_MAD_GC
    // The debug-only page-locking code of this build variant ends the process when its own
    // bookkeeping cannot be allocated; that says nothing about the product.
    knobs.rate[F_MALLOC] = 0;
#endif
    sim_step = 0; sim_atomics = 0; last_sw_atomics = 0;
    replay_idx = 0;
    res->trace_hash = 0xcbf29ce484222325ull;
    res->inter_hash = 0;
    replay_faults.clear();
    if (spec.replay)
        for (auto &f : spec.faults) replay_faults[{f.kind, f.occ}] = f.variant;
    // strategy choice is part of the seed
    const unsigned r = (unsigned)g_srng.below(12);
    strategy = r < 3 ? ST_RANDOM : r < 5 ? ST_PCT : r < 7 ? ST_HOT : r < 9 ? ST_STALL : ST_SITE;
    if (knobs.force_strategy) strategy = knobs.force_strategy;
    static const uint32_t ks[] = {1, 2, 4, 8, 16, 32, 64, 128, 512, 2048, 8192};
    sw_k = ks[g_srng.below(sizeof ks / sizeof ks[0])];
    hot_p = strategy == ST_HOT ? (1u << g_srng.range(3, 7)) : 0;
    if (strategy == ST_HOT) sw_k = 1u << g_srng.range(6, 14);
    site_on = strategy == ST_SITE && !spec.replay;
    site_stall = false;
    memset(site_hits, 0, sizeof site_hits);
    if (strategy == ST_SITE) {
        sw_k = 1u << g_srng.range(5, 13);
        site_salt = g_srng.next();
        site_mask = (1u << g_srng.range(2, 6)) - 1;
    }
    if (knobs.count_plain && sw_k < 4 && strategy != ST_HOT) sw_k = 4;
    pct_points.clear(); pct_idx = 0; pct_low = 0; pct_high = INT64_MAX / 2; next_starve = 4 * FAIR;
    if (strategy == ST_PCT) {
        const uint64_t len = 1ull << g_srng.range(8, 18);
        const int d = g_srng.range(1, 7);
        for (int i = 0; i < d; i++) pct_points.push_back(1 + g_srng.below(len));
        std::sort(pct_points.begin(), pct_points.end());
    }
    sim_count_plain = knobs.count_plain;
    for (int i = 0; i < nthr; i++) { thr[i]->prio = (int64_t)(g_srng.next() >> 2); thr[i]->switch_in = 0; }
    running = true;
    faults_enabled = true;
    plan_next();
    recompute_next();
}

void suppress_faults() { faults_suppressed++; }
void unsuppress_faults() { faults_suppressed--; }
void set_group(int g) { cur->group = g; }
int thread_group() { return cur ? cur->group : 0; }
void spare_thread(bool on) { thr_safe[self()] = on; }
void end_faults() { faults_enabled = false; }
void resume_faults() { if (running) faults_enabled = true; }

void start_main(thread_fn fn)
{
    install_crash_handlers();
    clock_base_ns = 1700000000ull * 1000000000ull;
    static Thr boot; // represents the OS stack we come from
    boot.id = 0; boot.done = true;
    cur = new_thr(fn, nullptr, "main");
    Thr *m = cur;
    cur = m;
    sim_switch(&boot.sp, m->sp);
}

void prepare_spec()
{
    g_wrng = Rng(mix(spec.seed, 3));
    dropped.clear();
    for (uint32_t d : spec.drop_ops) { if (d >= dropped.size()) dropped.resize(d + 1); dropped[d] = true; }
    op_counter = 0;
    memset(&knobs, 0, sizeof knobs);
    knobs.max_steps = 120000000;
}

// ---------------------------------------------------------------- memory
static const uintptr_t AR_BASE = 0x200000000000ull;
static const size_t    AR_SIZE = 16ull << 30;
static const uintptr_t SH_BASE = 0x280000000000ull;
static uint8_t *const shadow = (uint8_t *)SH_BASE;
static uintptr_t ar_cur = AR_BASE + 4096;
static uint64_t alloc_count;
static size_t live_bytes, live_blocks;

struct Chunk { uint64_t magic; uint64_t size; uint64_t id; uint64_t pc; uint64_t freed; uint64_t prev; uint64_t total; uint64_t group; };
static const uint64_t CH_MAGIC = 0x5157AB1E0C0FFEE5ull;
static Chunk *last_chunk;

void mem_init()
{
    void *m = mmap((void *)AR_BASE, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    void *s = mmap((void *)SH_BASE, AR_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (m != (void *)AR_BASE || s != (void *)SH_BASE) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
}

// shadow encoding: 0 addressable, 1..7 first n bytes addressable, >=0x80 poisoned
// Unallocated arena is recognised by address (>= ar_cur).
static inline uint8_t *sh(uintptr_t a) { return shadow + ((a - AR_BASE) >> 3); }

void *sim_alloc(size_t size, size_t align, bool can_fail)
{
    if (can_fail && fault(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    if (size > (1ull << 32)) { errno = ENOMEM; return nullptr; }
    if (align < 16) align = 16;
    uintptr_t user = ar_cur + 32 + sizeof(Chunk);
    user = (user + align - 1) & ~(uintptr_t)(align - 1);
    uintptr_t end = user + ((size + 7) & ~7ull) + 32;
    end = (end + 15) & ~15ull;
    if (end > AR_BASE + AR_SIZE) harness_error("simulated memory arena exhausted");
    Chunk *c = (Chunk *)(user - sizeof(Chunk));
    memset(sh(ar_cur), 0xFA, (user - ar_cur) >> 3);
    memset(sh(user), 0, size >> 3);
    if (size & 7) *sh(user + (size & ~7ull)) = (uint8_t)(size & 7);
    const uintptr_t e8 = user + ((size + 7) & ~7ull);
    memset(sh(e8), 0xFA, (end - e8) >> 3);
    c->magic = CH_MAGIC; c->size = size; c->id = ++alloc_count; c->freed = 0; c->pc = (uint64_t)__builtin_return_address(0);
    c->prev = (uint64_t)last_chunk; c->total = end - ar_cur;
    c->group = cur ? (uint64_t)cur->group : 0;
    last_chunk = c;
    ar_cur = end;
    live_bytes += size; live_blocks++;
    // fresh memory is never zero-initialised by accident
    if (size <= 65536) memset((void *)user, 0xC5, size);
    else { memset((void *)user, 0xC5, 4096); memset((void *)(user + size - 4096), 0xC5, 4096); }
    return (void *)user;
}

void sim_dealloc(void *p)
{
    if (!p) return;
    const uintptr_t a = (uintptr_t)p;
    if (a < AR_BASE || a >= ar_cur) violation("memory:bad-free", "free() of a pointer not returned by malloc");
    Chunk *c = (Chunk *)(a - sizeof(Chunk));
    if (c->magic != CH_MAGIC) violation("memory:bad-free", "free() of a pointer not returned by malloc (interior or corrupted)");
    if (c->freed) violation("memory:double-free", "block %llu of size %llu freed twice", (unsigned long long)c->id, (unsigned long long)c->size);
    c->freed = 1;
    live_bytes -= c->size; live_blocks--;
    memset(sh(a), 0xFD, (c->size + 7) >> 3);
    if (c->size > 65536) {
        const uintptr_t b = (a + 4095) & ~4095ull, e = (a + c->size) & ~4095ull;
        if (e > b) madvise((void *)b, e - b, MADV_DONTNEED);
    }
}

static size_t chunk_size(void *p) { return ((Chunk *)((uintptr_t)p - sizeof(Chunk)))->size; }

size_t mem_live_bytes() { return live_bytes; }
size_t mem_live_blocks() { return live_blocks; }
uint64_t mem_epoch() { return alloc_count; }
size_t mem_live_blocks_since(uint64_t ep, int group)
{
    size_t n = 0;
    for (Chunk *c = last_chunk; c && c->id > ep; c = (Chunk *)c->prev) n += !c->freed && (group < 0 || c->group == (uint64_t)group);
    return n;
}
std::string mem_describe_live(uint64_t ep, int max, int group)
{
    std::string s;
    for (Chunk *c = last_chunk; c && c->id > ep && max > 0; c = (Chunk *)c->prev)
        if (!c->freed && (group < 0 || c->group == (uint64_t)group)) { char b[80]; snprintf(b, sizeof b, " #%llu(%llu bytes)", (unsigned long long)c->id, (unsigned long long)c->size); s += b; max--; }
    return s;
}

void mem_poison(void *p, size_t n, bool poison)
{
    const uintptr_t a = (uintptr_t)p;
    if (a < AR_BASE || a >= AR_BASE + AR_SIZE) return;
    memset(sh(a), poison ? 0xFE : 0, n >> 3);
}

int mem_nocheck;
static void mem_bad(uintptr_t a, size_t n, bool write, void *pc, void **fp, ...)
{
    if (mem_nocheck) return;
    const char *what = "out-of-bounds";
    if (a >= ar_cur) what = "wild";
    else {
        const uint8_t s = *sh(a);
        uint8_t s2 = *sh(a + n - 1);
        if (s == 0xFD || s2 == 0xFD) what = "use-after-free";
        else if (s == 0xFE || s2 == 0xFE) what = "access-to-gc-reclaimed-page";
    }
    char kind[64];
    snprintf(kind, sizeof kind, "memory:%s", what);
    va_list ap; va_start(ap, fp);
    if (res->status) _exit(0);
    snprintf(res->kind, sizeof res->kind, "%s", kind);
    snprintf(res->msg, sizeof res->msg, "%s of %zu bytes: %s", write ? "write" : "read", n, what);
    backtrace_into(res->where, sizeof res->where, pc, fp);
    finish(R_VIOLATION);
}

static inline bool sh_ok(uintptr_t a, size_t n)
{
    // n <= 16 typical
    uintptr_t e = a + n - 1;
    if (e >= ar_cur) return false;
    for (uintptr_t g = a & ~7ull; g <= e; g += 8) {
        const uint8_t s = *sh(g);
        if (__builtin_expect(s == 0, 1)) continue;
        if (s >= 0x80) return false;
        const uintptr_t last = e < g + 7 ? e : g + 7;
        if (last - g >= s) return false;
    }
    return true;
}

#define CHECK(a_, n_, w_) do { \
    const uintptr_t a__ = (uintptr_t)(a_); \
    if (a__ - AR_BASE < AR_SIZE && __builtin_expect(!sh_ok(a__, (n_)), 0)) \
        mem_bad(a__, (n_), (w_), __builtin_return_address(0), (void **)__builtin_frame_address(0)); \
} while (0)

void mem_check(const void *p, size_t n, bool w) { if (n) CHECK(p, n, w); }

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- TSan ABI
#define PLAIN_POINT() do { if (sim_count_plain && __builtin_expect(++sim_step >= sim_next, 0)) sim_slow_point(); } while (0)
#define STK_LOCAL(a) ((uintptr_t)(a) - STACK_BASE < (uintptr_t)MAX_THR * STACK_SIZE)

#define RD(n) \
extern "C" void __tsan_read##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, false); } \
extern "C" void __tsan_write##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, true); } \
extern "C" void __tsan_volatile_read##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, false); } \
extern "C" void __tsan_volatile_write##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, true); } \
extern "C" void __tsan_unaligned_read##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, false); } \
extern "C" void __tsan_unaligned_write##n(void *a) { if (STK_LOCAL(a)) return; PLAIN_POINT(); CHECK(a, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
extern "C" void __tsan_read_range(void *a, unsigned long n) { if (n) { PLAIN_POINT(); CHECK(a, n, false); } }
extern "C" void __tsan_write_range(void *a, unsigned long n) { if (n) { PLAIN_POINT(); CHECK(a, n, true); } }
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_read(void **) {}
extern "C" void __tsan_vptr_update(void **, void *) {}
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

static inline void rmw_hot()
{
    if (hot_p && running && !spec.replay && (g_srng.next() & 255) < hot_p) {
        const uint64_t n = sim_step + 1 + g_srng.below(3);
        if (n < next_planned) { next_planned = n; if (n < sim_next) sim_next = n; }
    }
}
#define AT_POINT(a, n, w) do { ++sim_atomics; if (!STK_LOCAL(a)) { SITE(); point(); CHECK(a, n, w); } } while (0)

#define ATOMIC(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int) { AT_POINT(a, sizeof(T), false); return *a; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); *a = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = v; rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)(o + v); rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)(o - v); rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)(o & v); rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)(o | v); rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)(o ^ v); rmw_hot(); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { AT_POINT(a, sizeof(T), true); T o = *a; *a = (T)~(o & v); rmw_hot(); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    AT_POINT(a, sizeof(T), true); if (*a == *c) { *a = v; rmw_hot(); return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    AT_POINT(a, sizeof(T), true); \
    if (*a == *c && !(knobs.rate[F_CAS_WEAK] | (spec.replay ? 1 : 0) ? fault(F_CAS_WEAK) : 0)) { *a = v; rmw_hot(); return 1; } *c = *a; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    AT_POINT(a, sizeof(T), true); T o = *a; if (o == c) { *a = v; rmw_hot(); } return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// ---------------------------------------------------------------- libc seam: memory
extern "C" {

void *sim_malloc(size_t n) { point(); return sim_alloc(n, 16, true); }
void sim_free(void *p) { point(); sim_dealloc(p); }
void *sim_calloc(size_t a, size_t b)
{
    point();
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    void *p = sim_alloc(a * b, 16, true);
    if (p) memset(p, 0, a * b);
    return p;
}
void *sim_realloc(void *p, size_t n)
{
    point();
    if (!p) return sim_alloc(n, 16, true);
    const uintptr_t a = (uintptr_t)p;
    if (a - AR_BASE >= AR_SIZE || ((Chunk *)(a - sizeof(Chunk)))->magic != CH_MAGIC) violation("memory:bad-free", "realloc() of a pointer not returned by malloc");
    if (((Chunk *)(a - sizeof(Chunk)))->freed) violation("memory:use-after-free", "realloc() of a freed block");
    void *q = sim_alloc(n, 16, true);
    if (!q) return nullptr;
    const size_t o = chunk_size(p);
    memcpy(q, p, o < n ? o : n);
    sim_dealloc(p);
    return q;
}
int sim_posix_memalign(void **out, size_t align, size_t n)
{
    point();
    void *p = sim_alloc(n, align, true);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *sim_aligned_alloc(size_t align, size_t n) { point(); return sim_alloc(n, align, true); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
int sim_mprotect(void *p, size_t n, int prot)
{
    point();
    mem_poison(p, n, prot == PROT_NONE);
    return 0;
}

void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { PLAIN_POINT(); CHECK(d, n, true); CHECK(s, n, false); } return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { PLAIN_POINT(); CHECK(d, n, true); CHECK(s, n, false); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (n) { PLAIN_POINT(); CHECK(d, n, true); } return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { if (n) { PLAIN_POINT(); CHECK(a, n, false); CHECK(b, n, false); } return memcmp(a, b, n); }
size_t sim_strlen(const char *s)
{
    if ((uintptr_t)s - AR_BASE >= AR_SIZE) return strlen(s);
    for (size_t i = 0;; i++) { CHECK(s + i, 1, false); if (!s[i]) return i; }
}

[[noreturn]] void sim___assert_fail(const char *expr, const char *file, unsigned line, const char *func)
{
    const char *b = strrchr(file, '/');
    violation("assert", "%s (%s:%s)", expr, b ? b + 1 : file, func ? func : "?");
}
[[noreturn]] void sim_abort() { violation("abort", "abort() called"); }
[[noreturn]] void sim___stack_chk_fail() { violation("memory:stack-smash", "stack smashing detected"); }
[[noreturn]] void __attribute__((weak)) sim_exit_hook(int) { abort(); }

// ---------------------------------------------------------------- pthread seam
struct SMutex { int owner; bool init; int type; int depth; };
struct SCond { bool init; std::vector<int *> waiters; };
static std::unordered_map<uintptr_t, SMutex> *mutexes;
static std::unordered_map<uintptr_t, SCond> *conds;
static std::unordered_map<uintptr_t, int> *mattrs;

static SMutex &mtx(void *m, const char *op)
{
    if (!mutexes) mutexes = new std::unordered_map<uintptr_t, SMutex>();
    auto it = mutexes->find((uintptr_t)m);
    if (it == mutexes->end()) {
        // Statically initialised mutex outside of the heap is fine
        if ((uintptr_t)m - AR_BASE >= AR_SIZE) { (*mutexes)[(uintptr_t)m] = SMutex{-1, true, 0, 0}; return (*mutexes)[(uintptr_t)m]; }
        violation("sync:bad-mutex", "%s on a mutex which is not initialised or was destroyed", op);
    }
    return it->second;
}

int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { if (!mattrs) mattrs = new std::unordered_map<uintptr_t, int>(); (*mattrs)[(uintptr_t)a] = 0; return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { if (!mattrs) mattrs = new std::unordered_map<uintptr_t, int>(); (*mattrs)[(uintptr_t)a] = t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { if (mattrs) mattrs->erase((uintptr_t)a); return 0; }

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at)
{
    CHECK(m, sizeof *m, true);
    if (fault(F_MUTEX_INIT)) return ENOMEM;
    if (!mutexes) mutexes = new std::unordered_map<uintptr_t, SMutex>();
    int type = 0;
    if (at && mattrs && mattrs->count((uintptr_t)at)) type = (*mattrs)[(uintptr_t)at];
    (*mutexes)[(uintptr_t)m] = SMutex{-1, true, type, 0};
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
    CHECK(m, sizeof *m, true);
    mtx(m, "destroy");
    mutexes->erase((uintptr_t)m);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
    CHECK(m, sizeof *m, true);
    sync_point();
    const uintptr_t key = (uintptr_t)m;
    {
        SMutex &s0 = mtx(m, "lock");
        if (s0.owner == self()) {
            if (s0.type == PTHREAD_MUTEX_RECURSIVE) { s0.depth++; return 0; }
            if (s0.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
    }
    if (mtx(m, "lock").owner != -1)
        wait_until([key] { auto it = mutexes->find(key); return it == mutexes->end() || it->second.owner == -1; }, "mutex");
    SMutex &s = mtx(m, "lock");
    s.owner = self();
    s.depth = 1;
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
    CHECK(m, sizeof *m, true);
    sync_point();
    SMutex &s = mtx(m, "trylock");
    if (s.owner == self() && s.type == PTHREAD_MUTEX_RECURSIVE) { s.depth++; return 0; }
    if (s.owner != -1) return EBUSY;
    s.owner = self(); s.depth = 1;
    return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
    CHECK(m, sizeof *m, true);
    point();
    SMutex &s = mtx(m, "unlock");
    if (s.owner != self()) {
        if (s.type == PTHREAD_MUTEX_RECURSIVE || s.type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
        violation("sync:unlock-not-owner", "mutex unlocked by a thread which does not hold it (undefined behaviour)");
    }
    if (--s.depth > 0) return 0;
    s.owner = -1;
    sync_point();
    return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
    CHECK(c, sizeof *c, true);
    if (fault(F_COND_INIT)) return ENOMEM;
    if (!conds) conds = new std::unordered_map<uintptr_t, SCond>();
    (*conds)[(uintptr_t)c] = SCond{true, {}};
    return 0;
}
static SCond &cnd(void *c, const char *op)
{
    if (!conds) conds = new std::unordered_map<uintptr_t, SCond>();
    auto it = conds->find((uintptr_t)c);
    if (it == conds->end()) {
        if ((uintptr_t)c - AR_BASE >= AR_SIZE) { (*conds)[(uintptr_t)c] = SCond{true, {}}; return (*conds)[(uintptr_t)c]; }
        violation("sync:bad-cond", "%s on a condition variable which is not initialised or was destroyed", op);
    }
    return it->second;
}
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
    CHECK(c, sizeof *c, true);
    SCond &s = cnd(c, "destroy");
    if (!s.waiters.empty()) violation("sync:cond-destroyed-with-waiters", "condition variable destroyed while a thread waits on it");
    conds->erase((uintptr_t)c);
    return 0;
}
int sim_pthread_cond_signal(pthread_cond_t *c)
{
    CHECK(c, sizeof *c, true);
    point();
    SCond &s = cnd(c, "signal");
    if (!s.waiters.empty()) {
        *s.waiters.front() = 1;
        s.waiters.erase(s.waiters.begin());
    }
    sync_point();
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
    CHECK(c, sizeof *c, true);
    point();
    SCond &s = cnd(c, "broadcast");
    for (int *w : s.waiters) *w = 1;
    s.waiters.clear();
    sync_point();
    return 0;
}
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
{
    CHECK(c, sizeof *c, true);
    CHECK(m, sizeof *m, true);
    sync_point();
    SMutex &s = mtx(m, "cond_wait");
    if (s.owner != self()) violation("sync:cond-wait-unlocked", "condition wait without holding the mutex");
    int woken = 0;
    cnd(c, "wait").waiters.push_back(&woken);
    if (fault(F_SPURIOUS_WAKE)) woken = 2;
    s.owner = -1;
    bool to = false;
    wait_until([&woken] { return woken != 0; }, "condvar", false, deadline, &to);
    if (woken != 1) {
        auto it = conds->find((uintptr_t)c);
        if (it != conds->end()) {
            auto &w = it->second.waiters;
            w.erase(std::remove(w.begin(), w.end(), &woken), w.end());
        }
    }
    const uintptr_t key = (uintptr_t)m;
    wait_until([key] { auto it = mutexes->find(key); return it == mutexes->end() || it->second.owner == -1; }, "mutex(after condvar)");
    SMutex &s2 = mtx(m, "cond_wait");
    s2.owner = self(); s2.depth = 1;
    return to && woken != 1 ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_impl(c, m, ~0ull); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    return cond_wait_impl(c, m, (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int sim_pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    point();
    if (fault(F_THREAD_CREATE)) return EAGAIN;
    Thr *t = new_thr(fn, arg, "kos");
    *out = (pthread_t)(t->id + 1000);
    trace("pthread_create t%d", t->id);
    sync_point();
    return 0;
}
static Thr *from_pthread(pthread_t p)
{
    const long id = (long)p - 1000;
    if (id < 0 || id >= nthr) return nullptr;
    return thr[id];
}
int sim_pthread_join(pthread_t p, void **ret)
{
    sync_point();
    Thr *t = from_pthread(p);
    if (!t) violation("sync:bad-join", "pthread_join on an invalid thread handle");
    if (t == cur) return EDEADLK;
    if (t->joined) violation("sync:double-join", "pthread_join called twice on the same thread");
    if (t->detached) violation("sync:bad-join", "pthread_join on a detached thread");
    t->joined = true;
    wait_until([t] { return t->done; }, "pthread_join");
    if (ret) *ret = t->ret;
    return 0;
}
int sim_pthread_detach(pthread_t p) { point(); Thr *t = from_pthread(p); if (!t) return ESRCH; if (t->joined) violation("sync:bad-detach", "pthread_detach on a joined thread"); t->joined = true; return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(self() + 1000); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static unsigned next_key = 1;
static std::unordered_map<unsigned, bool> *keys;
int sim_pthread_key_create(pthread_key_t *k, void (*)(void *))
{
    if (fault(F_TLS_INIT)) return EAGAIN;
    if (!keys) keys = new std::unordered_map<unsigned, bool>();
    *k = next_key++;
    (*keys)[*k] = true;
    return 0;
}
int sim_pthread_key_delete(pthread_key_t k) { if (!keys || !keys->count(k)) violation("sync:bad-tls", "pthread_key_delete of an unknown key"); keys->erase(k); return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { auto it = cur->tls.find(k); return it == cur->tls.end() ? nullptr : it->second; }
int sim_pthread_setspecific(pthread_key_t k, const void *v)
{
    if (!keys || !keys->count(k)) violation("sync:bad-tls", "pthread_setspecific of an unknown key");
    cur->tls[k] = (void *)v;
    return 0;
}
int sim_sched_yield() { yield_point(); return 0; }

// resources still held (leak oracle)
}
namespace sim {
std::string sync_leaks()
{
    std::string s;
    if (mutexes && !mutexes->empty()) {
        int n = 0;
        for (auto &m : *mutexes) if (m.first - AR_BASE < AR_SIZE) n++;
        if (n) s += " mutexes=" + std::to_string(n);
    }
    if (conds && !conds->empty()) s += " condvars=" + std::to_string(conds->size());
    if (keys && !keys->empty()) s += " tls_keys=" + std::to_string(keys->size());
    for (int i = 1; i < nthr; i++)
        if (thr[i]->fn && !strcmp(thr[i]->name, "kos") && !thr[i]->joined) s += " unjoined_thread";
    return s;
}
int live_kos_threads()
{
    int n = 0;
    for (int i = 1; i < nthr; i++) if (!strcmp(thr[i]->name, "kos") && !thr[i]->done) n++;
    return n;
}
int started_kos_threads()
{
    int n = 0;
    for (int i = 1; i < nthr; i++) if (!strcmp(thr[i]->name, "kos")) n++;
    return n;
}
void set_sigact(int sig, sig_fn fn, int flags) { sigacts[sig] = SigAct{fn, flags, fn != nullptr}; }
sig_fn get_sigact(int sig) { return sigacts[sig].set ? sigacts[sig].fn : nullptr; }
void mark_harness_thread(int tid) { thr[tid]->detached = true; }
int sim_threads() { return nthr; }
void advance_clock(int64_t ns) { clock_extra_ns += ns; }
bool thr_done(int tid) { return thr[tid]->done; }
void *thr_sp(int tid) { return thr[tid]->sp; }
char *thr_stack_top(int tid) { return (char *)(STACK_BASE + (uintptr_t)(tid + 1) * STACK_SIZE); }


static std::vector<Scenario> *g_scen;
void register_scenario(const Scenario &s) { if (!g_scen) g_scen = new std::vector<Scenario>(); g_scen->push_back(s); }
const std::vector<Scenario> &scenarios() { return *g_scen; }
}
