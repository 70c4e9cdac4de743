// P10: SIGINT at any instant, in any thread, while programs run under the hooked VM.
#include "kosutil.h"
#include <csignal>
#include <cstring>
using namespace kx;

namespace {
const char *const prelude = R"KOS(
import base.*
import base
import threads
import iter
import re
import sim
fun is_int(e) {
    const v = e.value
    return typeof v == "object" && v.?description == "user pressed Ctrl-C"
}
fun gen(n) { for const i in range(n) { yield i * 3 } }
fun fib(n) { return n < 2 ? n : fib(n - 1) + fib(n - 2) }
class counter {
    constructor(n) { this.n = n; this.list = [] }
    fun add(x) { this.list.push(x); this.n += x; return this }
}
const m = threads.mutex()
var shared = [0, 0]
const rx = re.re("(a|b)+c[0-9]{2}")
const works = [
    fun { var s = 0; for const i in range(60) { s += i ^ 5 }; return s == 1786 },
    fun { return fib(9) == 34 },
    fun { var s = 0; for const x in gen(25) { s += x }; return s == 900 },
    fun { var s = ""; for const i in range(15) { s += "<\(i)>" }; return s.size == 50 },
    fun { const a = []; for const i in range(30) { a.push((i * 17) % 31) }; a.sort((x) => -x); return a.size == 30 && a[0] == 30 && a[-1] == 0 },
    fun { const a = [range(20)...]; const b = [map((x) => x * x, a)...]; return b.size == 20 && b[19] == 361 },
    fun { const c = counter(1); for const i in range(12) { c.add(i) }; return c.n == 67 && c.list.size == 12 },
    fun { var out = 0; try { throw [1, 2] } catch const e { if is_int(e) { throw e }; out = e.value[1] }; return out == 2 },
    fun { const o = {}; for const i in range(20) { o["k\(i)"] = [i, "v"] }; var s = 0; for const k, v in o { s += v[0] }; return s == 190 },
    fun { const g = gen(3); const r = [g(), g(), g()]; return r[0] == 0 && r[2] == 6 },
    fun { const b = buffer(3); b[0] = 104; b[2] = 8; b.resize(700); return b.size == 700 && b[0] == 104 && b[2] == 8 && b[699] == 0 },
    fun { with m { const x = shared[0]; shared[0] = x + 1; shared[1] = x + 1 }; return true },
    fun { threads.sleep(0.000_05); return true },
    fun { const r = rx.find("xxabbac42yy"); return r != void },
    fun { if ! sim.room() { return true }; const t = async fib(7); return t.wait() == 13 },
    fun { if ! sim.room() { return true }; const t = async (fun { var s = 0; for const i in range(40) { s += i }; return s })(); return t.wait() == 780 },
    fun { const r = fib.apply(void, [8]); return r == 21 },
]
fun guarded(id, k) {
    sim.rec(4, id, k)
    defer { sim.rec(5, id) }
    sim.rec(6, id)
    return works[k]()
}
fun run_loop(id, ks) {
    var i = 0
    while ! sim.flag() {
        try {
                const k = ks[i % ks.size]
            i += 1
            if ! guarded(id, k) { sim.rec(3, k) }
            sim.rec(1, id)
        } catch const e {
            if is_int(e) { sim.rec(2, id) } else { sim.rec(3, 1000); sim.note("\(id) \(typeof e) \(typeof e.value) \(e.value)") }
        }
    }
}
)KOS";

int old_hits;
void old_handler(int) { old_hits++; }

bool prog_done;
unsigned sig_n, sig_gap;
bool paced;
uint64_t max_delay;
uint64_t observed() { uint64_t n = 0; for (auto &x : *recs) if (x.code == 2) n++; return n; }
std::vector<uint64_t> *escapes;
uint64_t discards; // unhooking drops an interrupt which nobody has noticed yet
int sent;
uint64_t delivered() { return observed() + escapes->size() + discards + (uint64_t)old_hits; }
uint64_t last_sent;

void *sig_main(void *)
{
    Rng r(mix(spec.seed, 99));
    for (unsigned i = 0; i < sig_n && !prog_done; i++) {
        if (!op_enabled() && i + 1 < sig_n) continue;
        const uint64_t until = step() + 1 + r.below(2 * sig_gap);
        const uint64_t dl = now_ns() + 25 * (1 + r.below(2 * sig_gap));
        wait_until([until] { return prog_done || step() >= until; }, "signal source", false, dl);
        if (prog_done) break;
        const uint64_t seen = delivered(), s0 = step();
        post_signal(SIGINT);
        sent++;
        last_sent = s0;
        event_hash(0x51600 + i);
        if (paced || i + 1 == sig_n || r.chance(1, 2)) {
            wait_until([seen] { return prog_done || delivered() > seen; }, "interrupt to be delivered");
            if (step() - s0 > max_delay) max_delay = step() - s0;
        }
    }
    script_flag = true;
    return nullptr;
}

void run_ctrlc(bool oom)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<std::string>;
    escapes = new std::vector<uint64_t>;
    prog_done = false; script_flag = false; sent = 0; old_hits = 0; discards = 0; max_delay = 0;
    const uint64_t ep = mem_epoch();
    set_sigact(SIGINT, old_handler, 0);
    const int nw = r.chance(1, 2) ? 0 : r.range(1, 3);
    auto kinds = [&] { std::string s; for (int k = r.range(1, 6); k > 0; k--) s += fmt("%s%d", s.empty() ? "" : ", ", (int)r.below(17)); return "[" + s + "]"; };
    std::string src = prelude, start, wait;
    for (int w = 1; w <= nw; w++) { start += fmt("    ts.push(async run_loop(%d, %s))\n", w, kinds().c_str()); }
    src += "fun main {\n    const ts = []\n" + start + fmt("    run_loop(0, %s)\n", kinds().c_str()) + "    for const t in ts { t.wait() }\n}\n";
    src += "main()\n";
    knobs_concurrency(r.chance(1, 3));
    knobs.max_steps = 80000000;
    if (oom) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{20, 100, 400}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 4); }
    const bool fail_hook = r.chance(1, 6);
    if (fail_hook) { knobs.rate[F_SYSCALL_FAIL] = 30000; }
    sig_n = (unsigned)r.range(1, 6); sig_gap = 1u << r.range(6, 17); paced = r.chance(1, 2);
    const unsigned n = r.range(0, 6), gap = 1u << r.range(8, 13);
    begin_run();
    auto hook = [&] {
        for (int i = 0; i < 8; i++) {
            if (!KOS_hook_ctrl_c(mctx)) { if (KOS_is_exception_pending(mctx)) violation("ctrlc:hook", "hooking succeeded with an exception pending"); return; }
            const std::string e = exc_text(mctx);
            if (!res->faults[F_SYSCALL_FAIL] && !(oom && exc_is_oom(e))) violation("ctrlc:hook", "cannot hook Ctrl-C: %s", e.c_str());
            if (e.find("already hooked") != std::string::npos) violation("ctrlc:hook", "Ctrl-C cannot be hooked again after hooking failed: %s", e.c_str());
            if (i == 6) knobs.rate[F_SYSCALL_FAIL] = 0;
        }
        violation("ctrlc:hook", "cannot hook Ctrl-C");
    };
    hook();
    if (fail_hook) { knobs.rate[F_SYSCALL_FAIL] = 0; }
    if (n) start_gc_injector(n, gap);
    const int st = spawn_thread(sig_main, nullptr, "signals");
    mark_harness_thread(st);
    int rounds = 0;
    std::string stray;
    for (;;) {
        std::string e;
        const std::string nm = fmt("m%d", rounds++);
        if (!run_script(mctx, nm.c_str(), src, &e, false)) { if (script_flag) break; violation("ctrlc:ended", "the program ended before the signals did"); }
        if (e.find("user pressed Ctrl-C") != std::string::npos) {
            // escaped from the handler itself: what the interactive loop does
            escapes->push_back(step());
            if (rounds > 40 || sim_threads() > 230) { script_flag = true; prog_done = true; }
            event_hash(0xE5C);
            const bool more = !script_flag;
            KOS_unhook_ctrl_c(mctx);
            discards++;
            if (!more) { hook(); break; }
            hook();
            continue;
        }
        if (oom && (exc_is_oom(e) || e.find("failed to create") != std::string::npos)) { if (script_flag) break; continue; }
        violation("ctrlc:wrong-exception", "the interrupted program ended with '%s'", e.c_str());
    }
    prog_done = true;
    KOS_suspend_context(mctx);
    join_thread(st);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    stop_injector();
    end_faults();
    res->gcs += gc_count();
    // the program's own records
    int begun[8] = {0}, entered[8] = {0}, left[8] = {0};
    for (auto &x : *recs) {
        if (x.code == 3 && !oom) violation("ctrlc:corruption", "work item %ld gave a wrong result or an unexpected exception in an interrupted program: %s", (long)x.a, notes->empty() ? "" : notes->front().c_str());
        if (x.code == 4) begun[x.a]++;
        if (x.code == 5) left[x.a]++;
        if (x.code == 6) entered[x.a]++;
    }
    int missing = 0;
    for (int i = 0; i < 8; i++) {
        if (left[i] > begun[i]) violation("ctrlc:defer", "deferred code of thread %d ran %d times for %d entries", i, left[i], begun[i]);
        if (entered[i] > left[i]) missing += entered[i] - left[i];
    }
    if (!oom && missing > (sent > 1 ? sent - 1 : 0)) violation("ctrlc:defer", "deferred code was skipped %d times by %d interrupts", missing, sent);
    const uint64_t seen = observed() + escapes->size();
    res->custom[0] += seen;
    if (max_delay > res->custom[1]) res->custom[1] = max_delay;
    if (!oom && seen > (uint64_t)sent * (1 + nw + 4)) violation("ctrlc:duplicate", "%d interrupts were delivered %lu times to %d threads", sent, (unsigned long)seen, 1 + nw);
    // everything works afterwards, and the previous handler is back
    std::string e;
    if (run_script(mctx, "after", std::string(prelude) + "for const i in range(works.size) { if ! works[i]() { throw \"work \\(i) is wrong\" } }\n", &e, false) && e.find("user pressed Ctrl-C") == std::string::npos)
        violation("ctrlc:corruption", "after the interrupts: %s", e.c_str());
    const bool in_destroy = r.chance(1, 2);
    if (in_destroy) {
        // still hooked while the instance goes away, as in the interpreter
        sig_n = 1; sig_gap = 1u << r.range(3, 9); prog_done = true;
        const int extra = spawn_thread([](void *) -> void * {
            Rng q(mix(spec.seed, 101));
            const uint64_t until = step() + 1 + q.below(2 * sig_gap);
            wait_until([until] { return step() >= until; }, "signal source", false, now_ns() + 25 * (1 + q.below(4 * sig_gap)));
            post_signal(SIGINT);
            return nullptr;
        }, nullptr, "signals");
        mark_harness_thread(extra);
        KOS_instance_destroy(inst);
        join_thread(extra);
    } else {
        KOS_unhook_ctrl_c(mctx);
        if (KOS_is_exception_pending(mctx)) violation("ctrlc:hook", "exception pending after unhooking");
        if ((void *)get_sigact(SIGINT) != (void *)old_handler) violation("ctrlc:hook", "the previous SIGINT handler is not restored");
        KOS_instance_destroy(inst);
    }
    flush_std();
    check_all_released(ep, "after the instance was destroyed");
}
void run_ctrlc_plain() { run_ctrlc(false); }
void run_ctrlc_oom() { run_ctrlc(true); }
void setup() { setup_script(); }
SCENARIO("ctrlc", setup, run_ctrlc_plain);
SCENARIO("ctrlc_oom", setup, run_ctrlc_oom);
} // namespace
