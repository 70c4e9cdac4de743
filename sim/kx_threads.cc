// P08 (threads), P09 (mutex, semaphore, queue, stack): generated Kos programs on the real VM.
#include "kosutil.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace kx;

namespace {
// ---------------------------------------------------------------- P08
const char *const thr_prelude =
    "import sim\nimport threads\n"
    "const T = {}\n"
    "fun chk(v, k) {\n"
    "    if typeof v == \"array\" && v.size == 2 && v[0] == k && v[1] == \"r\\(k)\" { return 1 }\n"
    "    if v == k * 1000 + 1 { return 2 }\n"
    "    if v == void { return 3 }\n"
    "    return 0\n}\n"
    "fun code(e, k) {\n"
    "    const v = e.value\n"
    "    if typeof v == \"array\" && v.size == 2 && v[0] == k && v[1] == \"e\\(k)\" { return 1 }\n"
    "    if v == \"thread already joined\" { return 2 }\n"
    "    if v == \"thread cannot join itself\" { return 3 }\n"
    "    if v == \"failed to create thread\" { return 4 }\n"
    "    if v == \"too many threads\" { return 5 }\n"
    "    if v == \"out of memory\" { return 6 }\n"
    "    if v == \"cannot create threads on exit\" { return 8 }\n"
    "    if typeof v == \"string\" && k == -1 { return 7 }\n"
    "    if v == \"no such property: \\\"nothing\\\"\" { return 9 }\n"
    "    print(v)\n"
    "    return 0\n}\n";

struct NodeT { int parent; int end; bool keep; int args; };    // end: 0 array, 1 int, 2 void, 3 throw, 4 runtime error

void pre_op(std::string &s, Rng &r, const char *ind)
{
    switch (r.range(0, 5)) {
        case 0: s += fmt("%ssim.nap(%d)\n", ind, r.range(1, 20000)); break;
        case 1: s += fmt("%sdo { const g = []; for const i in range(%d) { g.push([i, \"s\\(i)\"]) } }\n", ind, r.range(1, 40)); break;
        case 2: s += fmt("%ssim.poke()\n", ind); break;
        case 3: s += fmt("%sthreads.sleep(%.6f)\n", ind, r.range(1, 30) * 1e-6); break;
        case 4: s += fmt("%sdo { const b = buffer(%d) }\n", ind, r.range(1, 2000)); break;
        case 5: break;
    }
}
void wait_op(std::string &s, Rng &, int k, const char *ind)
{
    s += fmt("%sif \"t%d\" in T { try { sim.rec(103, %d, chk(T.t%d.wait(), %d)) } catch const e { sim.rec(104, %d, code(e, %d)) } }\n", ind, k, k, k, k, k, k);
}
void spawn_op(std::string &s, Rng &, int k, const NodeT &n, const char *ind)
{
    if (n.keep) s += fmt("%stry { const t = async f%d(%d, [%d]); sim.rec(101, %d, 0); T.t%d = t } catch const e { sim.rec(102, %d, code(e, -1)) }\n", ind, k, k * 7 + 3, k, k, k, k);
    else s += fmt("%stry { async f%d(%d, [%d]); sim.rec(101, %d, 0) } catch const e { sim.rec(102, %d, code(e, -1)) }\n", ind, k, k * 7 + 3, k, k, k);
}

void run_thr(bool oom, bool wide)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const uint64_t ep = mem_epoch();
    const int n = wide ? r.range(28, 44) : r.range(1, 9);
    std::vector<NodeT> nodes(n + 1);
    for (int i = 1; i <= n; i++) nodes[i] = NodeT{wide ? 0 : r.range(0, i - 1), r.range(0, 4), r.chance(3, 4), 0};
    // bodies, highest number first (a body only mentions threads with higher numbers)
    std::string src = thr_prelude;
    for (int i = 1; i <= n; i++) src += fmt("var f%d = void\n", i);
    std::string body[64];
    for (int i = 0; i <= n; i++) {
        std::string &s = body[i];
        const char *ind = i ? "    " : "";
        std::vector<int> kids;
        for (int k = i + 1; k <= n; k++) if (nodes[k].parent == i) kids.push_back(k);
        std::vector<int> waits;
        for (int k = i + 1; k <= n; k++) if (nodes[k].keep && (nodes[k].parent == i ? r.chance(2, 3) : r.chance(1, 3))) { waits.push_back(k); if (r.chance(1, 5)) waits.push_back(k); }
        if (i && r.chance(1, 6)) waits.push_back(i);          // itself
        size_t ki = 0, wi = 0;
        for (size_t j = waits.size(); j > 1; j--) std::swap(waits[j - 1], waits[r.below(j)]);
        while (ki < kids.size() || wi < waits.size()) {
            const int what = r.range(0, 2);
            std::string t;
            if (what == 0) pre_op(t, r, ind);
            else if (ki < kids.size() && (what == 1 || wi >= waits.size() || r.chance(2, 3))) { spawn_op(t, r, kids[ki], nodes[kids[ki]], ind); ki++; }
            else if (wi < waits.size()) wait_op(t, r, waits[wi++], ind);
            if (op_enabled()) s += t;
        }
        if (r.chance(1, 2)) pre_op(s, r, ind);
    }
    for (int i = n; i >= 1; i--) {
        const char *const ends[] = {"return [%d, \"r\\(%d)\"]", "return %d * 1000 + 1", "return", "throw [%d, \"e\\(%d)\"]", "const x = void; return x.nothing"};
        char e[100];
        snprintf(e, sizeof e, ends[nodes[i].end], i, i);
        src += fmt("f%d = fun(a, b) {\n    sim.rec(100, %d, a == %d && b[0] == %d ? 1 : 0)\n", i, i, i * 7 + 3, i) + body[i] + fmt("    sim.rec(105, %d, 0)\n    %s\n}\n", i, e);
    }
    src += body[0];
    if (tracing) trace("program:\n%s", src.c_str());
    knobs_concurrency(false);
    knobs.max_steps = 120000000;
    if (r.chance(1, 2)) { knobs.rate[F_THREAD_CREATE] = 8000; knobs.burst_limit[F_THREAD_CREATE] = 2; }
    if (oom) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{200, 1000, 6000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 4); }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 5), gap = r.range(100, 6000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::string err = run_main(src);
    stop_injector();
    if (!oom) end_faults();
    if (!err.empty() && !(oom && exc_is_oom(err))) violation("thread:main-failed", "the main program ended with: %s", err.c_str());
    res->gcs += gc_count();
    const uint64_t t_destroy = tick();
    (void)t_destroy;
    KOS_instance_destroy(inst);
    end_faults();
    if (live_kos_threads()) violation("thread:outlives-instance", "%d threads still run after the instance was destroyed", live_kos_threads());
    flush_std();
    if (console_out().size()) violation("thread:unexpected-exception", "unexpected exception value: %s", console_out().c_str());
    // history checks
    const bool m = res->faults[F_MALLOC] > 0, tc = res->faults[F_THREAD_CREATE] > 0;
    struct Th { int started = 0, ended = 0, spawned = 0, failed = 0, got = 0, already = 0, argsok = 1; uint64_t t_end = 0, t_got = 0; };
    std::map<int, Th> th;
    std::map<int, int> body_of;   // simulated thread -> node
    for (auto &x : *recs) if (x.code == 100) body_of[x.tid] = (int)x.a;
    int outstanding = 0;
    std::vector<int> out_at;             // outstanding before each record
    std::map<int, size_t> last_of;       // simulated thread -> index of its previous record
    for (size_t xi = 0; xi < recs->size(); xi++) {
        const Rec &x = (*recs)[xi];
        out_at.push_back(outstanding);
        // the most threads outstanding at any time since this thread's previous record
        int peak = outstanding;
        for (size_t j = last_of.count(x.tid) ? last_of[x.tid] + 1 : 0; j <= xi; j++) peak = std::max(peak, out_at[j]);
        last_of[x.tid] = xi;
        Th &t = th[(int)x.a];
        const NodeT &nd = nodes[x.a];
        switch (x.code) {
            case 100: t.started++; if (!x.b) violation("thread:wrong-arguments", "thread %ld got wrong arguments", (long)x.a); break;
            case 105: t.ended++; t.t_end = x.t; break;
            case 101: t.spawned++; outstanding++; break;
            case 102: t.failed++;
                if (x.b == 4 && tc) break;
                if (x.b == 6 && m) break;
                if (x.b == 5 && peak + (m ? 100 : 0) >= 32) break;
                if (x.b == 8) break;       // a thread which still runs when the main program ended
                violation("thread:spawn-failed", "starting thread %ld failed (%ld) with %d threads outstanding", (long)x.a, (long)x.b, peak);
            case 103: {
                t.got++; t.t_got = x.t; outstanding--;
                const int want = nd.end == 0 ? 1 : nd.end == 1 ? 2 : nd.end == 2 ? 3 : -1;
                if (x.b != want) violation("thread:wrong-result", "waiting for thread %ld gave the wrong value (%ld instead of %d)", (long)x.a, (long)x.b, want);
                break; }
            case 104:
                if (x.b == 2) { t.already++; break; }
                if (x.b == 3) { if (body_of.count(x.tid) && body_of[x.tid] == x.a) break; violation("thread:wrong-result", "'cannot join itself' for another thread"); }
                if (x.b == 6 && m) { t.got++; outstanding--; break; }
                t.got++; t.t_got = x.t; outstanding--;
                if (nd.end == 3 && x.b == 1) break;
                if (nd.end == 4 && x.b == 9) break;
                violation("thread:wrong-result", "waiting for thread %ld raised the wrong exception (%ld)", (long)x.a, (long)x.b);
        }
    }
    for (auto &p : th) {
        Th &t = p.second;
        if (!p.first) continue;
        if (t.started > 1) violation("thread:ran-twice", "thread %d ran %d times", p.first, t.started);
        if (t.spawned && !t.started && !m) violation("thread:not-run", "thread %d was started but never ran", p.first);
        if (t.failed && t.started && !m) violation("thread:ran-after-failure", "starting thread %d failed, but it ran", p.first);
        if (t.started && !t.ended && !m) violation("thread:not-finished", "thread %d did not finish before the instance was destroyed", p.first);
        if (t.got > 1 && !m) violation("thread:joined-twice", "two waits for thread %d both got its result", p.first);
        if (t.already && !t.got && !m) violation("thread:result-lost", "a wait for thread %d was told it is already joined, but nobody got its result", p.first);
        if (t.t_got && t.t_end && t.t_got < t.t_end) violation("thread:early-result", "waiting for thread %d returned before it ended", p.first);
    }
}
void setup_thr() { setup_script(); }
void run_thr_tree() { run_thr(false, false); }
void run_thr_wide() { run_thr(false, true); }
void run_thr_oom() { run_thr(true, wrng().chance(1, 6)); }
SCENARIO("thr_tree", setup_thr, run_thr_tree);
SCENARIO("thr_wide", setup_thr, run_thr_wide);
SCENARIO("thr_oom", setup_thr, run_thr_oom);
} // namespace
