// P06: deep recursion through every kind of call, with failing allocations and stack overflows
//
// A random program recurses through functions of random kinds (plain, closures, generators, constructors, native
// re-entry, threads, catching and deferring functions).  Each call returns acc + n, whatever its kind.  The same calls
// are made without faults, with faults, and without faults again; the first and the last round must agree exactly,
// so an exception which leaves anything of a stack frame behind shows.
#include "kosutil.h"
#include <memory>
#include <string>
#include <vector>
using namespace kx;

namespace {

uint64_t ep0;
std::string deep_program(Rng &r, bool threads)
{
    const int NK = r.range(2, 7);
    std::string s = "import base.*\nimport sim\nconst R = array(3000)\nconst P = [0, 0, 0, 0]\nconst T = []\n"
                    "fun val(e) { const v = typeof e == \"string\" ? e : e.value; return typeof v == \"string\" ? v : \"?\" }\n"
                    "fun kind(e) { const v = val(e); return v.find(\"out of memory\") >= 0 ? 1 : v.find(\"stack\") >= 0 || v.find(\"overflow\") >= 0 ? 2 : v.find(\"failed to create\") >= 0 ? 1 : 3 }\n"
                    "fun bad(w) { P[3] += 1; P[2] = w }\n";
    std::vector<int> pat;
    const int M = r.range(1, 9);
    for (int i = 0; i < M; i++) pat.push_back((int)r.below(NK));
    s += "const K = [";
    for (int i = 0; i < M; i++) s += fmt("%s%d", i ? ", " : "", pat[i]);
    s += fmt("]\n");
    const std::string next = fmt("T[K[n %% %d]]", M);
    bool catches = false;
    for (int k = 0; k < NK; k++) {
        std::string b;
        const int what = (int)r.below(threads ? 15 : 14);
        const int regs = r.chance(1, 2) ? r.range(0, 4) : r.range(0, 40);
        std::string pre, post;
        for (int i = 0; i < regs; i++) { pre += fmt("    const a%d = n * 3 + %d\n", i, i); if (i % 4 == 0) post += fmt("    if a%d != n * 3 + %d { bad(%d) }\n", i, i, k); }
        const std::string call = next + "(n - 1, acc + 1)";
        const std::string end = "    if n <= 0 { return acc }\n";
        switch (what) {
            default: b = end + pre + "    const x = " + call + "\n" + post + "    return x\n"; break;
            case 2: b = end + pre + "    return " + call + "\n"; break;
            case 3: b = end + "    var c = n\n    const inc = fun { c += 1; return c }\n" + pre + "    const x = " + call + "\n" + post + "    if inc() != n + 1 || c != n + 1 { bad(" + fmt("%d", k) + ") }\n    return x\n"; break;
            case 4: b = end + "    const f = fun(d) { return " + next + "(n - d, acc + d) }\n" + pre + "    const x = f(1)\n" + post + "    return x\n"; break;
            case 5: b = end + pre + "    const g = G" + fmt("%d", k) + "(n, acc)\n    const x = g()\n" + post + "    return x\n"; break;
            case 6: b = end + pre + "    var x = void\n    for const v in G" + fmt("%d", k) + "(n, acc) { x = v }\n" + post + "    return x\n"; break;
            case 7: b = end + pre + "    const x = " + next + ".apply(void, [n - 1, acc + 1])\n" + post + "    return x\n"; break;
            case 8: b = end + pre + "    var x = acc + n\n    try { x = " + call + " }\n    catch const e { P[1] += 1; R[P[0]] = kind(e); P[0] += 1 }\n" + post + "    return x\n"; catches = true; break;
            case 9: b = end + "    P[2] += 0\n    D[0] += 1\n    defer { D[1] += 1 }\n" + pre + "    const x = " + call + "\n" + post + "    return x\n"; break;
            case 10: b = end + pre + "    const o = C" + fmt("%d", k) + "(n, acc)\n" + post + "    return o.x\n"; break;
            case 11: b = "    const n = args[0]\n    const acc = args[1]\n" + end + pre + "    const x = " + call + "\n" + post + "    return x\n"; break;
            case 12: b = end + "    var x = 0\n    for const i in range(2) { if i { const q = i; const f = fun { return q }; x = " + call + " + f() - 1 } }\n" + pre + post + "    return x\n"; break;
            case 13: b = end + pre + "    const m = [n - 1, acc + 1]\n    const x = " + next + "(m...)\n" + post + "    return x\n"; break;
            case 14: b = end + pre + "    const t = async " + call + "\n    const x = t.wait()\n" + post + "    return x\n"; break;
        }
        if (what == 5 || what == 6) {
            std::string gpre;
            for (int i = 0; i < regs % 7; i++) gpre += fmt("    const b%d = n + %d\n", i, i);
            s += fmt("fun G%d(n, acc) {\n", k) + gpre + (r.chance(1, 2) ? "    const f = fun { return n }\n" : "") + "    yield " + call + "\n}\n";
        }
        if (what == 10) s += fmt("class C%d {\n  constructor(n, acc) {\n    this.x = ", k) + call + "\n  }\n}\n";
        if (what == 11 && b.find("...") == std::string::npos) s += fmt("fun F%d(args...) {\n", k) + b + "}\n";
        else s += fmt("fun F%d(n, acc) {\n", k) + b + "}\n";
    }
    (void)catches;
    for (int k = 0; k < NK; k++) s += fmt("T.push(F%d)\n", k);
    // outcome of a call: 0 right, 1 out of memory, 2 stack overflow, 3 another exception, 4 wrong result
    s += "fun run(k, d) {\n    P[0] = 0; P[1] = 0; D[0] = 0; D[1] = 0\n    var o = 0\n    try { const x = T[k](d, 0); if x != d { o = 4 } }\n    catch const e { o = kind(e); if o == 3 { sim.note(val(e)) } }\n"
         "    var b = 0\n    for const i in range(P[0]) { if R[i] == 1 { b += 1000 } else if R[i] == 2 { b += 1 } else { b += 1000000 } }\n"
         "    return o * 1000000000 + b + 10000000 * (D[0] - D[1] != 0 ? 1 : 0)\n}\n";
    std::string calls;
    const int nc = r.range(1, threads ? 3 : 4);
    for (int c = 0; c < nc; c++) calls += fmt("%s[%d, %d]", c ? ", " : "", (int)r.below(NK), threads ? r.range(1, 14) : r.chance(1, 3) ? r.range(60, 400) : r.range(1, 90));
    s += "const calls = [" + calls + "]\nvar i = 0\n";
    for (int round = 0; round < 3; round++) {
        if (round == 1) s += "sim.fault(1)\n";
        s += "i = 0\nfor const c in calls { const v = run(c[0], c[1]); sim.rec(" + fmt("%d", 1 + round) + ", i, v); i += 1 }\n";
        if (round == 1) s += "sim.fault(0)\n";
    }
    s += "sim.rec(9, P[3], P[2])\n";
    size_t at = s.find("const T = []\n");
    s.insert(at, "const D = [0, 0]\n");
    return s;
}

void run_deep(int mode)         // 0 no faults, 1 failing allocations, 2 also with threads
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<std::string>;
    script_flag = false;
    const std::string src = deep_program(r, mode == 2);
    if (tracing) trace("program:\n%s", src.c_str());
    knobs_concurrency(mode == 2 && r.chance(1, 2));
    knobs.max_steps = 120000000;
    if (mode) {
        switch (r.range(0, 3)) {
            case 0: knobs.at[F_MALLOC] = 1 + r.below(r.chance(1, 2) ? 4 : 20); knobs.at_len[F_MALLOC] = 1; break;
            case 1: knobs.rate[F_MALLOC] = r.pick(std::vector<int>{1000, 8000, 30000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 3); break;
            default: knobs.at[F_MALLOC] = 1 + r.below(r.chance(1, 2) ? 6 : 30); knobs.at_len[F_MALLOC] = (uint64_t)r.range(2, 12); break;
        }
    }
    if (mode == 2 && r.chance(1, 3)) { knobs.rate[F_THREAD_CREATE] = 20000; knobs.burst_limit[F_THREAD_CREATE] = 1; }
    begin_run();
    end_faults();               // the program turns them on
    const unsigned n = mode ? (unsigned)r.range(0, 8) : (unsigned)r.range(0, 6);
    if (n) start_gc_injector(n, 1u << r.range(6, 12));
    std::string e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool gave_up = fail && (exc_is_oom(e) || e.find("failed to create") != std::string::npos) && (res->faults[F_MALLOC] || res->faults[F_THREAD_CREATE]);        // between the calls
    if (fail && !gave_up) violation("oom:wrong-exception", "the program ended with '%s'", e.c_str());
    std::vector<int64_t> out[4];
    bool complete = false;
    for (auto &x : *recs) {
        if (x.code >= 1 && x.code <= 3) { out[x.code].push_back(x.b); res->ops++; }
        if (x.code == 9) { complete = true; if (x.a) violation("oom:wrong-result", "a call in function %ld changed local variables of its caller", (long)x.b); }
    }
    if (!complete && !gave_up) violation("oom:wrong-result", "the program did not report");
    for (int round = 1; round <= 3; round++) for (size_t i = 0; i < out[round].size(); i++) {
        const int64_t v = out[round][i], o = v / 1000000000, b = v % 1000000000;
        if (o == 4) violation("oom:wrong-result", "call %zu returned a wrong result (round %d)", i, round);
        if (o == 3 || b / 1000000 % 10) violation("oom:wrong-exception", "call %zu ended with or caught an exception nobody raised (round %d) %s", i, round, notes->empty() ? "" : notes->back().c_str());
        if (round != 2 && b / 10000000) violation("oom:wrong-result", "deferred code was skipped in call %zu (round %d)", i, round);
        if (round != 2 && (o == 1 || b % 1000000 / 1000)) violation("oom:not-usable", "call %zu ran out of memory although memory is available (round %d)", i, round);
    }
    if (!gave_up && out[1].size() != out[3].size()) violation("oom:wrong-result", "the number of calls differs");
    for (size_t i = 0; i < out[3].size(); i++)
        if (out[1][i] != out[3][i])
            violation("oom:not-usable", "call %zu gave %ld before memory ran out, and %ld after memory was available again", i, (long)out[1][i], (long)out[3][i]);
    KOS_clear_exception(mctx);
    KOS_instance_destroy(inst);
    sim_dealloc(inst);
    inst = nullptr;
    check_all_released(ep0, "after the instance was destroyed");
}
void run_deep_plain() { run_deep(0); }
void run_deep_oom() { run_deep(1); }
void run_deep_thr() { run_deep(2); }
void setup() { ep0 = mem_epoch(); setup_script(); }
SCENARIO("deep", setup, run_deep_plain);
SCENARIO("deep_oom", setup, run_deep_oom);
SCENARIO("deep_thr", setup, run_deep_thr);
} // namespace
