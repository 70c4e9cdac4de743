// P11: one generator (or iterator) used by several threads at once.
#include "kosutil.h"
#include <cstring>
using namespace kx;

namespace {
const char *const prelude = R"KOS(
import base.*
import base
import threads
import iter
import sim

fun val(e) { if typeof e == "string" { return e } ; return e.value }     # out of memory may even leave no memory to wrap the exception
fun plain(n) { for const i in range(n) { yield i } }
fun work(n) { for const i in range(n) { const a = [i, "\(i)", { v: i }]; if i % 3 == 1 { sim.nap(2000) }; yield a[2].v } }
fun recv(n) { for const i in range(n) { const x = yield i; sim.rec(21, i, x) } }
fun deferred(n) { var i = 0; while i < n { const k = i; i += 1; defer { sim.rec(20, k) } ; yield k } }
fun catching(n) { for const i in range(n) { var done = false; try { if i % 4 == 2 { throw i }; yield i; done = true } catch const e { if val(e) != i { throw e }; yield i } } }
fun nested(n) { const a = n >> 1; for const x in plain(a) { yield x }; for const x in plain(n - a) { yield a + x } }
fun throwing(n) { for const i in range(n) { if i == n - 1 { throw "boom" }; yield i } }
fun recursive(n) { if n > 0 { for const x in recursive(n - 1) { yield x }; yield n - 1 } }
fun selfish(n, box) { for const i in range(n) { try { box[0](); sim.rec(22, i) } catch const e { if val(e) != "generator is running" { throw e } } ; yield i } }
fun varargs(n, pad...) { for const i in range(n) { yield i + pad.size - 3 } }

fun make(kind, n) {
    var g = void
    if kind == 0 { g = plain(n) }
    else if kind == 1 { g = work(n) }
    else if kind == 2 { g = recv(n) }
    else if kind == 3 { g = deferred(n) }
    else if kind == 4 { g = catching(n) }
    else if kind == 5 { g = nested(n) }
    else if kind == 6 { g = throwing(n + 1) }
    else if kind == 7 { g = recursive(n) }
    else if kind == 8 { const box = [void]; g = selfish(n, box); box[0] = g }
    else if kind == 9 { g = varargs(n, 1, [2], "3") }
    else if kind == 10 { g = range(n) }
    else if kind == 11 { g = [range(n)...].iterator() }
    else if kind == 12 { const b = buffer(n); for const i in range(n) { b[i] = i }; g = b.iterator() }
    else if kind == 13 { g = map((x) => x - 1, range(1, n + 1)) }
    else if kind == 14 { g = filter((x) => x >= 0, range(-3, n)) }
    else if kind == 15 { g = iter.iota(0) }
    else if kind == 16 { g = map((p) => p[0], enumerate([range(n)...])) }
    else if kind == 17 { g = map((p) => p[1], zip(range(n, 0, -1), range(n))) }
    else if kind == 18 { g = iter.reverse([range(n - 1, -1, -1)...]) }
    else if kind == 19 { g = iter.generator(plain(n))() }
    else if kind == 20 { const o = {}; for const i in range(n) { o["\(i)"] = i }; g = map((p) => integer(p[0]), shallow(o)) }
    else if kind == 21 { const s = string([map((i) => i + 0x20, range(n))...]); g = map((c) => c.code() - 0x20, s.iterator()) }
    return g
}
fun fail(id, v) { sim.note("\(id): unexpected \(v)") }
fun classify(id, e, a) {
    const v = val(e)
    if typeof v == "string" && (v == "generator is running" || v == "function is not a generator") { sim.rec(2, id, 0, a); return 2 }
    if v instanceof generator_end { sim.rec(3, id, 0, a); return 3 }
    if typeof v == "string" && v == "boom" { sim.rec(4, id, 0, a); return 4 }
    if typeof v == "string" && (v.find("out of memory") >= 0 || v.find("stack overflow") >= 0 || v.find("failed to") >= 0) { sim.note("ok \(v)"); sim.rec(6, id, 0, a); return 6 }
    fail(id, v); return 5
}
fun nest(n, g, x) { if n == 0 { const r = g(x); return r } ; const r = nest(n - 1, g, x); return r }
fun identity(x) { return x }
fun max_depth() { var d = 60; try { loop { nest(d, identity, 1); d += 1 } } catch const e { } return d }
// how: 0 call, 1 apply, 2 for-in, 3 async, 4 near the stack limit, 5 args as array
fun worker(id, how, g, calls, unique, nap) {
    var k = 0
    var busy = 0
    var deepest = 0
    if how == 4 { deepest = max_depth() }
    while k < calls && busy < 400 {
        const a = sim.tick()
        if how == 2 {
            var t = a
            try {
                for const v in g { sim.rec(1, id, v, t); k += 1; if k >= calls { break }; t = sim.tick() }
                if k < calls { sim.rec(3, id, 0, t); break }
            } catch const e { const c = classify(id, e, t); if c == 2 { busy += 1 } else { if c >= 3 { break } } }
            continue
        }
        try {
            const x = unique + k
            var v = void
            if how == 0 { v = g(x) }
            else if how == 1 { v = g.apply(void, [x]) }
            else if how == 3 { if ! sim.room() { break } ; v = (async g(x)).wait() }
            else if how == 4 { v = nest(deepest - 1 - k % 12, g, x) }
            else { const args = [x, 1, 2]; v = g(args...) }
            sim.rec(1, id, v, a)
            sim.rec(7, id, v, x)
            k += 1
        } catch const e {
            const c = classify(id, e, a)
            if c == 2 { busy += 1; if nap { sim.nap(500) } } else { if c == 6 { k += 1 } else { break } }
        }
    }
}
)KOS";

void run_gen(bool oom)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    notes = new std::vector<std::string>;
    const int kind = (int)r.below(22), n = kind == 7 ? r.range(3, 9) : r.range(1, 24), nw = r.range(1, 4);
    const bool main_too = r.chance(1, 2);
    std::string src = prelude;
    src += fmt("const g = make(%d, %d)\nconst ts = []\n", kind, n);
    int calls_total = 0;
    std::vector<int> hows;
    auto how = [&] { int h = (int)r.below(6); if (h == 4 && r.chance(1, 2)) h = 0; hows.push_back(h); return h; };
    auto calls = [&] { int c = r.chance(1, 3) ? 100 : r.range(1, 10); if (kind == 15 && c > 10) c = 10; calls_total += c; return c; };
    for (int w = 1; w <= nw; w++) { int h = how(), c = calls(); src += fmt("ts.push(async worker(%d, %d, g, %d, %d, %s))\n", w, h, c, w * 1000, r.chance(1, 2) ? "true" : "false"); }
    if (main_too) { int h = how(), c = calls(); src += fmt("worker(0, %d, g, %d, 9000, false)\n", h, c); }
    src += "for const t in ts { t.wait() }\nsim.fault(0)\n";
    if (kind != 15) src += "worker(7, 0, g, 200, 7000, false)\n";
    else src += "worker(7, 0, g, 3, 7000, false)\n";
    src += "worker(8, 0, g, 1, 8000, false)\n";
    knobs_concurrency(r.chance(1, 3));
    knobs.max_steps = 120000000;
    if (oom) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{20, 100, 1000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 4); knobs.rate[F_THREAD_CREATE] = r.chance(1, 4) ? 4000 : 0; }
    begin_run();
    const unsigned ng = r.range(0, 5), gap = 1u << r.range(8, 14);
    if (ng) start_gc_injector(ng, gap);
    std::string e;
    const bool fail = run_script(mctx, "m", src, &e, false);
    stop_injector();
    end_faults();
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    if (fail && !(oom && (exc_is_oom(e) || e.find("failed to") != std::string::npos))) violation("gen:exception", "kind %d: the program ended with %s", kind, e.c_str());
    std::string ok6; while (!notes->empty() && notes->front().compare(0, 3, "ok ") == 0) { ok6 = notes->front(); notes->erase(notes->begin()); }
    if (!notes->empty() && !oom) violation("gen:exception", "kind %d: %s", kind, notes->front().c_str());
    // history
    struct Call { int tid; int64_t a, b, v; int type; };
    std::vector<Call> calls_v;
    std::map<int64_t, int> got;
    bool hit6 = false;
    for (auto &x : *recs) {
        if (x.code >= 1 && x.code <= 6) {
            calls_v.push_back(Call{x.tid, x.c, (int64_t)x.t, x.b, (int)x.code});
            if (x.code == 6) hit6 = true;
            if (x.code == 1) {
                if (x.b < 0 || (kind != 15 && x.b >= n)) violation("gen:value", "kind %d: value %ld outside of the sequence of %d", kind, (long)x.b, n);
                if (got[x.b]++) violation("gen:duplicate", "kind %d: value %ld was delivered twice", kind, (long)x.b);
            }
        }
        if (x.code == 22) violation("gen:reentered", "the generator could be called from inside itself");
    }
    const bool faulty = oom && (res->faults[F_MALLOC] || res->faults[F_THREAD_CREATE]);
    if (!faulty && !fail) {
        // complete: nothing skipped
        int64_t next = 0;
        for (auto &p : got) { if (p.first != next && !(kind == 20 && hit6)) violation("gen:skipped", "kind %d: value %ld was never delivered (n=%d, next one is %ld)", kind, (long)next, n, (long)p.first); next++; }
        if (kind != 15 && next != n && !hit6) violation("gen:skipped", "kind %d: values from %ld of %d were never delivered", kind, (long)next, n);
        if (kind == 6 && !hit6) { int booms = 0; for (auto &c : calls_v) booms += c.type == 4; if (booms != 1) violation("gen:exception", "the generator's exception was raised %d times", booms); }
        if (kind == 2) {
            // what was passed in is what the generator saw, in the right order
            std::map<int64_t, int64_t> val_of, recv;
            for (auto &x : *recs) if (x.code == 21) { if (recv.count(x.a)) violation("gen:duplicate", "the generator resumed twice at %ld", (long)x.a); recv[x.a] = x.b; }
            for (auto &x : *recs) if (x.code == 7 && x.b > 0) {
                auto it = recv.find(x.b - 1);
                if (it == recv.end()) violation("gen:skipped", "the argument of the call returning %ld never arrived", (long)x.b);
                if (it->second != x.c) violation("gen:argument", "the generator received %ld instead of %ld", (long)it->second, (long)x.c);
            }
        }
    }
    for (auto &c : calls_v) {
        if (c.type == 1 && kind != 20) // (objects have no order)
            for (auto &d : calls_v)
                if (d.type == 1 && c.b < d.a && c.v > d.v) violation("gen:order", "kind %d: %ld was delivered before %ld was asked for", kind, (long)c.v, (long)d.v);
        if (c.type == 3 && !faulty && !hit6)
            for (auto &d : calls_v)
                if (d.type == 1 && c.b < d.a) violation("gen:order", "kind %d: a value was delivered after the generator had ended", kind);
        if (c.type == 2) {
            bool over = false;
            for (auto &d : calls_v) if (&d != &c && d.a < c.b && c.a < d.b) over = true;
            for (auto &x : *recs) if (x.code == 7 || x.code == 20 || x.code == 21) (void)x;
            if (!over && !faulty) {
                // a worker which gave up may still have been inside: only the last phase is certain
                violation("gen:stuck", "kind %d: 'generator is running' although nobody else was calling it", kind);
            }
        }
    }
    // after everybody left, the sequential calls never find it busy and end with the end exception
    for (auto &x : *recs) {
        if ((x.a == 7 || x.a == 8) && x.code == 2) violation("gen:stuck", "kind %d: the generator stays busy although no call is in progress", kind);
        if (x.a == 8 && x.code == 1 && kind != 15) violation("gen:order", "kind %d: a value after the end", kind);
    }
    res->custom[0] += calls_v.size();
    for (auto &c : calls_v) { res->custom[1] += c.type == 2; res->custom[2] += c.type == 6; res->custom[3] += c.type == 3; res->custom[4] += c.type == 4; }
    res->gcs += gc_count();
    const uint64_t dummy = 0; (void)dummy;
    KOS_instance_destroy(inst);
}
void run_gen_plain() { run_gen(false); }
void run_gen_oom() { run_gen(true); }
void setup() { setup_script(); }
SCENARIO("gen_share", setup, run_gen_plain);
SCENARIO("gen_oom", setup, run_gen_oom);
} // namespace
