// P09: threads.mutex, semaphore, queue and stack used by generated Kos programs on the real VM.
#include "kosutil.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <set>
using namespace kx;

namespace {
void noise(std::string &s, Rng &r, const char *ind, int heavy = 0)
{
    switch (r.range(0, 7)) {
        case 0: s += fmt("%ssim.nap(%d)\n", ind, r.range(1, 5000)); break;
        case 1: s += fmt("%sdo { const g = []; for const i in range(%d) { g.push([i]) } }\n", ind, r.range(1, 12 + heavy)); break;
        case 2: s += fmt("%ssim.poke()\n", ind); break;
        default: break;
    }
}
void go(const std::string &src, bool gc, std::string *err)
{
    Rng &r = wrng();
    if (tracing) trace("program:\n%s", src.c_str());
    knobs_concurrency(false);
    knobs.max_steps = 120000000;
    const unsigned ngc = r.range(1, 5), gap = r.range(100, 4000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    *err = run_main(src);
    stop_injector();
    end_faults();
    res->gcs += gc_count();
    if (!err->empty()) violation("sync:unexpected-exception", "the program ended with: %s", err->c_str());
    KOS_instance_destroy(inst);
    flush_std();
    if (console_err().size()) violation("sync:unexpected-exception", "a thread ended with: %s", console_err().c_str());
}

// ---------------------------------------------------------------- mutex
void run_mutex()
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const int nt = r.range(2, 5), nm = r.range(1, 3);
    std::string s = "import sim\nimport threads\nconst S = { ";
    for (int m = 0; m < nm; m++) s += fmt("c%d: 0, ", m);
    s += "}\n";
    for (int m = 0; m < nm; m++) s += fmt("const m%d = threads.mutex()\n", m);
    int total[3] = {0, 0, 0}, throws[8] = {0};
    const bool rogue_ok = r.chance(2, 3);
    for (int t = 0; t < nt; t++) {
        s += fmt("fun w%d {\n", t);
        const int nops = r.range(2, 8);
        for (int o = 0; o < nops; o++) {
            const int m = r.range(0, nm - 1), kind = r.range(0, 5);
            std::string crit = fmt("        sim.rec(200, %d, 0)\n        do {\n        const v = S.c%d\n", m, m);
            noise(crit, r, "        ", 20);
            if (rogue_ok && nm > 1 && r.chance(1, 4)) {
                // release a mutex which this thread does not hold: documented to do nothing
                int other = (m + 1) % nm;
                if (kind != 3 || other < m) crit += fmt("        m%d.release()\n", other);
            }
            crit += fmt("        S.c%d = v + 1\n        }\n        sim.rec(201, %d, 0)\n", m, m);
            total[m]++;
            if (rogue_ok && r.chance(1, 3)) s += fmt("    m%d.release()\n", r.range(0, nm - 1));
            noise(s, r, "    ");
            switch (kind) {
                case 0: case 1: s += fmt("    with m%d {\n", m) + crit + "    }\n"; break;
                case 2: s += fmt("    m%d.acquire()\n", m) + crit + fmt("    m%d.release()\n", m); break;
                case 3:   // nested, in lock order
                    if (m + 1 < nm) {
                        s += fmt("    with m%d {\n", m) + crit + fmt("    with m%d {\n        sim.rec(200, %d, 0)\n        S.c%d = S.c%d + 1\n        sim.rec(201, %d, 0)\n    }\n    sim.rec(200, %d, 1)\n    sim.rec(201, %d, 1)\n    }\n", m + 1, m + 1, m + 1, m + 1, m + 1, m, m);
                        total[m + 1]++;
                    }
                    else s += fmt("    with m%d {\n", m) + crit + "    }\n";
                    break;
                case 4:   // left by an exception
                    throws[t]++;
                    s += fmt("    try { with m%d {\n", m) + crit + fmt("        throw %d\n    } } catch const e { if e.value != %d { throw e }; sim.rec(210, %d, 0) }\n", o, o, t);
                    break;
                case 5:   // left by return
                    s += fmt("    do { const f = fun { with m%d {\n", m) + crit + "        return 5\n    } }\n    if f() != 5 { throw \"bad return\" } }\n";
                    break;
            }
        }
        s += "}\n";
    }
    for (int t = 0; t < nt; t++) s += fmt("const t%d = async w%d()\n", t, t);
    for (int t = 0; t < nt; t++) s += fmt("t%d.wait()\n", t);
    for (int m = 0; m < nm; m++) s += fmt("sim.rec(220, %d, S.c%d)\n", m, m);
    std::string err;
    go(s, r.chance(2, 3), &err);
    int holder[3] = {-1, -1, -1}, got[8] = {0};
    for (auto &x : *recs) {
        if (x.code == 200) {
            if (holder[x.a] != -1 && holder[x.a] != x.tid) violation("mutex:not-exclusive", "two threads (t%d and t%d) hold mutex %d at the same time", holder[x.a], x.tid, (int)x.a);
            holder[x.a] = x.tid;
        }
        else if (x.code == 201) {
            if (holder[x.a] != x.tid) violation("mutex:not-exclusive", "thread t%d lost mutex %d while holding it", x.tid, (int)x.a);
            holder[x.a] = -1;
        }
        else if (x.code == 210) got[x.a]++;
        else if (x.code == 220 && x.b != total[x.a]) violation("mutex:lost-update", "counter protected by mutex %d is %ld instead of %d", (int)x.a, (long)x.b, total[x.a]);
    }
    for (int t = 0; t < nt; t++) if (got[t] != throws[t]) violation("mutex:lost-exception", "thread %d caught %d exceptions instead of %d", t, got[t], throws[t]);
}

// ---------------------------------------------------------------- semaphore
void run_sem()
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const int mode = r.range(0, 2);
    const int init = r.range(0, 4);
    std::string s = fmt("import sim\nimport threads\nconst sem = threads.semaphore(%d)\n", init);
    long total_acq = 0, total_rel = 0;
    int nt = 0;
    if (mode == 0) {
        // Acquirers and releasers; releases cover everything which is acquired
        const int na = r.range(1, 4), nr = r.range(1, 3);
        for (int t = 0; t < na; t++) {
            s += fmt("fun w%d {\n", nt++);
            for (int o = r.range(1, 5); o > 0; o--) {
                const int c = r.chance(2, 3) ? 1 : r.range(1, 5);
                total_acq += c;
                noise(s, r, "    ");
                s += c == 1 && r.chance(1, 2) ? fmt("    sem.acquire()\n    sim.rec(300, 1, 0)\n") : fmt("    sem.acquire(%d)\n    sim.rec(300, %d, 0)\n", c, c);
            }
            s += "}\n";
        }
        long need = total_acq - init + r.range(0, 3);
        if (need < 0) need = 0;
        for (int t = 0; t < nr; t++) {
            s += fmt("fun w%d {\n", nt++);
            long mine = t == nr - 1 ? need - total_rel : (need - total_rel) / 2;
            while (mine > 0) {
                const int c = (int)std::min<long>(mine, r.chance(1, 2) ? 1 : r.range(1, 4));
                mine -= c; total_rel += c;
                noise(s, r, "    ");
                s += fmt("    sim.rec(301, %d, 0)\n    sem.release(%d)\n", c, c);
            }
            s += "}\n";
        }
    }
    else {
        // A pool of permits: acquire one, use it, release it
        const int permits = init ? init : 1;
        if (!init) { s += "sim.rec(301, 1, 0)\nsem.release()\n"; total_rel++; }
        const int n = r.range(2, 6);
        (void)permits;
        for (int t = 0; t < n; t++) {
            s += fmt("fun w%d {\n", nt++);
            for (int o = r.range(1, 5); o > 0; o--) {
                total_acq++; total_rel++;
                noise(s, r, "    ");
                const int k = r.range(0, 2);
                if (k == 0) {
                    s += "    with sem {\n        sim.rec(300, 1, 0)\n";
                    noise(s, r, "        ", 10);
                    s += "        sim.rec(301, 1, 0)\n    }\n";
                }
                else if (k == 1) {
                    s += "    sem.acquire()\n    sim.rec(300, 1, 0)\n";
                    noise(s, r, "    ", 10);
                    s += "    sim.rec(301, 1, 0)\n    sem.release()\n";
                }
                else s += "    try { with sem { sim.rec(300, 1, 0); sim.rec(301, 1, 0); throw 7 } } catch const e { if e.value != 7 { throw e } }\n";
            }
            s += "}\n";
        }
    }
    const bool limit = r.chance(1, 4);
    for (int t = 0; t < nt; t++) s += fmt("const t%d = async w%d()\n", t, t);
    for (int t = 0; t < nt; t++) s += fmt("t%d.wait()\n", t);
    s += "sim.rec(310, sem.value, 0)\n";
    if (limit) s += "do { const m = threads.semaphore(0x7FFFFFFE); m.release(); try { m.release(); sim.rec(311, 0, 0) } catch const e { sim.rec(311, 1, m.value) }\n for const bad in [-1, 0, 0x80000000] { try { m.acquire(bad); sim.rec(312, 0, bad) } catch const e { } } }\n";
    std::string err;
    go(s, r.chance(2, 3), &err);
    long level = init;
    for (auto &x : *recs) {
        if (x.code == 300) { level -= x.a; if (level < 0) violation("sem:too-many", "more acquisitions went through than the initial value plus releases"); }
        else if (x.code == 301) level += x.a;
        else if (x.code == 310 && x.a != init + total_rel - total_acq) violation("sem:value", "final value is %ld instead of %ld", (long)x.a, (long)(init + total_rel - total_acq));
        else if (x.code == 311 && (x.a != 1 || x.b != 0x7FFFFFFF)) violation("sem:limit", "release beyond the maximum (%ld, %ld)", (long)x.a, (long)x.b);
        else if (x.code == 312) violation("sem:limit", "a bad count %ld was accepted", (long)x.b);
    }
}

// ---------------------------------------------------------------- queue and stack
void run_coll(bool queue)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const bool small = r.chance(1, 2);   // small histories are checked for linearizability
    std::string s = fmt("import sim\nimport threads\nconst q = threads.%s()\n", queue ? "queue" : "stack");
    int nt = 0, item = 0, op = 0;
    const int np = r.range(1, 3), nc = r.range(1, 3);
    std::map<int, int> producer_of;
    struct O { bool push; std::vector<int64_t> v; int want; int tid = -1; uint64_t call = 0, ret = 0; bool done = false, single; };
    std::vector<O> ops;
    std::vector<std::string> body;
    const int maxops = small ? 4 : 14;
    // Some threads produce, some consume and some do both (pushing before popping, so that nothing can wait for ever)
    std::vector<std::vector<int>> plan;
    for (int t = 0; t < np; t++) {
        std::vector<int> p;
        for (int o = r.range(1, maxops); o > 0; o--) {
            O x{true, {}, 0, -1, 0, 0, false, false};
            const int c = r.chance(3, 5) ? 1 : r.range(2, 5);
            for (int i = 0; i < c; i++) { producer_of[item] = t; x.v.push_back(item++); }
            ops.push_back(x); p.push_back(op++);
        }
        plan.push_back(p);
    }
    int left = item - (r.chance(1, 3) ? r.range(0, 3) : 0);
    std::vector<std::vector<int>> cons(nc);
    while (left > 0) {
        O x{false, {}, 1, -1, 0, 0, false, true};
        if (r.chance(1, 3)) { x.want = std::min(left, r.range(1, 4)); x.single = false; }
        left -= x.want;
        ops.push_back(x);
        cons[r.range(0, nc - 1)].push_back(op++);
    }
    for (auto &c : cons) {
        if (r.chance(1, 4) && !plan.empty()) { auto &p = plan[r.range(0, (int)plan.size() - 1)]; p.insert(p.end(), c.begin(), c.end()); }
        else plan.push_back(c);
    }
    for (auto &p : plan) {
        s += fmt("fun w%d {\n", nt++);
        for (int o : p) {
            noise(s, r, "    ");
            O &x = ops[o];
            s += fmt("    sim.rec(400, %d, 0)\n", o);
            if (x.push) {
                s += "    q.push(";
                for (size_t i = 0; i < x.v.size(); i++) s += fmt("%s%ld", i ? ", " : "", (long)x.v[i]);
                s += fmt(")\n    sim.rec(401, %d, 0)\n", o);
            }
            else if (x.single) s += fmt("    do { const v = q.pop(); sim.rec(401, %d, 0); sim.rec(402, %d, v) }\n", o, o);
            else s += fmt("    do { const v = q.pop(%d); sim.rec(401, %d, 0); for const e in v { sim.rec(402, %d, e) } }\n", x.want, o, o);
        }
        s += "}\n";
    }
    for (int t = 0; t < nt; t++) s += fmt("const t%d = async w%d()\n", t, t);
    for (int t = 0; t < nt; t++) s += fmt("t%d.wait()\n", t);
    s += "sim.rec(410, q.size, 0)\n";
    std::string err;
    go(s, r.chance(2, 3), &err);
    std::map<int64_t, int> seen;
    int popped = 0;
    for (auto &x : *recs) {
        if (x.code == 400) { ops[x.a].call = x.t; ops[x.a].tid = x.tid; }
        else if (x.code == 401) { ops[x.a].ret = x.t; ops[x.a].done = true; }
        else if (x.code == 402) {
            ops[x.a].v.push_back(x.b);
            popped++;
            if (!producer_of.count((int)x.b)) violation("queue:foreign-item", "pop returned %ld, which nobody pushed", (long)x.b);
            if (seen[x.b]++) violation("queue:duplicated", "item %ld was delivered twice", (long)x.b);
        }
        else if (x.code == 410 && x.a != item - popped) violation("queue:size", "final size is %ld instead of %d", (long)x.a, item - popped);
    }
    int want = 0;
    for (auto &x : ops) {
        if (!x.done) violation("queue:not-finished", "an operation did not finish");
        if (!x.push) { want += x.want; if ((int)x.v.size() != x.want) violation("queue:wrong-count", "pop(%d) returned %d items", x.want, (int)x.v.size()); }
    }
    if (popped != want) violation("queue:lost", "%d items were delivered instead of %d", popped, want);
    if (queue) {
        // items of one producer reach one consumer in their order; for pops which do not overlap, over all consumers
        std::vector<O *> pops;
        for (auto &x : ops) if (!x.push) pops.push_back(&x);
        for (auto a : pops) {
            for (size_t i = 1; i < a->v.size(); i++) if (producer_of[(int)a->v[i]] == producer_of[(int)a->v[i - 1]] && a->v[i] < a->v[i - 1]) violation("queue:order", "one pop returned items of one producer out of order");
            for (auto b : pops) if (a->ret < b->call) for (auto i : a->v) for (auto j : b->v)
                if (producer_of[(int)i] == producer_of[(int)j] && j < i) violation("queue:order", "item %ld was delivered before item %ld of the same producer", (long)i, (long)j);
        }
    }
    if (ops.size() <= 14) {
        std::vector<LOp> h;
        for (size_t i = 0; i < ops.size(); i++) { LOp l{}; l.tid = ops[i].tid; l.inv = ops[i].call; l.resp = ops[i].ret; l.op = (int)i; h.push_back(l); }
        Model m = [&](std::vector<int64_t> &st, const LOp &l) {
            const O &x = ops[l.op];
            if (x.push) { st.insert(st.end(), x.v.begin(), x.v.end()); return true; }
            if (st.size() < x.v.size()) return false;
            auto b = queue ? st.begin() : st.end() - (long)x.v.size();
            // a stack pop of several elements returns them in the order in which they were pushed
            if (!std::equal(x.v.begin(), x.v.end(), b)) return false;
            st.erase(b, b + (long)x.v.size());
            return true;
        };
        if (!linearizable(h, {}, m)) violation("queue:not-linearizable", "no sequential order of the operations explains what the pops returned:\n%s",
            dump(h, [&](const LOp &l) { const O &x = ops[l.op]; std::string t = x.push ? "push" : "pop"; for (auto v : x.v) t += fmt(" %ld", (long)v); return t; }).c_str());
        res->custom[0]++;
    }
}
void run_queue() { run_coll(true); }
void run_stack() { run_coll(false); }
SCENARIO("sync_mutex", setup_script, run_mutex);
SCENARIO("sync_sem", setup_script, run_sem);
SCENARIO("sync_queue", setup_script, run_queue);
SCENARIO("sync_stack", setup_script, run_stack);
} // namespace
