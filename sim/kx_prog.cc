// P06, P15, P17: whole programs (a corpus cut from the language's own examples plus hand-written
// ones) compiled and executed on the real VM under collections, schedules and failing allocations.
#include "kosutil.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <csignal>
#include <map>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace kx;

namespace {
#ifdef CONFIG_MAD_GC
const uint64_t prog_steps = 1000000000; // every allocation collects
#else
const uint64_t prog_steps = 120000000;
#endif
struct Prog { std::string id, src; bool strict, nowrap = false; };
std::vector<Prog> *progs;
size_t n_strict;
uint64_t ep0;

void load(const char *file, bool strict)
{
    std::ifstream f(std::string(VERIF_DIR "/programs/") + file);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 4, "=== ") == 0) progs->push_back(Prog{l.substr(4), strict ? "import base.*\n" : "", strict});
        else if (!progs->empty()) progs->back().src += l + "\n";
    }
}
void load_progs()
{
    progs = new std::vector<Prog>;
    load("strict.txt", true);
    n_strict = progs->size();
    load("corpus.txt", false);
    if (n_strict < 10 || progs->size() < 500) harness_error("program corpus is missing");
    std::ifstream nw(VERIF_DIR "/programs/nowrap.txt");
    for (std::string l; std::getline(nw, l);) for (auto &p : *progs) if (p.id == l) p.nowrap = true;
    std::ifstream f(VERIF_DIR "/programs/test_tools.kos");
    std::stringstream ss; ss << f.rdbuf();
    fs_mkfile("/kos/modules/test_tools.kos", ss.str());
}
void setup_prog()
{
    load_progs();
    ep0 = mem_epoch();
    setup_script();
    std::string err;
    if (run_script(mctx, "preload", "import json\nimport datetime\nimport debug\nimport test_tools\n", &err)) harness_error("cannot load modules: %s", err.c_str());
}
void setup_prog_files() { load_progs(); ep0 = mem_epoch(); setup_files(); }

struct Out { std::string err, out, errout; bool operator==(const Out &o) const { return err == o.err && out == o.out && errout == o.errout; } };
Out run_prog(KOS_CONTEXT ctx, const std::string &src, const char *name)
{
    Out o;
    flush_std();
    const size_t n0 = console_out().size(), n1 = console_err().size();
    static int serial;
    const std::string nm = fmt("p%05d", serial++);
    if (run_script(ctx, nm.c_str(), src, &o.err, false) && o.err.empty()) o.err = "<exception>";
    flush_std();
    o.out = console_out().substr(n0);
    o.errout = console_err().substr(n1);
    for (auto x : {&o.err, &o.out, &o.errout})
        for (size_t i; (i = x->find(nm)) != std::string::npos;) x->replace(i, nm.size(), "main");
    (void)name;
    return o;
}
// The program as the body of a function, which another module can run in a thread
std::string wrap(const Prog &p, int n, std::string *imports)
{
    std::stringstream ss(p.src);
    std::string l, imp, body;
    while (std::getline(ss, l)) {
        if (l.compare(0, 7, "import ") == 0) { if (imp.find(l + "\n") == std::string::npos) imp += l + "\n"; }
        else body += "    " + (l.compare(0, 7, "public ") == 0 ? l.substr(7) : l) + "\n";
    }
    const std::string f = fmt("const body%d = fun {\n", n) + body + "}\n";
    if (imports) { std::stringstream s2(imp); while (std::getline(s2, l)) if (imports->find(l + "\n") == std::string::npos) *imports += l + "\n"; return f; }
    return imp + f + fmt("body%d()\n", n);
}
std::string shorten(const std::string &s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
// Programs whose threads wait for each other need not end if one of them fails
const Prog &pick(Rng &r, bool strict_only = false);
const Prog &pick_oom(Rng &r, bool strict_only)
{
    for (;;) { const Prog &p = pick(r, strict_only); if (p.src.find("import threads") == std::string::npos) return p; }
}
const Prog &pick(Rng &r, bool strict_only)
{
    if (strict_only || r.chance(1, 3)) return (*progs)[r.below(n_strict)];
    return (*progs)[n_strict + r.below(progs->size() - n_strict)];
}
void check_same(const Prog &p, const Out &want, const Out &got, const char *when)
{
    if (want == got) return;
    violation("program:different-result", "program %s %s: ended with '%s' instead of '%s'; printed '%s' instead of '%s'", p.id.c_str(), when,
              shorten(got.err).c_str(), shorten(want.err).c_str(), shorten(got.out + got.errout).c_str(), shorten(want.out + want.errout).c_str());
}
void check_resources()
{
    KOS_instance_destroy(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors still open after the instance was destroyed: %s", describe_fds().c_str());
    if (open_files() || open_dirs()) violation("leak:file", "%d files and %d directories still open after the instance was destroyed", open_files(), open_dirs());
    sim_dealloc(inst);
    check_all_released(ep0, "after the instance was destroyed");
}

// ---------------------------------------------------------------- P15: collections anywhere
void run_gc()
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const Prog &p = pick(r);
    if (tracing) trace("program %s:\n%s", p.id.c_str(), p.src.c_str());
    const Out ref = run_prog(mctx, p.src, "prog");
    knobs_concurrency(false);
    knobs.max_steps = prog_steps;
    const unsigned n = r.range(1, 24), gap = 1u << r.range(5, 13);
    begin_run();
    start_gc_injector(n, gap);
    const Out got = run_prog(mctx, p.src, "prog");
    res->ops += 10;
    stop_injector();
    end_faults();
    res->gcs += gc_count();
    check_same(p, ref, got, "under garbage collections");
    check_resources();
}

// ---------------------------------------------------------------- P15: programs side by side on threads of one instance
void run_par()
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const int nt = r.range(2, 4);
    std::string imports = "import base.*\nimport base\nimport sim\n", bodies, main = "const ths = []\n";
    std::vector<const Prog *> plan;
    std::vector<std::string> want;
    for (int t = 0; t < nt; t++) {
        std::string calls;
        for (int k = r.range(1, 2); k > 0; k--) {
            const Prog *p;
            do p = &pick(r); while (p->nowrap || p->id == "threads" || p->id == "files" || p->id.compare(0, 5, "modul") == 0 || p->id.compare(0, 5, "optim") == 0);
            const int n = (int)plan.size();
            plan.push_back(p);
            bodies += wrap(*p, n, &imports);
            calls += fmt("    try { body%d() ; sim.rec(%d, 0, 0) } catch const e { sim.rec(%d, 1, 0) ; msgs.push([%d, e.value]) }\n", n, n, n, n);
        }
        bodies += fmt("fun run%d {\n", t) + calls + "}\n";
        main += fmt("ths.push(async run%d())\n", t);
    }
    main += "for const t in ths { t.wait() }\nfor const m in msgs { stderr_note(m) }\n";
    // one declaration per imported name
    std::string imp2;
    std::map<std::string, std::set<std::string>> names;
    std::stringstream ss(imports);
    for (std::string l; std::getline(ss, l);) {
        l = l.substr(7);
        const size_t c = l.find(':'), d = l.find('.');
        auto strip = [](std::string x) { while (!x.empty() && x[0] == ' ') x.erase(0, 1); while (!x.empty() && x.back() == ' ') x.pop_back(); return x; };
        if (c != std::string::npos) {
            std::stringstream cs(l.substr(c + 1));
            for (std::string x; std::getline(cs, x, ',');) names[strip(l.substr(0, c))].insert(strip(x));
        } else if (d != std::string::npos) names[l.substr(0, d)].insert(strip(l.substr(d + 1)));
        else names[strip(l)].insert("");
    }
    std::set<std::string> bound;
    for (auto &m : names) {
        if (m.second.count("")) imp2 += "import " + m.first + "\n";
        if (m.second.count("*")) imp2 += "import " + m.first + ".*\n";
        else for (auto &x : m.second) if (!x.empty() && x != m.first && bound.insert(x).second) imp2 += "import " + m.first + "." + x + "\n";
    }
    const std::string src = imp2 + "const msgs = []\nfun stderr_note(m) { print(\"NOTE\", m[0], m[1]) }\n" + bodies + main;
    if (tracing) trace("program:\n%s", src.c_str());
    knobs_concurrency(false);
    knobs.max_steps = prog_steps;
    const unsigned n = r.range(0, 8), gap = 1u << r.range(8, 13);
    begin_run();
    if (n) start_gc_injector(n, gap);
    const Out o = run_prog(mctx, src, "");
    res->ops += 10;
    stop_injector();
    end_faults();
    res->gcs += gc_count();
    if (!o.err.empty()) violation("program:different-result", "the program which runs its parts in threads ended with '%s'", shorten(o.err).c_str());
    std::vector<int> done(plan.size(), -1);
    for (auto &x : *recs) if (x.code >= 0 && x.code < (int64_t)plan.size()) done[x.code] = (int)x.a;
    for (size_t k = 0; k < plan.size(); k++)
        if (done[k] != 0) {
            const size_t i = o.out.find(fmt("NOTE %zu ", k));
            violation("program:different-result", "program %s run in a thread beside others %s%s", plan[k]->id.c_str(), done[k] < 0 ? "did not finish" : "failed: ", i == std::string::npos ? "" : shorten(o.out.substr(i)).c_str());
        }
    check_resources();
}

// ---------------------------------------------------------------- P06: failing allocations
void oom_knobs(uint64_t opps)
{
    Rng &r = wrng();
    switch (r.range(0, 3)) {
        case 0: knobs.at[F_MALLOC] = 1 + r.below(opps + 1); knobs.at_len[F_MALLOC] = 1; break;
        case 1: knobs.at[F_MALLOC] = 1 + r.below(opps + 1); knobs.at_len[F_MALLOC] = 1ull << r.range(1, 8); break;
        case 2: knobs.rate[F_MALLOC] = r.pick(std::vector<int>{100, 1000, 6000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5); break;
        case 3: knobs.at[F_MALLOC] = 1 + r.below(opps + 1); knobs.at_len[F_MALLOC] = 1000000; break;     // memory stays exhausted
    }
}
void judge(const Prog &p, const Out &ref, const Out &got)
{
    if (!p.strict) return;          // these programs handle exceptions themselves: anything orderly is fine
    if (got.err.empty() && got.errout == ref.errout) {
        if (got.out != ref.out) violation("oom:wrong-result", "program %s ended normally although memory ran out, but printed '%s' instead of '%s'", p.id.c_str(), shorten(got.out).c_str(), shorten(ref.out).c_str());
        return;
    }
    if (got.err.size() && !exc_is_oom(got.err) && got.err.find("failed to ") == std::string::npos && got.err.find("Cannot allocate memory") == std::string::npos)
        violation("oom:wrong-exception", "program %s ended with '%s' when memory ran out", p.id.c_str(), shorten(got.err).c_str());
    if (ref.out.compare(0, got.out.size(), got.out)) violation("oom:wrong-result", "program %s ran out of memory, but printed '%s' instead of a part of '%s'", p.id.c_str(), shorten(got.out).c_str(), shorten(ref.out).c_str());
}
void run_oom(bool heap_limit)
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const Prog &p = pick_oom(r, r.chance(1, 3)), &q = pick(r, true);
    if (tracing) trace("program %s:\n%s", p.id.c_str(), p.src.c_str());
    const uint64_t o0 = fault_raw[F_MALLOC];
    const Out ref = run_prog(mctx, p.src, "prog");
    const uint64_t opps = fault_raw[F_MALLOC] - o0;
    const Out qref = run_prog(mctx, q.src, "prog");
    knobs_concurrency(false);
    knobs.max_steps = prog_steps;
    if (heap_limit) {
        KOS_collect_garbage(mctx, nullptr);
        KOS_clear_exception(mctx);
    } else oom_knobs(opps);
    const unsigned n = r.range(1, 8), gap = 1u << r.range(7, 13);
    const bool gc = r.chance(1, 2);
    const uint32_t old_limit = heap_limit ? kx::heap_limit() : 0;
    begin_run();
    if (gc) start_gc_injector(n, gap);
    if (heap_limit) set_heap_limit((uint32_t)(r.range(1, 4) * 512 * 1024));
    const Out got = run_prog(mctx, p.src, "prog");
    if (heap_limit) set_heap_limit(old_limit);
    stop_injector();
    end_faults();
    res->ops += 10;
    res->gcs += gc_count();
    const bool hit = res->faults[F_MALLOC] || heap_limit;
    if (!hit) check_same(p, ref, got, "with no failing allocation");
    else judge(p, ref, got);
    if (KOS_is_exception_pending(mctx)) violation("oom:stale-exception", "an exception is still pending after the program ended");
    Out again = run_prog(mctx, q.src, "prog");
    if (p.src.find("async") != std::string::npos && again.err == qref.err) again = qref;    // a disowned thread may report its exception any time
    check_same(q, qref, again, "after memory is available again");
    check_resources();
}
void run_oom_malloc() { run_oom(false); }
void run_oom_limit() { run_oom(true); }

// Creating the instance, importing modules, running and destroying, from nothing
void run_oom_init()
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    const Prog &p = pick_oom(r, true);
    knobs_concurrency(false);
    knobs.max_steps = prog_steps;
    oom_knobs(r.chance(1, 2) ? 600 : 4000);
    for (FaultKind k : {F_MUTEX_INIT, F_COND_INIT, F_TLS_INIT}) if (r.chance(1, 6)) { knobs.rate[k] = 6000; knobs.burst_limit[k] = 1; }
    begin_run();
    std::string mods;
    for (const char *m : {"io", "os", "fs", "threads", "re", "json", "random", "net", "kos", "iter", "math", "datetime"}) if (r.chance(1, 3)) mods += fmt("import %s\n", m);
    for (int round = 0; round < 3; round++) {
        if (round == 2) end_faults();
        const uint64_t ep = mem_epoch();
        const int e = init_full_instance();
        res->ops++;
        if (e) {
            if (round == 2) violation("oom:init", "creating an instance failed (%d) although memory is available again", e);
            sim_dealloc(inst);
            inst = nullptr;
            check_all_released(ep0, "after creating the instance failed");
            (void)ep;
            continue;
        }
        Out o1 = run_prog(mctx, mods, "mods");
        Out o2 = run_prog(mctx, p.src, "prog");
        if (KOS_is_exception_pending(mctx)) violation("oom:stale-exception", "an exception is still pending after the program ended");
        for (auto o : {&o1, &o2})
            if (!o->err.empty() && (round == 2 || !p.strict || !(exc_is_oom(o->err) || o->err.find("Cannot allocate memory") != std::string::npos || o->err.find("failed to ") != std::string::npos)) && !(round < 2 && res->faults[F_MALLOC] == 0 && (res->faults[F_MUTEX_INIT] || res->faults[F_COND_INIT])))
                violation(round == 2 ? "oom:not-usable" : "oom:wrong-exception", "program %s ended with '%s'", o == &o1 ? "import" : p.id.c_str(), shorten(o->err).c_str());
        if (round < 2 && r.chance(1, 2)) {
            // the same instance, once memory is available
            end_faults();
            o1 = run_prog(mctx, mods, "mods");
            o2 = run_prog(mctx, p.src, "prog");
            for (auto o : {&o1, &o2}) if (!o->err.empty()) violation("oom:not-usable", "program %s ended with '%s' although memory is available again", o == &o1 ? "import" : p.id.c_str(), shorten(o->err).c_str());
            resume_faults();
        }
        KOS_instance_destroy(inst);
        end_faults();
        flush_std();
        if (open_fds() != 3) violation("leak:fd", "descriptors still open after the instance was destroyed: %s", describe_fds().c_str());
        sim_dealloc(inst);
        inst = nullptr;
        check_all_released(ep0, "after the instance was destroyed");
        resume_faults();
    }
    end_faults();
}
// Calibration of the corpus (tools/calibrate.py): runs every program twice without faults, each in a process of its own.
void run_cal()
{
    for (auto &p : *progs) {
        fflush(stdout);
        const pid_t c = fork();
        if (!c) {
            alarm(20);
            struct timespec a, b;
            clock_gettime(CLOCK_MONOTONIC, &a);
            const uint64_t m0 = fault_raw[F_MALLOC];
            Out x = run_prog(mctx, p.src, "");
            clock_gettime(CLOCK_MONOTONIC, &b);
            const uint64_t m1 = fault_raw[F_MALLOC];
            Out y = run_prog(mctx, p.src, "");
            const std::string w = wrap(p, 0, 0);
            std::string imp, body;
            Out z = run_prog(mctx, w, "");
            printf("CAL %s %ld %d %s %s %lu | %s\n", p.id.c_str(), (long)((b.tv_sec - a.tv_sec) * 1000000 + (b.tv_nsec - a.tv_nsec) / 1000), x == y, x.err.empty() ? "ok" : "fail", z == x ? "wrap" : "nowrap", (unsigned long)(m1 - m0), (x.err + " / " + z.err).c_str());
            fflush(stdout);
            _exit(0);
        }
        int st;
        while (waitpid(c, &st, 0) < 0) {}
        if (st) printf("CAL %s 99999999 0 fail nowrap 0 | status %d\n", p.id.c_str(), st);
    }
    fflush(stdout);
    begin_run();
}

// ---------------------------------------------------------------- P17: several instances on threads of their own
struct Life {
    std::vector<const Prog *> items;
    std::vector<std::string> own;       // programs which are not part of the corpus
    bool hook = false, collect = false, shut_early = false;
    int gcs = 0, gap = 0;
    bool plain() const { for (auto p : items) if (p->src.find("async") != std::string::npos || p->src.find("threads") != std::string::npos) return false; return gcs == 0 && own.empty(); }
};
struct Lived { int init = 0; std::vector<Out> outs; std::string stats; uint32_t cycles = 0; };
template <class H> auto cycles_of(H &h, int) -> decltype((uint32_t)h.gc_cycles) { return h.gc_cycles; }
template <class H> uint32_t cycles_of(H &, long) { return 0; }
template <class H> auto poke_it(H &h, int) -> decltype(h.gc_threshold = 0, void()) { h.gc_threshold = 0; }
template <class H> void poke_it(H &, long) {}

// Programs which use facilities shared by the whole process
const char *const own_progs[] = {
    "import base.*\nimport os\nconst p = os.spawn(\"exit\", [\"%d\"])\nprint(p.wait().status)\n",
    "import base.*\nimport os\nos.spawn(\"sleep\", [\"0.00001\"])\nconst p = os.spawn(\"exit\", [\"%d\"])\nprint(p.wait().status)\n",
    "import base.*\nimport io\nconst f = io.open(\"/work/iso%d\", \"w+\")\nfor const i in range(20) { f.write(\"line \\(i) %d\\n\") }\nf.seek(0)\nvar n = 0\nfor const l in f { n += l.size }\nprint(n)\nf.close()\n",
    "import base.*\nimport random\nconst r = random.random(%d)\nfor const i in range(5) { print(r.integer(1, 1000)) }\n",
    "import base.*\nimport io\nconst p = io.pipe()\nconst t = async do { for const i in range(10) { p.write.write(\"\\(i) %d\\n\") } p.write.close() }\nvar n = 0\nfor const l in p.read { n += l.size }\nt.wait()\nprint(n)\n",
    "import base.*\nimport kos\nprint(kos.execute(\"import base.print\\nprint(%d)\\n7\"))\n",
    "import base.*\nimport threads\nconst m = threads.mutex()\nvar n = 0\nfun work { for const i in range(5) { with m { n += 1 } } }\nconst ts = []\nfor const i in range(3) { ts.push(async work()) }\nfor const t in ts { t.wait() }\nprint(n, %d)\n",
};
const size_t n_own = sizeof own_progs / sizeof own_progs[0];

Lived live(const Life &l, int group, bool disturbed)
{
    Lived d;
    set_group(group);
    const uint64_t ep = mem_epoch();
    KOS_INSTANCE *const in = (KOS_INSTANCE *)sim_alloc(sizeof(KOS_INSTANCE), 64, false);
    KOS_CONTEXT ctx = nullptr;
    d.init = start_instance(in, &ctx);
    res->ops++;
    if (d.init) {
        if (!disturbed) violation("iso:init", "instance %d could not be created (%d) although only another one was disturbed", group, d.init);
        sim_dealloc(in);
        if (size_t n = mem_live_blocks_since(ep, group)) violation("leak:memory", "%zu blocks not released after creating an instance failed:%s", n, mem_describe_live(ep, 6, group).c_str());
        return d;
    }
    bool hooked = false;
    if (l.hook) {
        hooked = !KOS_hook_ctrl_c(ctx);
        if (!hooked) KOS_clear_exception(ctx);
    }
    struct G { KOS_INSTANCE *in; int n, gap; bool stop; } g{in, l.gcs, l.gap, false};
    int gt = -1;
    if (g.n) {
        gt = spawn_thread([](void *a) -> void * {
            G &q = *(G *)a;
            Rng r(mix(spec.seed, 555 + (uint64_t)thread_group()));
            for (int i = 0; i < q.n && !q.stop; i++) {
                const uint64_t until = step() + 1 + r.below(2 * (uint64_t)q.gap);
                const uint64_t dl = now_ns() + 25 * (1 + r.below(2 * (uint64_t)q.gap));
                wait_until([until, &q] { return q.stop || step() >= until; }, "injector", false, dl);
                if (!q.stop) { poke_it(q.in->heap, 0); res->faults[F_GC_PRESSURE]++; }
            }
            return nullptr;
        }, &g, "injector");
        mark_harness_thread(gt);
    }
    auto one = [&](const std::string &src, const char *nm) {
        Out o;
        auto &said = (*group_said)[group];
        said.first.clear(); said.second.clear();
        if (run_script(ctx, nm, src, &o.err, false) && o.err.empty()) o.err = "<exception>";
        o.out = said.first; o.errout = said.second;
        res->ops += 5;
        if (KOS_is_exception_pending(ctx)) violation("iso:stale-exception", "an exception is still pending in instance %d after a program ended", group);
        d.outs.push_back(o);
    };
    for (size_t i = 0; i < l.items.size(); i++) one(l.items[i]->src, fmt("main%zu", i).c_str());
    for (size_t i = 0; i < l.own.size(); i++) one(l.own[i], fmt("own%zu", i).c_str());
    if (l.collect) {
        KOS_GC_STATS st = KOS_GC_STATS_INIT(0);
        if (KOS_collect_garbage(ctx, &st)) {
            const std::string e = exc_text(ctx);
            if (!disturbed) violation("iso:collect", "a collection in instance %d failed: %s", group, e.c_str());
        } else {
            d.stats = fmt("evacuated %u freed %u finalized %u pages %u/%u/%u sizes %u/%u/%u heap %u used %u", st.num_objs_evacuated, st.num_objs_freed, st.num_objs_finalized, st.num_pages_kept,
                          st.num_pages_dropped, st.num_pages_freed, st.size_evacuated, st.size_freed, st.size_kept, st.heap_size, st.used_heap_size);
            d.cycles = cycles_of(in->heap, 0);
        }
    }
    res->gcs += cycles_of(in->heap, 0);
    if (hooked && !l.shut_early && KOS_unhook_ctrl_c(ctx)) KOS_clear_exception(ctx);
    if (gt >= 0) {
        g.stop = true;
        KOS_suspend_context(ctx);
        join_thread(gt);
        KOS_resume_context(ctx);
    }
    KOS_instance_destroy(in);
    sim_dealloc(in);
    if (l.own.empty())
        if (size_t n = mem_live_blocks_since(ep, group)) violation("leak:memory", "%zu blocks not released after instance %d was destroyed:%s", n, group, mem_describe_live(ep, 6, group).c_str());
    return d;
}
int iso_hits;
void iso_handler(int) { iso_hits++; }
void run_iso_as(int mode)       // 0: all undisturbed; 1: the first one runs out of memory; 2: the first one is interrupted
{
    Rng &r = wrng();
    recs = new std::vector<Rec>;
    group_said = new std::map<int, std::pair<std::string, std::string>>;
    set_sigact(SIGINT, iso_handler, 0);
    const int nt = r.range(2, 3);
    struct T { int group; std::vector<Life> lives; std::vector<Lived> want, got; };
    static std::vector<T> *ts;
    ts = new std::vector<T>;
    for (int t = 0; t < nt; t++) {
        T x;
        x.group = t + 1;
        const bool victim = mode && t == 0;
        for (int k = victim ? r.range(1, 4) : r.range(1, 2); k > 0; k--) {
            Life l;
            for (int i = r.range(victim ? 0 : 1, 2); i > 0; i--) {
                const Prog *p;
                do p = mode ? &pick_oom(r, r.chance(1, 2)) : &pick(r, r.chance(1, 3)); while (p->id == "files");       // uses fixed paths
                l.items.push_back(p);
            }
            if (!r.chance(2, 3)) { std::string o = own_progs[r.below(n_own)]; const int v = r.range(1, 99); for (size_t i; (i = o.find("%d")) != std::string::npos;) o.replace(i, 2, std::to_string(v + 100 * t)); l.own.push_back(o); }
            l.collect = r.chance(1, 2);
            if (r.chance(1, 3)) { l.gcs = r.range(1, 8); l.gap = 1 << r.range(8, 13); }
            l.hook = mode == 2 ? victim : r.chance(1, 4);
            l.shut_early = r.chance(1, 2);
            x.lives.push_back(l);
        }
        ts->push_back(x);
    }
    // each life alone (an interrupted instance is compared with itself only up to the interrupt, so not at all)
    for (auto &x : *ts)
        for (auto &l : x.lives) {
            if (tracing) { for (auto p : l.items) trace("instance %d: program %s:\n%s", x.group, p->id.c_str(), p->src.c_str()); for (auto &o : l.own) trace("instance %d: program:\n%s", x.group, o.c_str()); }
            if (mode && x.group == 1) { x.want.push_back(Lived()); continue; }
            x.want.push_back(live(l, x.group, false));
        }
    set_group(0);
    knobs_concurrency(r.chance(1, 3));
    knobs.max_steps = 150000000;
    if (mode == 1) {
        fault_group = 1;
        oom_knobs(r.chance(1, 3) ? 600 : 12000);
        for (FaultKind k : {F_MUTEX_INIT, F_COND_INIT, F_TLS_INIT, F_THREAD_CREATE}) if (r.chance(1, 6)) { knobs.rate[k] = 6000; knobs.burst_limit[k] = 1; }
    }
    begin_run();
    std::vector<int> tids;
    for (auto &x : *ts)
        tids.push_back(spawn_thread([](void *a) -> void * {
            T &y = *(T *)a;
            set_group(y.group);
            for (auto &l : y.lives) y.got.push_back(live(l, y.group, fault_group == y.group || l.hook));
            return nullptr;
        }, &x, "instance"));
    static bool over;
    over = false;
    int st = -1;
    if (mode == 2) {
        st = spawn_thread([](void *) -> void * {
            Rng q(mix(spec.seed, 99));
            const unsigned n = 1 + (unsigned)q.below(6), gap = 1u << q.below(16);
            for (unsigned i = 0; i < n && !over; i++) {
                const uint64_t until = step() + 1 + q.below(2 * gap);
                const uint64_t dl = now_ns() + 25 * (1 + q.below(2 * gap));
                wait_until([until] { return over || step() >= until; }, "signal source", false, dl);
                if (!over) post_signal(SIGINT);
            }
            return nullptr;
        }, nullptr, "signals");
        mark_harness_thread(st);
    }
    for (int t : tids) join_thread(t);
    over = true;
    if (st >= 0) join_thread(st);
    end_faults();
    for (auto &x : *ts)
        for (size_t k = 0; k < x.lives.size(); k++) {
            if (mode && x.group == 1) continue;
            const Lived &w = x.want[k], &g = x.got[k];
            for (size_t i = 0; i < w.outs.size(); i++) {
                if (w.outs[i] == g.outs[i]) continue;
                const char *nm = i < x.lives[k].items.size() ? x.lives[k].items[i]->id.c_str() : "of its own";
                const Out &a = w.outs[i], &b = g.outs[i];
                violation("iso:different-result", "program %s in instance %d, while others run beside it, ended with '%s' instead of '%s'; printed '%s' instead of '%s'", nm, x.group, shorten(b.err).c_str(),
                          shorten(a.err).c_str(), shorten(b.out + b.errout).c_str(), shorten(a.out + a.errout).c_str());
            }
            if (x.lives[k].plain() && (w.stats != g.stats || w.cycles != g.cycles))
                violation("iso:different-collection", "collections of instance %d, while others run beside it: %u cycles, %s instead of %u cycles, %s", x.group, g.cycles, g.stats.c_str(), w.cycles, w.stats.c_str());
        }
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors still open after all instances were destroyed: %s", describe_fds().c_str());
    check_all_released(ep0, "after all instances were destroyed");
    if (get_sigact(SIGINT) != iso_handler) violation("iso:handler", "the handler of the interrupt signal was not restored");
}
void run_iso() { run_iso_as(0); }
void run_iso_oom() { run_iso_as(1); }
void run_iso_int() { run_iso_as(2); }
SCENARIO("prog_cal", setup_prog, run_cal);
SCENARIO("iso", setup_prog_files, run_iso);
SCENARIO("iso_oom", setup_prog_files, run_iso_oom);
SCENARIO("iso_int", setup_prog_files, run_iso_int);
SCENARIO("prog_gc", setup_prog, run_gc);
SCENARIO("prog_par", setup_prog, run_par);
SCENARIO("prog_oom", setup_prog, run_oom_malloc);
SCENARIO("prog_limit", setup_prog, run_oom_limit);
SCENARIO("prog_init", setup_prog_files, run_oom_init);
} // namespace
