// P16: generated trees of modules, some of them broken, are imported under faults, repaired and imported again.
#include "kosutil.h"
#include "inc/kos_module.h"
#include "core/kos_try.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace kx;

namespace {
typedef std::string S;
enum Kind { OK, SYNTAX, COMPILE, THROW, MISSING, MISSDEP, CIRC, BADNATIVE, NOINIT, NKINDS };
const char *const kind_names[] = {"ok", "syntax error", "undeclared variable", "throws", "missing", "missing dependency", "circular", "bad library", "library without init"};
enum Native { NONE, PURE, BOTH, BOTH_OPT };
struct Mod {
    int id, dir = 0, style_seed = 0, circ = 0;
    Kind kind = OK;
    Native native = NONE;
    std::vector<int> deps, styles;
    int64_t v = 0, k = 0, k2 = 0;
    // state according to the model
    bool loaded = false;
    int64_t count = 0;
    bool unsure = false;    // inc() was interrupted: it may have counted
};
std::vector<Mod> *mods;
const char *const dirs[] = {"/lib/a", "/lib/b", "/work"};
uint64_t ep0;

// ---- native part
KOS_OBJ_ID nat_mul(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    KOS_OBJ_ID a = KOS_array_read(ctx, args, 0);
    if (IS_BAD_PTR(a)) return a;
    int64_t v;
    if (KOS_get_integer(ctx, a, &v)) return KOS_BADPTR;
    return KOS_new_int(ctx, v * 3);
}
int nat_init(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
{
    KOS_DECLARE_STATIC_CONST_STRING(str_x, "x");
    static const KOS_CONVERT args[2] = {KOS_DEFINE_MANDATORY_ARG(str_x), KOS_DEFINE_TAIL_ARG()};
    int error = KOS_SUCCESS;
    KOS_LOCAL module;
    KOS_init_local_with(ctx, &module, module_obj);
    TRY_ADD_FUNCTION(ctx, module.o, "natmul", nat_mul, args);
    TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "natval", 4711);
cleanup:
    KOS_destroy_top_local(ctx, &module);
    return error;
}
unsigned flags_needs(void) { return 1; }
unsigned flags_opt(void) { return 0; }

// ---- source text
S file_of(const Mod &m) { return fmt("%s/m%d.kos", dirs[m.dir], m.id); }
S lib_of(const Mod &m) { return fmt("%s/m%d.so", dirs[m.dir], m.id); }
S ref(int style, int k, const char *what) { return style ? fmt("%s%d", what, k) : fmt("m%d.%s%d", k, what, k); }
S source(const Mod &m)
{
    if (m.kind == SYNTAX && m.style_seed % 3 == 0) return "import sim\nfun broken( { }\n";
    S s = "import sim\n";
    if (m.style_seed & 1) s = "import base.*\n" + s;
    for (size_t i = 0; i < m.deps.size(); i++) {
        const int k = m.deps[i];
        if ((*mods)[k].native == PURE || m.styles[i] == 0) s += fmt("import m%d\n", k);
        else if (m.styles[i] == 1) s += fmt("import m%d.v%d\nimport m%d.f%d\n", k, k, k, k);
        else s += fmt("import m%d.*\n", k);
    }
    if (m.kind == MISSDEP) s += fmt("import nope%d\n", m.id);
    if (m.kind == CIRC) s += fmt("import m%d\n", m.circ);
    s += fmt("sim.data(%d, 1, 0)\npublic var c%d = 0\n", m.id, m.id);
    s += fmt("public const v%d = %ld", m.id, (long)m.k);
    for (size_t i = 0; i < m.deps.size(); i++)
        s += (*mods)[m.deps[i]].native == PURE ? fmt(" + m%d.natval", m.deps[i]) : " + " + ref(m.styles[i], m.deps[i], "v");
    s += "\n";
    s += fmt("public fun f%d(x) {\n    return x * %ld", m.id, (long)m.k2);
    for (size_t i = 0; i < m.deps.size() && i < 2; i++)
        s += (*mods)[m.deps[i]].native == PURE ? fmt(" + m%d.natmul(x)", m.deps[i]) : " + " + ref(m.styles[i], m.deps[i], "f") + "(x)";
    s += "\n}\n";
    s += fmt("public fun inc%d() {\n    c%d += 1\n    return c%d\n}\n", m.id, m.id, m.id);
    s += fmt("public class cls%d {\n    constructor(a) { this.a = a }\n    fun get() { return this.a + v%d }\n}\n", m.id, m.id);
    if (m.style_seed & 2) s += fmt("const tab%d = [\"alpha%d\", 1.5, %d, { key%d: \"value\", b: [1, 2, 3] }, \"zażółć\"]\npublic fun tabsize%d() { return tab%d.size }\n", m.id, m.id, 1000000007 + m.id, m.id, m.id, m.id);
    if (m.style_seed & 4) s += fmt("fun gen%d(n) {\n    var i = 0\n    while i < n {\n        yield i\n        i += 1\n    }\n}\nvar sum%d = 0\nfor const x in gen%d(4) { sum%d += x }\nassert sum%d == 6\n", m.id, m.id, m.id, m.id, m.id);
    if (m.native == BOTH || m.native == BOTH_OPT) s += "assert natmul(5) == 15\nassert natval == 4711\n";
    if (m.kind == SYNTAX) s += m.style_seed % 3 == 1 ? "const = 4\n" : "const unterminated = \"abc\n";
    if (m.kind == COMPILE) s += fmt("const w = undeclared%d + 1\n", m.id);
    if (m.kind == THROW) s += fmt("throw \"boom%d\"\n", m.id);
    s += fmt("sim.data(%d, 2, 0)\n", m.id);
    return s;
}
void write_mod(const Mod &m)
{
    for (const S &f : {file_of(m), lib_of(m)}) if (fs_lookup(f)) fs_remove(f);
    if (m.kind == MISSING) return;
    if (m.native != PURE) fs_mkfile(file_of(m), source(m));
    if (m.native != NONE) {
        const char *set = m.native == BOTH ? (m.style_seed & 1 ? "needs" : "plain") : "opt";
        fs_mkfile(lib_of(m), m.kind == BADNATIVE ? S("garbage") : m.kind == NOINIT ? S("native:noinit") : fmt("native:%s", set));
    }
}
int64_t value(const Mod &m)
{
    if (m.native == PURE) return 4711;
    int64_t v = m.k;
    for (int d : m.deps) v += value((*mods)[d]);
    return v;
}
int64_t fval(const Mod &m, int64_t x)
{
    if (m.native == PURE) return x * 3;
    int64_t v = x * m.k2;
    for (size_t i = 0; i < m.deps.size() && i < 2; i++) v += fval((*mods)[m.deps[i]], x);
    return v;
}

// ---- reference model of an import; appends the expected events; returns the expected error ("" = none)
S model_import(int id, std::vector<int> &chain, std::vector<std::pair<int, int>> &ev)
{
    Mod &m = (*mods)[id];
    for (int c : chain) if (c == id) return fmt("circular dependencies detected for module \"m%d\"", id);
    if (m.loaded) return "";
    switch (m.kind) {
        case MISSING: return fmt("module \"m%d\" not found", id);
        case BADNATIVE: return "failed to load module native code from";
        case NOINIT: return "failed to get init_kos_module function from";
        case SYNTAX: return fmt("m%d.kos:", id);
        default: break;
    }
    if (m.native == PURE) { m.loaded = true; m.count = 0; return ""; }
    chain.push_back(id);
    for (int d : m.deps) {
        const S e = model_import(d, chain, ev);
        if (!e.empty()) { chain.pop_back(); return e; }
    }
    S e;
    if (m.kind == MISSDEP) e = fmt("module \"nope%d\" not found", id);
    if (m.kind == CIRC) {
        e = model_import(m.circ, chain, ev);
        if (e.empty()) e = "?";
    }
    chain.pop_back();
    if (!e.empty()) return e;
    if (m.kind == COMPILE) return fmt("m%d.kos:", id);
    ev.push_back({id, 1});
    if (m.kind == THROW) return fmt("boom%d", id);
    ev.push_back({id, 2});
    m.loaded = true;
    m.count = 0;
    return "";
}

bool was_hit()
{
    for (int k = 0; k < F_COUNT; k++) if (res->faults[k] && k != F_CAS_WEAK && k != F_SPURIOUS_WAKE && k != F_GC_PRESSURE && k != F_STALL && k != F_SLOW_IO && k != F_SHORT_IO) return true;
    return false;
}
void arm(Rng &r, int level)
{
    if (level == 2) {
        knobs.rate[F_MALLOC] = r.pick(std::vector<int>{60, 400, 3000, 12000});
        knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 5);
    } else if (level == 1)
        for (FaultKind k : {F_OPEN_FAIL, F_MMAP_FAIL, F_SYSCALL_FAIL}) if (r.chance(2, 3)) {
            knobs.rate[k] = r.pick(std::vector<int>{2000, 6000, 15000});
            knobs.burst_limit[k] = (uint32_t)r.range(1, 4);
        }
}
void world(Rng &r, bool faulty, int n, int defects)
{
    mods = new std::vector<Mod>(n);
    static const Kind pick[] = {SYNTAX, COMPILE, THROW, MISSING, MISSDEP, CIRC, BADNATIVE, NOINIT};
    for (int i = n - 1; i >= 0; i--) {
        Mod &m = (*mods)[i];
        m.id = i;
        m.dir = (int)r.below(3);
        m.style_seed = (int)r.below(64);
        m.k = r.range(1, 1000000); m.k2 = r.range(1, 50);
        if (r.chance(1, 5)) m.native = i > n / 2 && r.chance(1, 2) ? PURE : r.chance(1, 2) ? BOTH : BOTH_OPT;
        if (m.native != PURE)
            for (int j = i + 1; j < n; j++) if (r.chance(i == 0 ? 2 : 1, 3) && m.deps.size() < 4) {
                m.deps.push_back(j);
                m.styles.push_back((int)r.below(3));
            }
        for (size_t i2 = 0; i2 < m.deps.size(); i2++) if ((*mods)[m.deps[i2]].native != NONE && m.styles[i2] == 2) m.styles[i2] = 0;
        for (size_t a = m.deps.size(); a > 1; a--) { size_t b = r.below(a); std::swap(m.deps[a - 1], m.deps[b]); std::swap(m.styles[a - 1], m.styles[b]); }
        m.circ = (int)r.below(i + 1);
    }
    for (int d = 0; d < defects; d++) {
        Mod &m = (*mods)[r.below(n)];
        Kind k = pick[r.below(sizeof pick / sizeof *pick)];
        if (m.native == PURE && k != MISSING && k != BADNATIVE && k != NOINIT) k = MISSING;
        if (m.native == NONE && (k == BADNATIVE || k == NOINIT)) k = THROW;
        m.kind = k;
    }
    // an import of CIRC needs the other module to lead back; make it depend on itself otherwise
    for (Mod &m : *mods) if (m.kind == CIRC) {
        bool leads = m.circ == m.id;
        std::vector<int> todo{m.circ}; std::set<int> seen;
        while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; if (x == m.id) leads = true; for (int d : (*mods)[x].deps) todo.push_back(d); }
        if (!leads) m.circ = m.id;
    }
    for (Mod &m : *mods) write_mod(m);
    if (!faulty)   // the same name further down the search path must not matter
        for (Mod &m : *mods) if (m.dir == 0 && m.kind != MISSING && m.native != PURE && r.chance(1, 3)) fs_mkfile(fmt("/lib/b/m%d.kos", m.id), "throw \"wrong file\"\n");
}
void setup()
{
    ep0 = mem_epoch();
    setup_script();
    for (const char *d : dirs) if (!fs_lookup(d)) fs_mkdir(d);
    for (int i = 0; i < 2; i++) if (KOS_instance_add_path(mctx, dirs[i])) harness_error("add_path");
    for (const char *s : {"needs", "plain", "opt"}) native_symbols[S(s) + ".init_kos_module"] = (void *)nat_init;
    native_symbols["needs.get_kos_module_flags"] = (void *)flags_needs;
    native_symbols["opt.get_kos_module_flags"] = (void *)flags_opt;
    native_symbols["noinit.get_kos_module_flags"] = (void *)flags_needs;
}
S step_script(int id, int how)
{
    const Mod &m = (*mods)[id];
    if (m.native == PURE)
        return fmt("import sim\nimport m%d\nsim.data(%d, 3, m%d.natval)\nsim.data(%d, 4, m%d.natmul(7))\n", id, id, id, id, id);
    if (how == 0)
        return fmt("import sim\nimport m%d\nsim.data(%d, 3, m%d.v%d)\nsim.data(%d, 4, m%d.f%d(7))\nsim.data(%d, 5, m%d.inc%d())\nconst o = m%d.cls%d(11)\nsim.data(%d, 6, o.get())\n",
                   id, id, id, id, id, id, id, id, id, id, id, id, id);
    return fmt("import m%d.*\nimport sim\nsim.data(%d, 3, v%d)\nsim.data(%d, 4, f%d(7))\nsim.data(%d, 5, inc%d())\nconst o = cls%d(11)\nsim.data(%d, 6, o.get())\n",
               id, id, id, id, id, id, id, id, id);
}
S esc(const S &s)
{
    S o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; }
    return o;
}
int step_no;
bool exec_step(const std::vector<int> &ids, int mode, int how, S *err)
{
    S src;
    // imports have to come first: one script per module unless there is one
    step_no++;
    for (int id : ids) {
        src = step_script(id, how);
        int e;
        if (mode == 0) e = run_script(mctx, fmt("s%d_%d", step_no, id).c_str(), src, err, false);
        else if (mode == 1) {
            KOS_OBJ_ID r = KOS_repl(mctx, "", KOS_RUN_TEMPORARY, nullptr, src.c_str(), (unsigned)src.size());
            e = IS_BAD_PTR(r);
            if (e) *err = exc_text(mctx);
        } else {
            const S w = "import kos\nfun g() {\n    try { kos.execute(\"" + esc(src) + "\"" + (mode == 3 ? fmt(", \"m%d\", false", id) : S(", void, false")) + ") }\n    catch const e { throw e }\n}\ng()\n";
            KOS_OBJ_ID r = KOS_repl(mctx, "", KOS_RUN_TEMPORARY, nullptr, w.c_str(), (unsigned)w.size());
            e = IS_BAD_PTR(r);
            if (e) *err = exc_text(mctx);
        }
        if (KOS_is_exception_pending(mctx)) violation("module:exception-left", "an exception is pending after step %d which %s", step_no, e ? "failed" : "succeeded");
        if (e) return false;
    }
    return true;
}
S show(const Blob &b) { return fmt("m%ld.%d=%s", (long)b.id, b.tag, b.data.c_str()); }

void run_mods(int level)
{
    Rng &r = wrng();
    knobs_concurrency(r.chance(1, 2));
    knobs.max_steps = 100000000;
    const int n = (int)r.range(2, 8);
    world(r, level, n, r.chance(1, 3) ? 0 : (int)r.range(1, 3));
    blobs = new std::vector<Blob>;
    if (tracing) for (Mod &m : *mods) trace("module m%d: %s, native %d\n%s", m.id, kind_names[m.kind], m.native, source(m).c_str());
    begin_run();
    end_faults();
    const unsigned ng = r.range(0, 4), gap = 1u << r.range(8, 14);
    if (ng) start_gc_injector(ng, gap);
    const bool bg = r.chance(1, 3);
    if (bg) {
        S e;
        if (run_script(mctx, "bg", "import base.*\nimport sim\nfun w() {\n    var n = 0\n    while ! sim.flag() && n < 3000 {\n        const a = []\n        for const i in range(20) { a.push({ x: i, s: \"\\(i)\" }) }\n        assert a[7].s == \"7\"\n        n += 1\n        sim.nap(100)\n    }\n}\nasync w()\n", &e, false))
            violation("module:unexpected-exception", "background thread: %s", e.c_str());
    }
    const unsigned paths0 = KOS_get_array_size(inst->modules.search_paths);
    const int steps = (int)r.range(3, 10);
    int successes = 0;
    for (int st = 0; st < steps; st++) {
        // repair or break something
        if (st && r.chance(1, 3)) {
            std::vector<int> bad;
            for (Mod &m : *mods) if (m.kind != OK) bad.push_back(m.id);
            if (!bad.empty()) {
                Mod &m = (*mods)[bad[r.below(bad.size())]];
                m.kind = OK;
                write_mod(m);
                trace("module m%d is repaired", m.id);
            }
        }
        const bool faulty = level && r.chance(2, 3);
        std::vector<int> ids;
        const int k = r.chance(1, 4) ? 2 : 1;
        for (int i = 0; i < k; i++) ids.push_back((int)r.below(r.chance(1, 2) ? std::min(n, 2) : n));
        const int mode = (int)r.below(4), how = (int)r.below(2);
        const size_t at = blobs->size();
        S err;
        trace("step %d: import m%d%s mode %d faulty %d", step_no + 1, ids[0], ids.size() > 1 ? " and another" : "", mode, faulty);
        if (faulty) { arm(r, level); resume_faults(); }
        uint64_t f0 = 0, f1 = 0;
        for (int i = 0; i < F_COUNT; i++) if (i != F_CAS_WEAK && i != F_SPURIOUS_WAKE && i != F_GC_PRESSURE && i != F_STALL && i != F_SLOW_IO) f0 += res->faults[i];
        const bool ok = exec_step(ids, mode, how, &err);
        for (int i = 0; i < F_COUNT; i++) if (i != F_CAS_WEAK && i != F_SPURIOUS_WAKE && i != F_GC_PRESSURE && i != F_STALL && i != F_SLOW_IO) f1 += res->faults[i];
        if (faulty) { end_faults(); for (int i = 0; i < F_COUNT; i++) if (i != F_CAS_WEAK && i != F_SPURIOUS_WAKE && i != F_GC_PRESSURE && i != F_STALL && i != F_SLOW_IO) knobs.rate[i] = 0; }
        const bool hit = f1 != f0;
        trace("step %d: %s %s, hit %d", step_no, ok ? "ok" : "failed:", err.c_str(), hit);
        successes += ok;
        std::vector<Mod> before = *mods;
        // what happens without faults
        std::vector<std::pair<int, int>> ev;
        std::vector<S> exp;
        S exp_err;
        for (int id : ids) {
            std::vector<int> chain;
            ev.clear();
            exp_err = model_import(id, chain, ev);
            if (exp_err == "?") harness_error("circular import which is not circular");
            for (auto &p : ev) exp.push_back(fmt("m%d.%d=0", p.first, p.second));
            if (!exp_err.empty()) break;
            Mod &m = (*mods)[id];
            exp.push_back(fmt("m%d.3=%ld", id, (long)value(m)));
            exp.push_back(fmt("m%d.4=%ld", id, (long)fval(m, 7)));
            if (m.native != PURE) {
                ++m.count;
                if (m.unsure) for (size_t i = at; i < blobs->size(); i++) if ((*blobs)[i].id == id && (*blobs)[i].tag == 5) {
                    if ((*blobs)[i].data == std::to_string(m.count + 1)) ++m.count;
                    m.unsure = false;
                }
                exp.push_back(fmt("m%d.5=%ld", id, (long)m.count));
                exp.push_back(fmt("m%d.6=%ld", id, (long)(11 + value(m))));
            }
        }
        std::vector<S> got;
        for (size_t i = at; i < blobs->size(); i++) got.push_back(show((*blobs)[i]));
        S gs, es;
        for (auto &x : got) gs += " " + x;
        for (auto &x : exp) es += " " + x;
        const S where = fmt("step %d (m%d, mode %d)", step_no, ids[0], mode);
        if (!hit || ok) {
            if (got != exp) violation("module:wrong-events", "%s: happened:%s; expected:%s%s%s", where.c_str(), gs.c_str(), es.c_str(), err.empty() ? "" : "; raised ", err.c_str());
            if (ok != exp_err.empty()) violation("module:wrong-outcome", "%s: %s%s, expected %s", where.c_str(), ok ? "succeeded" : "raised ", err.c_str(), exp_err.empty() ? "success" : exp_err.c_str());
            if (!ok && err.find(exp_err) == S::npos) violation("module:wrong-exception", "%s: raised '%s' instead of '%s'", where.c_str(), err.c_str(), exp_err.c_str());
        } else {
            // disturbed and failed: what happened must be the beginning of what should happen
            if (got.size() > exp.size() || !std::equal(got.begin(), got.end(), exp.begin()))
                violation("module:wrong-events", "%s, which failed with '%s': happened:%s; expected the beginning of:%s", where.c_str(), err.c_str(), gs.c_str(), es.c_str());
            static const char *const known[] = {"out of memory", "unable to load file", "not found", "failed to load module native code", "failed to get init_kos_module"};
            bool fine = !exp_err.empty() && err.find(exp_err) != S::npos;
            for (const char *x : known) fine = fine || err.find(x) != S::npos;
            if (!fine) violation("module:wrong-exception", "%s: raised '%s'", where.c_str(), err.c_str());
            // what was initialised stays
            *mods = before;
            for (size_t i = at; i < blobs->size(); i++) {
                const Blob &b = (*blobs)[i];
                Mod &m = (*mods)[b.id];
                if (b.tag == 2) { m.loaded = true; m.count = 0; m.unsure = false; }
                if (b.tag == 4) m.unsure = m.native != PURE;
                if (b.tag == 5) { m.count = atoll(b.data.c_str()); m.unsure = false; }
                if (b.tag == 3 && m.native == PURE) m.loaded = true;
            }
        }
        if (r.chance(1, 6)) gc_poke();
    }
    stop_injector();
    if (KOS_get_array_size(inst->modules.search_paths) > paths0 + 1)
        violation("module:search-paths", "there are %u search paths after %d steps, at first there were %u", KOS_get_array_size(inst->modules.search_paths), step_no, paths0);
    script_flag = true;
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    res->custom[0] += successes;
    res->custom[1] += steps;
    KOS_instance_destroy(inst);
    sim_dealloc(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    if (open_files()) violation("leak:FILE", "%d FILE objects left open", open_files());
    if (open_libs()) violation("leak:lib", "%d shared libraries left open", open_libs());
    check_all_released(ep0, "after importing modules");
}
// Several threads execute scripts which import modules.  fresh: modules which have not been imported before.
void run_par(int level, bool fresh)
{
    Rng &r = wrng();
    knobs_concurrency(r.chance(1, 2));
    knobs.max_steps = 100000000;
    const int n = (int)r.range(2, 6);
    world(r, true, n, 0);
    if (!fresh) for (Mod &m : *mods) if (m.deps.empty() && r.chance(1, 5)) {
        bool used = false;
        for (Mod &o : *mods) for (int d : o.deps) used = used || d == m.id;
        if (!used) { m.kind = r.chance(1, 2) || m.native == PURE ? MISSING : SYNTAX; write_mod(m); }
    }
    blobs = new std::vector<Blob>;
    blob_table = new std::vector<S>;
    if (tracing) for (Mod &m : *mods) trace("module m%d: %s, native %d\n%s", m.id, kind_names[m.kind], m.native, source(m).c_str());
    begin_run();
    end_faults();
    S err;
    if (!fresh)
        for (Mod &m : *mods) if (m.kind == OK) {
            std::vector<int> ids{m.id};
            if (!exec_step(ids, (int)r.below(3), 0, &err)) violation("module:unexpected-exception", "importing m%d: %s", m.id, err.c_str());
        }
    blobs->clear();
    const int nt = (int)r.range(2, 4);
    const bool base = r.chance(1, 2);
    S src = "import base.*\nimport kos\nimport sim\nfun ex(e) { if typeof e == \"string\" { return e }; return e.value }\n";
    std::vector<std::vector<int>> plan(nt);
    for (int t = 0; t < nt; t++) {
        src += fmt("fun w%d {\n", t);
        const int k = (int)r.range(1, 4);
        for (int i = 0; i < k; i++) {
            const int id = (int)r.below(n), tag = 100000 + t * 1000 + i;
            plan[t].push_back(id);
            const Mod &m = (*mods)[id];
            S sc = fmt("import sim\nimport m%d\n", id);
            if (m.native == PURE) sc += fmt("sim.data(%d, 3, m%d.natval)\nsim.data(%d, 4, m%d.natmul(9))\n", tag, id, tag, id);
            else sc += fmt("sim.data(%d, 3, m%d.v%d)\nsim.data(%d, 4, m%d.f%d(9))\nm%d.cls%d.mark%d = %d\n", tag, id, id, tag, id, id, id, id, tag, tag);
            blob_table->push_back(sc);
            src += fmt("    try { kos.execute(sim.%s(%zu), void, %s); sim.data(%d, 7, 0) } catch const e { sim.data(%d, 8, ex(e)) }\n",
                       r.chance(1, 3) ? "blob" : "text", blob_table->size() - 1, base ? "true" : "false", tag, tag);
        }
        src += "}\n";
    }
    src += "sim.fault(1)\nconst ts = []\n";
    for (int t = 1; t < nt; t++) src += fmt("ts.push(async w%d())\n", t);
    src += "w0()\nfor const t in ts { t.wait() }\n";
    if (level) arm(r, level);
    end_faults();
    const unsigned ng = r.range(0, 4), gap = 1u << r.range(8, 14);
    if (ng) start_gc_injector(ng, gap);
    const bool fail = run_script(mctx, "m", src, &err, false);
    stop_injector();
    end_faults();
    for (int i = 0; i < F_COUNT; i++) if (i != F_CAS_WEAK && i != F_SPURIOUS_WAKE && i != F_GC_PRESSURE && i != F_STALL && i != F_SLOW_IO) knobs.rate[i] = 0;
    KOS_suspend_context(mctx);
    wait_until([] { return live_kos_threads() == 0; }, "threads of the program to end");
    KOS_resume_context(mctx);
    res->gcs += gc_count();
    const bool hit = was_hit();
    if (fail && !hit) violation("module:unexpected-exception", "the program ended with %s", err.c_str());
    std::map<int, int> ran;
    std::map<int64_t, std::map<int, S>> got;
    for (auto &b : *blobs) {
        if (b.id < 1000) { if (b.tag == 2) ran[(int)b.id]++; continue; }
        got[b.id][b.tag] = b.data;
    }
    for (auto &x : ran) {
        if (!fresh) violation("module:wrong-events", "module m%d was executed again", x.first);
        if (x.second > 1) violation("module:loaded-twice", "module m%d was executed %d times", x.first, x.second);
    }
    for (int t = 0; t < nt; t++) for (size_t i = 0; i < plan[t].size(); i++) {
        const int64_t tag = 100000 + t * 1000 + (int)i;
        const Mod &m = (*mods)[plan[t][i]];
        auto &g = got[tag];
        if (g.count(8)) {
            const S e = m.kind == MISSING ? fmt("module \"m%d\" not found", m.id) : m.kind == SYNTAX ? fmt("m%d.kos:", m.id) : "?";
            if (g[8].find(e) == S::npos && !hit) violation(m.kind == OK && fresh ? "module:half-initialised" : "module:wrong-exception", "thread %d raised '%s' on importing m%d (%s)", t, g[8].c_str(), m.id, kind_names[m.kind]);
            continue;
        }
        if (!g.count(7)) { if (!hit) violation("module:wrong-events", "thread %d did not finish importing m%d", t, m.id); continue; }
        if (m.kind != OK) violation("module:wrong-outcome", "thread %d imported m%d (%s)", t, m.id, kind_names[m.kind]);
        if (g[3] != std::to_string(value(m)) || g[4] != std::to_string(fval(m, 9)))
            violation(fresh ? "module:half-initialised" : "module:wrong-value", "thread %d got %s and %s from m%d instead of %ld and %ld", t, g[3].c_str(), g[4].c_str(), m.id, (long)value(m), (long)fval(m, 9));
    }
    // everybody must have used the same module: all the marks are there
    for (int t = 0; t < nt; t++) for (size_t i = 0; i < plan[t].size(); i++) {
        const int tag = 100000 + t * 1000 + (int)i;
        const Mod &m = (*mods)[plan[t][i]];
        if (m.kind != OK || m.native == PURE || !got[tag].count(7)) continue;
        const S c = fmt("import m%d\nassert m%d.cls%d.mark%d == %d\n", m.id, m.id, m.id, tag, tag);
        KOS_OBJ_ID x = KOS_repl(mctx, "", KOS_RUN_TEMPORARY, nullptr, c.c_str(), (unsigned)c.size());
        if (IS_BAD_PTR(x)) { err = exc_text(mctx); violation(fresh ? "module:loaded-twice" : "module:not-same", "what thread %d stored in m%d is not there: %s", t, m.id, err.c_str()); }
    }
    KOS_instance_destroy(inst);
    sim_dealloc(inst);
    flush_std();
    if (open_fds() != 3) violation("leak:fd", "descriptors left open: %s", describe_fds().c_str());
    if (open_libs()) violation("leak:lib", "%d shared libraries left open", open_libs());
    check_all_released(ep0, "after importing modules");
}
void run_mods_par() { run_par(0, false); }
void run_mods_par_oom() { run_par(2, false); }
void run_mods_fresh() { run_par(0, true); }
SCENARIO("mods_par", setup, run_mods_par);
SCENARIO("mods_par_oom", setup, run_mods_par_oom);
SCENARIO("mods_fresh", setup, run_mods_fresh);
void run_mods0() { run_mods(0); }
void run_mods1() { run_mods(1); }
void run_mods2() { run_mods(2); }
SCENARIO("mods", setup, run_mods0);
SCENARIO("mods_faults", setup, run_mods1);
SCENARIO("mods_oom", setup, run_mods2);
} // namespace
