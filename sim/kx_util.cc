#include "kosutil.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <unordered_set>

namespace kx {

KOS_INSTANCE *inst;
KOS_CONTEXT   mctx;
static uint64_t g_tick;
uint64_t tick() { return ++g_tick; }

void make_instance(uint32_t flags, bool modules)
{
    if (!inst) inst = (KOS_INSTANCE *)sim_alloc(sizeof(KOS_INSTANCE), 64, false);
    int e = KOS_instance_init(inst, flags, &mctx);
    if (e) harness_error("KOS_instance_init failed: %d", e);
    if (modules) {
        e = KOS_modules_init(mctx);
        if (e) harness_error("KOS_modules_init failed: %d", e);
        e = KOS_instance_add_path(mctx, "/kos/modules");
        if (e) harness_error("KOS_instance_add_path failed: %d", e);
    }
}
void load_base()
{
    std::string err;
    if (run_script(mctx, "", "", &err)) harness_error("cannot load module base: %s", err.c_str());
}
void setup_bare() { make_instance(0, false); }
void setup_full()
{
    const char *r = getenv("KOS_REPO");
    fs_load_real_dir(std::string(r ? r : "/repo") + "/modules", "/kos/modules", ".kos");
    make_instance(0, true);
    load_base();
}
void setup_none()
{
    const char *r = getenv("KOS_REPO");
    fs_load_real_dir(std::string(r ? r : "/repo") + "/modules", "/kos/modules", ".kos");
}
void destroy_instance() { KOS_instance_destroy(inst); }

std::string to_str(KOS_CONTEXT ctx, KOS_OBJ_ID o)
{
    KOS_VECTOR v;
    KOS_vector_init(&v);
    std::string s;
    if (KOS_object_to_string_or_cstr_vec(ctx, o, KOS_DONT_QUOTE, nullptr, &v) == KOS_SUCCESS && v.size) s.assign(v.buffer, v.size - 1);
    else {
        s = "<unprintable>";
        if (tracing && KOS_is_exception_pending(ctx)) {
            KOS_OBJ_ID e = KOS_get_exception(ctx);
            KOS_clear_exception(ctx);
            trace("unprintable: exception type %d", IS_SMALL_INT(e) ? 0 : GET_OBJ_TYPE(e));
            KOS_OBJ_ID x = KOS_get_property(ctx, e, KOS_STR_VALUE);
            if (!IS_BAD_PTR(x)) trace("unprintable: value type %d %s", IS_SMALL_INT(x) ? 0 : GET_OBJ_TYPE(x), !IS_SMALL_INT(x) && GET_OBJ_TYPE(x) == OBJ_STRING ? to_str(ctx, x).c_str() : "");
        }
        KOS_clear_exception(ctx);
    }
    KOS_vector_destroy(&v);
    return s;
}

std::string exc_text(KOS_CONTEXT ctx)
{
    if (!KOS_is_exception_pending(ctx)) return "<none>";
    KOS_LOCAL exc;
    KOS_init_local_with(ctx, &exc, KOS_get_exception(ctx));
    KOS_clear_exception(ctx);
    std::string s;
    suppress_faults();
    KOS_OBJ_ID val = exc.o;
    if (GET_OBJ_TYPE(val) == OBJ_OBJECT) {
        KOS_OBJ_ID v = KOS_get_property(ctx, exc.o, KOS_STR_VALUE);
        if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); v = exc.o; if (tracing) trace("exception object without a value, type %d", GET_OBJ_TYPE(exc.o)); }
        val = v;
    }
    KOS_LOCAL k;
    KOS_init_local_with(ctx, &k, val);
    s = to_str(ctx, k.o);
    if (!IS_SMALL_INT(k.o) && GET_OBJ_TYPE(k.o) == OBJ_OBJECT) {
        KOS_OBJ_ID n = KOS_new_cstring(ctx, "description");
        KOS_OBJ_ID v = IS_BAD_PTR(n) ? n : KOS_get_property(ctx, k.o, n);
        if (IS_BAD_PTR(v)) KOS_clear_exception(ctx); else s += " " + to_str(ctx, v);
    }
    KOS_destroy_top_local(ctx, &k);
    unsuppress_faults();
    KOS_destroy_top_local(ctx, &exc);
    return s;
}
bool exc_is_oom(const std::string &s) { return s.find("out of memory") != std::string::npos; }

struct W { std::function<void(KOS_CONTEXT)> fn; };
static void *worker_main(void *arg)
{
    W *w = (W *)arg;
    KOS_THREAD_CONTEXT_S *c = (KOS_THREAD_CONTEXT_S *)sim_alloc(sizeof(KOS_THREAD_CONTEXT_S), 64, false);
    const bool f = faults_on();
    (void)f;
    int e = KOS_instance_register_thread(inst, c);
    if (!e) {
        w->fn(c);
        KOS_instance_unregister_thread(inst, c);
    }
    sim_dealloc(c);
    return nullptr;
}
int start_worker(const std::function<void(KOS_CONTEXT)> &fn, const char *name)
{
    return spawn_thread(worker_main, new W{fn}, name);
}
void join_workers(KOS_CONTEXT ctx, const std::vector<int> &tids)
{
    KOS_suspend_context(ctx);
    for (int t : tids) join_thread(t);
    KOS_resume_context(ctx);
}

// Field access tolerant of renames: no field, no pressure.
template <class H> static auto poke(H &h, int) -> decltype(h.gc_threshold = 0, void()) { h.gc_threshold = 0; }
template <class H> static void poke(H &, long) {}
template <class H> static auto lim(H &h, uint32_t v, int) -> decltype(h.max_heap_size = v, void()) { h.max_heap_size = v; if (h.gc_threshold > v / 4 * 3) h.gc_threshold = v / 4 * 3; }
template <class H> static void lim(H &, uint32_t, long) {}
template <class H> static auto getlim(H &h, int) -> decltype((uint32_t)h.max_heap_size) { return h.max_heap_size; }
template <class H> static uint32_t getlim(H &, long) { return 64u << 20; }
template <class H> static auto cyc(H &h, int) -> decltype((uint32_t)h.gc_cycles) { return h.gc_cycles; }
template <class H> static uint32_t cyc(H &, long) { return 0; }
template <class H> static auto mlim(H &h, uint32_t v, int) -> decltype(h.max_malloc_size = v, void()) { h.max_malloc_size = v; }
template <class H> static void mlim(H &, uint32_t, long) {}
template <class H> static auto freeb(H &h, int) -> decltype((uint32_t)(h.heap_size - h.used_heap_size)) { return h.heap_size - h.used_heap_size; }
template <class H> static uint32_t freeb(H &, long) { return 0; }
void set_malloc_limit(uint32_t b) { mlim(inst->heap, b, 0); }
uint32_t heap_free_bytes() { return freeb(inst->heap, 0); }
void gc_poke() { poke(inst->heap, 0); }
void set_heap_limit(uint32_t b) { lim(inst->heap, b, 0); }
uint32_t heap_limit() { return getlim(inst->heap, 0); }
uint32_t gc_count() { return cyc(inst->heap, 0); }

static bool inj_stop;
static int inj_tid = -1;
static unsigned inj_n, inj_gap, inj_mode;
static void *inj_main(void *)
{
    Rng r(mix(spec.seed, 77));
    KOS_THREAD_CONTEXT_S *c = nullptr;
    if (inj_mode) {
        c = (KOS_THREAD_CONTEXT_S *)sim_alloc(sizeof(KOS_THREAD_CONTEXT_S), 64, false);
        suppress_faults();
        int e = KOS_instance_register_thread(inst, c);
        unsuppress_faults();
        if (e) { sim_dealloc(c); c = nullptr; }
        else KOS_suspend_context(c);
    }
    for (unsigned i = 0; i < inj_n && !inj_stop; i++) {
        if (!op_enabled()) continue;
        const uint64_t until = step() + 1 + r.below(2 * inj_gap);
        const uint64_t dl = now_ns() + 25 * (1 + r.below(2 * inj_gap));
        wait_until([until] { return inj_stop || step() >= until; }, "injector", false, dl);
        if (inj_stop) break;
        if (c) {
            KOS_resume_context(c);
            if (KOS_collect_garbage(c, nullptr)) KOS_clear_exception(c);
            KOS_suspend_context(c);
        } else
            gc_poke();
        event_hash(0x6C00000 + i);
        res->faults[F_GC_PRESSURE]++;
    }
    if (c) {
        KOS_resume_context(c);
        KOS_instance_unregister_thread(inst, c);
        sim_dealloc(c);
    }
    return nullptr;
}
void start_gc_injector(unsigned n, unsigned gap)
{
    inj_n = n; inj_gap = gap; inj_stop = false;
    inj_mode = (unsigned)wrng().below(3);
    inj_tid = spawn_thread(inj_main, nullptr, "injector");
    mark_harness_thread(inj_tid);
}
void stop_injector()
{
    if (inj_tid < 0) return;
    inj_stop = true;
    KOS_suspend_context(mctx);
    join_thread(inj_tid);
    KOS_resume_context(mctx);
    inj_tid = -1;
}

int run_script(KOS_CONTEXT ctx, const char *name, const std::string &src, std::string *err, bool import_base)
{
    KOS_OBJ_ID mod = KOS_BADPTR;
    KOS_LOCAL m;
    KOS_init_local(ctx, &m);
    int e = KOS_SUCCESS;
    KOS_OBJ_ID r;
    if (import_base) r = KOS_repl(ctx, name, KOS_IMPORT_BASE, &mod, src.c_str(), (unsigned)src.size());
    else {
        r = KOS_load_module_from_memory(ctx, name, (unsigned)strlen(name), src.c_str(), (unsigned)src.size());
        if (!IS_BAD_PTR(r)) r = KOS_run_module(ctx, r);
    }
    if (IS_BAD_PTR(r)) e = KOS_ERROR_EXCEPTION;
    KOS_destroy_top_local(ctx, &m);
    if (e && err) *err = KOS_is_exception_pending(ctx) ? exc_text(ctx) : "error " + std::to_string(e);
    return e;
}

void check_all_released(uint64_t ep, const char *when)
{
    if (size_t n = mem_live_blocks_since(ep))
        violation("leak:memory", "%zu blocks not released %s:%s", n, when, mem_describe_live(ep, 6).c_str());
    std::string s = sync_leaks();
    if (!s.empty()) violation("leak:sync", "synchronisation objects not released %s:%s", when, s.c_str());
}

void knobs_concurrency(bool plain)
{
    Rng &r = wrng();
    knobs.count_plain = plain && r.chance(1, 2);
    knobs.rate[F_CAS_WEAK] = r.chance(1, 2) ? 400 : 0;
    knobs.rate[F_SPURIOUS_WAKE] = r.chance(1, 2) ? 3000 : 0;
}

// ---------------------------------------------------------------- linearizability checker
bool linearizable(const std::vector<LOp> &h, const std::vector<int64_t> &init, const Model &m, size_t *explored)
{
    const size_t n = h.size();
    if (n > 60) harness_error("history too long for the linearizability checker (%zu)", n);
    std::set<std::pair<uint64_t, std::vector<int64_t>>> seen;
    struct F { uint64_t done; std::vector<int64_t> st; };
    std::vector<F> stack;
    stack.push_back({0, init});
    uint64_t must = 0;
    for (size_t i = 0; i < n; i++) if (!h[i].maybe) must |= 1ull << i;
    size_t cnt = 0;
    while (!stack.empty()) {
        F f = std::move(stack.back());
        stack.pop_back();
        if ((f.done & must) == must) { if (explored) *explored = cnt; return true; }
        if (!seen.insert({f.done, f.st}).second) continue;
        if (++cnt > 2000000) { if (explored) *explored = cnt; return true; } // give up: not a verdict of violation
        // earliest response among operations not yet linearised
        uint64_t minresp = ~0ull;
        for (size_t i = 0; i < n; i++) if (!(f.done >> i & 1) && !h[i].maybe) minresp = std::min(minresp, h[i].resp);
        for (size_t i = 0; i < n; i++) {
            if (f.done >> i & 1) continue;
            if (h[i].inv > minresp) continue;
            std::vector<int64_t> s = f.st;
            if (m(s, h[i])) stack.push_back({f.done | 1ull << i, std::move(s)});
        }
    }
    if (explored) *explored = cnt;
    return false;
}
std::string dump(const std::vector<LOp> &h, const std::function<std::string(const LOp &)> &f)
{
    std::vector<LOp> v = h;
    std::sort(v.begin(), v.end(), [](const LOp &a, const LOp &b) { return a.inv < b.inv; });
    std::string s;
    for (auto &o : v) { char b[64]; snprintf(b, sizeof b, " t%d[%llu,%llu]", o.tid, (unsigned long long)o.inv, (unsigned long long)o.resp); s += b; s += f(o) + (o.maybe ? "?" : ""); }
    return s;
}

} // namespace kx
