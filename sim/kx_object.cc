// P01: properties of one shared object are linearizable per key, also while the object grows.
#include "kosutil.h"
using namespace kx;

enum { O_SET, O_GET, O_DEL };
static const int64_t ABSENT = -1;

struct Ctx01 {
    KOS_LOCAL obj;
    std::vector<KOS_LOCAL *> keys;
    std::vector<LOp> hist[64];
    int nkeys;
    bool oom;
};
static Ctx01 *g;

struct Planned { int op, key; int64_t val; bool fresh, boxed; };

// values are unique per write; decode() maps the object read back to the number
static KOS_OBJ_ID encode(KOS_CONTEXT ctx, int64_t v, bool boxed)
{
    return boxed ? KOS_new_int(ctx, (int64_t)0x4000000000000000ll + v) : TO_SMALL_INT((int)v);
}
static int64_t decode(KOS_OBJ_ID o)
{
    if (IS_SMALL_INT(o)) return GET_SMALL_INT(o);
    if (GET_OBJ_TYPE(o) == OBJ_INTEGER) return OBJPTR(INTEGER, o)->value - (int64_t)0x4000000000000000ll;
    violation("object:corrupt-value", "property holds an object of unexpected type %d", (int)GET_OBJ_TYPE(o));
}
static KOS_OBJ_ID make_key(KOS_CONTEXT ctx, int k)
{
    char b[64];
    // some keys are long to take the paths which copy strings
    snprintf(b, sizeof b, k % 3 ? "k%d" : "a_rather_long_property_name_%d", k);
    return KOS_new_cstring(ctx, b);
}

static void do_op(KOS_CONTEXT ctx, KOS_LOCAL *obj, const Planned &p)
{
    KOS_LOCAL key, val;
    KOS_init_local(ctx, &key);
    KOS_init_local(ctx, &val);
    key.o = p.fresh ? make_key(ctx, p.key) : g->keys[p.key]->o;
    if (IS_BAD_PTR(key.o)) { KOS_clear_exception(ctx); KOS_destroy_top_locals(ctx, &val, &key); return; }
    LOp o; o.tid = self(); o.op = p.op; o.a = p.val; o.b = p.key; o.ret = 0;
    bool skip = false;
    if (p.op == O_SET) {
        val.o = encode(ctx, p.val, p.boxed);
        if (IS_BAD_PTR(val.o)) { KOS_clear_exception(ctx); KOS_destroy_top_locals(ctx, &val, &key); return; }
        o.inv = tick();
        int e = KOS_set_property(ctx, obj->o, key.o, val.o);
        if (e) {
            std::string s = exc_text(ctx);
            if (!exc_is_oom(s)) violation("object:set-failed", "setting a property failed: %s", s.c_str());
            o.maybe = true; // a failed operation either took effect or did not
        }
    } else if (p.op == O_GET) {
        o.inv = tick();
        KOS_OBJ_ID r = KOS_get_property_shallow(ctx, obj->o, key.o);
        if (IS_BAD_PTR(r)) { std::string s = exc_text(ctx); if (exc_is_oom(s)) skip = true; o.ret = ABSENT; }
        else o.ret = decode(r);
    } else {
        o.inv = tick();
        int e = KOS_delete_property(ctx, obj->o, key.o);
        if (e) { std::string s = exc_text(ctx); if (!exc_is_oom(s)) violation("object:delete-failed", "deleting a property failed: %s", s.c_str()); o.maybe = true; }
    }
    o.resp = tick();
    res->ops++;
    if (!skip) { g->hist[p.key].push_back(o); trace("op %d key %d val %lld ret %lld", p.op, p.key, (long long)p.val, (long long)o.ret); }
    KOS_destroy_top_locals(ctx, &val, &key);
}

static bool model(std::vector<int64_t> &st, const LOp &o)
{
    switch (o.op) {
        case O_SET: st[0] = o.a; return true;
        case O_DEL: st[0] = ABSENT; return true;
        default: return st[0] == o.ret;
    }
}
static std::string show(const LOp &o)
{
    char b[64];
    snprintf(b, sizeof b, o.op == O_SET ? "set(%lld)" : o.op == O_DEL ? "del" : "get=%lld", (long long)(o.op == O_SET ? o.a : o.ret));
    return b;
}

static void run01(bool faults)
{
    Rng &r = wrng();
    g = new Ctx01();
    const int nthreads = r.range(2, 4);
    g->nkeys = r.pick(std::vector<int>{1, 2, 3, 5, 8, 12, 20});
    const int total = r.range(6, 40);
    const bool allow_del = r.chance(2, 3);
    const int fill = r.chance(1, 2) ? r.range(0, 12) : 0;   // pre-existing other keys
    const unsigned wget = r.range(0, 4), wset = r.range(1, 4), wdel = allow_del ? r.range(0, 3) : 0;
    KOS_init_local(mctx, &g->obj);
    g->obj.o = KOS_new_object(mctx);
    for (int k = 0; k < g->nkeys; k++) { KOS_LOCAL *l = new KOS_LOCAL(); KOS_init_local(mctx, l); l->o = make_key(mctx, k); g->keys.push_back(l); }
    for (int k = 0; k < fill; k++) { KOS_OBJ_ID key = make_key(mctx, 100 + k); KOS_set_property(mctx, g->obj.o, key, TO_SMALL_INT(7000 + k)); if (r.chance(1, 3)) { key = make_key(mctx, 100 + k); KOS_delete_property(mctx, g->obj.o, key); } }
    std::vector<std::vector<Planned>> plan(nthreads);
    int64_t uniq = 1;
    std::map<int, int> per_key;
    for (int i = 0; i < total; i++) {
        Planned p;
        const unsigned w = (unsigned)r.below(wget + wset + wdel);
        p.op = w < wset ? O_SET : w < wset + wget ? O_GET : O_DEL;
        p.key = (int)r.below(g->nkeys);
        p.val = uniq++;
        p.fresh = r.chance(1, 3);
        p.boxed = r.chance(1, 4);
        const int t = (int)r.below(nthreads);
        if (per_key[p.key]++ > 40) continue;
        if (op_enabled()) plan[t].push_back(p);
    }
    knobs_concurrency(true);
    if (faults) { knobs.rate[F_MALLOC] = 3000; knobs.burst_limit[F_MALLOC] = 3; }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 4), gap = r.range(50, 3000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *ops = &plan[i];
        t.push_back(start_worker([ops](KOS_CONTEXT ctx) {
            KOS_LOCAL obj;
            KOS_init_local_with(ctx, &obj, g->obj.o);
            for (auto &p : *ops) do_op(ctx, &obj, p);
            KOS_destroy_top_local(ctx, &obj);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    for (int k = 0; k < g->nkeys; k++) do_op(mctx, &g->obj, Planned{O_GET, k, 0, false, false});
    // enumeration sees exactly the properties which exist
    std::map<std::string, int> seen;
    {
        KOS_LOCAL it;
        KOS_init_local(mctx, &it);
        it.o = KOS_new_iterator(mctx, g->obj.o, KOS_SHALLOW);
        if (IS_BAD_PTR(it.o)) harness_error("iterator: %s", exc_text(mctx).c_str());
        for (;;) { int e = KOS_iterator_next(mctx, it.o); if (e) { KOS_clear_exception(mctx); break; } seen[to_str(mctx, KOS_get_walk_key(it.o))]++; }
        KOS_destroy_top_local(mctx, &it);
    }
    for (int k = 0; k < g->nkeys; k++) {
        auto &h = g->hist[k];
        if (h.empty()) continue;
        if (h.size() > 60) continue;
        if (!linearizable(h, {ABSENT}, model))
            violation("object:not-linearizable", "history of one property has no sequential explanation:%s", dump(h, show).c_str());
        const bool exists = h.back().ret != ABSENT;
        const std::string name = to_str(mctx, g->keys[k]->o);
        if (exists != (seen.count(name) == 1) || (exists && seen[name] != 1))
            violation("object:enumeration", "property %s %s but enumeration shows it %d times", name.c_str(), exists ? "exists" : "does not exist", seen.count(name) ? seen[name] : 0);
    }
    res->gcs += gc_count();
}
static void run_a() { run01(false); }
static void run_b() { run01(true); }
SCENARIO("object_lin", setup_bare, run_a);
SCENARIO("object_lin_oom", setup_bare, run_b);
