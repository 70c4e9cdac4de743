// P02: every element of a shared array is a linearizable register and pushes are exactly-once while the array grows.
// P03: any concurrent mix of container operations is memory safe and type safe.
#include "kosutil.h"
#include "inc/kos_array.h"
#include "inc/kos_buffer.h"
#include <set>
using namespace kx;

namespace {
enum { A_READ, A_WRITE, A_CAS, A_PUSH, A_RESERVE, A_SIZE };
const int64_t ABSENT = -1, VOIDV = -2;
const int64_t BOX = 0x4000000000000000ll;

struct Planned { int op; int idx; int64_t val; bool boxed; };
struct Ctx {
    KOS_LOCAL arr;
    std::map<int, std::vector<LOp>> hist;     // per slot
    std::vector<std::pair<uint32_t, int64_t>> pushed;
    int init_size;
    int push_ok;
};
Ctx *g;

KOS_OBJ_ID encode(KOS_CONTEXT ctx, int64_t v, bool boxed) { return boxed ? KOS_new_int(ctx, BOX + v) : TO_SMALL_INT((int)v); }
int64_t decode(KOS_OBJ_ID o)
{
    if (IS_BAD_PTR(o)) violation("array:bad-pointer", "an element read from a container is a null reference");
    if (IS_SMALL_INT(o)) return GET_SMALL_INT(o);
    const KOS_TYPE t = GET_OBJ_TYPE(o);
    if (t == OBJ_INTEGER) return OBJPTR(INTEGER, o)->value - BOX;
    if (t == OBJ_VOID) return VOIDV;
    violation("array:corrupt-element", "an element read from a container has unexpected type %d", (int)t);
}

void do_op(KOS_CONTEXT ctx, KOS_LOCAL *arr, const Planned &p, std::map<int, int64_t> &last)
{
    KOS_LOCAL val, old;
    KOS_init_local(ctx, &val);
    KOS_init_local(ctx, &old);
    LOp o; o.tid = self(); o.op = p.op; o.a = p.val; o.b = 0; o.ret = 0;
    std::string e;
    int slot = p.idx;
    bool skip = false;
    if (p.op == A_WRITE || p.op == A_CAS || p.op == A_PUSH) {
        val.o = encode(ctx, p.val, p.boxed);
        if (IS_BAD_PTR(val.o)) { KOS_clear_exception(ctx); KOS_destroy_top_locals(ctx, &old, &val); return; }
    }
    o.inv = tick();
    switch (p.op) {
        case A_READ: {
            KOS_OBJ_ID r = KOS_array_read(ctx, arr->o, p.idx);
            o.resp = tick();
            if (IS_BAD_PTR(r)) { e = exc_text(ctx); o.ret = ABSENT; }
            else { o.ret = decode(r); last[p.idx] = o.ret; }
            break;
        }
        case A_WRITE: {
            int rc = KOS_array_write(ctx, arr->o, p.idx, val.o);
            o.resp = tick();
            if (rc) { e = exc_text(ctx); o.ret = ABSENT; } else o.ret = 0;
            break;
        }
        case A_CAS: {
            // expected value: what this thread read last, by reference
            KOS_OBJ_ID cur = KOS_array_read(ctx, arr->o, p.idx);
            if (IS_BAD_PTR(cur)) { KOS_clear_exception(ctx); skip = true; break; }
            old.o = cur;
            o.b = decode(cur);
            pause_point();
            o.inv = tick();
            KOS_OBJ_ID r = KOS_array_cas(ctx, arr->o, p.idx, old.o, val.o);
            o.resp = tick();
            if (IS_BAD_PTR(r)) { e = exc_text(ctx); o.ret = ABSENT; }
            else {
                o.ret = decode(r);
            }
            break;
        }
        case A_PUSH: {
            uint32_t idx = ~0u;
            int rc = KOS_array_push(ctx, arr->o, val.o, &idx);
            o.resp = tick();
            if (rc) { std::string s = exc_text(ctx); if (!exc_is_oom(s)) violation("array:push-failed", "push failed: %s", s.c_str()); skip = true; }
            else { slot = (int)idx; g->pushed.push_back({idx, p.val}); g->push_ok++; }
            break;
        }
        case A_RESERVE: {
            int rc = KOS_array_reserve(ctx, arr->o, (uint32_t)p.idx);
            if (rc) { std::string s = exc_text(ctx); if (!exc_is_oom(s)) violation("array:reserve-failed", "reserve failed: %s", s.c_str()); }
            skip = true;
            break;
        }
        default: {
            const int before = g->push_ok;
            (void)before;
            const uint32_t sz = KOS_get_array_size(arr->o);
            if ((int)sz < g->init_size) violation("array:size", "array size %u is less than it ever was", sz);
            skip = true;
        }
    }
    if (!e.empty() && e.find("out of range") == std::string::npos && !exc_is_oom(e)) violation("array:unexpected-exception", "operation %d raised: %s", p.op, e.c_str());
    if (exc_is_oom(e)) skip = true;
    res->ops++;
    if (!skip) { g->hist[slot].push_back(o); trace("op %d slot %d val %lld b %lld ret %lld", p.op, slot, (long long)p.val, (long long)o.b, (long long)o.ret); }
    KOS_destroy_top_locals(ctx, &old, &val);
}

bool model(std::vector<int64_t> &st, const LOp &o)
{
    int64_t &s = st[0];
    switch (o.op) {
        case A_READ: return s == o.ret;
        case A_WRITE: if (o.ret == ABSENT) return s == ABSENT; if (s == ABSENT) return false; s = o.a; return true;
        case A_PUSH: if (s != ABSENT) return false; s = o.a; return true;
        case A_CAS:
            if (o.ret != s) return false;
            if (s == o.b) s = o.a;
            return true;
    }
    return true;
}
std::string show(const LOp &o)
{
    char b[96];
    const char *f[] = {"read=%3$lld", "write(%1$lld)=%3$lld", "cas(%2$lld->%1$lld)=%3$lld", "push(%1$lld)"};
    snprintf(b, sizeof b, f[o.op], (long long)o.a, (long long)o.b, (long long)o.ret);
    return b;
}

void run02(bool oom)
{
    Rng &r = wrng();
    g = new Ctx();
    const int nthreads = r.range(2, 4);
    const int total = r.range(6, 44);
    g->init_size = r.pick(std::vector<int>{0, 1, 2, 3, 4, 7, 12, 30, 60, 100});
    const unsigned w[6] = {(unsigned)r.range(1, 4), (unsigned)r.range(0, 4), (unsigned)r.range(0, 3), (unsigned)r.range(0, 5), r.chance(1, 3) ? 1u : 0u, 1};
    unsigned wt = 0; for (unsigned x : w) wt += x;
    KOS_init_local(mctx, &g->arr);
    g->arr.o = KOS_new_array(mctx, (uint32_t)g->init_size);
    if (IS_BAD_PTR(g->arr.o)) harness_error("no array");
    const int hot = r.range(1, 6);
    std::vector<std::vector<Planned>> plan(nthreads);
    int64_t uniq = 1;
    int pushes = 0;
    std::map<int, int> per;
    for (int i = 0; i < total; i++) {
        Planned p;
        unsigned x = (unsigned)r.below(wt), op = 0;
        while (x >= w[op]) x -= w[op++];
        p.op = (int)op; p.val = uniq++; p.boxed = r.chance(1, 4);
        // concentrate on a few slots near the end
        const int hi = g->init_size + pushes + 1;
        p.idx = r.chance(1, 2) ? (int)r.below(hi) : std::max(0, hi - 1 - (int)r.below(hot));
        if (op == A_RESERVE) p.idx = (int)r.below(g->init_size * 2 + 40);
        if (op == A_PUSH) pushes++;
        else if (op < A_PUSH && per[p.idx]++ > 30) continue;
        const int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(p);
    }
    knobs_concurrency(true);
    if (oom) { knobs.rate[F_MALLOC] = 3000; knobs.burst_limit[F_MALLOC] = 3; }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 4), gap = r.range(50, 3000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *ops = &plan[i];
        t.push_back(start_worker([ops](KOS_CONTEXT ctx) {
            KOS_LOCAL arr;
            KOS_init_local_with(ctx, &arr, g->arr.o);
            std::map<int, int64_t> last;
            for (auto &p : *ops) do_op(ctx, &arr, p, last);
            KOS_destroy_top_local(ctx, &arr);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    const uint32_t size = KOS_get_array_size(g->arr.o);
    if ((int)size != g->init_size + g->push_ok)
        violation("array:size", "array has %u elements, expected %d initial and %d pushed", size, g->init_size, g->push_ok);
    std::set<uint32_t> seen;
    for (auto &p : g->pushed)
        if (!seen.insert(p.first).second || (int)p.first < g->init_size || p.first >= size)
            violation("array:push-index", "push returned index %u, which is not unique or out of range (size %u)", p.first, size);
    std::map<int, int64_t> last;
    for (uint32_t i = 0; i < size; i++) do_op(mctx, &g->arr, Planned{A_READ, (int)i, 0, false}, last);
    for (auto &h : g->hist) {
        if (h.second.size() > 60) continue;
        std::vector<int64_t> init{h.first < g->init_size ? VOIDV : ABSENT};
        if (!linearizable(h.second, init, model))
            violation("array:not-linearizable", "history of element %d has no sequential explanation:%s", h.first, dump(h.second, show).c_str());
    }
    res->gcs += gc_count();
}
void run_a() { run02(false); }
void run_b() { run02(true); }
SCENARIO("array_lin", setup_bare, run_a);
SCENARIO("array_lin_oom", setup_bare, run_b);

// ---------------------------------------------------------------- P03 mixes
struct MixOp { int op, a, b, c, d; };
KOS_LOCAL g_arr[3];
std::vector<int> universe_max;

void chk(KOS_CONTEXT ctx, int rc, const char *what, std::initializer_list<const char *> ok)
{
    if (!rc) { if (KOS_is_exception_pending(ctx)) violation("container:stray-exception", "%s succeeded with an exception pending", what); return; }
    if (!KOS_is_exception_pending(ctx)) violation("container:no-exception", "%s failed without an exception", what);
    std::string s = exc_text(ctx);
    if (exc_is_oom(s)) return;
    for (const char *o : ok) if (s.find(o) != std::string::npos) return;
    violation("container:unexpected-exception", "%s raised: %s", what, s.c_str());
}

// the text of a container begins and ends the way it should and consists of printable characters
void printed(const std::string &s, const char *open, const char *close)
{
    if (s == "<unprintable>") return;           // out of memory
    if (s.size() < 2 || s.compare(0, 1, open) || s.compare(s.size() - 1, 1, close)) violation("container:text", "a container was turned into '%s'", printable(s, 200).c_str());
    for (char c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) violation("container:text", "a container was turned into '%s'", printable(s, 200).c_str());
}
void array_mix_op(KOS_CONTEXT ctx, KOS_LOCAL *a, const MixOp &m, int64_t uniq)
{
    KOS_LOCAL *x = &a[m.a % 3], *y = &a[m.b % 3];
    switch (m.op) {
        case 0: { KOS_OBJ_ID v = KOS_array_read(ctx, x->o, m.c); chk(ctx, IS_BAD_PTR(v), "read", {"out of range"}); if (!IS_BAD_PTR(v)) decode(v); break; }
        case 1: {
            KOS_OBJ_ID v = encode(ctx, uniq, m.d & 1);
            if (IS_BAD_PTR(v)) { chk(ctx, 1, "new", {}); break; }
            chk(ctx, KOS_array_write(ctx, x->o, m.c, v), "write", {"out of range"}); break; }
        case 2: {
            KOS_OBJ_ID v = encode(ctx, uniq, m.d & 1);
            if (IS_BAD_PTR(v)) { chk(ctx, 1, "new", {}); break; }
            uint32_t i; chk(ctx, KOS_array_push(ctx, x->o, v, &i), "push", {}); break; }
        case 3: { KOS_OBJ_ID v = KOS_array_pop(ctx, x->o); chk(ctx, IS_BAD_PTR(v), "pop", {"empty", "out of range"}); if (!IS_BAD_PTR(v)) decode(v); break; }
        case 4: chk(ctx, KOS_array_reserve(ctx, x->o, (uint32_t)m.c), "reserve", {}); break;
        case 5: chk(ctx, KOS_array_resize(ctx, x->o, (uint32_t)m.c), "resize", {}); break;
        case 6: {
            KOS_OBJ_ID v = KOS_array_slice(ctx, x->o, m.c % 7, m.d);
            chk(ctx, IS_BAD_PTR(v), "slice", {});
            if (!IS_BAD_PTR(v)) for (uint32_t i = 0, n = KOS_get_array_size(v); i < n; i++) { KOS_OBJ_ID e = KOS_array_read(ctx, v, (int)i); if (IS_BAD_PTR(e)) violation("container:slice", "slice has an unreadable element %u of %u: %s", i, n, exc_text(ctx).c_str()); decode(e); }
            break; }
        case 7: chk(ctx, KOS_array_fill(ctx, x->o, m.c % 9, m.d, TO_SMALL_INT((int)uniq)), "fill", {}); break;
        case 8: {
            KOS_OBJ_ID c = KOS_array_cas(ctx, x->o, m.c, KOS_VOID, TO_SMALL_INT((int)uniq));
            chk(ctx, IS_BAD_PTR(c), "cas", {"out of range"}); if (!IS_BAD_PTR(c)) decode(c); break; }
        case 9: {
            KOS_LOCAL it;
            KOS_init_local(ctx, &it);
            it.o = KOS_new_iterator(ctx, x->o, KOS_CONTENTS);
            chk(ctx, IS_BAD_PTR(it.o), "iterate", {});
            int n = 0;
            if (!IS_BAD_PTR(it.o)) while (n++ < 300) { int e = KOS_iterator_next(ctx, it.o); if (e) { if (KOS_is_exception_pending(ctx)) chk(ctx, 1, "iterator_next", {"out of range"}); break; } decode(KOS_get_walk_value(it.o)); }
            KOS_destroy_top_local(ctx, &it);
            break; }
        case 10: chk(ctx, KOS_array_insert(ctx, x->o, m.c, m.c + m.d % 5, y->o, m.d % 11, m.d % 11 + m.c % 13), "insert", {}); break;
        case 11: { KOS_OBJ_ID v = KOS_object_to_string(ctx, x->o); chk(ctx, IS_BAD_PTR(v), "to_string", {"out of range"}); if (!IS_BAD_PTR(v)) printed(to_str(ctx, v), "[", "]"); break; }
        case 12: KOS_compare(x->o, y->o); break;
    }
    res->ops++;
}

void run_array_mix_impl(bool insert, bool oom)
{
    Rng &r = wrng();
    const int nthreads = r.range(2, 4), total = r.range(6, 60);
    const int narr = r.range(1, 3);
    for (int i = 0; i < 3; i++) {
        KOS_init_local(mctx, &g_arr[i]);
        const uint32_t n = (uint32_t)r.pick(std::vector<int>{0, 1, 5, 20, 63, 64, 70, 130});
        g_arr[i].o = i < narr ? KOS_new_array(mctx, n) : g_arr[0].o;
    }
    std::vector<int> ops{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12};
    if (insert) for (int i = 0; i < 4; i++) ops.push_back(10);
    // swarm: drop some operations
    std::vector<int> sub;
    for (int o : ops) if (r.chance(2, 3)) sub.push_back(o);
    if (sub.size() < 2) sub = ops;
    const int big = r.pick(std::vector<int>{4, 20, 80, 200});
    std::vector<std::vector<std::pair<MixOp, int64_t>>> plan(nthreads);
    for (int i = 0; i < total; i++) {
        MixOp m{r.pick(sub), r.range(0, 2), r.range(0, 2), (int)r.below(big), (int)r.below(big * 2)};
        int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back({m, i + 1});
    }
    knobs_concurrency(true);
    if (oom) { knobs.rate[F_MALLOC] = 3000; knobs.burst_limit[F_MALLOC] = 3; }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 5), gap = r.range(50, 3000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *p = &plan[i];
        t.push_back(start_worker([p](KOS_CONTEXT ctx) {
            KOS_LOCAL a[3];
            for (int k = 0; k < 3; k++) { KOS_init_local(ctx, &a[k]); a[k].o = g_arr[k].o; }
            for (auto &m : *p) array_mix_op(ctx, a, m.first, m.second);
            KOS_destroy_top_locals(ctx, &a[2], &a[0]);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    // the containers are still usable and hold only values which were put there
    for (int i = 0; i < narr; i++) {
        for (uint32_t k = 0, n = KOS_get_array_size(g_arr[i].o); k < n; k++) { KOS_OBJ_ID v = KOS_array_read(mctx, g_arr[i].o, (int)k); if (IS_BAD_PTR(v)) KOS_clear_exception(mctx); else decode(v); }
        if (KOS_array_resize(mctx, g_arr[i].o, 300)) violation("container:unusable", "resize after the run: %s", exc_text(mctx).c_str());
        for (uint32_t k = 0; k < 300; k++) { if (KOS_array_write(mctx, g_arr[i].o, (int)k, TO_SMALL_INT(5))) KOS_clear_exception(mctx); }
    }
    res->gcs += gc_count();
}
void run_array_mix() { run_array_mix_impl(false, wrng().chance(1, 4)); }
void run_array_insert_mix() { run_array_mix_impl(true, wrng().chance(1, 4)); }
SCENARIO("array_mix", setup_bare, run_array_mix);
SCENARIO("array_insert_mix", setup_bare, run_array_insert_mix);

// An array which only grows: whoever compares, prints, iterates or copies it sees at least what it held at the start.
KOS_LOCAL g_pre[3];
void run_array_prefix()
{
    Rng &r = wrng();
    const int nthreads = r.range(2, 4), n = r.pick(std::vector<int>{1, 2, 7, 20, 64});
    std::string text;
    for (auto &p : g_pre) { KOS_init_local(mctx, &p); p.o = KOS_new_array(mctx, 0); if (IS_BAD_PTR(p.o)) return; }
    for (int i = 0; i < n; i++) {
        for (auto &p : g_pre) {
            KOS_OBJ_ID v = i % 3 ? KOS_new_int(mctx, i % 2 ? i : (int64_t)1 << 62) : KOS_new_cstring(mctx, "e");
            if (IS_BAD_PTR(v) || KOS_array_push(mctx, p.o, v, nullptr)) return;
        }
        text += (i ? ", " : "[") + (i % 3 ? std::to_string(i % 2 ? i : (int64_t)1 << 62) : std::string("\"e\""));
    }
    { KOS_OBJ_ID e = KOS_new_array(mctx, 0); if (IS_BAD_PTR(e) || KOS_array_push(mctx, g_pre[2].o, e, nullptr)) return; }   // greater than whatever is pushed
    std::vector<std::vector<int>> plan(nthreads);
    for (int i = 0, total = r.range(4, 40); i < total; i++) {
        const int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(t ? r.range(0, 8) : r.range(0, 2));
    }
    knobs_concurrency(true);
    const bool gc = r.chance(1, 3);
    const unsigned ngc = r.range(1, 5), gap = r.range(50, 3000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *p = &plan[i];
        t.push_back(start_worker([p, n, text](KOS_CONTEXT ctx) {
            KOS_LOCAL a, b, c;
            KOS_init_local(ctx, &c); c.o = g_pre[2].o;
            KOS_init_local(ctx, &a); a.o = g_pre[0].o;
            KOS_init_local(ctx, &b); b.o = g_pre[1].o;
            for (int op : *p) {
                switch (op) {
                    case 0: case 1: for (int k = 0; k < 1 + op * 6; k++) chk(ctx, KOS_array_push(ctx, a.o, KOS_VOID, nullptr), "push", {}); break;
                    case 2: chk(ctx, KOS_array_reserve(ctx, a.o, KOS_get_array_size(a.o) * 2 + 1), "reserve", {}); break;
                    case 3: case 4: {
                        const bool rev = op == 4;
                        const KOS_COMPARE_RESULT c = rev ? KOS_compare(b.o, a.o) : KOS_compare(a.o, b.o);
                        if (c != KOS_EQUAL && c != (rev ? KOS_LESS_THAN : KOS_GREATER_THAN)) violation("array:compare", "an array which only grows compared as %d to its first %d elements", (int)c, n);
                        break; }
                    case 7: if (KOS_compare(a.o, c.o) != KOS_LESS_THAN) violation("array:compare", "an array which only grows compared as not less than a greater one"); break;
                    case 8: if (KOS_compare(c.o, a.o) != KOS_GREATER_THAN) violation("array:compare", "an array which only grows compared as not less than a greater one"); break;
                    case 5: {
                        KOS_OBJ_ID v = KOS_object_to_string(ctx, a.o);
                        chk(ctx, IS_BAD_PTR(v), "to_string", {"out of range"});
                        if (!IS_BAD_PTR(v)) { const std::string s = to_str(ctx, v); if (s != "<unprintable>" && s.compare(0, text.size(), text)) violation("array:text", "an array which only grows was turned into '%s'", printable(s, 200).c_str()); }
                        break; }
                    case 6: {
                        KOS_LOCAL it; KOS_init_local(ctx, &it);
                        it.o = KOS_new_iterator(ctx, a.o, KOS_CONTENTS);
                        chk(ctx, IS_BAD_PTR(it.o), "iterate", {});
                        int k = 0;
                        if (!IS_BAD_PTR(it.o)) for (; k < n; k++) {
                            if (KOS_iterator_next(ctx, it.o)) { std::string e = KOS_is_exception_pending(ctx) ? exc_text(ctx) : "the end"; if (!exc_is_oom(e)) violation("array:iterate", "iteration gave %s at %d of %d", e.c_str(), k, n); break; }
                            if (KOS_compare(KOS_get_walk_value(it.o), KOS_array_read(ctx, b.o, k)) != KOS_EQUAL) violation("array:iterate", "iteration gave a wrong element at %d", k);
                        }
                        KOS_destroy_top_local(ctx, &it);
                        break; }
                }
                res->ops++;
            }
            KOS_destroy_top_locals(ctx, &b, &c);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    res->gcs += gc_count();
}
SCENARIO("array_prefix", setup_bare, run_array_prefix);

// ---------------------------------------------------------------- buffers
KOS_LOCAL g_buf[2];
void buf_op(KOS_CONTEXT ctx, KOS_LOCAL *a, const MixOp &m)
{
    KOS_LOCAL *x = &a[m.a & 1], *y = &a[m.b & 1];
    switch (m.op) {
        case 0: chk(ctx, KOS_buffer_resize(ctx, x->o, (unsigned)m.c), "buffer resize", {}); break;
        case 1: chk(ctx, KOS_buffer_reserve(ctx, x->o, (unsigned)m.c), "buffer reserve", {}); break;
        case 2: {
            uint8_t *p = KOS_buffer_make_room(ctx, x->o, (unsigned)m.c % 64);
            chk(ctx, !p, "make_room", {"empty"});
            break; }
        case 3: chk(ctx, KOS_buffer_fill(ctx, x->o, m.c % 16, m.c % 16 + m.d, 0x5A), "buffer fill", {}); break;
        case 4: chk(ctx, KOS_buffer_copy(ctx, x->o, m.c % 32, y->o, m.d % 16, m.d % 16 + m.c), "buffer copy", {}); break;
        case 5: { KOS_OBJ_ID s = KOS_buffer_slice(ctx, x->o, m.c % 16, m.c % 16 + m.d); chk(ctx, IS_BAD_PTR(s), "buffer slice", {}); break; }
        case 6: { uint8_t *p = KOS_buffer_data(ctx, x->o); chk(ctx, !p, "buffer data", {}); break; }
        case 7: { KOS_OBJ_ID v = KOS_object_to_string(ctx, x->o); chk(ctx, IS_BAD_PTR(v), "to_string", {}); if (!IS_BAD_PTR(v)) printed(to_str(ctx, v), "<", ">"); break; }
        case 8: KOS_compare(x->o, y->o); break;
    }
    res->ops++;
}
void run_buffer_mix()
{
    Rng &r = wrng();
    const int nthreads = r.range(2, 4), total = r.range(4, 40);
    for (int i = 0; i < 2; i++) { KOS_init_local(mctx, &g_buf[i]); g_buf[i].o = KOS_new_buffer(mctx, (unsigned)r.pick(std::vector<int>{0, 1, 16, 100, 500, 2000})); }
    if (r.chance(1, 2)) g_buf[1].o = g_buf[0].o;
    std::vector<int> sub;
    for (int o = 0; o < 9; o++) if (r.chance(2, 3)) sub.push_back(o);
    if (sub.empty()) sub = {0, 3};
    const int big = r.pick(std::vector<int>{40, 400, 1200, 4000});
    std::vector<std::vector<MixOp>> plan(nthreads);
    for (int i = 0; i < total; i++) {
        MixOp m{r.pick(sub), r.range(0, 1), r.range(0, 1), (int)r.below(big), (int)r.below(big)};
        int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(m);
    }
    knobs_concurrency(true);
    if (r.chance(1, 4)) { knobs.rate[F_MALLOC] = 3000; knobs.burst_limit[F_MALLOC] = 3; }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 5), gap = r.range(50, 2000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *p = &plan[i];
        t.push_back(start_worker([p](KOS_CONTEXT ctx) {
            KOS_LOCAL a[2];
            for (int k = 0; k < 2; k++) { KOS_init_local(ctx, &a[k]); a[k].o = g_buf[k].o; }
            for (auto &m : *p) buf_op(ctx, a, m);
            KOS_destroy_top_locals(ctx, &a[1], &a[0]);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    for (int i = 0; i < 2; i++) {
        const uint32_t n = KOS_get_buffer_size(g_buf[i].o);
        if (KOS_buffer_fill(mctx, g_buf[i].o, 0, n, 0x33)) violation("container:unusable", "buffer fill after the run: %s", exc_text(mctx).c_str());
        if (n) { uint8_t *p = KOS_buffer_data_volatile(mctx, g_buf[i].o); mem_check(p, n, true); for (uint32_t k = 0; k < n; k++) if (p[k] != 0x33) violation("container:buffer-content", "buffer byte %u not filled", k); }
    }
    res->gcs += gc_count();
}
SCENARIO("buffer_mix", setup_bare, run_buffer_mix);

// ---------------------------------------------------------------- objects: enumeration, prototypes, copies
void run_object_mix()
{
    Rng &r = wrng();
    const int nthreads = r.range(2, 4), total = r.range(6, 60), nkeys = r.range(2, 14);
    static KOS_LOCAL obj[2], keys[16];
    for (auto &k : keys) KOS_init_local(mctx, &k);
    for (int i = 0; i < nkeys; i++) { char b[32]; snprintf(b, sizeof b, "key_%d", i); keys[i].o = KOS_new_cstring(mctx, b); }
    for (auto &o : obj) KOS_init_local(mctx, &o);
    obj[0].o = KOS_new_object(mctx);
    obj[1].o = KOS_new_object_with_prototype(mctx, obj[0].o);
    std::vector<std::vector<MixOp>> plan(nthreads);
    for (int i = 0; i < total; i++) {
        MixOp m{r.range(0, 6), r.range(0, 1), (int)r.below(nkeys), i + 1, r.range(0, 1)};
        int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(m);
    }
    knobs_concurrency(true);
    if (r.chance(1, 4)) { knobs.rate[F_MALLOC] = 3000; knobs.burst_limit[F_MALLOC] = 3; }
    const bool gc = r.chance(1, 2);
    const unsigned ngc = r.range(1, 5), gap = r.range(50, 3000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *p = &plan[i];
        t.push_back(start_worker([p, nkeys](KOS_CONTEXT ctx) {
            KOS_LOCAL a, k;
            KOS_init_local(ctx, &a);
            KOS_init_local(ctx, &k);
            for (auto &m : *p) {
                a.o = obj[m.a].o;
                k.o = keys[m.b].o;
                switch (m.op) {
                    case 0: case 1: {
                        KOS_OBJ_ID v = encode(ctx, m.c, m.d);
                        if (IS_BAD_PTR(v)) { chk(ctx, 1, "new", {}); break; }
                        chk(ctx, KOS_set_property(ctx, a.o, k.o, v), "set", {}); break; }
                    case 2: { KOS_OBJ_ID v = KOS_get_property(ctx, a.o, k.o); chk(ctx, IS_BAD_PTR(v), "get", {"no such property"}); if (!IS_BAD_PTR(v)) decode(v); break; }
                    case 3: chk(ctx, KOS_delete_property(ctx, a.o, k.o), "delete", {}); break;
                    case 4: case 5: {
                        KOS_LOCAL it;
                        KOS_init_local(ctx, &it);
                        it.o = KOS_new_iterator(ctx, a.o, m.d ? KOS_DEEP : KOS_SHALLOW);
                        chk(ctx, IS_BAD_PTR(it.o), "iterate", {});
                        int n = 0;
                        if (!IS_BAD_PTR(it.o)) for (;;) {
                            int e = KOS_iterator_next(ctx, it.o);
                            if (e) { if (KOS_is_exception_pending(ctx)) chk(ctx, 1, "iterator_next", {}); break; }
                            if (++n > 400) violation("container:iteration", "enumeration of at most %d properties does not end", nkeys);
                            std::string key = to_str(ctx, KOS_get_walk_key(it.o));
                            if (!m.d) decode(KOS_get_walk_value(it.o));
                        }
                        KOS_destroy_top_local(ctx, &it);
                        break; }
                    case 6: { KOS_OBJ_ID v = KOS_object_to_string(ctx, a.o); chk(ctx, IS_BAD_PTR(v), "to_string", {}); if (!IS_BAD_PTR(v)) printed(to_str(ctx, v), "{", "}"); break; }
                }
                res->ops++;
            }
            KOS_destroy_top_locals(ctx, &k, &a);
        }));
    }
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    res->gcs += gc_count();
}
SCENARIO("object_mix", setup_bare, run_object_mix);
} // namespace
