// P04 (GC preserves reachable values), P05 (finalizers, release), P07 (liveness of stop-the-world).
#include "kosutil.h"
#include <algorithm>
#include <cstring>
using namespace kx;

namespace {

inline uint64_t H(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ull + 0x1234567, b); }

// ---------------------------------------------------------------- native resources with finalizers
struct Fin { uint32_t magic; int serial; uint64_t id; int finalized; };
const uint32_t FIN_MAGIC = 0xF1A11CED;
std::vector<Fin *> *fins;
KOS_DECLARE_PRIVATE_CLASS(fin_class);
void fin_proc(KOS_CONTEXT, void *p)
{
    if (!p) return;
    Fin *f = (Fin *)p;
    if (f->magic != FIN_MAGIC) violation("finalizer:bad-pointer", "a finalizer was called with a pointer which is not its resource");
    if (++f->finalized > 1) violation("finalizer:twice", "the finalizer of resource %d ran %d times", f->serial, f->finalized);
}
Fin *new_fin(uint64_t id) { Fin *f = new Fin{FIN_MAGIC, (int)fins->size(), id, 0}; fins->push_back(f); return f; }

// ---------------------------------------------------------------- self-describing trees
enum Kind { K_SMALL, K_BOXED, K_FLOAT, K_STR, K_WSTR, K_SLICE, K_CONCAT, K_BUF, K_BIGBUF, K_ARRAY, K_BIGARRAY, K_OBJECT, K_PROTO, K_PRIV, K_EXTBUF, K_ITER, K_LIST, K_CYCLE, K_GROWN, K_COUNT };
const int NKEYS = 12;
KOS_LOCAL g_keys[NKEYS];
KOS_LOCAL g_cycle_key;

Kind kind_of(uint64_t id, int depth)
{
    const uint64_t h = H(id, 1);
    if (depth <= 0) return (Kind)(h % (K_BIGBUF + 1));
    if (depth >= 3) return (Kind)(K_ARRAY + h % (K_COUNT - K_ARRAY));
    return (Kind)(h % K_COUNT);
}
uint64_t child(uint64_t id, unsigned n) { return H(id, 1000 + n); }

std::string text_of(uint64_t id, bool wide)
{
    std::string s;
    const unsigned n = 1 + (unsigned)(H(id, 2) % 60);
    for (unsigned i = 0; i < n; i++) {
        const uint64_t h = H(id, 100 + i);
        if (wide && h % 5 == 0) s += (H(id, 3) % 2) ? "\xC4\x85" : "\xF0\x9F\x98\x80";
        else s += (char)('a' + h % 26);
    }
    return s;
}

#define FAILIF(x) do { if (IS_BAD_PTR(x)) goto fail; } while (0)

KOS_OBJ_ID build(KOS_CONTEXT ctx, uint64_t id, int depth);

KOS_OBJ_ID build(KOS_CONTEXT ctx, uint64_t id, int depth)
{
    KOS_LOCAL a, b;
    KOS_OBJ_ID v;
    const Kind k = kind_of(id, depth);
    switch (k) {
        case K_SMALL: return TO_SMALL_INT((int)(H(id, 4) % 1000000));
        case K_BOXED: return KOS_new_int(ctx, (int64_t)((H(id, 4) & 0x3FFFFFFFFFFFFFFFull) | 0x4000000000000001ull));
        case K_FLOAT: return KOS_new_float(ctx, (double)(int64_t)(H(id, 4) % 1000000) / 7.0);
        case K_STR: { std::string s = text_of(id, false); return KOS_new_string(ctx, s.data(), (unsigned)s.size()); }
        case K_WSTR: { std::string s = text_of(id, true); return KOS_new_string(ctx, s.data(), (unsigned)s.size()); }
        default: break;
    }
    KOS_init_local(ctx, &a);
    KOS_init_local(ctx, &b);
    switch (k) {
        case K_SLICE: {
            std::string s = text_of(id, false);
            s = "prefix-long-enough-" + s + "-suffix";
            a.o = KOS_new_string(ctx, s.data(), (unsigned)s.size());
            FAILIF(a.o);
            a.o = KOS_string_slice(ctx, a.o, 19, (int64_t)s.size() - 7);
            FAILIF(a.o);
            break; }
        case K_CONCAT: {
            KOS_LOCAL p[2];
            KOS_init_local(ctx, &p[0]);
            KOS_init_local(ctx, &p[1]);
            std::string s = text_of(id, true), t = text_of(id + 1, false);
            bool ok = false;
            p[0].o = KOS_new_string(ctx, s.data(), (unsigned)s.size());
            if (!IS_BAD_PTR(p[0].o)) {
                p[1].o = KOS_new_string(ctx, t.data(), (unsigned)t.size());
                if (!IS_BAD_PTR(p[1].o)) { a.o = KOS_string_add_n(ctx, p, 2); ok = !IS_BAD_PTR(a.o); }
            }
            KOS_destroy_top_locals(ctx, &p[1], &p[0]);
            if (!ok) goto fail;
            break; }
        case K_BUF: case K_BIGBUF: {
            const unsigned n = k == K_BUF ? 1 + (unsigned)(H(id, 5) % 200) : 400 + (unsigned)(H(id, 5) % 2000);
            a.o = KOS_new_buffer(ctx, n);
            FAILIF(a.o);
            uint8_t *p = KOS_buffer_data_volatile(ctx, a.o);
            if (!p) goto fail;
            for (unsigned i = 0; i < n; i++) p[i] = (uint8_t)H(id, 200 + i % 16);
            break; }
        case K_ARRAY: {
            const unsigned n = (unsigned)(H(id, 6) % 5);
            a.o = KOS_new_array(ctx, n);
            FAILIF(a.o);
            for (unsigned i = 0; i < n; i++) {
                v = build(ctx, child(id, i), depth - 1);
                FAILIF(v);
                if (KOS_array_write(ctx, a.o, (int)i, v)) goto fail;
            }
            break; }
        case K_BIGARRAY: {
            const unsigned n = 60 + (unsigned)(H(id, 6) % 90);
            a.o = KOS_new_array(ctx, n);
            FAILIF(a.o);
            for (unsigned i = 0; i < n; i++) {
                v = i % 37 ? TO_SMALL_INT((int)i * 3) : build(ctx, child(id, i), depth - 2);
                FAILIF(v);
                if (KOS_array_write(ctx, a.o, (int)i, v)) goto fail;
            }
            break; }
        case K_GROWN: {
            const unsigned n = 1 + (unsigned)(H(id, 6) % 20);
            a.o = KOS_new_array(ctx, 0);
            FAILIF(a.o);
            for (unsigned i = 0; i < n; i++) {
                v = build(ctx, child(id, i), 0);
                FAILIF(v);
                if (KOS_array_push(ctx, a.o, v, nullptr)) goto fail;
            }
            break; }
        case K_OBJECT: case K_PROTO: case K_CYCLE: {
            if (k == K_PROTO) {
                b.o = build(ctx, child(id, 50), depth - 1);
                FAILIF(b.o);
                a.o = KOS_new_object_with_prototype(ctx, b.o);
            } else
                a.o = KOS_new_object(ctx);
            FAILIF(a.o);
            const unsigned n = (unsigned)(H(id, 7) % NKEYS);
            for (unsigned i = 0; i < n; i++) {
                v = build(ctx, child(id, i), depth - 1 - (int)(i > 2));
                FAILIF(v);
                if (KOS_set_property(ctx, a.o, g_keys[i].o, v)) goto fail;
            }
            if (k == K_CYCLE && KOS_set_property(ctx, a.o, g_cycle_key.o, a.o)) goto fail;
            break; }
        case K_PRIV: {
            a.o = KOS_new_object_with_private(ctx, KOS_VOID, &fin_class, fin_proc);
            FAILIF(a.o);
            KOS_object_swap_private(a.o, &fin_class, new_fin(id));
            v = build(ctx, child(id, 0), depth - 1);
            FAILIF(v);
            if (KOS_set_property(ctx, a.o, g_keys[0].o, v)) goto fail;
            break; }
        case K_EXTBUF: {
            Fin *f = new_fin(id);
            const unsigned n = sizeof(Fin);
            a.o = KOS_new_external_buffer(ctx, f, n, f, fin_proc);
            if (IS_BAD_PTR(a.o)) { if (f->finalized > 1) violation("finalizer:twice", "finalizer ran twice"); f->finalized = -1000; goto fail; }
            break; }
        case K_ITER: {
            a.o = build(ctx, H(id, 55) / K_COUNT * K_COUNT, 0); // any scalar
            FAILIF(a.o);
            b.o = KOS_new_array(ctx, 4);
            FAILIF(b.o);
            for (unsigned i = 0; i < 4; i++) {
                v = build(ctx, child(id, i), depth - 1);
                FAILIF(v);
                if (KOS_array_write(ctx, b.o, (int)i, v)) goto fail;
            }
            a.o = KOS_new_iterator(ctx, b.o, KOS_CONTENTS);
            FAILIF(a.o);
            for (unsigned i = 0; i <= H(id, 8) % 3; i++)
                if (KOS_iterator_next(ctx, a.o)) { if (!KOS_is_exception_pending(ctx)) violation("gc:iterator", "iterator ended early"); goto fail; }
            break; }
        case K_LIST: {
            const unsigned n = 10 + (unsigned)(H(id, 9) % 150);
            a.o = KOS_VOID;
            for (unsigned i = 0; i < n; i++) {
                b.o = KOS_new_array(ctx, 2);
                FAILIF(b.o);
                if (KOS_array_write(ctx, b.o, 0, a.o)) goto fail;
                if (KOS_array_write(ctx, b.o, 1, TO_SMALL_INT((int)(H(id, 300 + i) % 100000)))) goto fail;
                a.o = b.o;
            }
            break; }
        default: harness_error("build: kind %d", k);
    }
    KOS_destroy_top_local(ctx, &b);
    return KOS_destroy_top_local(ctx, &a);
fail:
    if (!KOS_is_exception_pending(ctx)) violation("gc:no-exception", "an operation failed without an exception (building a value of kind %d)", k);
    KOS_destroy_top_local(ctx, &b);
    KOS_destroy_top_local(ctx, &a);
    return KOS_BADPTR;
}

#define BAD(...) violation("gc:value-changed", __VA_ARGS__)

void need(KOS_OBJ_ID o, KOS_TYPE t, const char *w)
{
    if (IS_BAD_PTR(o)) BAD("%s: null reference", w);
    if (IS_SMALL_INT(o)) BAD("%s: small integer %ld instead of type %d", w, (long)GET_SMALL_INT(o), (int)t);
    mem_check((char *)o - 1, 8, false);
    if (GET_OBJ_TYPE(o) != t) BAD("%s: type %d instead of %d", w, (int)GET_OBJ_TYPE(o), (int)t);
}
void need_str(KOS_OBJ_ID o, const std::string &s, const char *w)
{
    need(o, OBJ_STRING, w);
    char buf[1024];
    const unsigned n = KOS_string_to_utf8(o, buf, sizeof buf);
    if (n == ~0u || n != s.size() || memcmp(buf, s.data(), n)) BAD("%s: text is \"%.*s\" instead of \"%s\"", w, n < 1024 ? (int)n : 0, buf, s.c_str());
}

// no allocation needed except for objects' property lookups (keys are preallocated) and iterators
void verify(KOS_CONTEXT ctx, KOS_OBJ_ID obj, uint64_t id, int depth)
{
    KOS_LOCAL o;
    const Kind k = kind_of(id, depth);
    char w[40];
    snprintf(w, sizeof w, "value %llx kind %d", (unsigned long long)id, k);
    switch (k) {
        case K_SMALL:
            if (obj != TO_SMALL_INT((int)(H(id, 4) % 1000000))) BAD("%s: small integer changed", w);
            return;
        case K_BOXED: {
            const int64_t e = (int64_t)((H(id, 4) & 0x3FFFFFFFFFFFFFFFull) | 0x4000000000000001ull);
            need(obj, OBJ_INTEGER, w);
            if (OBJPTR(INTEGER, obj)->value != e) BAD("%s: integer changed", w);
            return; }
        case K_FLOAT:
            need(obj, OBJ_FLOAT, w);
            if (OBJPTR(FLOAT, obj)->value != (double)(int64_t)(H(id, 4) % 1000000) / 7.0) BAD("%s: float changed", w);
            return;
        case K_STR: case K_SLICE: need_str(obj, text_of(id, false), w); return;
        case K_WSTR: need_str(obj, text_of(id, true), w); return;
        case K_CONCAT: need_str(obj, text_of(id, true) + text_of(id + 1, false), w); return;
        case K_BUF: case K_BIGBUF: {
            const unsigned n = k == K_BUF ? 1 + (unsigned)(H(id, 5) % 200) : 400 + (unsigned)(H(id, 5) % 2000);
            need(obj, OBJ_BUFFER, w);
            if (KOS_get_buffer_size(obj) != n) BAD("%s: buffer size %u instead of %u", w, KOS_get_buffer_size(obj), n);
            uint8_t *p = KOS_buffer_data_volatile(ctx, obj);
            mem_check(p, n, false);
            for (unsigned i = 0; i < n; i++) if (p[i] != (uint8_t)H(id, 200 + i % 16)) BAD("%s: buffer byte %u changed", w, i);
            return; }
        case K_EXTBUF: {
            need(obj, OBJ_BUFFER, w);
            Fin *f = (Fin *)KOS_buffer_data_volatile(ctx, obj);
            if (!f || f->magic != FIN_MAGIC || f->id != id) BAD("%s: external buffer lost its storage", w);
            if (f->finalized) violation("finalizer:early", "%s: resource of a reachable buffer was finalized", w);
            return; }
        default: break;
    }
    KOS_init_local_with(ctx, &o, obj);
    switch (k) {
        case K_ARRAY: case K_BIGARRAY: case K_GROWN: {
            const unsigned n = k == K_ARRAY ? (unsigned)(H(id, 6) % 5) : k == K_BIGARRAY ? 60 + (unsigned)(H(id, 6) % 90) : 1 + (unsigned)(H(id, 6) % 20);
            need(o.o, OBJ_ARRAY, w);
            if (KOS_get_array_size(o.o) != n) BAD("%s: array size %u instead of %u", w, KOS_get_array_size(o.o), n);
            for (unsigned i = 0; i < n; i++) {
                KOS_OBJ_ID e = KOS_array_read(ctx, o.o, (int)i);
                if (IS_BAD_PTR(e)) BAD("%s: element %u unreadable", w, i);
                if (k == K_BIGARRAY && i % 37) { if (e != TO_SMALL_INT((int)i * 3)) BAD("%s: element %u changed", w, i); }
                else verify(ctx, e, child(id, i), k == K_ARRAY ? depth - 1 : k == K_BIGARRAY ? depth - 2 : 0);
            }
            break; }
        case K_OBJECT: case K_PROTO: case K_CYCLE: {
            need(o.o, OBJ_OBJECT, w);
            const unsigned n = (unsigned)(H(id, 7) % NKEYS);
            for (unsigned i = 0; i < n; i++) {
                KOS_OBJ_ID e = KOS_get_property_shallow(ctx, o.o, g_keys[i].o);
                if (IS_BAD_PTR(e)) BAD("%s: property %u: %s", w, i, exc_text(ctx).c_str());
                verify(ctx, e, child(id, i), depth - 1 - (int)(i > 2));
            }
            if (k == K_PROTO) verify(ctx, KOS_get_prototype(ctx, o.o), child(id, 50), depth - 1);
            if (k == K_CYCLE) { KOS_OBJ_ID e = KOS_get_property_shallow(ctx, o.o, g_cycle_key.o); if (e != o.o) BAD("%s: self reference changed", w); }
            break; }
        case K_PRIV: {
            need(o.o, OBJ_OBJECT, w);
            Fin *f = (Fin *)KOS_object_get_private(o.o, &fin_class);
            if (!f || f->magic != FIN_MAGIC || f->id != id) BAD("%s: object lost its private data", w);
            if (f->finalized) violation("finalizer:early", "%s: resource of a reachable object was finalized", w);
            KOS_OBJ_ID e = KOS_get_property_shallow(ctx, o.o, g_keys[0].o);
            if (IS_BAD_PTR(e)) BAD("%s: property: %s", w, exc_text(ctx).c_str());
            verify(ctx, e, child(id, 0), depth - 1);
            break; }
        case K_ITER: {
            need(o.o, OBJ_ITERATOR, w);
            verify(ctx, KOS_get_walk_value(o.o), child(id, (unsigned)(H(id, 8) % 3)), depth - 1);
            break; }
        case K_LIST: {
            const unsigned n = 10 + (unsigned)(H(id, 9) % 150);
            for (unsigned i = n; i--;) {
                need(o.o, OBJ_ARRAY, w);
                if (KOS_array_read(ctx, o.o, 1) != TO_SMALL_INT((int)(H(id, 300 + i) % 100000))) BAD("%s: list element %u changed", w, i);
                o.o = KOS_array_read(ctx, o.o, 0);
            }
            if (o.o != KOS_VOID) BAD("%s: list too long", w);
            break; }
        default: harness_error("verify: kind %d", k);
    }
    KOS_destroy_top_local(ctx, &o);
}

// ---------------------------------------------------------------- workload
enum GOp { G_NEW, G_DROP, G_VERIFY, G_PUBLISH, G_FETCH, G_COLLECT, G_GARBAGE, G_BIGGARBAGE, G_SUSPEND, G_EXC, G_WRAP, G_ULOCAL, G_COUNT };
struct Planned { int op, r, s; uint64_t id; int depth; };
const int MAXR = 6, NSLOT = 4;
KOS_LOCAL g_slots;

void oom_ok(KOS_CONTEXT ctx, const char *what)
{
    if (!KOS_is_exception_pending(ctx)) violation("gc:no-exception", "%s failed without an exception", what);
    std::string s = exc_text(ctx);
    res->custom[1]++;
    if (!exc_is_oom(s)) violation("gc:unexpected-exception", "%s raised: %s", what, s.c_str());
}

struct Root { uint64_t id = 0; int depth = 0; bool live = false; };

void gc_work(KOS_CONTEXT ctx, const std::vector<Planned> &ops, bool keep)
{
    KOS_LOCAL r[MAXR];
    KOS_ULOCAL u;
    Root m[MAXR], mu;
    for (int i = 0; i < MAXR; i++) KOS_init_local(ctx, &r[i]);
    KOS_init_ulocal(ctx, &u);
    for (auto &p : ops) {
        Root &q = m[p.r];
        res->ops++;
        switch (p.op) {
            case G_NEW: {
                q.live = false;
                KOS_OBJ_ID v = build(ctx, p.id, p.depth);
                if (IS_BAD_PTR(v)) { oom_ok(ctx, "building a value"); break; }
                r[p.r].o = v;
                q.id = p.id; q.depth = p.depth; q.live = true;
                break; }
            case G_DROP: r[p.r].o = KOS_BADPTR; q.live = false; break;
            case G_VERIFY: if (q.live) verify(ctx, r[p.r].o, q.id, q.depth); break;
            case G_WRAP: {
                // replace a root with a container holding it, then take it out again
                if (!q.live) break;
                KOS_LOCAL h;
                KOS_init_local_with(ctx, &h, KOS_new_array(ctx, 1 + (uint32_t)(p.id % 90)));
                if (IS_BAD_PTR(h.o)) { oom_ok(ctx, "new array"); KOS_destroy_top_local(ctx, &h); break; }
                if (KOS_array_write(ctx, h.o, 0, r[p.r].o)) violation("gc:unexpected-exception", "array write failed");
                r[p.r].o = KOS_BADPTR;
                for (int i = 0; i < (int)(p.id % 30); i++) { KOS_OBJ_ID g = KOS_new_array(ctx, 3); if (IS_BAD_PTR(g)) oom_ok(ctx, "new array"); }
                r[p.r].o = KOS_array_read(ctx, h.o, 0);
                KOS_destroy_top_local(ctx, &h);
                verify(ctx, r[p.r].o, q.id, q.depth);
                break; }
            case G_PUBLISH: {
                if (!q.live) break;
                KOS_LOCAL h;
                KOS_init_local_with(ctx, &h, KOS_new_array(ctx, 3));
                if (IS_BAD_PTR(h.o)) { oom_ok(ctx, "new array"); KOS_destroy_top_local(ctx, &h); break; }
                KOS_OBJ_ID idv = KOS_new_int(ctx, (int64_t)q.id);
                if (IS_BAD_PTR(idv)) { oom_ok(ctx, "new int"); KOS_destroy_top_local(ctx, &h); break; }
                if (KOS_array_write(ctx, h.o, 1, idv) || KOS_array_write(ctx, h.o, 2, TO_SMALL_INT(q.depth)) || KOS_array_write(ctx, h.o, 0, r[p.r].o) ||
                    KOS_array_write(ctx, g_slots.o, p.s, h.o)) violation("gc:unexpected-exception", "array write failed: %s", exc_text(ctx).c_str());
                KOS_destroy_top_local(ctx, &h);
                break; }
            case G_FETCH: {
                KOS_LOCAL h;
                KOS_init_local_with(ctx, &h, KOS_array_read(ctx, g_slots.o, p.s));
                if (h.o != KOS_VOID) {
                    need(h.o, OBJ_ARRAY, "published holder");
                    r[p.r].o = KOS_array_read(ctx, h.o, 0);
                    KOS_OBJ_ID idv = KOS_array_read(ctx, h.o, 1);
                    int64_t v = 0;
                    if (KOS_get_integer(ctx, idv, &v)) violation("gc:value-changed", "published id is not an integer");
                    q.id = (uint64_t)v;
                    q.depth = (int)GET_SMALL_INT(KOS_array_read(ctx, h.o, 2));
                    q.live = true;
                    verify(ctx, r[p.r].o, q.id, q.depth);
                }
                KOS_destroy_top_local(ctx, &h);
                break; }
            case G_COLLECT: if (KOS_collect_garbage(ctx, nullptr)) oom_ok(ctx, "collect_garbage"); break;
            case G_GARBAGE: for (unsigned i = 0; i < 20 + p.id % 200; i++) { KOS_OBJ_ID g = (i & 1) ? KOS_new_array(ctx, (uint32_t)(i % 20)) : KOS_new_int(ctx, 1ll << 62); if (IS_BAD_PTR(g)) { oom_ok(ctx, "new array"); break; } } break;
            case G_BIGGARBAGE: for (unsigned i = 0; i < 1 + p.id % 6; i++) { KOS_OBJ_ID g = KOS_new_buffer(ctx, 5000 + (unsigned)(p.id % 60000)); if (IS_BAD_PTR(g)) { oom_ok(ctx, "new buffer"); break; } } break;
            case G_SUSPEND: KOS_suspend_context(ctx); sleep_ns(100 + p.id % 20000); KOS_resume_context(ctx); break;
            case G_EXC: {
                if (!q.live || kind_of(q.id, q.depth) == K_ITER) break;
                KOS_raise_exception(ctx, r[p.r].o);
                r[p.r].o = KOS_BADPTR;
                // collections by other threads meanwhile
#ifndef CONFIG_MAD_GC // (in that mode resuming a context collects, which is not allowed with an exception pending)
                KOS_suspend_context(ctx); sleep_ns(100 + p.id % 20000); KOS_resume_context(ctx);
#endif
                if (!KOS_is_exception_pending(ctx)) violation("gc:exception-lost", "a pending exception disappeared");
                KOS_OBJ_ID e = KOS_get_exception(ctx);
                r[p.r].o = e;
                KOS_clear_exception(ctx);
                if (GET_OBJ_TYPE(r[p.r].o) == OBJ_OBJECT && kind_of(q.id, q.depth) != K_OBJECT && kind_of(q.id, q.depth) != K_PROTO && kind_of(q.id, q.depth) != K_CYCLE && kind_of(q.id, q.depth) != K_PRIV) {
                    KOS_OBJ_ID v = KOS_get_property(ctx, r[p.r].o, KOS_STR_VALUE);
                    if (IS_BAD_PTR(v)) { KOS_clear_exception(ctx); q.live = false; r[p.r].o = KOS_BADPTR; break; }
                    r[p.r].o = v;
                }
                verify(ctx, r[p.r].o, q.id, q.depth);
                break; }
            case G_ULOCAL: {
                if (mu.live) verify(ctx, u.o, mu.id, mu.depth);
                if (q.live) { u.o = r[p.r].o; mu = q; r[p.r].o = KOS_BADPTR; q.live = false; }
                break; }
        }
    }
    for (int i = 0; i < MAXR; i++) if (m[i].live) verify(ctx, r[i].o, m[i].id, m[i].depth);
    if (mu.live) verify(ctx, u.o, mu.id, mu.depth);
    KOS_destroy_ulocal(ctx, &u);
    KOS_destroy_top_locals(ctx, &r[MAXR - 1], &r[0]);
}

// ballast: nearly fills the first pool, so that a heap limit of one pool leaves little room
KOS_LOCAL g_ballast;
void setup_ballast()
{
    setup_bare();
    KOS_init_local(mctx, &g_ballast);
    g_ballast.o = KOS_new_array(mctx, 0);
    for (int i = 0; i < 1200; i++) {
        if (heap_free_bytes() < 30 * 4096) break;
        KOS_OBJ_ID b = KOS_new_buffer(mctx, 400);
        if (IS_BAD_PTR(b) || KOS_array_push(mctx, g_ballast.o, b, nullptr)) harness_error("ballast");
        b = KOS_array_read(mctx, g_ballast.o, i);
        memset(KOS_buffer_data_volatile(mctx, b), i & 0xFF, 400);
    }
}
void thin_ballast(Rng &r)
{
    const int p = r.range(0, 40), n = (int)KOS_get_array_size(g_ballast.o);
    for (int i = 0; i < n; i++) if (r.range(1, 100) <= p && KOS_array_write(mctx, g_ballast.o, i, KOS_VOID)) harness_error("ballast");
}
void verify_ballast()
{
    for (int i = 0, n = (int)KOS_get_array_size(g_ballast.o); i < n; i++) {
        KOS_OBJ_ID b = KOS_array_read(mctx, g_ballast.o, i);
        if (b == KOS_VOID) continue;
        need(b, OBJ_BUFFER, "ballast");
        uint8_t *p = KOS_buffer_data_volatile(mctx, b);
        mem_check(p, 400, false);
        for (int k = 0; k < 400; k++) if (p[k] != (i & 0xFF)) BAD("ballast buffer %d changed at byte %d", i, k);
    }
}

struct GcCfg { int threads, total; bool limit, oom; };

void make_keys()
{
    for (int i = 0; i < NKEYS; i++) {
        char b[16];
        snprintf(b, sizeof b, "prop%d", i);
        KOS_init_local(mctx, &g_keys[i]);
        g_keys[i].o = KOS_new_cstring(mctx, b);
    }
    KOS_init_local(mctx, &g_cycle_key);
    g_cycle_key.o = KOS_new_cstring(mctx, "self");
    KOS_init_local(mctx, &g_slots);
    g_slots.o = KOS_new_array(mctx, NSLOT);
}
void drop_keys() { KOS_destroy_top_locals(mctx, &g_slots, &g_keys[0]); }

void gc_run(bool limit, bool oom, bool destroy)
{
    Rng &r = wrng();
    fins = new std::vector<Fin *>;
    const int nthreads = r.range(1, 4), total = r.range(6, 60);
    const uint64_t epoch = 0;
    make_keys();
    std::vector<int> sub;
    for (int i = 0; i < G_COUNT; i++) if (i == G_NEW || r.chance(2, 3)) { sub.push_back(i); if (i == G_NEW || i == G_VERIFY) sub.push_back(i); }
    std::vector<std::vector<Planned>> plan(nthreads);
    const int maxdepth = r.range(1, 4);
    for (int i = 0; i < total; i++) {
        Planned p{r.pick(sub), r.range(0, MAXR - 1), r.range(0, NSLOT - 1), r.next(), r.range(0, maxdepth)};
        const int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(p);
    }
    knobs_concurrency(true);
#ifdef CONFIG_MAD_GC
    knobs.max_steps = 300000000;
#else
    knobs.max_steps = 120000000;
#endif
    if (oom) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{300, 2000, 10000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 6); }
    if (limit) { thin_ballast(r); set_heap_limit(512u * 1024u); if (r.chance(1, 3)) set_malloc_limit((uint32_t)r.range(1, 30) * 10000u); res->faults[F_HEAP_LIMIT]++; }
    const bool gc = r.chance(3, 4);
    const unsigned ngc = r.range(1, 8), gap = r.range(30, 4000);
    begin_run();
    if (gc) start_gc_injector(ngc, gap);
    std::vector<int> t;
    const bool mainwork = r.chance(1, 2);
    for (int i = mainwork ? 1 : 0; i < nthreads; i++) {
        auto *p = &plan[i];
        t.push_back(start_worker([p](KOS_CONTEXT ctx) { gc_work(ctx, *p, false); }));
    }
    if (mainwork) gc_work(mctx, plan[0], false);
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    knobs.rate[F_MALLOC] = 0;
    set_heap_limit(64u << 20);
    set_malloc_limit(64u << 20);
    if (limit) verify_ballast();
    // published trees are still intact
    for (int i = 0; i < NSLOT; i++) {
        KOS_LOCAL h;
        KOS_init_local_with(mctx, &h, KOS_array_read(mctx, g_slots.o, i));
        if (h.o != KOS_VOID) {
            int64_t v = 0;
            if (KOS_get_integer(mctx, KOS_array_read(mctx, h.o, 1), &v)) violation("gc:value-changed", "published id");
            verify(mctx, KOS_array_read(mctx, h.o, 0), (uint64_t)v, (int)GET_SMALL_INT(KOS_array_read(mctx, h.o, 2)));
        }
        KOS_destroy_top_local(mctx, &h);
    }
    // the collector works, and everything unreachable is finalized by it
    drop_keys();
    KOS_GC_STATS st, st2;
    memset(&st, 0, sizeof st);
    memset(&st2, 0, sizeof st2);
    if (KOS_collect_garbage(mctx, &st)) violation("gc:collect-failed", "collection after the run failed: %s", exc_text(mctx).c_str());
    if (KOS_collect_garbage(mctx, &st2)) violation("gc:collect-failed", "collection after the run failed: %s", exc_text(mctx).c_str());
    for (Fin *f : *fins) res->custom[2] += f->finalized > 0;
    for (Fin *f : *fins) if (f->finalized == 0) violation("finalizer:missed", "resource %d of an unreachable object was not finalized by two full collections", f->serial);
    res->gcs += gc_count();
    (void)epoch;
}
void run_gc_graph() { gc_run(false, false, false); }
void run_gc_limit() { gc_run(true, wrng().chance(1, 3), false); }
void run_gc_oom() { gc_run(false, true, false); }
SCENARIO("gc_graph", setup_bare, run_gc_graph);
SCENARIO("gc_limit", setup_ballast, run_gc_limit);
SCENARIO("gc_oom", setup_bare, run_gc_oom);

// ---------------------------------------------------------------- whole life of an instance: everything is given back
void run_gc_life()
{
    Rng &r = wrng();
    fins = new std::vector<Fin *>;
    const uint64_t ep = mem_epoch();
    const bool oom = r.chance(1, 2);
    const int nthreads = r.range(1, 3), total = r.range(3, 30);
    inst = (KOS_INSTANCE *)malloc(sizeof(KOS_INSTANCE));
    std::vector<std::vector<Planned>> plan(nthreads);
    for (int i = 0; i < total; i++) {
        Planned p{r.range(0, G_COUNT - 1), r.range(0, MAXR - 1), r.range(0, NSLOT - 1), r.next(), r.range(0, 3)};
        const int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(p);
    }
    knobs_concurrency(false);
    knobs.max_steps = 120000000;
    const bool init_oom = oom && r.chance(1, 2);
    if (oom) { knobs.rate[F_MALLOC] = init_oom ? 8000 : 1500; knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 4); }
    if (init_oom && r.chance(1, 2)) { knobs.rate[F_MUTEX_INIT] = 3000; knobs.rate[F_COND_INIT] = 3000; knobs.rate[F_TLS_INIT] = 8000; }
    begin_run();
    if (!init_oom) suppress_faults();
    const int e = KOS_instance_init(inst, 0, &mctx);
    if (!init_oom) unsuppress_faults();
    if (e) {
        if (!init_oom) violation("instance:init-failed", "instance init failed with %d although nothing was injected", e);
        check_all_released(ep, "after a failed instance initialisation");
        res->custom[0]++;
        return;
    }
    suppress_faults();
    make_keys();
    unsuppress_faults();
    const bool gc = r.chance(1, 2);
    if (gc) start_gc_injector(r.range(1, 4), r.range(100, 4000));
    std::vector<int> t;
    for (int i = 1; i < nthreads; i++) { auto *p = &plan[i]; t.push_back(start_worker([p](KOS_CONTEXT ctx) { gc_work(ctx, *p, false); })); }
    gc_work(mctx, plan[0], false);
    join_workers(mctx, t);
    stop_injector();
    end_faults();
    if (r.chance(1, 2)) drop_keys();
    res->gcs += gc_count();
    KOS_instance_destroy(inst);
    for (Fin *f : *fins) if (f->finalized == 0) violation("finalizer:missed", "resource %d was not finalized when the instance was destroyed", f->serial);
    check_all_released(ep, "after the instance was destroyed");
}
SCENARIO("gc_life", setup_none, run_gc_life);

// ---------------------------------------------------------------- bounded live data runs in a bounded heap
// oom: a first phase meets failing allocations; once they stop, the memory must all be usable again
void gc_bounded(bool oom)
{
    Rng &r = wrng();
    fins = new std::vector<Fin *>;
    make_keys();
    const int nthreads = r.range(1, 3);
    const int iters = r.range(20, 120);
    knobs_concurrency(false);
    knobs.max_steps = 120000000;
    const uint32_t limit = 512u * 1024u * (uint32_t)r.range(2, 3);
    set_heap_limit(limit);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nthreads; i++) seeds.push_back(r.next());
    if (oom) { knobs.rate[F_MALLOC] = r.pick(std::vector<int>{300, 3000, 20000, 40000}); knobs.burst_limit[F_MALLOC] = (uint32_t)r.range(1, 8); }
    begin_run();
    if (oom) {
        const int n = r.chance(1, 2) ? 0 : r.range(5, 60);
        for (int i = 0; i < n; i++) {
            if (!op_enabled()) continue;
            res->ops++;
            KOS_OBJ_ID v = r.chance(1, 3) ? KOS_new_buffer(mctx, (unsigned)r.range(1000, 30000)) : build(mctx, r.next(), 3);
            if (IS_BAD_PTR(v)) oom_ok(mctx, "building a value");
            if (r.chance(1, 10) && KOS_collect_garbage(mctx, nullptr)) oom_ok(mctx, "collect_garbage");
        }
        // grows the heap itself
        KOS_LOCAL keep;
        KOS_init_local(mctx, &keep);
        for (int i = 0, k = r.range(0, 2500); i < k; i++) {
            KOS_OBJ_ID v = KOS_new_array(mctx, 45);
            if (IS_BAD_PTR(v) || KOS_array_write(mctx, v, 0, IS_BAD_PTR(keep.o) ? KOS_VOID : keep.o)) { oom_ok(mctx, "new array"); continue; }
            keep.o = v;
        }
        KOS_destroy_top_local(mctx, &keep);
        end_faults();
        knobs.rate[F_MALLOC] = 0;
    }
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        const uint64_t sd = seeds[i];
        t.push_back(start_worker([sd, iters](KOS_CONTEXT ctx) {
            KOS_LOCAL keep[3];
            uint64_t ids[3] = {0, 0, 0};
            for (auto &k : keep) KOS_init_local(ctx, &k);
            Rng q(sd);
            for (int n = 0; n < iters; n++) {
                const int s = (int)q.below(3);
                const uint64_t id = q.next();
                KOS_OBJ_ID v = build(ctx, id, 1);
                if (IS_BAD_PTR(v)) violation("gc:not-reclaimed", "out of memory although the live data is small: %s", exc_text(ctx).c_str());
                keep[s].o = v; ids[s] = id;
                for (int g = 0; g < 60; g++) { v = KOS_new_array(ctx, (uint32_t)q.below(50)); if (IS_BAD_PTR(v)) violation("gc:not-reclaimed", "out of memory although the live data is small: %s", exc_text(ctx).c_str()); }
                if (q.chance(1, 3)) { v = KOS_new_buffer(ctx, 20000); if (IS_BAD_PTR(v)) violation("gc:not-reclaimed", "out of memory although the live data is small: %s", exc_text(ctx).c_str()); }
                res->ops++;
            }
            for (int s = 0; s < 3; s++) if (ids[s]) verify(ctx, keep[s].o, ids[s], 1);
            KOS_destroy_top_locals(ctx, &keep[2], &keep[0]);
        }));
    }
    join_workers(mctx, t);
    end_faults();
    res->gcs += gc_count();
}
void run_gc_bounded() { gc_bounded(false); }
void run_gc_bounded_oom() { gc_bounded(true); }
SCENARIO("gc_bounded", setup_bare, run_gc_bounded);
SCENARIO("gc_bounded_oom", setup_bare, run_gc_bounded_oom);

// ---------------------------------------------------------------- P07 liveness of stop-the-world
void run_gc_live()
{
    Rng &r = wrng();
    const int nthreads = r.range(2, 6), total = r.range(6, 60);
    struct L { int op; uint64_t a; };
    std::vector<std::vector<L>> plan(nthreads);
    for (int i = 0; i < total; i++) {
        L l{r.range(0, 6), r.next()};
        const int t = (int)r.below(nthreads);
        if (op_enabled()) plan[t].push_back(l);
    }
    knobs_concurrency(true);
    knobs.max_steps = 20000000;
    begin_run();
    std::vector<int> t;
    for (int i = 0; i < nthreads; i++) {
        auto *ops = &plan[i];
        t.push_back(spawn_thread([](void *p) -> void * {
            auto &o = *(std::vector<L> *)p;
            KOS_THREAD_CONTEXT_S *c = (KOS_THREAD_CONTEXT_S *)sim_alloc(sizeof(KOS_THREAD_CONTEXT_S), 64, false);
            bool reg = false;
            auto ensure = [&](bool on) {
                if (on && !reg) { if (KOS_instance_register_thread(inst, c)) harness_error("register_thread failed"); reg = true; }
                if (!on && reg) { KOS_instance_unregister_thread(inst, c); reg = false; }
            };
            for (auto &l : o) {
                res->ops++;
                switch (l.op) {
                    case 0: case 1: ensure(true); if (KOS_collect_garbage(c, nullptr)) violation("gc:unexpected-exception", "collection failed: %s", exc_text(c).c_str()); break;
                    case 2: ensure(true); KOS_suspend_context(c); sleep_ns(l.a % 30000); KOS_resume_context(c); break;
                    case 3: ensure(true); for (unsigned k = 0; k < l.a % 60; k++) if (IS_BAD_PTR(KOS_new_array(c, 4))) KOS_clear_exception(c); break;
                    case 4: ensure(false); sleep_ns(l.a % 3000); break;
                    case 5: ensure(false); ensure(true); break;
                    case 6: gc_poke(); break;
                }
            }
            ensure(false);
            sim_dealloc(c);
            return nullptr;
        }, ops, "worker"));
    }
    join_workers(mctx, t);
    if (KOS_collect_garbage(mctx, nullptr)) violation("gc:unexpected-exception", "final collection failed: %s", exc_text(mctx).c_str());
    res->gcs += gc_count();
}
SCENARIO("gc_live", setup_bare, run_gc_live);
} // namespace
