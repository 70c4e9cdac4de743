// Script support: module "sim" and instances set up the way the interpreter does it.
#include "kosutil.h"
#include "core/kos_try.h"
#include "inc/kos_module.h"
#include "inc/kos_error.h"
#include <cstdarg>
#include <cstring>
using namespace kx;

namespace kx {
std::vector<Rec> *recs;
std::vector<std::string> *notes;
bool script_flag;
std::vector<Blob> *blobs;
std::vector<std::string> *blob_table;
std::string printable(const std::string &s, size_t max)
{
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) { const uint8_t c = (uint8_t)s[i]; if (c >= 32 && c < 127 && c != '\\') r += (char)c; else r += fmt("\\x%02x", c); }
    return s.size() > max ? r + "..." : r;
}

std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}


static int64_t arg_int(KOS_CONTEXT ctx, KOS_OBJ_ID args, unsigned i)
{
    if (i >= KOS_get_array_size(args)) return 0;
    KOS_OBJ_ID o = KOS_array_read(ctx, args, (int)i);
    if (IS_BAD_PTR(o)) { KOS_clear_exception(ctx); return 0; }
    if (IS_SMALL_INT(o)) return GET_SMALL_INT(o);
    if (GET_OBJ_TYPE(o) == OBJ_INTEGER) return OBJPTR(INTEGER, o)->value;
    if (o == KOS_VOID) return -1000001;
    if (o == KOS_TRUE) return 1;
    if (o == KOS_FALSE) return 0;
    return -1000002;
}
static KOS_OBJ_ID s_tick(KOS_CONTEXT, KOS_OBJ_ID, KOS_OBJ_ID) { return TO_SMALL_INT((int64_t)tick()); }
static KOS_OBJ_ID s_rec(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    Rec r{tick(), self(), arg_int(ctx, args, 0), arg_int(ctx, args, 1), arg_int(ctx, args, 2), arg_int(ctx, args, 3)};
    if (recs) recs->push_back(r);
    event_hash((uint64_t)(r.code * 131 + r.a * 31 + r.b));
    res->ops++;
    trace("rec t%d %ld %ld %ld", r.tid, (long)r.code, (long)r.a, (long)r.b);
    return KOS_VOID;
}
static KOS_OBJ_ID s_nap(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    const int64_t n = arg_int(ctx, args, 0);
    KOS_suspend_context(ctx);
    sleep_ns((uint64_t)(n > 0 ? n : 0));
    if (KOS_resume_context(ctx)) return KOS_BADPTR;
    return KOS_VOID;
}
static KOS_OBJ_ID s_poke(KOS_CONTEXT, KOS_OBJ_ID, KOS_OBJ_ID) { gc_poke(); res->faults[F_GC_PRESSURE]++; return KOS_VOID; }
static KOS_OBJ_ID s_collect(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID) { return KOS_collect_garbage(ctx, nullptr) ? KOS_BADPTR : KOS_VOID; }
static KOS_OBJ_ID s_fault(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args) { if (arg_int(ctx, args, 0)) resume_faults(); else end_faults(); return KOS_VOID; }
static KOS_OBJ_ID s_safe(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args) { spare_thread(arg_int(ctx, args, 0) != 0); return KOS_VOID; }
static KOS_OBJ_ID s_kill(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args) { return KOS_BOOL(kill_child((int)arg_int(ctx, args, 0), (int)arg_int(ctx, args, 1))); }
static KOS_OBJ_ID s_done(KOS_CONTEXT, KOS_OBJ_ID, KOS_OBJ_ID) { script_flag = true; return KOS_VOID; }
static KOS_OBJ_ID s_flag(KOS_CONTEXT, KOS_OBJ_ID, KOS_OBJ_ID) { return KOS_BOOL(script_flag); }
static KOS_OBJ_ID s_room(KOS_CONTEXT, KOS_OBJ_ID, KOS_OBJ_ID) { return KOS_BOOL(sim_threads() < 200); }
static KOS_OBJ_ID s_note(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    if (!notes) return KOS_VOID;
    KOS_OBJ_ID o = KOS_array_read(ctx, args, 0);
    if (IS_BAD_PTR(o)) return o;
    suppress_faults();
    std::string v = to_str(ctx, o);
    unsuppress_faults();
    trace("note t%d %.300s", self(), v.c_str());
    notes->push_back(v);
    return KOS_VOID;
}
static KOS_OBJ_ID s_data(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    Blob b{tick(), now_ns(), self(), arg_int(ctx, args, 0), (int)arg_int(ctx, args, 1), ""};
    KOS_OBJ_ID o = KOS_array_read(ctx, args, 2);
    if (IS_BAD_PTR(o)) return o;
    if (GET_OBJ_TYPE(o) == OBJ_BUFFER) {
        if (KOS_get_buffer_size(o)) b.data.assign((const char *)KOS_buffer_data_const(o), KOS_get_buffer_size(o));
    } else if (GET_OBJ_TYPE(o) == OBJ_STRING) {
        suppress_faults();
        KOS_VECTOR v;
        KOS_vector_init(&v);
        if (!KOS_string_to_cstr_vec(ctx, o, &v)) b.data.assign(v.buffer, v.size ? v.size - 1 : 0);
        KOS_vector_destroy(&v);
        unsuppress_faults();
    } else b.data = std::to_string(arg_int(ctx, args, 2));
    uint64_t h = b.id * 16 + b.tag;
    for (char c : b.data) h = h * 31 + (uint8_t)c;
    event_hash(h);
    res->ops++;
    trace("data t%d #%ld %d (%zu bytes) %s", b.tid, (long)b.id, b.tag, b.data.size(), printable(b.data, 60).c_str());
    if (blobs) blobs->push_back(b);
    return KOS_VOID;
}
static KOS_OBJ_ID s_blob(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    const std::string &s = (*blob_table)[(size_t)arg_int(ctx, args, 0)];
    KOS_OBJ_ID b = KOS_new_buffer(ctx, (unsigned)s.size());
    if (IS_BAD_PTR(b) || s.empty()) return b;
    KOS_LOCAL l;
    KOS_init_local_with(ctx, &l, b);
    uint8_t *d = KOS_buffer_data_volatile(ctx, l.o);
    if (d) memcpy(d, s.data(), s.size());
    b = KOS_destroy_top_local(ctx, &l);
    return d ? b : KOS_BADPTR;
}
static KOS_OBJ_ID s_text(KOS_CONTEXT ctx, KOS_OBJ_ID, KOS_OBJ_ID args)
{
    const std::string &s = (*blob_table)[(size_t)arg_int(ctx, args, 0)];
    return KOS_new_string(ctx, s.data(), (unsigned)s.size());
}
static int sim_module_init(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
{
    int error = KOS_SUCCESS;
    KOS_LOCAL module;
    KOS_init_local_with(ctx, &module, module_obj);
    TRY_ADD_FUNCTION(ctx, module.o, "tick", s_tick, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "rec", s_rec, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "nap", s_nap, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "poke", s_poke, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "collect", s_collect, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "note", s_note, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "flag", s_flag, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "done", s_done, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "room", s_room, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "fault", s_fault, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "safe", s_safe, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "kill", s_kill, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "data", s_data, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "blob", s_blob, KOS_NULL);
    TRY_ADD_FUNCTION(ctx, module.o, "text", s_text, KOS_NULL);
cleanup:
    KOS_destroy_top_local(ctx, &module);
    return error;
}

void setup_files() { setup_none(); }

int init_full_instance()
{
    if (!inst) inst = (KOS_INSTANCE *)sim_alloc(sizeof(KOS_INSTANCE), 64, false);
    return start_instance(inst, &mctx);
}
int start_instance(KOS_INSTANCE *inst, KOS_CONTEXT *pctx)
{
    int e = KOS_instance_init(inst, 0, pctx);
    if (e) return e;
    KOS_CONTEXT mctx = *pctx;
    if ((e = KOS_modules_init(mctx)) || (e = KOS_instance_add_path(mctx, "/kos/modules")) ||
        (e = KOS_instance_register_builtin(mctx, "sim", sim_module_init, 0))) {
        if (e == KOS_ERROR_EXCEPTION) {
            std::string s = exc_text(mctx);
            if (!exc_is_oom(s)) violation("instance:unexpected-exception", "initialisation raised: %s", s.c_str());
        }
        KOS_instance_destroy(inst);
        return e;
    }
    return 0;
}

void setup_script()
{
    setup_none();
    if (init_full_instance()) harness_error("cannot create the instance");
    std::string err;
    if (run_script(mctx, "", "import threads\nimport io\nimport os\nimport fs\nimport kos\nimport net\nimport random\nimport re\nimport math\nimport iter\nimport sim\n", &err))
        harness_error("cannot load modules: %s", err.c_str());
}

std::string run_main(const std::string &src, const char *name)
{
    std::string err;
    if (run_script(mctx, name, src, &err)) return err.empty() ? "<exception>" : err;
    return "";
}

static void run_smoke()
{
    recs = new std::vector<Rec>;
    begin_run();
    std::string e = run_main("import sim\nfun f(x) { return x * 2 }\nconst t = async f(21)\nsim.rec(1, t.wait(), sim.tick())\nprint(\"hello\")\n");
    if (!e.empty()) harness_error("smoke: %s", e.c_str());
    if (recs->size() != 1 || (*recs)[0].a != 42) harness_error("smoke: wrong records");
    flush_std();
    if (console_out() != "hello\n") harness_error("smoke: output '%s'", console_out().c_str());
    KOS_instance_destroy(inst);
}
SCENARIO("script_smoke", setup_script, run_smoke);
} // namespace kx
