// Helpers shared by the scenarios: Kos instance life cycle, contexts, injector, linearizability.
#pragma once
#include "sim.h"
#include "kernel.h"
#include "inc/kos.h"
#include "inc/kos_modules_init.h"
#include "inc/kos_memory.h"
#include "inc/kos_malloc.h"
#include "inc/kos_utils.h"
#include "inc/kos_constants.h"
#include "inc/kos_system.h"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {
std::string sync_leaks();
int live_kos_threads();
int started_kos_threads();
void mark_harness_thread(int tid);
void advance_clock(int64_t ns);
}

namespace kx {
using namespace sim;

extern KOS_INSTANCE *inst;
extern KOS_CONTEXT   mctx;          // main thread context

// instance life cycle
void make_instance(uint32_t flags = 0, bool modules = true);
void load_base();                   // loads base module (through the real compiler)
void setup_bare();                  // instance without modules
void setup_full();                  // instance, modules registered, base loaded
void setup_none();                  // nothing (the run creates the instance)
void destroy_instance();

// exception helpers
std::string exc_text(KOS_CONTEXT ctx);      // text of the pending exception; clears it
bool exc_is_oom(const std::string &s);
std::string to_str(KOS_CONTEXT ctx, KOS_OBJ_ID o);

// worker threads with a registered Kos context
int  start_worker(const std::function<void(KOS_CONTEXT)> &fn, const char *name = "worker");
void join_workers(KOS_CONTEXT ctx, const std::vector<int> &tids);   // suspends ctx while waiting

// GC pressure: makes the next allocation of a page collect garbage
void gc_poke();
void set_heap_limit(uint32_t bytes);
uint32_t heap_limit();
void set_malloc_limit(uint32_t bytes);      // off-heap limit
uint32_t heap_free_bytes();                // heap memory not in use (0 = unknown)
uint32_t gc_count();
// background injector: runs on its own simulated thread, decides when to poke
void start_gc_injector(unsigned n_events, unsigned mean_gap_steps);
void stop_injector();

// scripts
int run_script(KOS_CONTEXT ctx, const char *name, const std::string &src, std::string *err, bool import_base = true);  // 0 = ok

// Module "sim" for scripts: tick(), rec(code, a, b), nap(ns), poke(), fault(on)
struct Rec { uint64_t t; int tid; int64_t code, a, b, c; };
extern std::vector<Rec> *recs;
extern std::vector<std::string> *notes;   // what sim.note() was given
struct Blob { uint64_t t; uint64_t ns; int tid; int64_t id; int tag; std::string data; };
extern std::vector<Blob> *blobs;                  // what sim.data(id, tag, value) was given
extern std::vector<std::string> *blob_table;      // what sim.blob(i) (buffer) and sim.text(i) (string) return
std::string printable(const std::string &s, size_t max = 80);
extern bool script_flag;           // what sim.flag() returns
void setup_script();                // full instance, "sim" registered, modules threads, io, os, ... preloaded
void setup_files();                 // only the module files (the run creates the instance)
int  init_full_instance();          // creates an instance the way the interpreter does; returns an error code
int  start_instance(KOS_INSTANCE *in, KOS_CONTEXT *ctx);   // the same for any instance
std::string run_main(const std::string &src, const char *name = "main"); // runs, "" = ok, else exception text

// leak oracle: everything allocated after `epoch` must be free after the instance is destroyed
void check_all_released(uint64_t epoch, const char *when);

// random standard knobs
void knobs_concurrency(bool plain);

// ---------------------------------------------------------------- linearizability (per key, WGL)
struct LOp {
    int tid;
    int op;                  // meaning private to the model
    int64_t a, b;            // arguments
    int64_t ret;             // result
    uint64_t inv, resp;      // simulator event sequence numbers
    bool maybe = false;      // failed operation which may or may not have taken effect
};
// model: apply(state, op) -> new state or fail (returns false)
typedef std::function<bool(std::vector<int64_t> &state, const LOp &op)> Model;
bool linearizable(const std::vector<LOp> &h, const std::vector<int64_t> &init, const Model &m, size_t *explored = nullptr);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t tick();             // unique event sequence number
std::string dump(const std::vector<LOp> &h, const std::function<std::string(const LOp &)> &f);

} // namespace kx
