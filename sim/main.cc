// Driver: batches of seeded runs, replay, minimisation.
#include "sim.h"
#include "kernel.h"
#include <cerrno>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
void start_main(thread_fn fn);
void prepare_spec();
extern bool in_child;
}
using namespace sim;

static int g_argc;
static char **g_argv;
static const Scenario *g_sc;
static bool quiet_child = true;

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

static void run_once(const RunSpec &sp)
{
    memset((void *)res, 0, offsetof(ResultShm, sw));
    res->nops = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        in_child = true;
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_sec = 30;
        setitimer(ITIMER_PROF, &it, nullptr);
        spec = sp;
        prepare_spec();
        g_sc->run();
        finish_ok();
    }
    if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && !res->status) {
        if (WTERMSIG(st) == SIGPROF) {
            snprintf(res->kind, sizeof res->kind, "liveness:cpu-limit");
            snprintf(res->msg, sizeof res->msg, "a simulated run did not finish within 30 s of CPU time");
            res->status = R_VIOLATION;
        } else {
            snprintf(res->kind, sizeof res->kind, "killed");
            snprintf(res->msg, sizeof res->msg, "run killed by signal %d", WTERMSIG(st));
            res->status = R_INCONCLUSIVE;
        }
    }
    if (!res->status) { snprintf(res->msg, sizeof res->msg, "run ended without a verdict (exit %d)", st); res->status = R_HARNESS; }
}

static std::string jesc(const char *s)
{
    std::string o;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static void write_spec(const char *file, const RunSpec &sp, const char *kind, const char *msg, const char *where, uint64_t hash)
{
    std::ofstream f(file);
    f << "scenario " << sp.scenario << "\nseed " << sp.seed << "\nmode " << (sp.replay ? "explicit" : "seed") << "\n";
    f << "kind " << kind << "\n";
    f << "hash " << hash << "\n";
    f << "where " << where << "\n";
    std::string m = msg; for (char &c : m) if (c == '\n') c = ' ';
    f << "message " << m << "\n";
    f << "drop"; for (auto d : sp.drop_ops) f << " " << d; f << "\n";
    if (sp.replay) {
        for (auto &s : sp.faults) f << "fault " << s.kind << " " << s.occ << " " << s.variant << " # " << fault_names[s.kind] << "\n";
        for (auto &s : sp.switches) f << "switch " << s.step << " " << s.tid << "\n";
    }
    f << "end\n";
}
struct SpecFile { RunSpec sp; std::string kind; uint64_t hash = 0; bool ok = false; };
static SpecFile read_spec(const char *file)
{
    SpecFile r;
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line)) {
        if (!line.empty() && line[0] == '#') continue;
        std::istringstream is(line); std::string k; is >> k;
        if (k == "scenario") is >> r.sp.scenario;
        else if (k == "seed") is >> r.sp.seed;
        else if (k == "mode") { std::string m; is >> m; r.sp.replay = m == "explicit"; }
        else if (k == "kind") { r.kind = line.size() > 5 ? line.substr(5) : ""; }
        else if (k == "hash") is >> r.hash;
        else if (k == "drop") { uint32_t d; while (is >> d) r.sp.drop_ops.push_back(d); }
        else if (k == "fault") { FaultDec d; is >> d.kind >> d.occ >> d.variant; r.sp.faults.push_back(d); }
        else if (k == "switch") { SwitchDec d; is >> d.step >> d.tid; r.sp.switches.push_back(d); }
        else if (k == "end") r.ok = true;
    }
    return r;
}

static void select_scenario(const std::string &n)
{
    for (auto &s : scenarios()) if (n == s.name) g_sc = &s;
    if (!g_sc) { fprintf(stderr, "no scenario %s\n", n.c_str()); _exit(3); }
}

static bool same_violation(const std::string &kind) { return res->status == R_VIOLATION && kind == res->kind; }

static int cmd_batch()
{
    // batch scenario base start count out maxviol timelimit
    const char *scen = g_argv[2];
    const uint64_t base = strtoull(g_argv[3], 0, 0);
    const uint64_t start = strtoull(g_argv[4], 0, 0), count = strtoull(g_argv[5], 0, 0);
    const char *out = g_argv[6];
    const int maxv = atoi(g_argv[7]);
    const double limit = atof(g_argv[8]);
    const double t0 = wall();
    std::ofstream jf(out);
    std::ofstream hf((std::string(out) + ".hash").c_str(), std::ios::binary);
    uint64_t runs = 0, steps = 0, sws = 0, simns = 0, ops = 0, gcs = 0, incon = 0, viol = 0, harness = 0, dets = 0, nontriv = 0;
    uint64_t faults[F_COUNT] = {0}, opps[F_COUNT] = {0}, cust[8] = {0};
    bool timed = false;
    for (uint64_t i = 0; i < count; i++) {
        if (limit > 0 && wall() - t0 > limit) { timed = true; break; }
        RunSpec sp;
        sp.scenario = scen;
        sp.seed = mix(base ^ hash_str(scen), start + i);
        run_once(sp);
        runs++; steps += res->steps; sws += res->switches; simns += res->sim_ns; ops += res->ops; gcs += res->gcs;
        bool anyf = false;
        for (int k = 0; k < F_COUNT; k++) { faults[k] += res->faults[k]; opps[k] += res->fault_opps[k]; anyf |= res->faults[k] != 0; }
        for (int k = 0; k < 8; k++) cust[k] += res->custom[k];
        const bool nt = res->ops > 0 && (res->switches > 1 || anyf || res->gcs);
        nontriv += nt;
        if (nt) { uint64_t h = res->inter_hash; hf.write((const char *)&h, 8); }
        if (i < 2)
            jf << "{\"sample\":1,\"seed\":" << sp.seed << ",\"steps\":" << res->steps << ",\"switches\":" << res->switches << ",\"ops\":" << res->ops << ",\"faults\":" << res->nfault << ",\"trace_hash\":\"" << std::hex << res->trace_hash << std::dec << "\"}\n";
        const int st = res->status;
        if (st == R_PASS && i % 97 == 5) {
            const uint64_t h = res->trace_hash, s0 = res->steps;
            run_once(sp);
            dets++;
            if (res->status != R_PASS || res->trace_hash != h || res->steps != s0) {
                jf << "{\"harness\":1,\"seed\":" << sp.seed << ",\"msg\":\"non-deterministic run: " << s0 << " vs " << res->steps << " " << jesc(res->msg) << "\"}\n";
                harness++;
            }
        }
        if (st == R_HARNESS) { jf << "{\"harness\":1,\"seed\":" << sp.seed << ",\"msg\":\"" << jesc(res->msg) << "\",\"where\":\"" << jesc(res->where) << "\"}\n"; harness++; if (harness > 3) break; }
        if (st == R_INCONCLUSIVE) { incon++; jf << "{\"inconclusive\":1,\"seed\":" << sp.seed << ",\"msg\":\"" << jesc(res->msg) << "\"}\n"; }
        if (st == R_VIOLATION) {
            viol++;
            jf << "{\"violation\":1,\"seed\":" << sp.seed << ",\"index\":" << start + i << ",\"kind\":\"" << jesc(res->kind) << "\",\"msg\":\"" << jesc(res->msg) << "\",\"where\":\"" << jesc(res->where) << "\",\"steps\":" << res->steps << ",\"hash\":" << res->trace_hash << "}\n";
            if ((int)viol >= maxv) break;
        }
    }
    jf << "{\"summary\":1,\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << sws << ",\"sim_ns\":" << simns << ",\"ops\":" << ops << ",\"gcs\":" << gcs
       << ",\"inconclusive\":" << incon << ",\"violations\":" << viol << ",\"harness\":" << harness << ",\"determinism_rechecks\":" << dets << ",\"nontrivial\":" << nontriv
       << ",\"timed_out\":" << (timed ? 1 : 0) << ",\"wall\":" << wall() - t0 << ",\"faults\":{";
    bool first = true;
    for (int k = 0; k < F_COUNT; k++) if (opps[k] || faults[k]) { jf << (first ? "" : ",") << "\"" << fault_names[k] << "\":[" << faults[k] << "," << opps[k] << "]"; first = false; }
    jf << "},\"custom\":[";
    for (int k = 0; k < 8; k++) jf << (k ? "," : "") << cust[k];
    jf << "]}\n";
    return 0;
}

static void print_result()
{
    printf("status %s\nkind %s\nmessage %s\nwhere %s\nsteps %" PRIu64 " switches %" PRIu64 " ops %" PRIu64 " gcs %" PRIu64 " hash %" PRIx64 " custom %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 "\n",
           res->status == R_PASS ? "ok" : res->status == R_VIOLATION ? "violation" : res->status == R_HARNESS ? "harness" : "inconclusive",
           res->kind, res->msg, res->where, res->steps, res->switches, res->ops, res->gcs, res->trace_hash, res->custom[0], res->custom[1], res->custom[2], res->custom[3]);
    for (int k = 0; k < F_COUNT; k++) if (res->faults[k]) printf("  fault %s %" PRIu64 "/%" PRIu64 "\n", fault_names[k], res->faults[k], res->fault_opps[k]);
    fflush(stdout);
}

static void take(RunSpec &sp)
{
    sp.replay = true;
    sp.switches.assign(res->sw, res->sw + res->nswitch);
    sp.faults.assign(res->fl, res->fl + res->nfault);
}

template <class T> static bool ddmin(std::vector<T> &v, RunSpec &sp, std::vector<T> RunSpec::*field, const std::string &kind, double deadline)
{
    size_t n = 2;
    bool changed = false;
    {
        RunSpec t = sp; (t.*field).clear();
        run_once(t);
        if (same_violation(kind)) { v.clear(); sp = t; return true; }
    }
    while (v.size() >= 1 && wall() < deadline) {
        const size_t chunk = (v.size() + n - 1) / n;
        bool red = false;
        for (size_t i = 0; i < v.size() && wall() < deadline; i += chunk) {
            std::vector<T> t;
            for (size_t j = 0; j < v.size(); j++) if (j < i || j >= i + chunk) t.push_back(v[j]);
            RunSpec ts = sp; ts.*field = t;
            run_once(ts);
            if (same_violation(kind)) { v = t; sp = ts; red = changed = true; if (n > 2) n--; break; }
        }
        if (!red) { if (chunk <= 1) break; n = std::min(n * 2, v.size()); }
    }
    return changed;
}

static int cmd_min()
{
    // min specfile out seconds
    SpecFile in = read_spec(g_argv[2]);
    const double deadline = wall() + atof(g_argv[4]);
    RunSpec sp = in.sp;
    run_once(sp);
    if (res->status != R_VIOLATION) { printf("NOTREPRODUCED %s\n", res->msg); return 2; }
    std::string kind = res->kind;
    uint64_t h1 = res->trace_hash;
    run_once(sp);
    if (!same_violation(kind) || res->trace_hash != h1) { printf("NONDETERMINISTIC\n"); return 2; }
    // phase 1: drop workload operations (schedule still from the seed)
    if (!sp.replay && res->nops > 0 && res->nops < 5000 && kind != "liveness:cpu-limit") {
        std::set<uint32_t> keep;
        for (uint32_t i = 0; i < res->nops; i++) keep.insert(i);
        const uint32_t total = res->nops;
        const double dl1 = wall() + (deadline - wall()) * 0.5;
        for (size_t chunk = keep.size() / 2; chunk >= 1 && wall() < dl1; chunk /= 2) {
            std::vector<uint32_t> kv(keep.begin(), keep.end());
            for (size_t i = 0; i < kv.size() && wall() < dl1; i += chunk) {
                std::set<uint32_t> t = keep;
                for (size_t j = i; j < kv.size() && j < i + chunk; j++) t.erase(kv[j]);
                RunSpec ts = sp; ts.drop_ops.clear();
                for (uint32_t k = 0; k < total; k++) if (!t.count(k)) ts.drop_ops.push_back(k);
                run_once(ts);
                if (same_violation(kind)) { keep = t; sp = ts; }
            }
        }
    }
    run_once(sp);
    if (!same_violation(kind)) { printf("NONDETERMINISTIC\n"); return 2; }
    RunSpec seedsp = sp;
    uint64_t seedhash = res->trace_hash;
    std::string msg = res->msg, where = res->where;
    bool expl = false;
    if (!res->overflow && kind != "liveness:cpu-limit") {
        RunSpec ex = sp;
        take(ex);
        run_once(ex);
        if (same_violation(kind)) {
            expl = true;
            ddmin(ex.faults, ex, &RunSpec::faults, kind, deadline);
            ddmin(ex.switches, ex, &RunSpec::switches, kind, deadline);
            run_once(ex);
            if (same_violation(kind)) {
                uint64_t h = res->trace_hash;
                std::string m2 = res->msg, w2 = res->where;
                run_once(ex);
                if (same_violation(kind) && res->trace_hash == h) write_spec(g_argv[3], ex, kind.c_str(), m2.c_str(), w2.c_str(), h);
                else expl = false;
            } else expl = false;
        }
    }
    if (!expl) write_spec(g_argv[3], seedsp, kind.c_str(), msg.c_str(), where.c_str(), seedhash);
    printf("MINIMISED %s\n", expl ? "explicit" : "seed");
    return 0;
}

static int cmd_replay()
{
    SpecFile in = read_spec(g_argv[2]);
    if (!in.ok) { fprintf(stderr, "bad replay file\n"); return 3; }
    if (g_argc > 3 && !strcmp(g_argv[3], "--trace")) tracing = true;
    run_once(in.sp);
    print_result();
    if (res->status == R_VIOLATION && in.kind == res->kind && (!in.hash || in.hash == res->trace_hash)) { printf("REPRODUCED\n"); return 1; }
    printf("NOT-REPRODUCED (expected kind=%s hash=%" PRIu64 ")\n", in.kind.c_str(), in.hash);
    return res->status == R_PASS ? 0 : 2;
}

static int cmd_one()
{
    RunSpec sp;
    sp.scenario = g_argv[2];
    sp.seed = strtoull(g_argv[3], 0, 0);
    if (g_argc > 4 && !strcmp(g_argv[4], "--trace")) tracing = true;
    run_once(sp);
    print_result();
    return res->status == R_PASS ? 0 : 1;
}
static int cmd_spec()
{
    RunSpec sp; sp.scenario = g_argv[2]; sp.seed = strtoull(g_argv[3], 0, 0);
    run_once(sp);
    write_spec(g_argv[4], sp, res->kind, res->msg, res->where, res->trace_hash);
    return 0;
}

static void *driver(void *)
{
    std::string cmd = g_argv[1], scen;
    if (cmd == "replay" || cmd == "min") scen = read_spec(g_argv[2]).sp.scenario; else scen = g_argv[2];
    select_scenario(scen);
    memset((void *)res, 0, offsetof(ResultShm, sw));
    if (g_sc->setup) g_sc->setup();
    if (res->status) { fprintf(stderr, "setup failed: %s %s %s\n", res->kind, res->msg, res->where); _exit(3); }
    int r = 3;
    if (cmd == "batch") r = cmd_batch();
    else if (cmd == "one") r = cmd_one();
    else if (cmd == "spec") r = cmd_spec();
    else if (cmd == "replay") r = cmd_replay();
    else if (cmd == "min") r = cmd_min();
    fflush(stdout);
    _exit(r);
}

static void on_exit_report()
{
}

int main(int argc, char **argv)
{
    g_argc = argc; g_argv = argv;
    if (argc < 2) return 3;
    if (!strcmp(argv[1], "list")) { for (auto &s : scenarios()) printf("%s\n", s.name); return 0; }
    if (argc < 3) return 3;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    res = (ResultShm *)mmap(nullptr, sizeof(ResultShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (res == MAP_FAILED) return 3;
    memset((void *)res, 0, offsetof(ResultShm, sw));
    mem_init();
    kernel_init();
    (void)on_exit_report; (void)quiet_child;
    start_main(driver);
    return 3;
}
